// Single calls of the geometric building blocks; every call is a step of its own.
use crate::*;
use nlsn_delaunay::elements::bounding_box::*;
use nlsn_delaunay::planar::refine_procedures::encroachment::distribute_encroachments;
use nlsn_delaunay::properties::{
    angle::*, area::*, circumcenter::*, continence::*, distance::*, dot::*, encroachment::*, intersection::*, midpoint::*,
    orientation::*, parallel::*,
};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

fn side(c: &Continence) -> Value {
    json!(match c {
        Continence::Inside => 1,
        Continence::Boundary => 0,
        Continence::Outside => -1,
    })
}
fn turn(o: &Orientation) -> Value {
    json!(match o {
        Orientation::Counterclockwise => 1,
        Orientation::Colinear => 0,
        Orientation::Clockwise => -1,
    })
}
fn real(x: f64) -> Value {
    json!(format!("{:?}", x + 0.0))
}
fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// A list of points; null is the ghost vertex.
fn verts(v: &Value) -> Vec<Rc<Vertex>> {
    v.as_array().unwrap().iter().map(vert).collect()
}
pub fn vert(v: &Value) -> Rc<Vertex> {
    if v.is_null() {
        Rc::new(Vertex::new_ghost())
    } else {
        pt(v)
    }
}
pub fn triangle(v: &Value) -> Rc<Triangle> {
    Rc::new(Triangle::new(&vert(&v[0]), &vert(&v[1]), &vert(&v[2])))
}
pub fn triangles(v: &Value) -> HashSet<Rc<Triangle>> {
    v.as_array().unwrap().iter().map(triangle).collect()
}
pub fn edge(v: &Value) -> Rc<Edge> {
    Rc::new(Edge::new(&vert(&v[0]), &vert(&v[1])))
}
pub fn edge_set(v: &Value) -> HashSet<Rc<Edge>> {
    v.as_array().unwrap().iter().map(edge).collect()
}
/// {"o": opened?, "v": points}
fn polyline(v: &Value) -> Rc<Polyline> {
    Rc::new(if v["o"].as_bool().unwrap() { Polyline::new_opened(verts(&v["v"])) } else { Polyline::new_closed(verts(&v["v"])) }.unwrap())
}
fn bbox(v: &Value) -> BoundingBox {
    BoundingBox::from_vertices(verts(v)).unwrap()
}
fn opt<T>(x: Option<T>, f: impl FnOnce(T) -> Value) -> Value {
    match x {
        None => json!([]),
        Some(x) => json!([f(x)]),
    }
}

/// Replaces the coordinates of an argument by identifiers.
fn ids(p: &mut Pts, v: &Value) -> Value {
    match v {
        Value::Null => json!(0),
        Value::Array(a) if a.len() == 2 && a.iter().all(|x| x.is_number() || x.is_string()) => json!(p.id(&pt(v))),
        Value::Array(a) => json!(a.iter().map(|x| ids(p, x)).collect::<Vec<_>>()),
        Value::Object(o) => json!({"o": o["o"], "v": ids(p, &o["v"])}),
        _ => v.clone(),
    }
}

fn pairs(p: &mut Pts, v: &Vec<(Rc<Vertex>, Rc<Vertex>)>) -> Value {
    json!(v.iter().map(|(a, b)| json!([p.id(a), p.id(b)])).collect::<Vec<_>>())
}
fn pair_set(p: &mut Pts, v: &HashSet<(Rc<Vertex>, Rc<Vertex>)>) -> Value {
    pairs(p, &v.iter().cloned().collect())
}
fn poly(p: &mut Pts, l: &Polyline) -> Value {
    json!({"o": l.opened, "v": p.ids(l.vertices.iter())})
}
fn boxed(p: &mut Pts, b: &BoundingBox) -> Value {
    json!([p.id(&b.origin), p.id(&b.destin)])
}
fn multimap(p: &mut Pts, m: &HashMap<Rc<Vertex>, std::cell::RefCell<HashSet<Rc<Vertex>>>>) -> Value {
    json!(m.iter().map(|(k, s)| json!([p.id(k), p.ids(s.borrow().iter())])).collect::<Vec<_>>())
}

fn call(op: &str, a: &Value, p: &mut Pts) -> Value {
    let v = |i: usize| vert(&a[i]);
    match op {
        "orient" => turn(&orientation(&v(0), &v(1), &v(2))),
        "incircle" => side(&continence(&v(0), &v(1), &v(2), &v(3))),
        "encircles" => side(&triangle(a).encircles(&v(3))),
        "encroach" => json!([side(&encroach(&v(0), &v(1), &v(2))), side(&Edge::new(&v(0), &v(1)).encroach(&v(2)))]),
        "parallel" => json!(parallel(&v(0), &v(1), &v(2), &v(3))),
        "isect" => opt(intersection(&v(0), &v(1), &v(2), &v(3)), |x| json!(p.id(&x))),
        "mid" => {
            let x = p.id(&midpoint(&v(0), &v(1)));
            if a[0].is_null() || a[1].is_null() {
                return json!([x]);
            }
            json!([x, p.id(&Edge::new(&v(0), &v(1)).midpoint())])
        }
        "dot" => real(dot(&v(0), &v(1), &v(2), &v(3))),
        "dist" => json!([real(distance(&v(0), &v(1))), real(Edge::new(&v(0), &v(1)).length())]),
        "ccenter" => opt(circumcenter(&v(0), &v(1), &v(2)), |x| json!(p.id(&x))),
        "area" => real(area_triangle(&v(0), &v(1), &v(2))),
        "areas" => real(area_segments(&vertex_pairs(&verts(a), false))),
        "sorient" => turn(&segments_orientation(&vertex_pairs(&verts(a), false))),
        "angle" => {
            let t = angle(&v(0), &v(1), &v(2)).unwrap();
            json!([real(t), real(t.cos()), turn_of(t)])
        }
        "triangle" => {
            let t = triangle(a);
            let (e1, e2, e3) = t.inner_edges();
            let (o1, o2, o3) = t.outer_edges();
            let apex = [&e1, &e2, &e3].map(|e| opt(t.opposite_vertex(e), |x| json!(p.id(&x))));
            let base = [&t.v1, &t.v2, &t.v3].map(|w| opt(t.opposite_edge(w), |x| p.edge(&x)));
            json!({
                "ghost": t.is_ghost(),
                "area": opt(t.area(), real),
                "quality": opt(t.quality(), real),
                "ccenter": opt(t.circumcenter(), |x| json!(p.id(&x))),
                "center": p.id(&t.center()),
                "inner": p.edges([e1.clone(), e2.clone(), e3.clone()].iter()),
                "outer": p.edges([o1, o2, o3].iter()),
                "apex": apex,
                "noapex": opt(t.opposite_vertex(&Rc::new(e1.opposite())), |x| json!(p.id(&x))),
                "base": base,
                "poly": opt(t.as_polyline(), |x| poly(p, &x)),
            })
        }
        "econtains" => json!(Edge::new(&v(0), &v(1)).contains(&v(2))),
        "pcontains" => opt(polyline(&a[0]).contains(&v(1)), |c| side(&c)),
        "continence" => opt(Polyline::continence(&polyline(&a[0]), &polyline(&a[1])), |(c, b)| {
            json!([side(&c), if b == BoundaryInclusion::Closed { 1 } else { 0 }])
        }),
        "union" => match Polyline::union(&polyline(&a[0]), &polyline(&a[1])) {
            None => json!({"loops": [], "unused": []}),
            Some((l, u)) => json!({"loops": [poly(p, &l)], "unused": pair_set(p, &u)}),
        },
        "inter" => {
            let (l, u) = Polyline::intersection(&polyline(&a[0]), &polyline(&a[1]));
            json!({"loops": l.iter().map(|l| poly(p, l)).collect::<Vec<_>>(), "unused": pair_set(p, &u)})
        }
        "minus" => {
            let (l, u) = Polyline::subtraction(&polyline(&a[0]), &polyline(&a[1]));
            json!({"loops": l.iter().map(|l| poly(p, l)).collect::<Vec<_>>(), "unused": pair_set(p, &u)})
        }
        "split" => {
            let s = a.as_array().unwrap().iter().map(|e| (vert(&e[0]), vert(&e[1]))).collect();
            pairs(p, &split_intersections(&s))
        }
        "ivs" => p.ids(Polyline::intersection_vertices(&polyline(&a[0]), &polyline(&a[1])).iter()),
        "arrange" => opt(Polyline::arrange(&edge_set(a)), |l| poly(p, &l)),
        "hull" => opt(Polyline::triangles_hull(&triangles(a)), |l| poly(p, &l)),
        "minify" => poly(p, &polyline(&a[0]).minified_noncolinear()),
        "earrange" => p.edges(Edge::arrange(&edge_set(a)).iter()),
        "decompose" => opt(Edge::decompose(&edge_set(&a[0]), &edge(&a[1])), |l| p.edges(l.iter())),
        "hashmap" => {
            let (h, t) = Edge::into_hashmap(&edge_set(a));
            json!([multimap(p, &h), multimap(p, &t)])
        }
        "polyline" => {
            let l = polyline(&a[0]);
            let b = l.bounding_box().unwrap();
            json!({
                "pairs": pairs(p, &vertex_pairs(&l.vertices, l.opened)),
                "edges": p.edges(l.into_edges().iter()),
                "head": opt(l.head(), |x| json!(p.id(&x))),
                "tail": opt(l.tail(), |x| json!(p.id(&x))),
                "box": boxed(p, &b),
                "round": pairs(p, &Edge::into_vertex_pairs(Edge::from_vertex_pairs(vertex_pairs(&l.vertices, l.opened)))),
                "loop": p.edges(Edge::from_vertices(&l.vertices).iter()),
                "coords": p.edges(Edge::from_coordinates(&l.vertices.iter().map(|v| vec![v.x, v.y]).flatten().collect()).iter()),
            })
        }
        "make" => json!([
            opt(Polyline::new_closed(verts(a)), |l| poly(p, &l)),
            opt(Polyline::new_opened(verts(a)), |l| poly(p, &l)),
            if a.as_array().unwrap().len() == 2 { opt(Edge::new(&v(0), &v(1)).as_polyline(), |l| poly(p, &l)) } else { json!([]) }
        ]),
        "edge" => json!([p.edge(&Edge::new(&v(0), &v(1)).opposite())]),
        "veq" => json!({
            "eq": v(0) == v(1),
            "hash": hash(&v(0)) == hash(&v(1)),
            "cmp": v(0).cmp(&v(1)) as i8,
            "pcmp": v(0).partial_cmp(&v(1)).map(|o| o as i8),
        }),
        "eeq" => json!({"eq": edge(&a[0]) == edge(&a[1]), "hash": hash(&edge(&a[0])) == hash(&edge(&a[1]))}),
        "teq" => json!({"eq": triangle(&a[0]) == triangle(&a[1]), "hash": hash(&triangle(&a[0])) == hash(&triangle(&a[1]))}),
        "peq" => json!({"eq": polyline(&a[0]) == polyline(&a[1]), "hash": hash(&polyline(&a[0])) == hash(&polyline(&a[1]))}),
        "sort" => {
            let mut l = verts(a);
            Vertex::sort(&mut l);
            p.ids(l.iter())
        }
        "bbox" => opt(BoundingBox::from_vertices(verts(a)), |b| boxed(p, &b)),
        "bcontains" => json!(bbox(&a[0]).contains(&v(1))),
        "binter" => opt(BoundingBox::intersection(&bbox(&a[0]), &bbox(&a[1])), |b| boxed(p, &b)),
        "bunion" => boxed(p, &BoundingBox::union(&bbox(&a[0]), bbox(&a[1]))),
        "bunions" => opt(BoundingBox::union_list(a.as_array().unwrap().iter().map(bbox).collect()), |b| boxed(p, &b)),
        "beq" => json!(bbox(&a[0]) == bbox(&a[1])),
        "encs" => {
            let mut m = HashMap::new();
            distribute_encroachments(&edge_set(&a[0]), &verts(&a[1]).into_iter().collect(), &mut m);
            json!(m.iter().map(|(e, w)| json!([p.edge(e), p.ids(w.iter())])).collect::<Vec<_>>())
        }
        o => show::call(o, a, p),
    }
}

/// 1: in (0, pi), -1: in (pi, 2 pi), 0: a multiple of pi, 2: none of these
fn turn_of(t: f64) -> Value {
    let pi = std::f64::consts::PI;
    json!(if !(t >= 0.0 && t <= 2.0 * pi) {
        2
    } else if t < 1e-7 || (t - pi).abs() < 1e-7 || t > 2.0 * pi - 1e-7 {
        0
    } else if t < pi {
        1
    } else {
        -1
    })
}

pub fn run(case: &Value) {
    let mut p = Pts::new();
    let fatal = case["fatal"].as_u64();
    for (i, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        let name = op[0].as_str().unwrap();
        begin(json!({"op": name, "arg": ids(&mut p, &op[1])}));
        if Some(i as u64) == fatal {
            panic!("the process died in this step");
        }
        // a panic ends the step only: the steps don't depend on each other
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(name, &op[1], &mut p)));
        match r {
            Ok(r) => done("ok", json!({ "out": r })),
            Err(_) => done("panic", json!({})),
        }
    }
}
