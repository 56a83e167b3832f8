// The triangulation as a container, and the procedures that build and refine it, step by step.
use crate::*;
use nlsn_delaunay::planar::refine_params::*;
use nlsn_delaunay::planar::refine_procedures::{encroachment, triangle_split};
use nlsn_delaunay::planar::triangulation::*;
use nlsn_delaunay::planar::triangulation_procedures::{boundary, hole, segment, vertices};
use std::collections::HashSet;

fn state(t: &Triangulation, p: &mut Pts) -> Value {
    json!({ "tris": p.tris(t.triangles.iter()), "adj": p.adj(&t.adjacency) })
}

fn with(mut a: Value, b: Value) -> Value {
    for (k, v) in b.as_object().unwrap() {
        a[k] = v.clone();
    }
    a
}

fn split_map(p: &mut Pts, m: &HashMap<Rc<Edge>, Rc<Edge>>) -> Value {
    json!(m.iter().map(|(e, f)| json!([p.edge(e), p.edge(f)])).collect::<Vec<_>>())
}

/// The constraints after the reported splits.
fn replace(cons: &mut HashSet<Rc<Edge>>, m: &HashMap<Rc<Edge>, Rc<Edge>>) {
    let old: HashSet<Rc<Edge>> = m.values().flat_map(|e| vec![Rc::clone(e), Rc::new(e.opposite())]).collect();
    cons.retain(|e| !old.contains(e));
    cons.extend(m.keys().cloned());
}

pub fn run(case: &Value) {
    let mut p = Pts::new();
    let mut t = Triangulation::new();
    let mut bnd: Option<Rc<Polyline>> = None;
    let mut holes: HashSet<Rc<Polyline>> = HashSet::new();
    let mut cons: HashSet<Rc<Edge>> = HashSet::new();
    let fatal = case["fatal"].as_u64();
    for (i, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        let a = &op[1];
        let name = op[0].as_str().unwrap();
        let arg = match name {
            "include" | "remove" => p.tri(&geom::triangle(a)),
            "initial" | "seg" => json!([p.id(&pt(&a[0])), p.id(&pt(&a[1]))]),
            "uns" => json!([[p.id(&pt(&a[0][0])), p.id(&pt(&a[0][1]))], p.ids(pts(&a[1]).iter())]),
            "split" => json!([a[0], if a[1].is_null() { json!([]) } else { json!([text(&a[1][0]), text(&a[1][1])]) }]),
            "unencroach" => json!([]),
            _ => p.ids(pts(a).iter()),
        };
        begin(json!({"op": name, "arg": arg}));
        if Some(i as u64) == fatal {
            panic!("the process died in this step");
        }
        let more = match name {
            // the container
            "include" => json!({ "out": t.include_triangle(&geom::triangle(a)) }),
            "remove" => json!({ "out": t.remove_triangle(&geom::triangle(a)) }),
            "initial" => {
                t = Triangulation::from_initial_segment((&pt(&a[0]), &pt(&a[1])));
                json!({})
            }
            // construction
            "free" | "verts" => {
                let (inc, rem) = vertices::include(&mut t, pts(a), &cons, &bnd, &holes);
                json!({ "inc": p.tris(inc.iter()), "rem": p.tris(rem.iter()) })
            }
            "bnd" => {
                let l = closed(a);
                t = Triangulation::from_initial_segment((&l.vertices[0], &l.vertices[1]));
                boundary::include(&mut t, &l, &HashSet::new());
                cons = l.into_edges().into_iter().collect();
                bnd = Some(l);
                holes.clear();
                json!({})
            }
            "hole" => {
                let h = closed(a);
                hole::include(&mut t, &h, &cons);
                cons.extend(h.into_edges());
                holes.insert(h);
                json!({})
            }
            "seg" => {
                let s = Rc::new(Edge::new(&pt(&a[0]), &pt(&a[1])));
                segment::include(&mut t, &s, &cons);
                cons.insert(s);
                json!({})
            }
            // refinement
            "unencroach" => {
                let (map, inc, rem) = encroachment::unencroach(&mut t, &cons, &bnd, &holes);
                replace(&mut cons, &map);
                json!({ "map": split_map(&mut p, &map), "inc": p.tris(inc.iter()), "rem": p.tris(rem.iter()) })
            }
            "uns" => {
                let s = Rc::new(Edge::new(&pt(&a[0][0]), &pt(&a[0][1])));
                let mut w: HashSet<Rc<Vertex>> = pts(&a[1]).into_iter().collect();
                let (new, inc, rem) = encroachment::unencroach_segment(&mut t, &s, &mut w, &cons, &bnd, &holes);
                replace(&mut cons, &new.iter().map(|e| (Rc::clone(e), Rc::clone(&s))).collect());
                json!({ "new": p.edges(new.iter()), "inc": p.tris(inc.iter()), "rem": p.tris(rem.iter()) })
            }
            "split" => {
                let params = RefineParams {
                    quality_ratio: num(&a[0][0]) / num(&a[0][1]),
                    max_area: if a[1].is_null() { None } else { Some(num(&a[1][0]) / num(&a[1][1])) },
                };
                let map = triangle_split::split_irregular(&mut t, &params, &cons, &bnd, &holes);
                replace(&mut cons, &map);
                json!({ "map": split_map(&mut p, &map) })
            }
            o => panic!("bad op {}", o),
        };
        let mut s = state(&t, &mut p);
        if matches!(name, "include" | "remove" | "initial") {
            s["vs"] = p.ids(t.vertices().iter());
            s["es"] = p.edges(t.edges().iter());
        }
        done("ok", with(s, more));
    }
}
