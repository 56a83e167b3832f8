// Triangulator histories.
use crate::*;
use nlsn_delaunay::planar::{refine_params::*, triangulator::*};
use std::collections::HashSet;

pub fn state(t: &Triangulator, p: &mut Pts, with_mesh: bool) -> Value {
    let mut v = json!({
        "segs": p.edges(t.segments.iter()),
        "verts": p.ids(t.vertices.iter()),
        "holes": t.holes.iter().map(|h| p.ids(h.vertices.iter())).collect::<Vec<_>>(),
    });
    if with_mesh {
        let mesh = t.triangulation.borrow();
        v["tris"] = p.tris(mesh.triangles.iter());
        v["adj"] = p.adj(&mesh.adjacency);
    }
    v
}

fn stop(i: usize, fatal: Option<u64>) {
    if Some(i as u64) == fatal {
        panic!("the process died in this step");
    }
}

pub fn run(case: &Value) {
    let mut p = Pts::new();
    let boundary = closed(&case["boundary"]);
    p.ids(boundary.vertices.iter());
    let mut t = Triangulator::new(&boundary);
    // the step at which the process is known to die: recorded instead of executed
    let fatal = case["fatal"].as_u64();
    for (i, op) in case["ops"].as_array().unwrap().iter().enumerate() {
        let a = &op[1];
        match op[0].as_str().unwrap() {
            "new" => {
                begin(json!({"op": "new"}));
                t = Triangulator::new(&boundary);
                done("ok", state(&t, &mut p, false));
            }
            "verts" => {
                let s: HashSet<Rc<Vertex>> = pts(a).into_iter().collect();
                begin(json!({"op": "verts", "arg": p.ids(pts(a).iter())}));
                stop(i, fatal);
                let r = t.insert_vertices(&s).map(|_| ());
                finish(&t, &mut p, r.map_err(|e| move |p: &mut Pts| p.ids(e.iter())));
            }
            "segs" => {
                let s: HashSet<Rc<Edge>> = edges(a).into_iter().collect();
                begin(json!({"op": "segs", "arg": p.edges(edges(a).iter())}));
                stop(i, fatal);
                let r = t.insert_segments(&s).map(|_| ());
                finish(&t, &mut p, r.map_err(|e| move |p: &mut Pts| p.edges(e.iter())));
            }
            "hole" => {
                let h = closed(a);
                begin(json!({"op": "hole", "arg": p.ids(h.vertices.iter())}));
                stop(i, fatal);
                let r = t.insert_hole(&h).map(|_| ());
                finish(&t, &mut p, r.map_err(|e| move |p: &mut Pts| p.ids(e.iter())));
            }
            "triangulate" => {
                begin(json!({"op": "triangulate"}));
                stop(i, fatal);
                t.triangulate();
                done("ok", state(&t, &mut p, true));
            }
            "refine" => {
                begin(json!({"op": "refine", "ratio": a[0], "area": if a[1].is_null() { json!([]) } else { json!([text(&a[1][0]), text(&a[1][1])]) }}));
                stop(i, fatal);
                let ratio = num(&a[0][0]) / num(&a[0][1]);
                let max_area = if a[1].is_null() { None } else { Some(num(&a[1][0]) / num(&a[1][1])) };
                t.refine(RefineParams { quality_ratio: ratio, max_area });
                done("ok", state(&t, &mut p, true));
            }
            o => panic!("bad op {}", o),
        };
    }
}

fn finish<F: FnOnce(&mut Pts) -> Value>(t: &Triangulator, p: &mut Pts, r: Result<(), F>) {
    let mut s = state(t, p, false);
    match r {
        Ok(()) => done("ok", s),
        Err(f) => {
            s["conf"] = f(p);
            done("err", s);
        }
    }
}
