// What is printed or drawn, taken apart into its form and the points it names.
use crate::geom::*;
use crate::*;
use nlsn_delaunay::planar::triangulation::Triangulation;
use nlsn_delaunay::planar::triangulation_data::TriangulationData;

/// The text with each vertex replaced by '#', and these vertices.
fn form(s: &str, p: &mut Pts) -> (String, Vec<i64>) {
    let (mut shape, mut ids, mut i) = (String::new(), vec![], 0);
    while i < s.len() {
        if s[i..].starts_with('(') {
            if let Some(j) = s[i..].find(')') {
                let t = &s[i + 1..i + j];
                let v = if t == "ghost" {
                    Some(Vertex::new_ghost())
                } else {
                    let n: Vec<_> = t.split(", ").map(|x| x.parse::<f64>()).collect();
                    match &n[..] {
                        [Ok(x), Ok(y)] => Some(Vertex::new(*x, *y)),
                        _ => None,
                    }
                };
                if let Some(v) = v {
                    shape.push('#');
                    ids.push(p.id(&v));
                    i += j + 1;
                    continue;
                }
            }
        }
        let c = s[i..].chars().next().unwrap();
        shape.push(c);
        i += c.len_utf8();
    }
    (shape, ids)
}
fn formed(s: String, p: &mut Pts) -> Value {
    let (shape, ids) = form(&s, p);
    json!({"shape": shape, "ids": ids})
}
/// The lines after `title` up to an empty line.
fn section<'a>(title: &str, lines: &mut std::str::Split<'a, char>) -> Option<Vec<&'a str>> {
    if lines.next() != Some(title) {
        return None;
    }
    let mut out = vec![];
    loop {
        match lines.next() {
            None => return None,
            Some("") => return Some(out),
            Some(l) => out.push(l),
        }
    }
}
fn numbers<T: std::str::FromStr>(l: &str) -> Option<Vec<T>> {
    l.split(' ').map(|x| x.parse::<T>().ok()).collect()
}

pub fn call(op: &str, a: &Value, p: &mut Pts) -> Value {
    match op {
        "vtext" => formed(vert(&a[0]).to_string(), p),
        "etext" => formed(edge(a).to_string(), p),
        "ttext" => formed(triangle(a).to_string(), p),
        "mtext" => {
            let mut t = Triangulation::new();
            for x in a.as_array().unwrap() {
                t.include_triangle(&triangle(x));
            }
            let s = t.to_string();
            let mut lines = s.split('\n');
            let (x, y) = (section("Triangles", &mut lines), section("Adjacency", &mut lines));
            if x.is_none() || y.is_none() || lines.next().is_some() {
                return json!({"ok": false, "tris": [], "adj": []});
            }
            let mut ok = true;
            let mut rows = |l: Vec<&str>, shape: &str, p: &mut Pts| -> Vec<Vec<i64>> {
                l.iter().map(|s| form(s, p)).map(|(f, i)| { ok &= f == shape; i }).collect()
            };
            let (tris, adj) = (rows(x.unwrap(), "(# - # - #)", p), rows(y.unwrap(), "(# - #) (# - # - #)", p));
            json!({"ok": ok, "tris": if ok { tris } else { vec![] }, "adj": if ok { adj } else { vec![] }})
        }
        "dtext" => {
            let c: Vec<f64> = a[0].as_array().unwrap().iter().flat_map(|v| [num(&v[0]), num(&v[1])]).collect();
            let t: Vec<usize> = a[1].as_array().unwrap().iter().flat_map(|t| t.as_array().unwrap().iter().map(|i| i.as_u64().unwrap() as usize)).collect();
            let d = TriangulationData::from(c.clone(), t.clone());
            let kept = d.coordinates == c && d.triangles == t;
            let s = d.to_string();
            let mut lines = s.split('\n');
            // the list of triangles ends with the text
            let x = section("Coordinates", &mut lines);
            let y = section("Triangles", &mut lines);
            let pts = x.and_then(|l| l.iter().map(|s| numbers::<f64>(s).filter(|n| n.len() == 2)).collect::<Option<Vec<_>>>());
            let tris = y.and_then(|l| l.iter().map(|s| numbers::<u64>(s).filter(|n| n.len() == 3)).collect::<Option<Vec<_>>>());
            if pts.is_none() || tris.is_none() || lines.next().is_some() {
                return json!({"ok": false, "kept": kept, "pts": [], "tris": []});
            }
            let ids: Vec<i64> = pts.unwrap().iter().map(|n| p.id(&Vertex::new(n[0], n[1]))).collect();
            json!({"ok": true, "kept": kept, "pts": ids, "tris": tris})
        }
        #[cfg(feature = "draw")]
        "drawn" => {
            let mut t = Triangulation::new();
            for x in a.as_array().unwrap() {
                t.include_triangle(&triangle(x));
            }
            let mut places = |l: Vec<scene::Vertex>| -> Vec<i64> {
                l.iter().map(|v| p.id(&Vertex::new(v.position[0] as f64, v.position[1] as f64))).collect()
            };
            let given: Vec<f32> = a.as_array().unwrap().iter().flat_map(|t| t.as_array().unwrap().iter())
                .filter(|v| !v.is_null()).flat_map(|v| [num(&v[0]) as f32, num(&v[1]) as f32]).collect();
            json!({
                "edges": places(scene::Vertex::edges_from_triangulation(&t)),
                "tris": places(scene::Vertex::triangles_from_triangulation(&t)),
                "pts": places(scene::Vertex::from_coordinates(given)),
            })
        }
        o => panic!("bad op {}", o),
    }
}

#[cfg(feature = "draw")]
#[path = "/repo/src/glium_interface/vertex.rs"]
mod scene;
