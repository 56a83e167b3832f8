// Runs cases (one JSON object per line on stdin) against the real crate and
// prints what happened, one JSON object per line on stdout.
//
// std's hash maps are seeded from getrandom(2); the weak symbol std looks up
// is provided here, so that a case's "seed" fixes the iteration order of every
// HashSet/HashMap of the crate: the crate's only source of nondeterminism.
mod geom;
mod mesh;
mod show;
mod tri;

use nlsn_delaunay::elements::{edge::*, polyline::*, triangle::*, vertex::*};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

static SEED: AtomicU64 = AtomicU64::new(1);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let mut z = SEED.fetch_add(0x9E3779B97F4A7C15, Ordering::SeqCst);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *buf.add(i) = (z ^ (z >> 31)) as u8;
    }
    len as isize
}

/// What has been recorded so far; survives a panic or a hang of the case.
pub struct Log {
    pub events: Vec<Value>,
    pub pending: Option<Value>,
    pub pts: Vec<(f64, f64)>,
}
static LOG: Mutex<Log> = Mutex::new(Log { events: Vec::new(), pending: None, pts: Vec::new() });

/// Points get identifiers 1, 2, ... in order of appearance; 0 is the ghost.
pub struct Pts {
    map: HashMap<(u64, u64), usize>,
}
impl Pts {
    pub fn new() -> Self {
        Pts { map: HashMap::new() }
    }
    pub fn id(&mut self, v: &Vertex) -> i64 {
        if v.is_ghost {
            return 0;
        }
        let (x, y) = (v.x + 0.0, v.y + 0.0);
        let mut log = LOG.lock().unwrap();
        let next = log.pts.len() + 1;
        let id = *self.map.entry((x.to_bits(), y.to_bits())).or_insert(next);
        if id == next {
            log.pts.push((x, y));
        }
        id as i64
    }
    pub fn ids<'a, I: IntoIterator<Item = &'a Rc<Vertex>>>(&mut self, vs: I) -> Value {
        json!(vs.into_iter().map(|v| self.id(v)).collect::<Vec<_>>())
    }
    pub fn tri(&mut self, t: &Triangle) -> Value {
        json!([self.id(&t.v1), self.id(&t.v2), self.id(&t.v3)])
    }
    pub fn edge(&mut self, e: &Edge) -> Value {
        json!([self.id(&e.v1), self.id(&e.v2)])
    }
    pub fn edges<'a, I: IntoIterator<Item = &'a Rc<Edge>>>(&mut self, es: I) -> Value {
        json!(es.into_iter().map(|e| self.edge(e)).collect::<Vec<_>>())
    }
    pub fn tris<'a, I: IntoIterator<Item = &'a Rc<Triangle>>>(&mut self, ts: I) -> Value {
        json!(ts.into_iter().map(|t| self.tri(t)).collect::<Vec<_>>())
    }
    pub fn adj(&mut self, m: &HashMap<Rc<Edge>, Rc<Triangle>>) -> Value {
        json!(m.iter().map(|(e, t)| json!([self.id(&e.v1), self.id(&e.v2), self.tri(t)])).collect::<Vec<_>>())
    }
}

/// Announces a step: it is recorded as crashed unless `done` follows.
pub fn begin(ev: Value) {
    LOG.lock().unwrap().pending = Some(ev);
}
pub fn done(res: &str, more: Value) {
    let mut log = LOG.lock().unwrap();
    let mut ev = log.pending.take().unwrap();
    ev["res"] = json!(res);
    for (k, v) in more.as_object().unwrap() {
        ev[k] = v.clone();
    }
    log.events.push(ev);
}

pub fn num(v: &Value) -> f64 {
    match v {
        Value::String(s) => s.parse().unwrap(),
        _ => v.as_f64().unwrap(),
    }
}
/// A number as a decimal string that denotes exactly the same double.
pub fn text(v: &Value) -> Value {
    json!(format!("{:?}", num(v)))
}
pub fn pt(v: &Value) -> Rc<Vertex> {
    Rc::new(Vertex::new(num(&v[0]), num(&v[1])))
}
pub fn pts(v: &Value) -> Vec<Rc<Vertex>> {
    v.as_array().unwrap().iter().map(pt).collect()
}
pub fn edges(v: &Value) -> Vec<Rc<Edge>> {
    v.as_array().unwrap().iter().map(|e| Rc::new(Edge::new(&pt(&e[0]), &pt(&e[1])))).collect()
}
pub fn closed(v: &Value) -> Rc<Polyline> {
    Rc::new(Polyline::new_closed(pts(v)).unwrap())
}

fn run(case: &Value) {
    match case["kind"].as_str().unwrap_or("tri") {
        "tri" => tri::run(case),
        "mesh" => mesh::run(case),
        "geom" => geom::run(case),
        k => panic!("bad kind {}", k),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("CASE_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10000);
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let case: Value = serde_json::from_str(&line).unwrap();
        let id = case["id"].clone();
        SEED.store(case["seed"].as_u64().unwrap_or(1).wrapping_mul(0x2545F4914F6CDD1D), Ordering::SeqCst);
        *LOG.lock().unwrap() = Log { events: vec![], pending: None, pts: vec![] };
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&case)));
                let _ = tx.send(match r {
                    Ok(()) => None,
                    Err(e) => Some(
                        e.downcast_ref::<String>()
                            .cloned()
                            .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default(),
                    ),
                });
            })
            .unwrap();
        let outcome = rx.recv_timeout(std::time::Duration::from_millis(limit));
        let mut log = match LOG.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        let mut out = json!({ "id": id });
        if let Some(mut ev) = log.pending.take() {
            match &outcome {
                Ok(m) => {
                    ev["res"] = json!("panic");
                    ev["message"] = json!(m);
                }
                Err(_) => ev["res"] = json!("timeout"),
            }
            log.events.push(ev);
        } else if let Ok(Some(m)) = &outcome {
            out["error"] = json!(m); // outside of any step: the driver's own fault
        }
        out["events"] = json!(std::mem::take(&mut log.events));
        out["pts"] = json!(log.pts.iter().map(|(x, y)| [format!("{:?}", x), format!("{:?}", y)]).collect::<Vec<_>>());
        drop(log);
        println!("{}", out);
        std::io::stdout().flush().unwrap();
        if outcome.is_err() {
            std::process::exit(3); // a stuck thread is left behind: the caller restarts
        }
    }
}
