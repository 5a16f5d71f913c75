//! Replays the transitions that TLC dumped from a specification against the real code.
//!
//! Every dumped edge [from, act, to] is executed: the code starts from a concrete world that represents
//! `from` (reached by executing the code along a path of the specification), the action is applied, and
//! the result is compared with the specification: accepted or refused, and field by field the state `to`.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Diff {
    pub field: String,
    pub want: String,
    pub got: String,
}
pub fn diff(field: &str, want: impl std::fmt::Debug, got: impl std::fmt::Debug) -> Diff {
    Diff { field: field.into(), want: format!("{want:?}"), got: format!("{got:?}") }
}
/// Collects a difference if the two values are not equal
pub fn cmp<T: PartialEq + std::fmt::Debug>(v: &mut Vec<Diff>, field: &str, want: T, got: T) {
    if want != got {
        v.push(diff(field, want, got));
    }
}

pub trait Model: Sync {
    type W: Clone + Send + Sync;
    fn thread_init(&self) {}
    fn init(&self, st: &Value) -> Self::W;
    /// Executes the action; Err = the code refused it
    fn step(&self, w: &mut Self::W, act: &Value) -> Result<(), String>;
    /// Compares the world with the specification's state
    fn check(&self, w: &Self::W, exp: &Value, act: &Value) -> Vec<Diff>;
}

pub struct Edges {
    pub states: Vec<Value>,
    pub out: Vec<Vec<(Value, usize)>>,
    pub init: Vec<usize>,
    pub count: usize,
}

fn unquote(s: &str) -> String {
    // a TLA+ string literal as printed by TLC
    let mut o = String::with_capacity(s.len());
    let mut esc = false;
    for c in s.chars() {
        if esc {
            o.push(match c {
                'n' => '\n',
                't' => '\t',
                c => c,
            });
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else {
            o.push(c);
        }
    }
    o
}

pub fn load(path: &str) -> Edges {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
    let lines: Vec<&str> = text.lines().filter(|l| l.starts_with("\"@E ")).collect();
    let parsed: Vec<Mutex<Option<Value>>> = lines.iter().map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads() {
            s.spawn(|| loop {
                let i = next.fetch_add(64, Ordering::Relaxed);
                if i >= lines.len() {
                    break;
                }
                for j in i..(i + 64).min(lines.len()) {
                    let l = lines[j];
                    let v: Value = serde_json::from_str(&unquote(&l[4..l.len() - 1]))
                        .unwrap_or_else(|e| panic!("bad edge line {j}: {e}"));
                    *parsed[j].lock().unwrap() = Some(v);
                }
            });
        }
    });
    let mut e = Edges { states: vec![], out: vec![], init: vec![], count: 0 };
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut has_in: Vec<bool> = vec![];
    for p in parsed {
        let mut v = p.into_inner().unwrap().unwrap();
        let (f, a, t) = (v["f"].take(), v["a"].take(), v["t"].take());
        let mut id = |x: Value, e: &mut Edges, has_in: &mut Vec<bool>| -> usize {
            let k = x.to_string();
            if let Some(&i) = ids.get(&k) {
                return i;
            }
            let i = e.states.len();
            ids.insert(k, i);
            e.states.push(x);
            e.out.push(vec![]);
            has_in.push(false);
            i
        };
        let fi = id(f, &mut e, &mut has_in);
        let ti = id(t, &mut e, &mut has_in);
        if fi != ti {
            has_in[ti] = true;
        }
        e.out[fi].push((a, ti));
        e.count += 1;
    }
    e.init = (0..e.states.len()).filter(|&i| !has_in[i]).collect();
    if e.init.is_empty() && !e.states.is_empty() {
        e.init = vec![0];
    }
    e
}

/// The transactions that lead to a scenario's initial state (printed by the specification)
pub fn start(path: &str) -> Vec<Value> {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read {path}: {e}"));
    let l = text.lines().find(|l| l.starts_with("\"@S ")).expect("no start printed");
    match serde_json::from_str(&unquote(&l[4..l.len() - 1])).unwrap() {
        Value::Array(a) => a,
        Value::Object(o) if o.is_empty() => vec![],
        v => panic!("bad start: {v}"),
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get())
}

#[derive(Default)]
pub struct Report {
    pub replayed: usize,
    pub accepted: usize,
    pub refused: usize,
    pub known: HashMap<String, usize>,
    pub states: usize,
    pub reached: usize,
    pub edges: usize,
    pub by_action: HashMap<String, [usize; 2]>,
    pub divergences: Vec<Value>,
    pub divergence_count: usize,
    pub samples: Vec<Value>,
    pub skipped: usize,
    pub spec_actions: HashMap<String, [usize; 2]>,
}

/// The program could not be brought into the state the specification starts from
pub fn failed_setup(msg: String) -> Report {
    Report {
        divergence_count: 1,
        divergences: vec![json!({"action": "Init", "act": {"n": "Init"}, "kind": "setup", "field": "setup", "want": "set-up succeeds", "got": msg, "path": []})],
        ..Report::default()
    }
}

fn name(a: &Value) -> String {
    a["n"].as_str().unwrap_or("?").to_string()
}

struct Node<W> {
    w: W,
}

pub fn replay<M: Model>(m: &M, e: &Edges) -> Report {
    let n = e.states.len();
    let mut reached: Vec<bool> = vec![false; n];
    let mut parent: Vec<Option<(usize, usize)>> = vec![None; n];
    let mut r = Report {
        replayed: 0,
        accepted: 0,
        refused: 0,
        known: HashMap::new(),
        states: n,
        reached: 0,
        edges: e.count,
        by_action: HashMap::new(),
        divergences: vec![],
        divergence_count: 0,
        samples: vec![],
        skipped: 0,
        spec_actions: HashMap::new(),
    };
    for (a, _) in e.out.iter().flatten() {
        for n in [name(a), format!("{}({})", name(a), a["v"].as_str().unwrap_or(""))] {
            r.spec_actions.entry(n).or_insert([0, 0])[if a["ok"].as_bool().unwrap_or(true) { 0 } else { 1 }] += 1;
        }
    }
    let mut level: Vec<(usize, Node<M::W>)> = vec![];
    m.thread_init();
    for &i in &e.init {
        let w = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.init(&e.states[i]))) {
            Ok(w) => w,
            Err(p) => {
                // the program cannot even be brought into the scenario's initial state
                let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
                r.divergence_count += 1;
                r.divergences.push(json!({"action": "Init", "act": {"n": "Init"}, "kind": "setup", "field": "setup",
                    "want": "set-up succeeds", "got": msg.unwrap_or_default(), "path": []}));
                continue;
            }
        };
        let d = checked(m, &w, &e.states[i], &json!({"n": "Init"}));
        for x in d {
            r.divergence_count += 1;
            r.divergences.push(json!({"action": "Init", "act": {"n": "Init"}, "kind": "state", "field": x.field,
                "want": x.want, "got": x.got, "path": []}));
        }
        reached[i] = true;
        level.push((i, Node { w }));
    }
    let mut seen: HashMap<(String, String, String), usize> = HashMap::new();
    while !level.is_empty() {
        // work items: (level position, edge)
        let mut items: Vec<(usize, usize)> = vec![];
        for (p, (s, _)) in level.iter().enumerate() {
            for k in 0..e.out[*s].len() {
                items.push((p, k));
            }
        }
        struct Out<W> {
            p: usize,
            k: usize,
            world: Option<W>,
            err: Option<String>,
            diffs: Vec<Diff>,
            fatal: bool,
        }
        let next = AtomicUsize::new(0);
        let claimed: Vec<AtomicUsize> = (0..n).map(|i| AtomicUsize::new(reached[i] as usize)).collect();
        let outs: Mutex<Vec<Out<M::W>>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..threads() {
                sc.spawn(|| {
                    m.thread_init();
                    let mut local = vec![];
                    loop {
                        let i = next.fetch_add(16, Ordering::Relaxed);
                        if i >= items.len() {
                            break;
                        }
                        for &(p, k) in &items[i..(i + 16).min(items.len())] {
                            let (s, node) = &level[p];
                            let (a, t) = &e.out[*s][k];
                            let mut w = node.w.clone();
                            let res = crate::svm::quiet_catch(|| m.step(&mut w, a)).unwrap_or_else(|x| Err(format!("cannot be carried out: {x}")));
                            if a.get("known").is_some() && res.is_ok() == a["ok"].as_bool().unwrap_or(true) {
                                // the code still behaves as recorded in the finding
                                let diffs = if res.is_ok() { checked(m, &w, &e.states[*t], a) } else { vec![] };
                                local.push(Out { p, k, world: None, err: Some("known".into()), diffs, fatal: false });
                                continue;
                            } else if a.get("known").is_some() {
                                continue; // no longer: nothing to report
                            }
                            let ok = a["ok"].as_bool().unwrap_or(true);
                            match (ok, res) {
                                (false, Err(x)) => local.push(Out { p, k, world: None, err: Some(x), diffs: vec![], fatal: false }),
                                (false, Ok(())) => {
                                    // show what the code did instead of refusing
                                    let mut d = vec![diff("accepted", "refused", "accepted")];
                                    d.extend(checked(m, &w, &e.states[*t], a));
                                    local.push(Out { p, k, world: None, err: None, diffs: d, fatal: true })
                                }
                                (true, Err(x)) => local.push(Out {
                                    p,
                                    k,
                                    world: None,
                                    err: Some(x.clone()),
                                    diffs: vec![diff("refused", "accepted", x)],
                                    fatal: true,
                                }),
                                (true, Ok(())) => {
                                    let d = checked(m, &w, &e.states[*t], a);
                                    let take = d.is_empty()
                                        && claimed[*t].compare_exchange(0, 1, Ordering::SeqCst, Ordering::SeqCst).is_ok();
                                    local.push(Out { p, k, world: if take { Some(w) } else { None }, err: None, diffs: d, fatal: false })
                                }
                            }
                        }
                    }
                    outs.lock().unwrap().append(&mut local);
                });
            }
        });
        let mut outs = outs.into_inner().unwrap();
        outs.sort_by_key(|o| (o.p, o.k));
        let mut nxt = vec![];
        for o in outs {
            let s = level[o.p].0;
            let (a, t) = &e.out[s][o.k];
            if let Some(kn) = a.get("known") {
                if o.diffs.is_empty() {
                    *r.known.entry(kn.as_str().unwrap_or("?").to_string()).or_insert(0) += 1;
                    continue;
                }
            }
            r.replayed += 1;
            let ok = a["ok"].as_bool().unwrap_or(true);
            let c = r.by_action.entry(name(a)).or_insert([0, 0]);
            if ok {
                r.accepted += 1;
                c[0] += 1;
            } else {
                r.refused += 1;
                c[1] += 1;
            }
            let samples = r.samples.len();
            if !o.diffs.is_empty() {
                for d in &o.diffs {
                    r.divergence_count += 1;
                    let key = (name(a), d.field.clone(), a.get("v").map_or(String::new(), |v| v.to_string()));
                    let c = seen.entry(key).or_insert(0);
                    *c += 1;
                    if *c <= 2 {
                        r.divergences.push(json!({"action": name(a), "act": a, "kind": if o.fatal {"verdict"} else {"state"},
                            "field": d.field, "want": d.want, "got": d.got, "from": e.states[s], "to": e.states[*t],
                            "path": path(e, &parent, s)}));
                    }
                }
            } else if samples < 12 && (r.replayed % 97 == 1 || (ok && r.accepted % 31 == 1)) {
                r.samples.push(json!({"act": a, "depth": path(e, &parent, s).len(), "result": o.err.clone().unwrap_or("accepted".into())}));
            }
            if let Some(w) = o.world {
                reached[*t] = true;
                parent[*t] = Some((s, o.k));
                nxt.push((*t, Node { w }));
            }
        }
        level = nxt;
    }
    r.reached = reached.iter().filter(|x| **x).count();
    r.skipped = (0..n).filter(|&i| !reached[i]).map(|i| e.out[i].len()).sum();
    r
}

/// The comparison; a state that cannot even be read is a difference
fn checked<M: Model>(m: &M, w: &M::W, e: &Value, a: &Value) -> Vec<Diff> {
    crate::svm::quiet_catch(|| m.check(w, e, a)).unwrap_or_else(|x| vec![diff("unreadable", "readable", x)])
}

fn path(e: &Edges, parent: &[Option<(usize, usize)>], mut s: usize) -> Vec<Value> {
    let mut v = vec![];
    while let Some((p, k)) = parent[s] {
        v.push(e.out[p][k].0.clone());
        s = p;
    }
    v.reverse();
    v
}

impl Report {
    pub fn json(&self) -> Value {
        json!({"states": self.states, "reached": self.reached, "edges": self.edges, "replayed": self.replayed,
            "accepted": self.accepted, "refused": self.refused, "skipped": self.skipped, "known": self.known,
            "by_action": self.by_action, "spec_actions": self.spec_actions, "divergence_count": self.divergence_count,
            "divergences": self.divergences, "samples": self.samples})
    }
}
