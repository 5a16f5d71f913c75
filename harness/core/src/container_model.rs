//! Binds spec/Containers.tla to the queues and the windows.
use crate::engine::*;
use crate::refhash::{mr_bytes, opaque};
use elusiv::buffer::RingBuffer;
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::*;
use elusiv::state::metadata::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv_types::{ProgramAccount, SizedAccount};
use serde_json::Value;
use std::sync::OnceLock;

pub struct Containers {
    kind: String,
    qcap: usize,
    win: usize,
    fill: usize,
    head: u32,
}
#[derive(Clone)]
pub struct W {
    d: Vec<u8>,
    out: i64,
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap()
}
fn list(v: &Value) -> Vec<[i64; 3]> {
    v.as_array().map_or(vec![], |l| l.iter().map(|e| [i(&e[0]), i(&e[1]), i(&e[2])]).collect())
}
fn value(v: i64) -> [u8; 32] {
    static T: OnceLock<Vec<[u8; 32]>> = OnceLock::new();
    T.get_or_init(|| {
        (0..1100)
            .map(|v| {
                if v == 0 {
                    return [0; 32];
                }
                let mut x = mr_bytes(&opaque(91, v));
                // values that agree in their first and last bytes
                if v % 3 == 0 {
                    x[0] = 7;
                    x[1] = 7;
                    x[31] = 1;
                }
                x
            })
            .collect()
    })[v as usize]
}
fn id_of(part: &[u8], from: usize) -> i64 {
    (1..1100).find(|v| &value(*v)[from..from + part.len()] == part).unwrap_or(-1)
}
fn commitment(e: [i64; 3]) -> CommitmentHashRequest {
    CommitmentHashRequest { commitment: value(e[0]), fee_version: e[1] as u32, min_batching_rate: e[2] as u32 }
}
fn metadata(v: i64) -> [u8; 17] {
    let mut m = [0; 17];
    m.copy_from_slice(&value(v)[3..20]);
    m
}

trait Q {
    fn enqueue(&mut self, e: [i64; 3]) -> Result<(), String>;
    fn dequeue(&mut self) -> Result<[i64; 3], String>;
    fn remove(&mut self, k: u32) -> Result<(), String>;
    fn view(&self, k: usize) -> Option<bool>;
    fn is(&self, k: usize, e: [i64; 3]) -> bool;
    fn first(&self, e: Option<[i64; 3]>) -> bool;
    fn has(&self, e: [i64; 3]) -> bool;
    fn len(&self) -> usize;
    fn slots(&self) -> usize;
    fn empty(&self) -> bool;
}
macro_rules! queue {
    ($t: ty, $e: expr, $id: expr) => {
        impl Q for $t {
            fn enqueue(&mut self, e: [i64; 3]) -> Result<(), String> {
                RingQueue::enqueue(self, $e(e)).map_err(|e| format!("{e:?}"))
            }
            fn dequeue(&mut self) -> Result<[i64; 3], String> {
                let f = RingQueue::dequeue_first(self).map_err(|e| format!("{e:?}"))?;
                Ok([$id(&f), 0, 0])
            }
            fn remove(&mut self, k: u32) -> Result<(), String> {
                RingQueue::remove(self, k).map_err(|e| format!("{e:?}"))
            }
            fn view(&self, k: usize) -> Option<bool> {
                RingQueue::view(self, k).ok().map(|_| true)
            }
            fn is(&self, k: usize, e: [i64; 3]) -> bool {
                RingQueue::view(self, k).map_or(false, |x| x == $e(e))
            }
            fn first(&self, e: Option<[i64; 3]>) -> bool {
                match e {
                    Some(e) => RingQueue::view_first(self).map_or(false, |x| x == $e(e)),
                    None => RingQueue::view_first(self).is_err(),
                }
            }
            fn has(&self, e: [i64; 3]) -> bool {
                RingQueue::contains(self, &$e(e))
            }
            fn len(&self) -> usize {
                RingQueue::len(self) as usize
            }
            fn slots(&self) -> usize {
                RingQueue::empty_slots(self) as usize
            }
            fn empty(&self) -> bool {
                RingQueue::is_empty(self)
            }
        }
    };
}
queue!(CommitmentQueue<'_, '_>, commitment, |f: &CommitmentHashRequest| id_of(&f.commitment, 0));
queue!(MetadataQueue<'_, '_>, |e: [i64; 3]| metadata(e[0]), |f: &[u8; 17]| id_of(f, 3));

impl Containers {
    pub fn new(c: &Value) -> Self {
        let g = |n: &str| c[n].as_u64().unwrap() as usize;
        Containers { kind: c["Kind"].as_str().unwrap().into(), qcap: g("QCap"), win: g("Win"), fill: g("Fill"), head: c["Head"].as_u64().unwrap_or(0) as u32 }
    }
    fn is_queue(&self) -> bool {
        self.kind.ends_with("queue")
    }
    fn queue<T>(&self, d: &mut [u8], f: impl FnOnce(&mut dyn Q) -> T) -> T {
        match self.kind.as_str() {
            "cqueue" => f(&mut CommitmentQueue::new(&mut CommitmentQueueAccount::new(d).unwrap())),
            _ => f(&mut MetadataQueue::new(&mut MetadataQueueAccount::new(d).unwrap())),
        }
    }
    fn insert(&self, d: &mut [u8], v: i64) -> Result<(), String> {
        match self.kind.as_str() {
            "cwin" => CommitmentBufferAccount::new(d).unwrap().try_insert(&value(v)).map_err(|_| "refused".into()),
            _ => BaseCommitmentBufferAccount::new(d).unwrap().try_insert(&value(v)).map_err(|_| "refused".into()),
        }
    }
    fn window(&self, d: &mut [u8], v: &[u8; 32]) -> (bool, usize) {
        match self.kind.as_str() {
            "cwin" => {
                let a = CommitmentBufferAccount::new(d).unwrap();
                (a.contains(v), a.len())
            }
            _ => {
                let a = BaseCommitmentBufferAccount::new(d).unwrap();
                (a.contains(v), a.len())
            }
        }
    }
}

impl Model for Containers {
    type W = W;
    fn init(&self, st: &Value) -> W {
        let size = match self.kind.as_str() {
            "cqueue" => CommitmentQueueAccount::SIZE,
            "mqueue" => MetadataQueueAccount::SIZE,
            "cwin" => CommitmentBufferAccount::SIZE,
            _ => BaseCommitmentBufferAccount::SIZE,
        };
        let mut d = vec![0; size];
        if self.is_queue() {
            self.queue(&mut d, |q| {
                for _ in 0..self.head {
                    q.enqueue([1, 0, 0]).unwrap();
                    q.dequeue().unwrap();
                }
                for e in list(&st["l"]) {
                    q.enqueue(e).unwrap();
                }
            });
        } else {
            for v in 1..=self.fill {
                self.insert(&mut d, v as i64).unwrap();
            }
        }
        W { d, out: 0 }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        w.out = 0;
        match a["n"].as_str().unwrap() {
            "Enqueue" => {
                let e = &a["e"];
                self.queue(&mut w.d, |q| q.enqueue([i(&e["v"]), i(&e["f"]), i(&e["r"])]))
            }
            "Dequeue" => {
                w.out = self.queue(&mut w.d, |q| q.dequeue())?[0];
                Ok(())
            }
            "Remove" => self.queue(&mut w.d, |q| q.remove(i(&a["k"]) as u32)),
            "Take" => {
                let mut acc = CommitmentQueueAccount::new(&mut w.d).unwrap();
                let mut q = CommitmentQueue::new(&mut acc);
                let (b, _) = q.next_batch().map_err(|e| format!("{e:?}"))?;
                RingQueue::remove(&mut q, b.len() as u32).map_err(|e| format!("{e:?}"))
            }
            "Insert" => self.insert(&mut w.d, i(&a["v"])),
            "Release" => {
                let mut acc = CommitmentBufferAccount::new(&mut w.d).unwrap();
                match acc.find_position(&value(i(&a["r"]))) {
                    Some(p) => {
                        acc.set_value(p, &[0; 32]);
                        Ok(())
                    }
                    None => Err("not found".into()),
                }
            }
            n => panic!("unknown action {n}"),
        }
    }
    fn check(&self, w: &W, e: &Value, act: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let mut d = w.d.clone();
        let l = list(&e["l"]);
        if self.is_queue() {
            if let Some(o) = act["out"].as_i64() {
                cmp(&mut v, "dequeued", o, w.out);
            }
            self.queue(&mut d, |q| {
                cmp(&mut v, "queue.len", l.len(), q.len());
                cmp(&mut v, "queue.free", self.qcap - l.len(), q.slots());
                cmp(&mut v, "queue.empty", l.is_empty(), q.empty());
                cmp(&mut v, "queue.first", true, q.first(l.first().copied()));
                for (k, x) in l.iter().enumerate() {
                    cmp(&mut v, "queue", (k, true), (k, q.is(k, *x)));
                    cmp(&mut v, "queue.has", (x[0], true), (x[0], q.has(*x)));
                }
                for k in [l.len(), l.len() + 1, self.qcap, self.qcap + 1] {
                    cmp(&mut v, "queue.view", (k, k < l.len()), (k, q.view(k).is_some()));
                }
                for x in (1..=self.fill as i64 + 1).chain(1001..1012) {
                    let n = [x, 0, 0];
                    cmp(&mut v, "queue.has", (x, l.iter().any(|y| if self.kind == "mqueue" { y[0] == x } else { *y == n })), (x, q.has(n)));
                }
            });
            if self.kind == "cqueue" {
                let b = &e["batch"];
                let mut acc = CommitmentQueueAccount::new(&mut d).unwrap();
                let q = CommitmentQueue::new(&mut acc);
                match q.next_batch() {
                    Ok((x, r)) => {
                        cmp(&mut v, "batch", b["ok"].as_bool().unwrap(), true);
                        cmp(&mut v, "batch.rate", i(&b["rate"]), r as i64);
                        cmp(&mut v, "batch.len", i(&b["len"]) as usize, x.len());
                        for (k, c) in x.iter().enumerate() {
                            cmp(&mut v, "batch.entry", (k, true), (k, l.get(k).map_or(false, |e| commitment(*e) == *c)));
                        }
                    }
                    Err(_) => cmp(&mut v, "batch", b["ok"].as_bool().unwrap(), false),
                }
            }
        } else {
            let recent = &l[l.len().saturating_sub(self.win)..];
            let n = recent.len();
            cmp(&mut v, "window.len", n, self.window(&mut d, &[1; 32]).1);
            for x in (1..=self.fill as i64 + 1).chain(1001..1012) {
                cmp(&mut v, "window", (x, recent.iter().any(|e| e[0] == x)), (x, self.window(&mut d, &value(x)).0));
            }
            // neither parts of two neighbours nor nearly equal values
            for p in recent.windows(2) {
                let mut x = [0; 32];
                x[..16].copy_from_slice(&value(p[0][0])[16..]);
                x[16..].copy_from_slice(&value(p[1][0])[..16]);
                let zero = x == [0; 32];
                cmp(&mut v, "window.parts", zero && p[0][0] == 0, self.window(&mut d, &x).0);
            }
            for e in recent.iter().filter(|e| e[0] != 0) {
                for b in [0, 15, 31] {
                    let mut x = value(e[0]);
                    x[b] ^= 0x10;
                    cmp(&mut v, "window.near", false, self.window(&mut d, &x).0);
                }
            }
            cmp(&mut v, "window.zero", recent.iter().any(|e| e[0] == 0), self.window(&mut d, &[0; 32]).0);
        }
        v
    }
}
