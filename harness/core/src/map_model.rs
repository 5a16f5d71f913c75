//! Binds spec/SortedMap.tla to the map.
use crate::engine::*;
use crate::nulls_model::{key, number};
use elusiv::map::ElusivSet;
use elusiv::types::OrdU256;
use elusiv_types::BorshSerDeSized;
use serde_json::Value;

pub struct Map {
    size: usize,
    order: String,
}
#[derive(Clone)]
pub struct W {
    d: Vec<u8>,
    out: i64,
}
trait Ops {
    fn insert(&mut self, k: i64) -> Result<i64, String>;
    fn has(&mut self, k: i64) -> bool;
    fn min(&mut self) -> String;
    fn max(&mut self) -> String;
    fn full(&mut self) -> bool;
    fn empty(&mut self) -> bool;
}
fn ord(k: i64) -> OrdU256 {
    OrdU256(key(k))
}
const BASE: i64 = 100_000;
fn back(k: &OrdU256) -> i64 {
    number(&k.0)
}
impl<const N: usize> Ops for ElusivSet<'_, OrdU256, N> {
    fn insert(&mut self, k: i64) -> Result<i64, String> {
        match self.try_insert(ord(k), &()) {
            Ok(None) => Ok(0),
            Ok(Some((x, _))) => Ok(if x == ord(k) { k } else { back(&x) }),
            Err(_) => Err("refused".into()),
        }
    }
    fn has(&mut self, k: i64) -> bool {
        self.contains(&ord(k)).is_some()
    }
    fn min(&mut self) -> String {
        back(&ElusivSet::min(self)).to_string()
    }
    fn max(&mut self) -> String {
        back(&ElusivSet::max(self)).to_string()
    }
    fn full(&mut self) -> bool {
        self.is_full()
    }
    fn empty(&mut self) -> bool {
        self.is_empty()
    }
}
fn with<T>(size: usize, d: &mut [u8], f: impl FnOnce(&mut dyn Ops) -> T) -> T {
    macro_rules! sizes {
        ($($n: literal)*) => {
            match size {
                $($n => f(&mut ElusivSet::<OrdU256, $n>::new(d)),)*
                _ => panic!("size"),
            }
        };
    }
    sizes!(1 2 3 5 15 17 20 31 33 48 64)
}
fn bytes(size: usize) -> usize {
    macro_rules! sizes {
        ($($n: literal)*) => {
            match size {
                $($n => <ElusivSet::<OrdU256, $n> as BorshSerDeSized>::SIZE,)*
                _ => panic!("size"),
            }
        };
    }
    sizes!(1 2 3 5 15 17 20 31 33 48 64)
}
fn set(v: &Value) -> Vec<i64> {
    let mut x: Vec<i64> = v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    x.sort();
    x
}

impl Map {
    pub fn new(c: &Value) -> Self {
        Map { size: c["Size"].as_u64().unwrap() as usize, order: c["Order"].as_str().unwrap().into() }
    }
}

impl Model for Map {
    type W = W;
    fn init(&self, st: &Value) -> W {
        let mut l = set(&st["m"]);
        let n = l.len();
        match self.order.as_str() {
            "asc" => {}
            "desc" => l.reverse(),
            "zigzag" => l = (0..n).map(|j| if j % 2 == 0 { l[j / 2] } else { l[n - 1 - j / 2] }).collect(),
            "out" => l = (0..n).map(|j| if j % 2 == 0 { l[n / 2 + j / 2] } else { l[n / 2 - 1 - j / 2] }).collect(),
            "mixed" => l.sort_by_key(|k| (*k as u64 * 0x9e37_79b9) % 1009),
            o => panic!("order {o}"),
        }
        let mut d = vec![0; bytes(self.size)];
        for k in l {
            // (a new instance for every instruction, as in the program)
            with(self.size, &mut d, |m| assert_eq!(m.insert(BASE + k), Ok(0), "the map cannot be filled"));
        }
        W { d, out: 0 }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        let r = with(self.size, &mut w.d, |m| m.insert(BASE + a["k"].as_i64().unwrap()))?;
        w.out = r - if r == 0 { 0 } else { BASE };
        Ok(())
    }
    fn check(&self, w: &W, e: &Value, act: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let l = set(&e["m"]);
        let n0 = e["n0"].as_i64().unwrap();
        if let Some(o) = act["out"].as_i64() {
            cmp(&mut v, "ousted", o, w.out);
        }
        let mut d = w.d.clone();
        with(self.size, &mut d, |m| {
            cmp(&mut v, "map.empty", l.is_empty(), m.empty());
            cmp(&mut v, "map.full", l.len() == self.size, m.full());
            if l.is_empty() {
                return;
            }
            cmp(&mut v, "map.min", (l[0] + BASE).to_string(), m.min());
            cmp(&mut v, "map.max", (l[l.len() - 1] + BASE).to_string(), m.max());
            for k in 0..=2 * n0 + 2 {
                cmp(&mut v, "map.has", (k, l.contains(&k)), (k, m.has(BASE + k)));
            }
            // drained: smaller and smaller keys come in, the others go out from large to small
            let mut low = BASE - 1;
            for _ in l.len()..self.size {
                cmp(&mut v, "map.order", Ok(0), m.insert(low));
                low -= 1;
            }
            for k in l.iter().rev() {
                cmp(&mut v, "map.order", Ok(BASE + k), m.insert(low));
                low -= 1;
            }
        });
        v
    }
}
