//! Binds spec/Nullifiers.tla to the nullifier account and its sorted maps.
use crate::engine::*;
use elusiv::state::nullifier::*;
use elusiv::types::{OrdU256, U256};
use elusiv_types::{ParentAccount, ProgramAccount, SizedAccount};
use serde_json::Value;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;
use std::sync::Arc;

pub struct Nulls {
    per: i64,
    accs: usize,
    fulls: usize,
    part: i64,
    sample: Vec<i64>,
    moved: bool,
}
#[derive(Clone)]
pub struct W {
    data: Vec<u8>,
    children: Vec<Arc<Vec<u8>>>,
}

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap()
}
fn set(v: &Value) -> Vec<i64> {
    let mut x: Vec<i64> = v.as_array().unwrap().iter().map(i).collect();
    x.sort();
    x
}
/// functions over 0..n are printed as objects
fn fun(v: &Value, a: usize) -> &Value {
    &v[a.to_string().as_str()]
}

/// strictly monotone, keys differ in the low and in the high bytes
pub fn key(k: i64) -> U256 {
    assert!((0..1 << 24).contains(&k));
    let (q, r) = (k / 32, (k % 32) as u8);
    let mut x = [0u8; 32];
    let mut h = (q as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    for b in x.iter_mut() {
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58_476d_1ce4_e5b9);
        *b = (h >> 40) as u8;
    }
    x[0] = 7 * r + 3;
    x[29] = q as u8;
    x[30] = (q >> 8) as u8;
    x[31] = (q >> 16) as u8;
    x
}
pub fn number(x: &U256) -> i64 {
    let k = (x[29] as i64 | (x[30] as i64) << 8 | (x[31] as i64) << 16) * 32 + (x[0] as i64 - 3) / 7;
    if (0..1 << 24).contains(&k) && key(k) == *x {
        k
    } else {
        -1
    }
}
fn unkey(x: &U256) -> String {
    number(x).to_string()
}
fn base(a: usize) -> i64 {
    a as i64 * 200_000
}

/// runs `f` on the account with its children (those that are given)
fn with<T>(w: &mut W, f: impl FnOnce(&mut NullifierAccount) -> T) -> T {
    let owner = elusiv::id();
    let keys: Vec<Pubkey> = (0..w.children.len()).map(|n| Pubkey::new_from_array([n as u8 + 1; 32])).collect();
    let mut lam = vec![1u64; w.children.len()];
    let mut bufs: Vec<Vec<u8>> = w.children.iter().map(|c| c.to_vec()).collect();
    let r = {
        let infos: Vec<AccountInfo> = keys
            .iter()
            .zip(lam.iter_mut().zip(bufs.iter_mut()))
            .map(|(k, (l, d))| AccountInfo::new(k, false, true, l, d, &owner, false, 0))
            .collect();
        let mut ch: Vec<Option<&AccountInfo>> = infos.iter().map(Some).collect();
        ch.resize(NullifierAccount::COUNT, None);
        let mut a = NullifierAccount::new_with_child_accounts(&mut w.data, ch).unwrap();
        f(&mut a)
    };
    for (c, b) in w.children.iter_mut().zip(bufs) {
        if **c != b {
            *c = Arc::new(b);
        }
    }
    r
}
fn map<T>(c: &[u8], f: impl FnOnce(&mut NullifierMap) -> T) -> T {
    let mut d = c.to_vec();
    let mut m = NullifierMap::new(&mut d[1..]);
    f(&mut m)
}

impl Nulls {
    pub fn new(c: &Value) -> Self {
        assert_eq!(i(&c["Per"]), NULLIFIERS_PER_ACCOUNT as i64);
        let (fulls, part) = (i(&c["Fulls"]) as usize, i(&c["Part"]));
        let sample = set(&c["Menu"]).into_iter().chain(set(&c["Probe"])).collect();
        Nulls { per: i(&c["Per"]), accs: i(&c["Accs"]) as usize, fulls, part, sample, moved: c["Moves"] == true }
    }
    fn fillers(&self, a: usize) -> i64 {
        match a {
            a if a < self.fulls => self.per,
            a if a == self.fulls => self.part,
            _ => 0,
        }
    }
}

impl Model for Nulls {
    type W = W;

    fn init(&self, _st: &Value) -> W {
        let mut w = W { data: vec![0; NullifierAccount::SIZE], children: vec![] };
        let mut count = 0;
        if self.moved {
            // every entry is smaller than all before: it goes to the first account, all others get theirs only by moves
            for a in 0..self.accs {
                let mut d = vec![0; NullifierChildAccount::SIZE];
                d[0] = 1;
                w.children.push(Arc::new(d));
                NullifierAccount::new(&mut w.data).unwrap().set_child_pubkey(a, Some(Pubkey::new_from_array([a as u8 + 1; 32])).into());
            }
            with(&mut w, |acc| {
                for a in (0..self.accs).rev() {
                    for j in (1..=self.fillers(a)).rev() {
                        acc.try_insert_nullifier_hash(key(base(a) + 2 * j)).unwrap();
                        while !acc.is_moved_nullifier_empty() {
                            acc.move_nullifier_hashes_to_next_account().unwrap();
                        }
                    }
                }
            });
            return w;
        }
        for a in 0..self.accs {
            let mut d = vec![0; NullifierChildAccount::SIZE];
            d[0] = 1;
            let n = self.fillers(a);
            {
                let mut m = NullifierMap::new(&mut d[1..]);
                for j in 1..=n {
                    // ascending or descending
                    let j = if a % 2 == 0 { j } else { n + 1 - j };
                    assert!(matches!(m.try_insert_default(OrdU256(key(base(a) + 2 * j))), Ok(None)));
                }
            }
            let mut acc = NullifierAccount::new(&mut w.data).unwrap();
            acc.set_child_pubkey(a, Some(Pubkey::new_from_array([a as u8 + 1; 32])).into());
            if n > 0 {
                acc.set_max_values(a, &Some(key(base(a) + 2 * n)).into());
            }
            count += n as u32;
            acc.set_nullifier_hash_count(&count);
            w.children.push(Arc::new(d));
        }
        w
    }

    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        let mut n = w.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| with(&mut n, |acc| match a["n"].as_str().unwrap() {
            "Insert" => acc.try_insert_nullifier_hash(key(i(&a["k"]))).map_err(|e| format!("{e:?}")),
            "Move" => acc.move_nullifier_hashes_to_next_account().map_err(|e| format!("{e:?}")),
            _ => unreachable!(),
        })))
        .unwrap_or(Err("panic".into()));
        if r.is_ok() {
            *w = n;
        }
        r
    }

    fn check(&self, w: &W, e: &Value, _act: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let mut w = w.clone();
        let mv: Vec<i64> = e["mv"].as_array().map_or(vec![], |l| l.iter().map(|x| i(&x[0])).collect());
        // look-ups before an admission
        let can = set(&e["can"]);
        let (sample, probes) = (&self.sample, {
            let fill: Vec<i64> = (0..self.accs).flat_map(|a| {
                let n = fun(&e["n"], a).as_i64().unwrap();
                [1, 2, n / 16, n / 4, n / 2, n / 2 + 1, n - n / 8, n - 1, n].into_iter().filter(move |j| *j >= 1 && *j <= n).map(move |j| base(a) + 2 * j)
            }).collect();
            fill
        });
        with(&mut w, |acc| {
            cmp(&mut v, "count", i(&e["cnt"]) as u32, acc.get_nullifier_hash_count());
            cmp(&mut v, "pending", mv.is_empty(), acc.is_moved_nullifier_empty());
            for &k in sample {
                let got = acc.can_insert_nullifier_hash(key(k)).unwrap_or(false);
                cmp(&mut v, "lookup", (k, can.contains(&k)), (k, got));
            }
            for k in probes {
                let got = acc.can_insert_nullifier_hash(key(k)).unwrap_or(false);
                cmp(&mut v, "lookup", (k, false), (k, got));
            }
        });
        // each map: its entries, its order, its bounds
        for a in 0..self.accs {
            let n = fun(&e["n"], a).as_i64().unwrap();
            let ex = set(fun(&e["ex"], a));
            map(&w.children[a], |m| {
                let size = n + ex.len() as i64;
                cmp(&mut v, "map.empty", size == 0, m.is_empty());
                cmp(&mut v, "map.full", size == self.per, m.is_full());
                if size == 0 {
                    return;
                }
                let top = ex.iter().copied().chain((n > 0).then_some(base(a) + 2 * n)).max().unwrap();
                let low = ex.iter().copied().chain((n > 0).then_some(base(a) + 2)).min().unwrap();
                cmp(&mut v, "map.max", (a, top.to_string()), (a, unkey(&m.max().0)));
                cmp(&mut v, "map.min", (a, low.to_string()), (a, unkey(&m.min().0)));
                let has = |k: i64| ex.contains(&k) || (k > base(a) && k <= base(a) + 2 * n && k % 2 == 0);
                for &k in sample.iter().chain(&mv) {
                    cmp(&mut v, "map.has", (a, k, has(k)), (a, k, m.contains(&OrdU256(key(k))).is_some()));
                }
                // the largest entries come out in order
                if m.is_full() {
                    let mut want: Vec<i64> = ex.iter().copied().chain((1.max(n - 20)..=n).map(|j| base(a) + 2 * j)).collect();
                    want.sort();
                    let mut k = 0;
                    for x in want.iter().rev().take(20) {
                        // (below everything)
                        k += 1;
                        let mut low = [0u8; 32];
                        low[0] = 255 - k as u8;
                        match m.try_insert_default(OrdU256(low)) {
                            Ok(Some((o, _))) => cmp(&mut v, "map.order", (a, x.to_string()), (a, unkey(&o.0))),
                            _ => v.push(diff("map.order", x, "nothing is ousted")),
                        }
                    }
                }
            });
        }
        v
    }
}
