//! Binds spec/Core.tla to the program.
use crate::acct;
use crate::engine::*;
use crate::refhash::{self, mr_bytes, opaque, poseidon, raw_bytes, RefTree};
use crate::svm::{Bank, TxError};
use crate::world::*;
use ark_bn254::Fr;
use ark_ff::{BigInteger256, PrimeField};
use elusiv::buffer::RingBuffer;
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::{BaseCommitmentHashRequest, CommitmentHashRequest};
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::program_account::ProgramAccount;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::types::RawU256;
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::HashMap;
use std::sync::Mutex;

pub struct Scenario {
    pub qfill: i64,
    pub wfill: usize,
    pub ptr: usize,
    pub meta: usize,
    pub trees: u32,
    pub rate: u32,
    pub head: usize, // physical position of the queue's first element
    pub idx: usize,
}

#[derive(Clone)]
pub struct W {
    pub bank: Bank,
    /// commitments of the deposits 1..; metadata of them is `meta_of`
    pub cids: Vec<Fr>,
    /// amounts that the specification does not count: pool, collector, sender x (lamports, token)
    extra: [[i128; 2]; 3],
    base: [[i128; 2]; 5], // balances at the start: pool, collector, sender, warden 1, 2
}

pub struct Core {
    pub sc: Scenario,
    trees: Mutex<HashMap<(u32, usize, Vec<i64>, u64), RefTree>>,
}

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("integer expected: {v}"))
}
fn arr(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        Value::Object(o) if o.is_empty() => vec![],
        // TLC prints functions over 1..n as arrays but others as objects
        Value::Object(o) => {
            let mut x: Vec<(i64, Value)> = o.iter().map(|(k, v)| (k.parse().unwrap(), v.clone())).collect();
            x.sort_by_key(|a| a.0);
            x.into_iter().map(|a| a.1).collect()
        }
        v => panic!("array expected: {v}"),
    }
}

pub fn base_raw(b: i64) -> [u8; 32] {
    match b {
        -1 => raw_bytes(&poseidon(Fr::from(0u64), Fr::from(0u64))),
        -2 => refhash::limbs_bytes(&<ark_bn254::FrParameters as ark_ff::FpParameters>::MODULUS),
        -3 => [255; 32],
        b => raw_bytes(&opaque(77, b as usize)),
    }
}
pub fn fill_commitment(k: i64) -> Fr {
    opaque(78, k as usize)
}
pub fn meta_of(id: i64) -> [u8; 17] {
    // the metadata may be anything, also zeros only
    if id == 2 || id == -3 {
        return [0; 17];
    }
    let mut m = [0xa0; 17];
    m[..8].copy_from_slice(&id.to_le_bytes());
    m[16] = (id & 0xff) as u8 ^ 0x5a;
    m
}
pub fn commitment_of(base: &[u8; 32], amount: u64, token: u16, recent: u32) -> Fr {
    let b = Fr::from_repr(refhash::le_limbs(base)).unwrap();
    let v = Fr::from_repr(BigInteger256([amount, token as u64 + ((recent as u64) << 16), 0, 0])).unwrap();
    poseidon(b, v)
}
pub fn amount(cls: &str, tok: u16) -> u64 {
    let max: u64 = if tok == 0 { 360_000_000_000 } else { 8_000_000_000 };
    match cls {
        "min" => 1000,
        "mid" => 77_777,
        "max" => max,
        "below" => 999,
        "above" => max + 1,
        "huge" => u64::MAX,
        c => panic!("amount class {c}"),
    }
}

fn sender() -> Pubkey {
    k("sender")
}
fn warden(n: i64) -> Pubkey {
    kn("warden-", n)
}

impl Core {
    pub fn new(c: &Value) -> Self {
        let g = |n: &str| i(&c[n]);
        Core {
            sc: Scenario {
                qfill: g("QFill0"),
                wfill: g("WFill0") as usize,
                ptr: g("Ptr0") as usize,
                meta: g("Meta0") as usize,
                trees: g("Trees0") as u32,
                rate: g("Rate") as u32,
                head: c["Head"].as_i64().unwrap_or(0) as usize,
                idx: arr(&c["Idx"]).len(),
            },
            trees: Mutex::new(HashMap::new()),
        }
    }

    fn cid(&self, w: &W, id: i64) -> Fr {
        if id < 0 {
            fill_commitment(-id)
        } else {
            w.cids[id as usize - 1]
        }
    }

    fn balances(&self, b: &Bank) -> [[i128; 2]; 5] {
        let own = |p: Pubkey| [b.lamports(&p) as i128, b.token_balance(&ata(&p, 1)) as i128];
        let mut v = [own(pool()), own(collector()), own(sender()), own(warden(1)), own(warden(2))];
        // rent of the hashing accounts belongs to the warden that opened them
        for x in 0..self.sc.idx {
            let (key, _) = base_hashing(x as u32 + 1);
            if b.exists(&key) {
                acct!(b, key, BaseCommitmentHashingAccount, a);
                let p = Pubkey::new_from_array(a.get_fee_payer());
                for n in 1..=2 {
                    if p == warden(n) {
                        v[2 + n as usize][0] += b.lamports(&key) as i128;
                    }
                }
            }
        }
        v
    }

    /// the reference tree with the initial opaque leaves (if it is the initial tree) and the given ones
    fn ref_tree(&self, tree: u32, leaves: &[(i64, Fr)]) -> RefTree {
        let start = if tree == self.sc.trees { self.sc.ptr } else { 0 };
        let mut t = RefTree::with_opaque(start);
        let mut ids = vec![];
        let mut h = 0u64;
        for (id, f) in leaves {
            ids.push(*id);
            h = h.wrapping_mul(0x100000001b3) ^ f.0 .0[0] ^ f.0 .0[2].rotate_left(7);
            let key = (tree, start, ids.clone(), h);
            if let Some(x) = self.trees.lock().unwrap().get(&key) {
                t = x.clone();
                continue;
            }
            t.push(*f);
            self.trees.lock().unwrap().insert(key, t.clone());
        }
        t
    }
}

fn err(e: TxError) -> String {
    format!("{e:?}")
}

impl Model for Core {
    type W = W;
    fn thread_init(&self) {
        register();
    }

    fn init(&self, _st: &Value) -> W {
        let sc = &self.sc;
        let mut b = deployed();
        person(&mut b, sender(), 1_000_000 * SOL, 1 << 50);
        person(&mut b, k("poor"), 890_880 + 1000, 500);
        person(&mut b, warden(1), 100_000 * SOL, 1 << 40);
        person(&mut b, warden(2), 100_000 * SOL, 1 << 40);
        person(&mut b, k("attacker"), 10 * SOL, 0);
        b.airdrop(&collector(), 10 * SOL);
        b.set_token_account(ata(&collector(), 1), mint(1), collector(), 1 << 40);
        set_rate(&mut b, sc.rate);
        // the fees of the commitments that are queued at the start
        let s = [24u64, 24, 25, 29, 37][sc.rate as usize];
        let batch = 1u64 << sc.rate;
        b.airdrop(&pool(), sc.qfill as u64 * ((s * 5400 + batch - 1) / batch));
        edit(&mut b, &queue(), |d| {
            let mut a = CommitmentQueueAccount::new(d).unwrap();
            let mut q = CommitmentQueue::new(&mut a);
            let dummy = CommitmentHashRequest { commitment: [9; 32], fee_version: 0, min_batching_rate: 0 };
            for _ in 0..sc.head {
                q.enqueue(dummy).unwrap();
                q.dequeue_first().unwrap();
            }
            for k in 1..=sc.qfill {
                q.enqueue(CommitmentHashRequest {
                    commitment: mr_bytes(&fill_commitment(k)),
                    fee_version: 0,
                    min_batching_rate: sc.rate,
                })
                .unwrap();
            }
        });
        edit(&mut b, &mqueue(), |d| {
            let mut a = MetadataQueueAccount::new(d).unwrap();
            let mut q = MetadataQueue::new(&mut a);
            for _ in 0..sc.head {
                q.enqueue([9; 17]).unwrap();
                q.dequeue_first().unwrap();
            }
            for k in 1..=sc.qfill {
                q.enqueue(meta_of(-k)).unwrap();
            }
        });
        edit(&mut b, &base_buffer(), |d| {
            let mut a = BaseCommitmentBufferAccount::new(d).unwrap();
            for k in 1..=sc.wfill {
                assert!(a.try_insert(&base_raw(k as i64)).is_ok());
            }
        });
        edit(&mut b, &metadata(), |d| MetadataAccount::new(d).unwrap().set_next_metadata_ptr(&(sc.meta as u32)));
        // the active tree
        let t = RefTree::with_opaque(sc.ptr);
        for (&(h, x), f) in &t.nodes {
            write_node(&mut b, 20 - h, x, &mr_bytes(f));
        }
        edit(&mut b, &storage(), |d| {
            let mut a = StorageAccount::new(d).unwrap();
            a.set_next_commitment_ptr(&(sc.ptr as u32));
            a.set_trees_count(&sc.trees);
            let n = sc.ptr >> sc.rate;
            a.set_mt_roots_count(&(n as u32));
            for j in n.saturating_sub(HISTORY_ARRAY_SIZE)..n {
                let f = if j + 1 == n { t.root() } else { opaque(79, j) };
                a.set_active_mt_root_history(j % HISTORY_ARRAY_SIZE, &mr_bytes(&f));
            }
        });
        let base = self.balances(&b);
        W { bank: b, cids: vec![], extra: [[0; 2]; 3], base }
    }

    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        let sc = &self.sc;
        match a["n"].as_str().unwrap() {
            "Deposit" => {
                let tok = i(&a["tok"]) as u16;
                let amt = amount(a["amt"].as_str().unwrap(), tok);
                let base = base_raw(i(&a["base"]));
                let rec = i(&a["rec"]) as u32;
                let com = if a["com"] == "ok" { raw_bytes(&opaque(80, 1)) } else { base_raw(-2) };
                let idx = i(&a["i"]) as u32;
                let (key, bump) = base_hashing(idx);
                let who = a["who"].as_str().unwrap();
                let fp = warden(i(&a["w"]));
                let p = match who {
                    "poor" => k("poor"),
                    "self" => fp,
                    _ => sender(),
                };
                let sig = a["sig"].as_str().unwrap();
                let pool_account = if who == "wrongpool" { holding(&k("attacker"), tok) } else { holding(&pool(), tok) };
                let coll_account =
                    if who == "wrongcoll" { holding(&k("attacker"), tok) } else { holding(&collector(), tok) };
                let tp = if tok as usize >= 13 { system_program::ID } else { token_program(tok) };
                let n = w.cids.len() as i64 + 1;
                let inst = ix(
                    &I::StoreBaseCommitment {
                        hash_account_index: idx,
                        hash_account_bump: bump,
                        request: BaseCommitmentHashRequest {
                            base_commitment: RawU256::new(base),
                            recent_commitment_index: rec,
                            amount: amt,
                            token_id: tok,
                            commitment: RawU256::new(com),
                            fee_version: i(&a["fv"]) as u32,
                            min_batching_rate: i(&a["rate"]) as u32,
                        },
                        metadata: meta_of(n),
                    },
                    vec![
                        crate::svm::meta(p, sig != "payer", false),
                        w_(holding(&p, tok)),
                        crate::svm::meta(fp, sig != "sender", true),
                        w_(holding(&fp, tok)),
                        w_(pool()),
                        w_(pool_account),
                        w_(collector()),
                        w_(coll_account),
                        r(price_key(0)),
                        r(price_key(tok)),
                        r(governor()),
                        r(storage()),
                        w_(key),
                        w_(base_buffer()),
                        r(tp),
                        r(system_program::ID),
                    ],
                );
                w.bank.tx(&[inst]).map_err(err)?;
                w.cids.push(commitment_of(&base, amt, tok, rec));
                if a["amt"] == "max" {
                    let bp: u128 = if i(&a["cur"]) == 0 { 120 } else { 35 };
                    let net = (bp * amt as u128 / 10_000) as i128;
                    let t = (tok != 0) as usize;
                    w.extra[0][t] += amt as i128;
                    w.extra[1][t] += net;
                    w.extra[2][t] -= amt as i128 + net;
                }
                Ok(())
            }
            "ComputeBase" => {
                let idx = i(&a["i"]) as u32;
                w.bank
                    .tx(&[ix(&I::ComputeBaseCommitmentHash { hash_account_index: idx }, vec![w_(base_hashing(idx).0)])])
                    .map_err(err)
            }
            "FinalizeBase" => {
                let idx = i(&a["i"]) as u32;
                let fv = i(&a["fv"]) as u32;
                w.bank
                    .tx(&[ix(
                        &I::FinalizeBaseCommitmentHash { hash_account_index: idx, fee_version: fv },
                        vec![
                            w_(warden(i(&a["w"]))),
                            w_(pool()),
                            r(fee(fv)),
                            w_(base_hashing(idx).0),
                            w_(queue()),
                            w_(mqueue()),
                        ],
                    )])
                    .map_err(err)
            }
            "Setup" => {
                acct!(w.bank, storage(), StorageAccount, st);
                let ptr = st.get_next_commitment_ptr() as usize;
                let mut m = vec![w_(hashing()), r(storage())];
                m.extend(storage_children_for(ptr, 1).into_iter().map(|c| r(storage_child(c))));
                w.bank
                    .tx(&[ix(&I::InitCommitmentHashSetup { insertion_can_fail: a["cf"].as_bool().unwrap() }, m)])
                    .map_err(err)
            }
            "InitHash" => {
                acct!(w.bank, metadata(), MetadataAccount, md);
                let first = md.get_next_metadata_ptr() as usize / PER_METADATA_CHILD;
                let mut m = vec![w_(queue()), w_(mqueue()), w_(hashing()), w_(metadata())];
                for c in first..(first + 2).min(METADATA_CHILDREN) {
                    m.push(w_(metadata_child(c)));
                }
                w.bank
                    .tx(&[ix(&I::InitCommitmentHash { insertion_can_fail: a["cf"].as_bool().unwrap() }, m)])
                    .map_err(err)
            }
            "ComputeHash" => {
                let fv = i(&a["fv"]) as u32;
                let ixs: Vec<_> = (0..i(&a["times"]))
                    .map(|n| {
                        ix(
                            &I::ComputeCommitmentHash { fee_version: fv, nonce: n as u32 },
                            vec![sw(warden(i(&a["w"]))), r(fee(fv)), w_(pool()), w_(hashing())],
                        )
                    })
                    .collect();
                w.bank.tx(&ixs).map_err(err)
            }
            "FinalizeHash" => {
                acct!(w.bank, hashing(), CommitmentHashingAccount, h);
                let mut m = vec![w_(hashing()), w_(storage())];
                m.extend(
                    storage_children_for(h.get_ordering() as usize, 1 << sc.rate).into_iter().map(|c| w_(storage_child(c))),
                );
                let ixs: Vec<_> = (0..i(&a["times"])).map(|_| ix(&I::FinalizeCommitmentHash, m.clone())).collect();
                w.bank.tx(&ixs).map_err(err)
            }
            "Reset" => {
                let t = i(&a["tree"]) as u32;
                w.bank
                    .tx(&[ix(
                        &I::ResetActiveMerkleTree { active_mt_index: t },
                        vec![w_(storage()), w_(storage_child(0)), w_(queue()), w_(nullifier(t))],
                    )])
                    .map_err(err)
            }
            "Upgrade" => {
                upgrade_fee(&mut w.bank, 1);
                Ok(())
            }
            x => panic!("unknown action {x}"),
        }
    }

    fn check(&self, w: &W, e: &Value, _act: &Value) -> Vec<Diff> {
        let sc = &self.sc;
        let b = &w.bank;
        let mut v = vec![];
        // deposits being hashed
        for (x, d) in arr(&e["dep"]).iter().enumerate() {
            let key = base_hashing(x as u32 + 1).0;
            let on = d["on"].as_bool().unwrap();
            cmp(&mut v, "dep.open", on, b.exists(&key));
            if on && b.exists(&key) {
                acct!(b, key, BaseCommitmentHashingAccount, h);
                cmp(&mut v, "dep.active", true, h.get_is_active());
                cmp(&mut v, "dep.step", i(&d["step"]), h.get_instruction() as i64);
                cmp(&mut v, "dep.payer", warden(i(&d["w"])), Pubkey::new_from_array(h.get_fee_payer()));
                cmp(&mut v, "dep.fv", i(&d["fv"]), h.get_fee_version() as i64);
                cmp(&mut v, "dep.rate", sc.rate, h.get_min_batching_rate());
                cmp(&mut v, "dep.meta", meta_of(i(&d["d"])), h.get_metadata());
                if i(&d["step"]) == 2 {
                    cmp(&mut v, "dep.hash", mr_bytes(&self.cid(w, i(&d["d"]))), mr_bytes(&h.get_state().result()));
                }
            }
        }
        // queues
        let fill = i(&e["fill"]);
        let mut want: Vec<(i64, i64)> = (0..fill).map(|x| (-(sc.qfill - fill + 1 + x), 0)).collect();
        let mut wantm: Vec<i64> = want.iter().map(|x| x.0).collect();
        want.extend(arr(&e["queue"]).iter().map(|x| (i(&x["c"]), i(&x["fv"]))));
        wantm.extend(arr(&e["mqueue"]).iter().map(i));
        {
            let mut d = b.data(&queue());
            let mut a = CommitmentQueueAccount::new(&mut d).unwrap();
            let q = CommitmentQueue::new(&mut a);
            cmp(&mut v, "queue.len", want.len(), q.len() as usize);
            for (x, (c, fv)) in want.iter().enumerate() {
                match q.view(x) {
                    Ok(rq) => {
                        cmp(&mut v, "queue.commitment", mr_bytes(&self.cid(w, *c)), rq.commitment);
                        cmp(&mut v, "queue.fv", *fv, rq.fee_version as i64);
                        cmp(&mut v, "queue.rate", sc.rate, rq.min_batching_rate);
                    }
                    Err(_) => cmp(&mut v, "queue.commitment", x, usize::MAX),
                }
            }
        }
        {
            let mut d = b.data(&mqueue());
            let mut a = MetadataQueueAccount::new(&mut d).unwrap();
            let q = MetadataQueue::new(&mut a);
            cmp(&mut v, "mqueue.len", wantm.len(), q.len() as usize);
            for (x, c) in wantm.iter().enumerate() {
                match q.view(x) {
                    Ok(m) => cmp(&mut v, "mqueue.metadata", meta_of(*c), m),
                    Err(_) => cmp(&mut v, "mqueue.metadata", x, usize::MAX),
                }
            }
        }
        // the insertion in progress
        {
            acct!(b, hashing(), CommitmentHashingAccount, h);
            let hs = &e["hs"];
            cmp(&mut v, "hs.active", hs["active"].as_bool().unwrap(), h.get_is_active());
            cmp(&mut v, "hs.setup", hs["setup"].as_bool().unwrap(), h.get_setup());
            cmp(&mut v, "hs.step", i(&hs["step"]), h.get_instruction() as i64);
            cmp(&mut v, "hs.ord", i(&hs["ord"]), h.get_ordering() as i64);
            if hs["active"].as_bool().unwrap() {
                cmp(&mut v, "hs.fv", i(&hs["fv"]), h.get_fee_version() as i64);
                cmp(&mut v, "hs.rate", sc.rate, h.get_batching_rate());
                for (x, c) in arr(&hs["batch"]).iter().enumerate() {
                    cmp(&mut v, "hs.batch", mr_bytes(&self.cid(w, i(&c["c"]))), h.get_hash_tree(x));
                }
            }
        }
        // the tree
        let trees = i(&e["trees"]) as u32;
        let mut per_tree: HashMap<u32, Vec<(i64, Fr)>> = HashMap::new();
        for l in arr(&e["leaves"]) {
            let c = i(&l["c"]);
            per_tree.entry(i(&l["tree"]) as u32).or_default().push((c, self.cid(w, c)));
        }
        {
            acct!(b, storage(), StorageAccount, st);
            let ptr = i(&e["ptr"]) as usize;
            cmp(&mut v, "ptr", ptr, st.get_next_commitment_ptr() as usize);
            cmp(&mut v, "nroots", i(&e["nroots"]), st.get_mt_roots_count() as i64);
            cmp(&mut v, "trees", trees, st.get_trees_count());
            let leaves = per_tree.get(&trees).cloned().unwrap_or_default();
            let t = self.ref_tree(trees, &leaves);
            let start = if trees == sc.trees { sc.ptr } else { 0 };
            if ptr > 0 {
                cmp(&mut v, "root", mr_bytes(&t.root()), read_node(b, 0, 0));
            }
            for (x, (_, f)) in leaves.iter().enumerate() {
                cmp(&mut v, "leaf", mr_bytes(f), read_node(b, 20, start + x));
                for h in 1..20 {
                    let n = (start + x) >> h;
                    cmp(&mut v, "node", mr_bytes(&t.get(h, n)), read_node(b, 20 - h, n));
                }
            }
            // recent roots
            let n = i(&e["nroots"]) as usize;
            let n0 = start >> sc.rate;
            let batch = 1usize << sc.rate;
            let mut want: Vec<[u8; 32]> = vec![];
            for j in n.saturating_sub(HISTORY_ARRAY_SIZE)..n {
                let f = if j >= n0 {
                    self.ref_tree(trees, &leaves[..((j - n0 + 1) * batch).min(leaves.len())]).root()
                } else if j + 1 == n0 {
                    RefTree::with_opaque(start).root()
                } else {
                    opaque(79, j)
                };
                want.push(mr_bytes(&f));
            }
            let mut got: Vec<[u8; 32]> = (0..n.min(HISTORY_ARRAY_SIZE)).map(|x| st.get_active_mt_root_history(x)).collect();
            want.sort();
            got.sort();
            cmp(&mut v, "history", want, got);
        }
        for c in arr(&e["closed"]) {
            let tree = i(&c["tree"]) as u32;
            let leaves = per_tree.get(&tree).cloned().unwrap_or_default();
            let t = self.ref_tree(tree, &leaves);
            acct!(b, nullifier(tree), NullifierAccount, n);
            cmp(&mut v, "closed.root", mr_bytes(&t.root()), n.get_root());
        }
        {
            // trees that are not closed have no final root
            acct!(b, nullifier(trees), NullifierAccount, n);
            cmp(&mut v, "open.root", [0; 32], n.get_root());
        }
        // metadata
        {
            acct!(b, metadata(), MetadataAccount, m);
            cmp(&mut v, "metaptr", i(&e["metaptr"]), m.get_next_metadata_ptr() as i64);
        }
        for m in arr(&e["metas"]) {
            cmp(&mut v, "meta", meta_of(i(&m["m"])), read_metadata(b, i(&m["at"]) as usize));
        }
        // duplicate window
        {
            acct!(b, base_buffer(), BaseCommitmentBufferAccount, a);
            let adm = i(&e["adm"]) as usize;
            cmp(&mut v, "window.len", adm.min(128), RingBuffer::len(&a));
        }
        // fee version
        {
            acct!(b, governor(), GovernorAccount, g);
            cmp(&mut v, "gov", i(&e["gov"]), g.get_fee_version() as i64);
        }
        // money
        let now = self.balances(b);
        let names = ["money.pool", "money.collector", "money.sender", "money.warden", "money.warden"];
        let exp = [&e["pool"], &e["coll"], &e["snd"], &arr(&e["war"])[0], &arr(&e["war"])[1]];
        for x in 0..5 {
            for t in 0..2 {
                let extra = if x < 3 { w.extra[x][t] } else { 0 };
                let got = now[x][t] - self_base(w, x, t) - extra;
                let f = format!("{}.{}", names[x], ["lamports", "token"][t]);
                cmp(&mut v, &f, i(&exp[x][t]) as i128, got);
            }
        }
        v
    }
}

fn self_base(w: &W, x: usize, t: usize) -> i128 {
    w.base[x][t]
}

fn w_(p: Pubkey) -> solana_program::instruction::AccountMeta {
    crate::world::w(p)
}
