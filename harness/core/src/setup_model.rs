//! Binds spec/Setup.tla to the opening of accounts and the binding of data accounts.
use crate::engine::*;
use crate::svm::*;
use crate::world::*;
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::CommitmentHashRequest;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::token::Lamports;
use elusiv_types::{BorshSerDeSized, ElusivOption, PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use serde_json::{json, Value};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};

pub struct Setup {
    start: String,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
    base: u64,
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("no number: {v}"))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("no string: {v}"))
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn admin() -> Pubkey {
    k("admin")
}
const NAMES: [&str; 22] = [
    "s1", "s2", "m1", "m2", "n1", "n2", "n3", "sforeign", "spoor", "sshort", "slong", "sused", "mforeign", "mpoor", "mshort",
    "mlong", "mused", "nforeign", "npoor", "nshort", "nlong", "nused",
];
fn child(a: &str) -> Pubkey {
    kn("setup-child-", a)
}
fn size(a: &str) -> usize {
    let l = match &a[..1] {
        "s" => StorageChildAccount::SIZE,
        "m" => MetadataChildAccount::SIZE,
        _ => NullifierChildAccount::SIZE,
    };
    match &a[1..] {
        "short" => l - 1,
        "long" => l + 1,
        _ => l,
    }
}
fn dirty(a: &str) -> bool {
    ["s2", "m2", "n2", "n3"].contains(&a)
}
fn junk(n: usize) -> Vec<u8> {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x as u8
        })
        .collect()
}
fn parent(p: &str) -> (Pubkey, usize) {
    match p {
        "storage" => (storage(), STORAGE_CHILDREN),
        "metadata" => (metadata(), METADATA_CHILDREN),
        "null0" => (nullifier(0), 16),
        _ => (nullifier(1), 16),
    }
}
fn place(p: &str, s: &str) -> u32 {
    let n = parent(p).1 as u32;
    match s {
        "0" => 0,
        "1" => 1,
        "top" => n - 1,
        "over" => n,
        "over1" => n + 1,
        "over2" => 2 * n,
        _ => u32::MAX,
    }
}
fn children(b: &Bank, p: &str) -> Vec<Option<Pubkey>> {
    let (key, n) = parent(p);
    let mut d = b.data(&key);
    let f = |a: &dyn Fn(usize) -> Option<Pubkey>| (0..n).map(a).collect();
    match p {
        "storage" => {
            let a = StorageAccount::new(&mut d).unwrap();
            f(&|j| a.get_child_pubkey(j))
        }
        "metadata" => {
            let a = MetadataAccount::new(&mut d).unwrap();
            f(&|j| a.get_child_pubkey(j))
        }
        _ => {
            let a = NullifierAccount::new(&mut d).unwrap();
            f(&|j| a.get_child_pubkey(j))
        }
    }
}
fn schedule_of(s: &Value) -> ProgramFee {
    let n = |f: &str| i(&s[f]) as u64;
    ProgramFee {
        lamports_per_tx: Lamports(n("lpt")),
        base_commitment_subvention: Lamports(n("sub")),
        proof_subvention: Lamports(n("psub")),
        warden_hash_tx_reward: Lamports(n("hrew")),
        proof_base_tx_count: n("txs"),
        ..schedule(0)
    }
}
/// an empty set: whatever is inserted is found, nothing else
fn works_as_empty_set(d: &[u8]) -> Result<(), String> {
    let mut d = d[1..].to_vec();
    let mut m = NullifierMap::new(&mut d);
    let key = |n: u64| {
        let mut x = [0u8; 32];
        x[..8].copy_from_slice(&n.wrapping_mul(0x9E3779B97F4A7C15).to_le_bytes());
        x[24..32].copy_from_slice(&(n.wrapping_mul(0xD1B54A32D192ED03) >> 3).to_le_bytes());
        elusiv::types::OrdU256(x)
    };
    for n in 0..70 {
        if m.contains(&key(n)).is_some() {
            return Err(format!("{n} is found before its insertion"));
        }
        if m.try_insert_default(key(n)).is_err() {
            return Err(format!("{n} cannot be inserted"));
        }
        for j in 0..=n {
            if m.contains(&key(j)).is_none() {
                return Err(format!("{j} is not found after the insertion of {n}"));
            }
        }
    }
    Ok(())
}

impl Setup {
    pub fn new(c: &Value) -> Self {
        Setup { start: st(&c["Start"]).into() }
    }
    fn spoil(&self, v: &str, mut c: Instruction, from: usize, to: usize) -> Instruction {
        match v {
            "good" => {}
            "first" => c.accounts[from].pubkey = k("somebody"),
            "last" => c.accounts[to].pubkey = k("somebody"),
            "swapped" if from < to => {
                let p = c.accounts[from].pubkey;
                c.accounts[from].pubkey = c.accounts[to].pubkey;
                c.accounts[to].pubkey = p;
            }
            "swapped" => c.accounts[from].pubkey = nullifier(3),
            "unsigned" => c.accounts[0].is_signer = false,
            "broke" => c.accounts[0].pubkey = k("broke"),
            x => panic!("{x}"),
        }
        c
    }
    fn bind(&self, p: &str, s: &str, a: &str) -> Instruction {
        let n = place(p, s);
        let d = match p {
            "storage" => I::EnableStorageChildAccount { child_index: n },
            "metadata" => I::EnableMetadataChildAccount { child_index: n },
            _ => I::EnableNullifierChildAccount { mt_index: (p == "null1") as u32, child_index: n },
        };
        ix(&d, vec![w(parent(p).0), w(child(a))])
    }
    fn act(&self, b: &mut Bank, a: &Value) -> Result<(), String> {
        let v = a.get("v").map_or("good", st);
        let sys = || r(system_program::ID);
        let ixs = match st(&a["n"]) {
            "Single" => vec![self.spoil(v, ix(&I::OpenSingleInstanceAccounts, open_single_metas(admin())), 1, 6)],
            "Governor" => vec![self.spoil(v, ix(&I::SetupGovernorAccount, vec![sw(admin()), w(governor()), sys()]), 1, 1)],
            "Nullifier" => {
                let n = i(&a["i"]) as u32;
                vec![self.spoil(v, ix(&I::OpenNullifierAccount { mt_index: n }, vec![sw(admin()), w(nullifier(n)), sys()]), 1, 1)]
            }
            "Later" => vec![self.spoil(v, ix(&I::CreateNewAccountsV1, accounts_v1_metas(admin())), 1, 3)],
            "Fee" => {
                let n = i(&a["w"]) as u32;
                let d = I::InitNewFeeVersion { fee_version: n, program_fee: schedule_of(&a["s"]) };
                vec![self.spoil(v, ix(&d, vec![sw(admin()), w(governor()), w(fee(n)), sys()]), 1, 2)]
            }
            "Bind" => {
                let p = st(&a["p"]);
                let mut c = self.bind(p, st(&a["s"]), st(&a["a"]));
                match v {
                    "good" => {}
                    "still" => c.accounts[0].is_writable = false,
                    "fixed" => c.accounts[1].is_writable = false,
                    _ => {
                        let o = ["storage", "metadata", "null0", "null1"];
                        c.accounts[0].pubkey = parent(o[o.iter().position(|x| *x == p).unwrap() ^ 1]).0;
                    }
                }
                vec![c]
            }
            "Twice" => vec![self.bind(st(&a["p"]), st(&a["s"]), st(&a["a"])), self.bind(st(&a["q"]), st(&a["t"]), st(&a["a"]))],
            "Over" => vec![self.bind(st(&a["p"]), st(&a["s"]), st(&a["a"])), self.bind(st(&a["p"]), st(&a["s"]), st(&a["b"]))],
            "Never" => {
                let who = k("stranger");
                let taken = NAMES.iter().find(|x| b.exists(&child(x)) && b.data(&child(x))[0] == 1).unwrap_or(&"s1");
                match st(&a["x"]) {
                    "close" => vec![ix(&I::CloseProgramAccount, vec![s(who), w(who), w(pool()), sys()])],
                    "closechild" => vec![ix(&I::CloseProgramAccount, vec![s(admin()), w(admin()), w(child(taken)), sys()])],
                    "archive" => vec![ix(
                        &I::ArchiveClosedMerkleTree { closed_mt_index: 0 },
                        vec![sw(admin()), w(storage()), w(nullifier(0)), w(k("somewhere")), sys()],
                    )],
                    _ => vec![ix(&I::UpgradeGovernorState { fee_version: 1, batching_rate: 2 }, vec![s(admin()), w(governor()), r(queue())])],
                }
            }
            "Meanwhile" => {
                let zeros = |b: &mut Bank, key: Pubkey| edit(b, &key, |d| d[2..].fill(0));
                match st(&a["x"]) {
                    "queue" => edit(b, &queue(), |d| {
                        let mut q = CommitmentQueueAccount::new(d).unwrap();
                        let e = CommitmentHashRequest { commitment: [3; 32], fee_version: 0, min_batching_rate: 0 };
                        CommitmentQueue::new(&mut q).enqueue(e).unwrap_or_else(|_| panic!("enqueue"));
                    }),
                    "hash" => edit(b, &hashing(), |d| CommitmentHashingAccount::new(d).unwrap().set_is_active(&true)),
                    "idle" => {
                        zeros(b, queue());
                        zeros(b, hashing());
                    }
                    "leaves" => edit(b, &storage(), |d| StorageAccount::new(d).unwrap().set_next_commitment_ptr(&7)),
                    _ => edit(b, &governor(), |d| GovernorAccount::new(d).unwrap().set_fee_version(&1)),
                }
                return Ok(());
            }
            x => panic!("action {x}"),
        };
        b.tx(&ixs).map_err(|e| format!("{e:?}"))
    }
}

impl Model for Setup {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, _s: &Value) -> W {
        register();
        let mut b = Bank::new();
        b.airdrop(&admin(), 1_000_000 * SOL);
        b.airdrop(&k("broke"), 900_000);
        b.airdrop(&k("stranger"), SOL);
        for a in NAMES {
            let l = size(a);
            b.set_zeros(child(a), l, if a.ends_with("foreign") { k("another-program") } else { elusiv::id() });
            let x = b.accts.get_mut(&child(a)).unwrap();
            x.lamports = Bank::rent(l) - a.ends_with("poor") as u64;
            if dirty(a) {
                x.data.write(1, &junk(l - 1));
            }
            if a.ends_with("used") {
                x.data.write(0, &[1]);
            }
        }
        let base = b.lamports(&admin());
        let mut run = |a: Value| {
            if let Err(e) = self.act(&mut b, &a) {
                panic!("{a} of the start is refused: {e}");
            }
        };
        if self.start != "none" {
            run(json!({"n": "Single"}));
            run(json!({"n": "Governor"}));
        }
        if self.start == "all" {
            run(json!({"n": "Fee", "w": 0, "s": {"lpt": 5000, "hrew": 400, "sub": 10000, "psub": 30000, "txs": 62}}));
            run(json!({"n": "Nullifier", "i": 0}));
            run(json!({"n": "Nullifier", "i": 1}));
            run(json!({"n": "Later"}));
        }
        let base = if self.start == "none" { base } else { b.lamports(&admin()) };
        W { b, base }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        self.act(&mut w.b, a)
    }
    fn check(&self, w: &W, e: &Value, a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let b = &w.b;
        let (o, env) = (&e["o"], &e["env"]);
        let (single, gov, v1) = (o["single"] == true, o["gov"] == true, o["v1"] == true);
        let ours = |key: &Pubkey| b.exists(key).then(|| b.get(key).unwrap().owner == elusiv::id());
        let open = |v: &mut Vec<Diff>, f: &str, want: bool, key: Pubkey| {
            cmp(v, f, (key, want.then_some(true)), (key, ours(&key)));
            want && b.exists(&key)
        };
        // the empty state: nothing but the bump (and version 0)
        let empty = |v: &mut Vec<Diff>, key: Pubkey, bump: u8, size: usize, from: usize, but: &[(usize, Vec<u8>)]| {
            let d = b.data(&key);
            cmp(v, "empty.size", (key, size), (key, d.len()));
            let mut want = vec![0; size];
            want[0] = bump;
            for (at, x) in but {
                want[*at..at + x.len()].copy_from_slice(x);
            }
            let at = (0..size.min(d.len())).find(|j| (*j < 2 || *j >= from) && want[*j] != d[*j]);
            cmp(v, "empty.bytes", (key, None), (key, at));
        };
        macro_rules! one {
            ($field:expr, $want:expr, $key:expr, $T:ident, $off:expr, $from:expr, $but:expr, $see:expr) => {
                if open(&mut v, $field, $want, $key) && $see {
                    empty(&mut v, $key, $T::find($off).1, $T::SIZE, $from, $but);
                }
            };
        }
        one!("open.pool", single, pool(), PoolAccount, None, 2, &[], true);
        one!("open.collector", single, collector(), FeeCollectorAccount, None, 2, &[], true);
        one!("open.hashing", single, hashing(), CommitmentHashingAccount, None, 2, &[], env["hashing"] == false);
        one!("open.queue", single, queue(), CommitmentQueueAccount, None, 2, &[], env["queued"] == false);
        one!("open.base", single, base_buffer(), BaseCommitmentBufferAccount, None, 2, &[], true);
        one!("open.buffer", v1, buffer(), CommitmentBufferAccount, None, 2, &[], true);
        one!("open.mqueue", v1, mqueue(), MetadataQueueAccount, None, 2, &[], true);
        let le = |x: &Value| (i(x) as u32).to_le_bytes().to_vec();
        let (ps, pm, pn) = (2 + 33 * STORAGE_CHILDREN, 2 + 33 * METADATA_CHILDREN, 2 + 33 * 16);
        assert_eq!(<ElusivOption<Pubkey> as BorshSerDeSized>::SIZE, 33);
        one!("open.storage", single, storage(), StorageAccount, None, ps, &[(ps, le(&env["ptr"]))], true);
        one!("open.metadata", v1, metadata(), MetadataAccount, None, pm, &[(pm, le(&e["mptr"]))], true);
        let nulls: Vec<i64> = arr(&o["nulls"]).iter().map(i).collect();
        for n in 0..4u32 {
            one!("open.nullifier", nulls.contains(&(n as i64)), nullifier(n), NullifierAccount, Some(n), pn, &[], true);
        }
        if open(&mut v, "open.governor", gov, governor()) {
            let mut d = b.data(&governor());
            let g = GovernorAccount::new(&mut d).unwrap();
            cmp(&mut v, "governor.version", i(&env["ver"]), g.get_fee_version() as i64);
            cmp(&mut v, "governor.rate", 0, g.get_commitment_batching_rate());
            let none = o["gsched"]["txs"] == 0;
            let want = if none { vec![0; ProgramFee::SIZE] } else { borsh(&schedule_of(&o["gsched"])) };
            cmp(&mut v, "governor.fee", want, borsh(&g.get_program_fee()));
        }
        for x in arr(&e["fees"]) {
            let n = i(&x[0]) as u32;
            if open(&mut v, "open.fee", x[1]["txs"] != 0, fee(n)) {
                empty(&mut v, fee(n), FeeAccount::find(Some(n)).1, FeeAccount::SIZE, 2, &[(2, borsh(&schedule_of(&x[1])))]);
            }
        }
        // children
        for p in ["storage", "metadata", "null0", "null1"] {
            if !b.exists(&parent(p).0) {
                continue;
            }
            let mut want = vec![None; parent(p).1];
            for x in arr(&e["slot"]) {
                if st(&x[0]) == p && st(&x[2]) != "" {
                    want[place(p, st(&x[1])) as usize] = Some(child(st(&x[2])));
                }
            }
            cmp(&mut v, "children", (p, want), (p, children(b, p)));
        }
        let used: Vec<&str> = e["used"].as_array().unwrap().iter().map(st).collect();
        for n in NAMES {
            let x = b.get(&child(n)).unwrap();
            if n.len() > 2 && !n.ends_with("used") {
                cmp(&mut v, "child.used", (n, 0), (n, x.data.slice(0, 1)[0]));
            } else if n.len() == 2 {
                cmp(&mut v, "child.used", (n, used.contains(&n) as u8), (n, x.data.slice(0, 1)[0]));
            }
            cmp(&mut v, "child.size", (n, size(n)), (n, b.get(&child(n)).unwrap().data.len()));
        }
        if a["n"] == "Bind" && a["ok"] == true && st(&a["p"]).starts_with("null") {
            let d = b.data(&child(st(&a["a"])));
            cmp(&mut v, "child.empty", Ok(()), works_as_empty_set(&d));
        }
        // money
        let rent = |sizes: &[usize]| sizes.iter().map(|l| Bank::rent(*l)).sum::<u64>();
        let mut paid = 0;
        for x in arr(&e["net"]) {
            paid += match st(&x) {
                "single" => rent(&[
                    PoolAccount::SIZE,
                    FeeCollectorAccount::SIZE,
                    CommitmentHashingAccount::SIZE,
                    CommitmentQueueAccount::SIZE,
                    StorageAccount::SIZE,
                    BaseCommitmentBufferAccount::SIZE,
                ]),
                "gov" => rent(&[GovernorAccount::SIZE]),
                "v1" => rent(&[CommitmentBufferAccount::SIZE, MetadataQueueAccount::SIZE, MetadataAccount::SIZE]),
                x if x.starts_with("fee") => rent(&[FeeAccount::SIZE]),
                _ => rent(&[NullifierAccount::SIZE]),
            };
        }
        cmp(&mut v, "money", w.base - paid, b.lamports(&admin()));
        v
    }
}
fn borsh<T: ::borsh::BorshSerialize>(x: &T) -> Vec<u8> {
    x.try_to_vec().unwrap()
}
