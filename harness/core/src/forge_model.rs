//! Binds spec/Accounts.tla: instructions of accepted histories, with other accounts in their places.
use crate::core_model::Core;
use crate::engine::*;
use crate::setup_model::Setup;
use crate::spend_model::Spend;
use crate::svm::*;
use crate::vkey_model::Vkey;
use crate::world::*;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv_types::PDAAccount;
use serde_json::{json, Value};
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};
use std::collections::HashMap;

struct Baseline {
    name: String,
    bank: Bank,
    tx: Vec<Instruction>,
    at: usize,
    names: Vec<String>,
}
pub struct Forge {
    all: HashMap<String, Baseline>,
    who: HashMap<String, Pubkey>,
}
#[derive(Clone)]
pub struct W {
    seen: Option<(String, Vec<String>)>,
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("no string: {v}"))
}
const TAGS: [&str; 34] = [
    "Store", "BaseHash", "BaseDone", "Setup", "Start", "Hash", "Done", "SpendInit", "SpendFee", "SpendProof", "Compute", "Send", "Insert",
    "Lamports", "Token", "VkeyCreate", "VkeyNew", "VkeyUpdate", "VkeySet", "VkeyFreeze", "VkeyAuthority", "Reset", "Archive", "OpenSingle",
    "OpenNull", "BindStorage", "BindNull", "BindMeta", "Governor", "UpgradeGovernor", "Fee", "Close", "Later", "Nop",
];

fn dictionary() -> Vec<(String, Pubkey)> {
    let mut d: Vec<(String, Pubkey)> = vec![];
    let mut a = |n: &str, p: Pubkey| d.push((n.into(), p));
    a("pool", pool());
    a("collector", collector());
    a("queue", queue());
    a("mqueue", mqueue());
    a("hashing", hashing());
    a("storage", storage());
    a("metadata", metadata());
    a("basebuffer", base_buffer());
    a("buffer", buffer());
    a("governor", governor());
    for v in 0..2 {
        a(&format!("fee{v}"), fee(v));
        a(&format!("basehash{v}"), base_hashing(v).0);
        a(&format!("basehash{}", v + 2), base_hashing(v + 2).0);
        a(&format!("vkey{v}"), VKeyAccount::find(Some(v)).0);
    }
    for i in 0..4 {
        a(&format!("null{i}"), nullifier(i));
        a(&format!("nchild{i}"), kn("nullifier-child-", i));
    }
    for i in [0, 1, 12, 13, 24] {
        a(&format!("schild{i}"), storage_child(i));
    }
    for i in 0..METADATA_CHILDREN {
        a(&format!("mchild{i}"), metadata_child(i));
    }
    a("system", system_program::ID);
    a("splprogram", spl_token::ID);
    a("ataprogram", spl_associated_token_account::ID);
    a("log", sysvar::instructions::ID);
    for t in 0..3 {
        a(&format!("price{t}"), price_key(t));
        if t > 0 {
            a(&format!("mint{t}"), mint(t));
            a(&format!("poolvault{t}"), ata(&pool(), t));
            a(&format!("collvault{t}"), ata(&collector(), t));
        }
    }
    let persons = ["sender", "warden-1", "warden-2", "payer-1", "payer-2", "recipient", "admin", "optional-collector", "vkey-person-1", "stranger"];
    for p in persons {
        a(p, k(p));
        for t in 1..3 {
            a(&format!("{p}/{t}"), ata(&k(p), t));
        }
    }
    for p in ["payer-1", "payer-2"] {
        a(&format!("spend-{p}"), VerificationAccount::find_with_pubkey(k(p), Some(0)).0);
        a(&format!("spend1-{p}"), VerificationAccount::find_with_pubkey(k(p), Some(1)).0);
    }
    for n in [
        "recipient-token-account", "optional-collector-token-account", "vkey-data", "vkey-data-1", "vkey-data-2", "vkey-data-3", "setup-child-s1",
        "setup-child-s2", "setup-child-m1", "setup-child-m2", "setup-child-n1", "setup-child-n2",
    ] {
        a(n, k(n));
    }
    d
}

fn lives(who: &HashMap<Pubkey, String>) -> Vec<Baseline> {
    let mut all: Vec<Baseline> = vec![];
    let mut take = |life: &str, log: Vec<(Bank, Vec<Instruction>)>| {
        for (bank, tx) in log {
            if bank.clone().tx(&tx).is_err() {
                continue;
            }
            for (at, c) in tx.iter().enumerate() {
                if c.program_id != elusiv::id() || c.data.is_empty() {
                    continue;
                }
                let tag = TAGS[c.data[0] as usize];
                let name = format!("{life}.{tag}");
                if all.iter().any(|x| x.name == name) {
                    continue;
                }
                let names = c.accounts.iter().map(|m| who.get(&m.pubkey).cloned().unwrap_or("?".into())).collect();
                all.push(Baseline { name, bank: bank.clone(), tx: tx.clone(), at, names });
            }
        }
    };
    fn play<M: Model>(m: &M, path: &[Value]) -> Vec<(Bank, Vec<Instruction>)> {
        m.thread_init();
        record(|| {
            let mut w = m.init(&Value::Null);
            for a in path {
                if let Err(e) = m.step(&mut w, a) {
                    eprintln!("a step of the history is refused: {a}: {e}");
                    break;
                }
            }
        })
    }
    let l: Vec<Value> = serde_json::from_str(include_str!("../lives.json")).unwrap();
    for x in &l {
        let path = x["path"].as_array().unwrap();
        let mut log = if x["suite"] == "core" {
            play(&Core::new(&x["consts"]), path)
        } else {
            play(&Spend::new(&x["consts"], x["start"].as_array().unwrap().clone()), path)
        };
        if x["name"] == "skip" {
            log.reverse(); // the instructions of the second spend
        }
        take(st(&x["name"]), log);
    }
    let v = Vkey::new(&json!({"Count": 1, "Packs": 588, "Start": "none"}));
    take(
        "key",
        play(
            &v,
            &[
                json!({"n": "Create", "by": 1, "id": 0, "auth": 1}),
                json!({"n": "New", "by": 1, "d": 1}),
                json!({"n": "Update", "by": 1, "old": 2}),
                json!({"n": "New", "by": 1, "d": 2}),
                json!({"n": "Write", "by": 1, "p": 0, "v": 1, "len": "full", "given": "both"}),
                json!({"n": "Authority", "by": 1, "to": 1}),
                json!({"n": "Update", "by": 1, "old": 1}),
                json!({"n": "Freeze", "by": 1}),
            ],
        ),
    );
    // (the second activation gives the first account back)
    let v = Vkey::new(&json!({"Count": 1, "Packs": 588, "Start": "both"}));
    take("key2", play(&v, &[json!({"n": "Update", "by": 1, "old": 1})]).into_iter().rev().take(1).collect());
    take(
        "open",
        play(
            &Setup::new(&json!({"Start": "none"})),
            &[
                json!({"n": "Single"}),
                json!({"n": "Governor"}),
                json!({"n": "Fee", "w": 0, "s": {"lpt": 5000, "hrew": 400, "sub": 10000, "psub": 30000, "txs": 62}}),
                json!({"n": "Nullifier", "i": 1}),
                json!({"n": "Nullifier", "i": 0}),
                json!({"n": "Later"}),
                json!({"n": "Bind", "p": "storage", "s": "0", "a": "s1"}),
                json!({"n": "Bind", "p": "metadata", "s": "0", "a": "m1"}),
                json!({"n": "Bind", "p": "null0", "s": "0", "a": "n1"}),
            ],
        ),
    );
    all
}

impl Forge {
    pub fn new(_c: &Value) -> Self {
        let d = dictionary();
        let mut back = HashMap::new();
        for (n, p) in &d {
            back.entry(*p).or_insert(n.clone());
        }
        let all: Vec<Baseline> = lives(&back);
        if std::env::var("SHOW").is_ok() {
            for b in &all {
                let l: Vec<String> = b.names.iter().zip(&b.tx[b.at].accounts).map(|(n, m)| format!("{n}{}", if m.is_signer { "!" } else { "" })).collect();
                println!("{} [{}/{}]: {}", b.name, b.at, b.tx.len(), l.join(" "));
            }
        }
        Forge { all: all.into_iter().map(|b| (b.name.clone(), b)).collect(), who: d.into_iter().collect() }
    }
    /// other accounts of the same kinds, in the same state
    fn siblings(&self, b: &mut Bank, own: &Instruction) {
        use elusiv::state::fee::FeeAccount;
        use elusiv::state::nullifier::NullifierAccount;
        use elusiv::state::commitment::BaseCommitmentHashingAccount;
        let mut twin = |from: Pubkey, to: Pubkey, bump: u8| {
            // (what the instruction itself is about to create stays absent)
            if own.accounts.iter().any(|m| m.pubkey == to) {
                return;
            }
            if let (Some(mut c), None) = (b.get(&from).cloned(), b.get(&to)) {
                c.data.write(0, &[bump]);
                b.accts.insert(to, c);
            }
        };
        twin(fee(0), fee(1), FeeAccount::find(Some(1)).1);
        for i in [1, 3] {
            twin(nullifier(0), nullifier(i), NullifierAccount::find(Some(i)).1);
        }
        for i in [0, 2] {
            twin(base_hashing(1).0, base_hashing(i).0, BaseCommitmentHashingAccount::find(Some(i)).1);
        }
        twin(VKeyAccount::find(Some(0)).0, VKeyAccount::find(Some(1)).0, VKeyAccount::find(Some(1)).1);
        let me = self.who["spend-payer-1"];
        for (p, i) in [("payer-2", 0), ("payer-1", 1), ("payer-2", 1)] {
            let (key, bump) = VerificationAccount::find_with_pubkey(k(p), Some(i));
            twin(me, key, bump);
        }
    }
    fn try_it(&self, a: &Value) -> Result<Vec<String>, String> {
        let x = self.all.get(st(&a["b"])).ok_or("this instruction was never accepted")?;
        let mut b = x.bank.clone();
        self.siblings(&mut b, &x.tx[x.at]);
        let mut tx = x.tx.clone();
        let at = |f: &str| a[f].as_u64().unwrap() as usize - 1;
        let original = tx[x.at].clone();
        match st(&a["n"]) {
            "Good" => {}
            "Unsigned" => {
                let key = original.accounts[at("p")].pubkey;
                for c in &mut tx {
                    for m in c.accounts.iter_mut().filter(|m| m.pubkey == key) {
                        m.is_signer = false;
                    }
                }
            }
            "Short" => tx[x.at].accounts.truncate(at("p")),
            "Swap" => {
                let (p, q) = (at("p"), at("q"));
                tx[x.at].accounts[p].pubkey = original.accounts[q].pubkey;
                tx[x.at].accounts[q].pubkey = original.accounts[p].pubkey;
            }
            _ => {
                let p = at("p");
                let key = original.accounts[p].pubkey;
                let sub = match st(&a["s"]) {
                    "copy" | "fake" => {
                        let new = k("look-alike");
                        if let Some(mut c) = b.get(&key).cloned() {
                            if st(&a["s"]) == "fake" {
                                c.owner = k("another-program");
                            }
                            c.executable = false;
                            b.accts.insert(new, c);
                        }
                        new
                    }
                    "empty" => k("nothing is here"),
                    "wealthy" => {
                        b.airdrop(&k("wealthy"), 100 * SOL);
                        k("wealthy")
                    }
                    s => *self.who.get(s).unwrap_or_else(|| panic!("nobody is called {s}")),
                };
                tx[x.at].accounts[p].pubkey = sub;
            }
        }
        b.tx(&tx).map_err(|e| format!("{e:?}"))?;
        Ok(x.names.clone())
    }
}

impl Model for Forge {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
        crate::spend_model::register_relay();
    }
    fn init(&self, _s: &Value) -> W {
        W { seen: None }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        let names = self.try_it(a)?;
        w.seen = (a["n"] == "Good").then(|| (st(&a["b"]).to_string(), names));
        Ok(())
    }
    fn check(&self, w: &W, _e: &Value, a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        if let Some((_, got)) = &w.seen {
            let want: Vec<&str> = a["names"].as_array().unwrap().iter().map(st).collect();
            cmp(&mut v, "names", want, got.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        }
        v
    }
}
