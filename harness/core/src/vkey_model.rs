//! Binds spec/Vkey.tla to the management of the verifying key.
use crate::engine::*;
use crate::svm::{self, *};
use crate::world::{deployed, edit, ix, k, kn, person, r, w};
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::{VKeyAccountDataPacket, MAX_MT_COUNT, VKEY_ACCOUNT_DATA_PACKET_SIZE as PACKET};
use elusiv::proof::vkey::VerifyingKey;
use elusiv::state::proof::VerificationAccount;
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::RawU256;
use elusiv_types::{ElusivOption, PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use serde_json::Value;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};

pub struct Vkey {
    count: u32,
    packs: usize,
    start: String,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
    base: [u64; 3],
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("no number: {v}"))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn who(n: i64) -> Pubkey {
    kn("vkey-person-", n)
}
fn key() -> Pubkey {
    VKeyAccount::find(Some(0)).0
}
fn data(x: &Value) -> Pubkey {
    match x.as_i64() {
        Some(n) if n < 0 => k(&format!("vkey-data-{}", ["short", "long", "foreign", "poor", "used"][-n as usize - 1])),
        Some(n) => kn("vkey-data-", n),
        None => k(&format!("vkey-data-{}", st(x))),
    }
}
fn dn(n: i64) -> Pubkey {
    data(&Value::from(n))
}
fn pattern(v: i64, p: i64) -> Vec<u8> {
    let mut b: Vec<u8> = (0..PACKET as i64).map(|j| if v == 0 { 0 } else { (v * 37 + p * 11 + j * 5 + (j >> 8) + 1) as u8 }).collect();
    if p == 0 {
        b[384 + 64] = 0; // (a flag that is read when the key is used)
    }
    b
}

impl Vkey {
    pub fn new(c: &Value) -> Self {
        let count = i(&c["Count"]) as u32;
        let packs = i(&c["Packs"]) as usize;
        assert_eq!(packs, (VerifyingKey::source_size(count as usize) + PACKET - 1) / PACKET);
        Vkey { count, packs, start: st(&c["Start"]).into() }
    }
    fn len(&self) -> usize {
        VerifyingKey::source_size(self.count as usize)
    }
    fn part(&self, p: usize) -> usize {
        PACKET.min(self.len().saturating_sub(p * PACKET))
    }
    fn initial(&self, n: i64, used: bool) -> Vec<u8> {
        let mut d = vec![used as u8];
        for p in 0..self.packs {
            d.extend(&pattern(if n == 3 { 9 } else { 0 }, p as i64)[..self.part(p)]);
        }
        d
    }
    fn content(&self, n: i64, e: &Value) -> Vec<u8> {
        let mut d = self.initial(n, e["used"] == true);
        for x in arr(&e["w"]) {
            let p = i(&x[0]) as usize;
            let l = self.part(p);
            d[1 + p * PACKET..1 + p * PACKET + l].copy_from_slice(&pattern(i(&x[1]), p as i64)[..l]);
        }
        d
    }
    fn compute(&self, b: &mut Bank, child: Pubkey) -> Result<(), String> {
        let me = who(1);
        let (v, bump) = VerificationAccount::find_with_pubkey(me, Some(0));
        b.set_zeros(v, VerificationAccount::SIZE, elusiv::id());
        edit(b, &v, |d| {
            d[0] = bump;
            let ins: Vec<[u8; 32]> = vec![[0; 32]; self.count as usize];
            let steps = elusiv::proof::verifier::prepare_public_inputs_instructions(&ins, ins.len());
            let raw: Vec<RawU256> = ins.iter().map(|v| RawU256::new(*v)).collect();
            let mut a = VerificationAccount::new(d).unwrap();
            a.setup(RawU256::new(me.to_bytes()), false, &raw, &steps, 0, crate::groth_model::a_request(), [0; MAX_MT_COUNT]).unwrap_or_else(|_| panic!("setup"));
        });
        let c = ix(
            &I::ComputeVerification { verification_account_index: 0, vkey_id: 0 },
            vec![r(me), w(v), r(key()), r(child), r(sysvar::instructions::ID)],
        );
        let n = Instruction { program_id: crate::spend_model::noop(), accounts: vec![], data: vec![] };
        b.tx(&[n.clone(), n, c.clone(), c.clone(), c.clone(), c.clone(), c]).map_err(|e| format!("{e:?}"))
    }
    fn instruction(&self, b: &Bank, a: &Value) -> Instruction {
        let by = a.get("by").map_or(1, i);
        let sig = |w: bool| svm::meta(who(by.max(1)), by != 0, w);
        match st(&a["n"]) {
            "Create" => ix(
                &I::CreateVkeyAccount {
                    vkey_id: i(&a["id"]) as u32,
                    public_inputs_count: self.count,
                    deploy_authority: if i(&a["auth"]) == 0 { ElusivOption::None } else { ElusivOption::Some(who(i(&a["auth"]))) },
                },
                vec![sig(true), w(VKeyAccount::find(Some(i(&a["id"]) as u32)).0), r(system_program::ID)],
            ),
            "New" => ix(&I::CreateNewVkeyVersion { vkey_id: 0 }, vec![sig(false), w(key()), w(data(&a["d"]))]),
            "Write" => {
                let p = i(&a["p"]) as usize;
                let mut d = pattern(i(&a["v"]), p as i64);
                match st(&a["len"]) {
                    "full" => {}
                    "long" => d.extend([77; 3]),
                    _ => d.truncate(self.part(p).saturating_sub(1)),
                }
                let children = |b: &Bank| -> [Option<Pubkey>; 2] {
                    let mut d = b.data(&key());
                    match VKeyAccount::new(&mut d) {
                        Ok(a) => [a.get_child_pubkey(0), a.get_child_pubkey(1)],
                        Err(_) => [None, None],
                    }
                };
                let [cur, new] = children(b);
                let mut l = vec![sig(false), w(key())];
                match st(&a["given"]) {
                    "both" => l.extend(cur.into_iter().chain(new).map(w)),
                    "new" => l.extend(new.map(w)),
                    "cur" => l.extend(cur.map(w)),
                    "none" => {}
                    "foreign" => l.push(w(data(&"used".into()))),
                    "copy" => l.push(w(dn(3))),
                    x => panic!("given {x}"),
                }
                ix(&I::SetVkeyData { vkey_id: 0, data_position: p as u32, packet: VKeyAccountDataPacket(d) }, l)
            }
            "Update" => ix(&I::UpdateVkeyVersion { vkey_id: 0 }, vec![sig(true), w(key()), w(data(&a["old"])), r(system_program::ID)]),
            "Freeze" => ix(&I::FreezeVkey { vkey_id: 0 }, vec![sig(false), w(key())]),
            "Authority" => ix(&I::ChangeVkeyAuthority { vkey_id: 0, authority: who(i(&a["to"])) }, vec![sig(false), w(key())]),
            x => panic!("action {x}"),
        }
    }
    fn act(&self, b: &mut Bank, a: &Value) -> Result<(), String> {
        if a["n"] == "Use" {
            let mut c = b.clone();
            return self.compute(&mut c, data(&a["d"]));
        }
        let c = self.instruction(b, a);
        b.tx(&[c]).map_err(|e| format!("{e:?}"))
    }
}

impl Model for Vkey {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, _s: &Value) -> W {
        let mut b = deployed();
        for id in [crate::spend_model::noop(), elusiv::id()] {
            b.set(id, 1, &[], Pubkey::default());
            b.accts.get_mut(&id).unwrap().executable = true;
        }
        for n in 1..=3 {
            person(&mut b, who(n), 100_000_000_000, 0);
            let d = self.initial(n, false);
            b.set(dn(n), Bank::rent(d.len()), &d, elusiv::id());
        }
        for x in ["short", "long", "foreign", "poor", "used"] {
            let l = 1 + self.len();
            let l = if x == "short" { l - 1 } else if x == "long" { l + 1 } else { l };
            let mut d = vec![0; l];
            d[0] = (x == "used") as u8;
            b.set(
                data(&x.into()),
                Bank::rent(l) - (x == "poor") as u64,
                &d,
                if x == "foreign" { k("another-program") } else { elusiv::id() },
            );
        }
        let mut run = |a: Value| {
            if let Err(e) = self.act(&mut b, &a) {
                panic!("{a} of the start is refused: {e}");
            }
        };
        use serde_json::json;
        let s = self.start.as_str();
        if s != "none" {
            run(json!({"n": "Create", "by": 1, "id": 0, "auth": if s.starts_with("free") { 0 } else { 1 }}));
        }
        if ["new", "cur", "both", "frozen", "freeboth"].contains(&s) {
            run(json!({"n": "New", "by": 1, "d": 1}));
        }
        if ["cur", "both", "frozen", "freeboth"].contains(&s) {
            run(json!({"n": "Update", "by": 1, "old": 1}));
        }
        if ["both", "frozen", "freeboth"].contains(&s) {
            run(json!({"n": "New", "by": 1, "d": 2}));
        }
        if s == "frozen" {
            run(json!({"n": "Freeze", "by": 1}));
        }
        let base = [1, 2, 3].map(|n| b.lamports(&who(n)));
        W { b, base }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        self.act(&mut w.b, a)
    }
    fn check(&self, w: &W, e: &Value, _a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let b = &w.b;
        let kk = &e["k"];
        cmp(&mut v, "key.open", kk["ex"] == true, b.exists(&key()));
        cmp(&mut v, "key.second", false, b.exists(&VKeyAccount::find(Some(1)).0));
        if kk["ex"] == true && b.exists(&key()) {
            let mut d = b.data(&key());
            let a = VKeyAccount::new(&mut d).unwrap();
            let num = |n: i64| if n == 0 { None } else { Some(dn(n)) };
            cmp(&mut v, "key.authority", if i(&kk["auth"]) == 0 { None } else { Some(who(i(&kk["auth"]))) }, a.get_authority().option());
            cmp(&mut v, "key.version", i(&kk["ver"]), a.get_version() as i64);
            cmp(&mut v, "key.frozen", kk["frozen"] == true, a.get_is_frozen());
            cmp(&mut v, "key.count", self.count, a.get_public_inputs_count());
            cmp(&mut v, "key.current", num(i(&kk["cur"])), a.get_child_pubkey(0));
            cmp(&mut v, "key.new", num(i(&kk["new"])), a.get_child_pubkey(1));
            cmp(&mut v, "key.setup", i(&kk["ver"]) > 0, a.is_setup());
        }
        for (n, x) in arr(&e["d"]).iter().enumerate() {
            let n = n as i64 + 1;
            let here = x["here"] == true;
            cmp(&mut v, "data.here", (n, here), (n, b.exists(&dn(n))));
            if here && b.exists(&dn(n)) {
                let (want, got) = (self.content(n, x), b.data(&dn(n)));
                cmp(&mut v, "data.used", (n, want[0]), (n, got[0]));
                cmp(&mut v, "data.bytes", (n, true), (n, want[1..] == got[1..]));
            }
        }
        for (n, x) in arr(&e["net"]).iter().enumerate() {
            let want = w.base[n] - i(&x["paid"]) as u64 * Bank::rent(VKeyAccount::SIZE) + i(&x["got"]) as u64 * Bank::rent(1 + self.len());
            cmp(&mut v, "money", (n + 1, want), (n + 1, b.lamports(&who(n as i64 + 1))));
        }
        v
    }
}
