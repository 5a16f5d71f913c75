//! Binds spec/Spend.tla to the program.
use crate::acct;
use crate::engine::*;
use crate::groth::{self, Trapdoor};
use crate::refhash::{self, mr_bytes, opaque, poseidon, raw_bytes, RefTree};
use crate::svm::{self, Bank, TxError};
use crate::world::*;
use ark_bn254::Fr;
use ark_ff::BigInteger;
use elusiv::buffer::RingBuffer;
use elusiv::instruction::ElusivInstruction as I;
use elusiv::proof::verifier::VerificationStep;
use elusiv::processor::{CommitmentHashRequest, FinalizeSendData, ProofRequest};
use elusiv::state::commitment::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::program_account::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv::state::proof::*;
use elusiv::state::queue::{Queue, RingQueue};
use elusiv::state::storage::*;
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::{
    OrdU256,
    InputCommitment, JoinSplitPublicInputs, MigratePublicInputs, OptionalFee, RawU256, SendPublicInputs,
};
use elusiv_types::ElusivOption;
use serde_json::Value;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::{hash, system_instruction, system_program, sysvar};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("integer expected: {v}"))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("string expected: {v}"))
}
fn bo(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("boolean expected: {v}"))
}
fn arr(v: &Value) -> Vec<Value> {
    match v {
        Value::Array(a) => a.clone(),
        Value::Object(o) if o.is_empty() => vec![],
        v => panic!("array expected: {v}"),
    }
}
/// a function over integers, as an array (domain 1..n) or an object
fn fun(v: &Value) -> Vec<(i64, Value)> {
    match v {
        Value::Array(a) => a.iter().enumerate().map(|(k, x)| (k as i64 + 1, x.clone())).collect(),
        Value::Object(o) => o.iter().map(|(k, x)| (k.parse().unwrap(), x.clone())).collect(),
        v => panic!("function expected: {v}"),
    }
}

pub const MEMO_PROGRAM: &str = "MemoSq4gqABAXKb96qnH8TysNcWxMyWCqXgDLGmfcHr";
fn memo_program() -> Pubkey {
    use std::str::FromStr;
    Pubkey::from_str(MEMO_PROGRAM).unwrap()
}
fn relay() -> Pubkey {
    k("relay-program")
}
pub fn noop() -> Pubkey {
    k("noop-program")
}
fn memo_text(s: &str) -> Vec<u8> {
    format!("this is {s}").into_bytes()
}

fn recipient() -> Pubkey {
    k("recipient")
}
fn recipient_account() -> Pubkey {
    k("recipient-token-account")
}
fn recipient_account2() -> Pubkey {
    k("recipient-token-account-of-another-mint")
}
fn opt_collector(tok: i64) -> Pubkey {
    if tok == 0 {
        k("optional-collector")
    } else {
        k("optional-collector-token-account")
    }
}
fn payer(n: i64) -> Pubkey {
    kn("payer-", n)
}
fn slot_payer(x: i64) -> i64 {
    if x >= 3 {
        2
    } else {
        1
    }
}
/// The fee schedule
struct Fees {
    lpt: u64,
    bp: u64,
    sub: u64,
    hrew: u64,
    prew: u64,
}
impl Fees {
    fn of(v: u32) -> Fees {
        if v == 0 {
            Fees { lpt: 5000, bp: 75, sub: 30_000, hrew: 400, prew: 900 }
        } else {
            Fees { lpt: 7000, bp: 200, sub: 0, hrew: 600, prew: 100 }
        }
    }
    /// for hashing one commitment
    fn hash(&self, rate: u32) -> u64 {
        let (n, batch) = ([24u64, 24, 25, 29, 37][rate as usize], 1 << rate);
        (n * (self.lpt + self.hrew) + batch - 1) / batch
    }
}
fn slot_index(x: i64) -> u8 {
    match x {
        2 => 1,
        4 => 128,
        5 => 129,
        _ => 0,
    }
}
fn verification(x: i64) -> Pubkey {
    VerificationAccount::find_with_pubkey(payer(slot_payer(x)), Some(slot_index(x) as u32)).0
}
fn vkey(id: u32) -> Pubkey {
    VKeyAccount::find(Some(id)).0
}
fn vkey_data() -> Pubkey {
    k("vkey-data")
}
fn nullifier_child(t: u32) -> Pubkey {
    kn("nullifier-child-", t)
}
fn name_hash(v: &str) -> [u8; 32] {
    hash::hash(v.as_bytes()).to_bytes()
}
pub fn meta_of(v: &str) -> [u8; 17] {
    if v.contains("zmeta") {
        return [0; 17];
    }
    name_hash(v)[..17].try_into().unwrap()
}
fn plus_modulus(b: [u8; 32]) -> [u8; 32] {
    let mut n = refhash::le_limbs(&b);
    assert!(!n.add_nocarry(&<ark_bn254::FrParameters as ark_ff::FpParameters>::MODULUS));
    refhash::limbs_bytes(&n)
}
fn nullifier_child2(t: u32) -> Pubkey {
    kn("nullifier-second-child-", t)
}
/// fillers of the full account; larger or smaller than every nullifier of a spend
fn filler(full: i64, j: usize) -> [u8; 32] {
    let mut x = [if full == 1 { 0xee } else { 0 }; 32];
    x[1] = (j >> 8) as u8;
    x[0] = j as u8;
    x
}
fn full_map(full: i64) -> Vec<u8> {
    let mut d = vec![0; NullifierChildAccount::SIZE];
    d[0] = 1;
    let mut m = NullifierMap::new(&mut d[1..]);
    for j in 0..NULLIFIERS_PER_ACCOUNT {
        assert!(matches!(m.try_insert_default(OrdU256(filler(full, j))), Ok(None)));
    }
    drop(m);
    d
}
fn nullifier_raw(n: i64) -> [u8; 32] {
    if n == -1 {
        plus_modulus(raw_bytes(&opaque(82, 1)))
    } else {
        raw_bytes(&opaque(82, n as usize))
    }
}
fn nullifier_mr(n: i64) -> [u8; 32] {
    mr_bytes(&opaque(82, n as usize))
}
fn out_fr(c: i64) -> Fr {
    if c == -3 {
        poseidon(Fr::from(0u64), Fr::from(0u64))
    } else if c <= -100 {
        opaque(84, (-c - 100) as usize)
    } else {
        opaque(83, c as usize)
    }
}
fn out_raw(c: i64) -> [u8; 32] {
    match c {
        -1 => raw_bytes(&poseidon(poseidon(Fr::from(0u64), Fr::from(0u64)), Fr::from(0u64))),
        -3 => raw_bytes(&poseidon(Fr::from(0u64), Fr::from(0u64))),
        -2 => refhash::limbs_bytes(&<ark_bn254::FrParameters as ark_ff::FpParameters>::MODULUS),
        c => raw_bytes(&out_fr(c)),
    }
}
fn u256(v: u64) -> [u8; 32] {
    let mut b = [0; 32];
    b[..8].copy_from_slice(&v.to_le_bytes());
    b
}

/// transactions for the preparation of public inputs, and its instructions' rounds, by the documented costs
pub fn preparation(inputs: &[[u8; 32]]) -> Vec<u32> {
    let mut v = vec![];
    let (mut rounds, mut cus) = (0u32, 0u32);
    for p in inputs {
        for b in 0..33 {
            let c = if b < 32 { 22 * (p[b] != 0) as u32 } else { 30 * (*p != [0; 32]) as u32 };
            if cus + c > 1330 {
                v.push(rounds);
                rounds = 0;
                cus = 0;
            }
            rounds += 1;
            cus += c;
        }
    }
    v.push(rounds);
    v
}

#[derive(Clone)]
struct Spend1 {
    v: String,
    r: Value,
    inputs: SendPublicInputs,
    signals: Vec<[u8; 32]>,
    prep: usize,
    pf: i128,
}

#[derive(Clone)]
pub struct W {
    pub bank: Bank,
    slots: BTreeMap<i64, Spend1>,
    /// the fee of the proof of every spend that has been started, and its token
    pf: HashMap<String, (i128, usize)>,
    base: Vec<[i128; 2]>,
}

pub struct Spend {
    qfill: usize,
    rate: u32,
    wfill: usize,
    ptr: usize,
    full: i64,
    start: Vec<Value>,
    trap: Trapdoor,
    key: Vec<u8>,
    memo: Mutex<HashMap<([u8; 32], String), Option<Vec<u8>>>>,
}

const MONEY: [&str; 9] = ["pool", "coll", "p1", "p2", "rcp", "rcpacc", "rcpata", "opt", "out"];

impl Spend {
    pub fn new(c: &Value, start: Vec<Value>) -> Self {
        let g = |n: &str| i(&c[n]) as usize;
        let trap = Trapdoor::new(1);
        let key = trap.encode();
        Spend { qfill: g("QFill0"), rate: g("Rate") as u32, wfill: g("WFill0"), ptr: g("Ptr0"), full: g("Full") as i64, start, trap, key, memo: Mutex::new(HashMap::new()) }
    }

    fn root(&self, class: &str) -> Option<[u8; 32]> {
        // the active tree has had `ptr` roots; root number j is opaque(79, j), the last one genuine
        let n = self.ptr as i64;
        let at = |j: i64| if j >= 0 { raw_bytes(&opaque(79, j as usize)) } else { raw_bytes(&opaque(80, 77)) };
        Some(match class {
            "none" => return None,
            "cur" => at(n - 1),
            "prev" => at(n - 2),
            "old" => at(n - 100),
            "gone" => at(n - 101),
            "never" => raw_bytes(&opaque(80, 5)),
            "zero" => [0; 32],
            "noncanon" => plus_modulus(at(n - 1)),
            "c0" => raw_bytes(&opaque(81, 0)),
            "c1" => raw_bytes(&opaque(81, 1)),
            c => panic!("root class {c}"),
        })
    }

    fn recent(&self, c: &str) -> u32 {
        let p = self.ptr as i64;
        (match c {
            "future" => p + 1,
            "now" => p,
            "prev" => p - 1,
            "back127" => p - 127,
            "back128" => p - 128,
            "zero" => 0,
            c => panic!("recent class {c}"),
        }) as u32
    }

    /// the public inputs of a spend
    fn spend(&self, v: &str, r: &Value, out: i64) -> Spend1 {
        let tok = i(&r["tok"]);
        let amt = i(&r["amt"]) as u64;
        let ins: Vec<InputCommitment> = arr(&r["ins"])
            .iter()
            .map(|x| InputCommitment {
                root: self.root(st(&x["r"])).map(RawU256::new),
                nullifier_hash: RawU256::new(nullifier_raw(i(&x["n"]))),
            })
            .collect();
        let opt = i(&r["opt"]) as u64;
        let collector = if opt > 0 { self.opt_to(r) } else { Pubkey::default() };
        let meta = meta_of(v);
        let mut d: Vec<u8> = vec![];
        let bound = self.bound(r, v, "");
        d.extend(bound.recipient.to_bytes());
        d.extend(bound.ident.to_bytes());
        d.extend(bound.iv);
        d.extend(bound.owner);
        d.extend(if bo(&r["ref"]) { bound.reference.to_bytes() } else { [0; 32] });
        d.push(bo(&r["ata"]) as u8);
        d.extend(meta);
        d.extend(collector.to_bytes());
        d.extend(opt.to_le_bytes());
        if bo(&r["memo"]) {
            d.extend(memo_text("memo"));
        }
        let mut hashed = hash::hash(&d).to_bytes();
        hashed[31] &= 0x1f;

        let signals = |fee: u64| {
            let mut s: Vec<[u8; 32]> = vec![];
            for k in 0..4 {
                s.push(ins.get(k).map_or([0; 32], |x| x.nullifier_hash.skip_mr()));
            }
            for k in 0..4 {
                s.push(ins.get(k).and_then(|x| x.root).map_or([0; 32], |x| x.skip_mr()));
            }
            s.push(u256(amt.wrapping_add(fee)));
            s.push(out_raw(out));
            s.push(u256(self.recent(st(&r["rec"])) as u64));
            s.push(u256(i(&r["fv"]) as u64));
            s.push(u256(tok as u64));
            s.push(hashed);
            s
        };
        let conv = |l: u64| if tok == 0 { l } else { l / 50 };
        let fv = i(&r["fv"]) as u32;
        let f = Fees::of(fv);
        // the fee depends on the public inputs, one of which is the total with the fee
        let pf = |fee: u64| {
            let n = preparation(&signals(fee)).len() as u64;
            conv((n + 43 + 17 + 2) * f.lpt + f.prew)
        };
        let due = |fee: u64| conv(f.hash(self.rate)) + pf(fee) + f.bp * amt / 10_000 - conv(f.sub);
        let mut fee = due(0);
        for round in 0..20 {
            let f = match (st(&r["big"]), st(&r["fee"])) {
                ("wrap", _) => u64::MAX - amt + 1,
                ("nowrap", _) => u64::MAX - amt,
                (_, "exact") => due(fee),
                (_, "more") => due(fee) + 7000,
                (_, "low") => due(fee) - 1,
                (_, "zero") => 0,
                x => panic!("fee class {x:?}"),
            };
            if f == fee {
                break;
            }
            assert!(round < 19, "fee of {v} does not settle");
            fee = f;
        }
        let s = signals(fee);
        let inputs = SendPublicInputs {
            join_split: JoinSplitPublicInputs {
                input_commitments: ins.clone(),
                output_commitment: RawU256::new(out_raw(out)),
                recent_commitment_index: self.recent(st(&r["rec"])),
                fee_version: i(&r["fv"]) as u32,
                amount: amt,
                fee,
                optional_fee: OptionalFee { collector, amount: opt },
                token_id: tok as u16,
                metadata: meta,
            },
            recipient_is_associated_token_account: bo(&r["ata"]),
            solana_pay_transfer: bo(&r["sp"]),
            hashed_inputs: hashed,
        };
        Spend1 { v: v.into(), r: r.clone(), inputs, prep: preparation(&s).len(), pf: pf(fee) as i128, signals: s }
    }

    fn bound(&self, r: &Value, v: &str, wrong: &str) -> Bound {
        let pick = |n: &str| if wrong == n { "-wrong" } else { "" };
        let to = match st(&r["rcp"]) {
            "rcp" => recipient(),
            "rcpacc" => recipient_account(),
            "rcpacc2" => recipient_account2(),
            x => self.account(x, (i(&r["tok"]) != 0) as usize),
        };
        Bound {
            recipient: if wrong == "rcp" { k("attacker") } else { to },
            ident: k(&format!("identifier-{v}{}", pick("ident"))),
            reference: if bo(&r["ref"]) || wrong == "ref" {
                k(&format!("reference-{v}{}", pick("ref")))
            } else {
                sysvar::instructions::ID
            },
            iv: name_hash(&format!("iv-{v}{}", pick("iv"))),
            owner: name_hash(&format!("owner-{v}{}", pick("owner"))),
        }
    }

    fn dup_marker(&self, s: &Spend1) -> Pubkey {
        let mut d: Vec<u8> = vec![];
        for x in &s.inputs.join_split.input_commitments {
            d.extend(x.nullifier_hash.skip_mr());
        }
        NullifierDuplicateAccount::find_with_pubkey(Pubkey::new_from_array(hash::hash(&d).to_bytes()), None).0
    }

    /// where the optional fee goes
    fn opt_to(&self, r: &Value) -> Pubkey {
        match r["oc"].as_str().unwrap_or("opt") {
            "opt" => opt_collector(i(&r["tok"])),
            "rcp" => self.destination_of(r),
            x => self.account(x, (i(&r["tok"]) != 0) as usize),
        }
    }

    /// where the spent amount goes
    fn destination(&self, s: &Spend1) -> Pubkey {
        self.destination_of(&s.r)
    }
    fn destination_of(&self, r: &Value) -> Pubkey {
        let tok = i(&r["tok"]);
        match st(&r["rcp"]) {
            "rcp" if bo(&r["ata"]) => ata(&recipient(), tok as u16),
            "rcp" => recipient(),
            "rcpacc" => recipient_account(),
            "rcpacc2" => recipient_account2(),
            x => self.account(x, (tok != 0) as usize),
        }
    }

    fn trees(&self, s: &Spend1) -> [u32; 2] {
        [i(&s.r["t0"]) as u32, i(&s.r["t1"]) as u32]
    }

    fn instruction(&self, w: &mut W, a: &Value) -> Result<Option<Instruction>, String> {
        let x = i(&a["x"]);
        let wrong = st(&a["w"]);
        let idx = slot_index(x);
        let me = payer(slot_payer(x));
        let ver = verification(x);
        let attacker = k("attacker");
        let s = match st(&a["i"]) {
            "Pay" | "Memo" => None,
            "Init" => {
                let s = self.spend(st(&a["v"]), &a["r"], i(&a["out"]));
                Some(s)
            }
            _ => w.slots.get(&x).cloned().or_else(|| {
                // nothing was opened: any spend's accounts
                Some(self.spend("good", &self.any(w), 1))
            }),
        };
        let tok = s.as_ref().map_or(0, |s| i(&s.r["tok"])) as u16;
        Ok(Some(match st(&a["i"]) {
            "Init" => {
                let s = s.unwrap();
                let t = self.trees(&s);
                let id = i(&s.r["vkey"]) as u32;
                let request = if s.r["req"] == "migrate" {
                    ProofRequest::Migrate(MigratePublicInputs {
                        join_split: s.inputs.join_split.clone(),
                        current_nsmt_root: RawU256::new([1; 32]),
                        next_nsmt_root: RawU256::new([2; 32]),
                    })
                } else {
                    ProofRequest::Send(s.inputs.clone())
                };
                let mut m = vec![
                    sw(me),
                    crate::world::w(ver),
                    r(vkey(id)),
                    crate::world::w(self.dup_marker(&s)),
                    r(system_program::ID),
                    r(self.bound(&s.r, &s.v, "").ident),
                    r(storage()),
                    crate::world::w(buffer()),
                    r(nullifier(t[0])),
                    r(nullifier_child(t[0])),
                    r(nullifier(t[1])),
                    r(nullifier_child(t[1])),
                ];
                if self.full > 0 {
                    m.insert(m.len() - 2, r(nullifier_child2(t[0])));
                    m.push(r(nullifier_child2(t[1])));
                }
                w.slots.insert(x, s.clone());
                w.pf.insert(s.v.clone(), (s.pf, (i(&s.r["tok"]) != 0) as usize));
                ix(
                    &I::InitVerification {
                        verification_account_index: idx,
                        vkey_id: id,
                        tree_indices: t,
                        request,
                        skip_nullifier_pda: bo(&a["skip"]),
                    },
                    m,
                )
            }
            "Fee" => {
                let p = if wrong == "payer" { attacker } else { me };
                // 13: a token that does not exist
                let t = tok;
                let acc = |owner: Pubkey| holding(&owner, t);
                let payacc = if wrong == "payacc" {
                    if tok == 0 {
                        ata(&me, 1)
                    } else {
                        ata(&me, 2)
                    }
                } else {
                    acc(p)
                };
                ix(
                    &I::InitVerificationTransferFee { verification_account_index: idx },
                    vec![
                        svm::meta(p, wrong != "sig", true),
                        crate::world::w(payacc),
                        crate::world::w(pool()),
                        crate::world::w(if wrong == "poolacc" { acc(attacker) } else { acc(pool()) }),
                        crate::world::w(collector()),
                        crate::world::w(if wrong == "collacc" { acc(attacker) } else { acc(collector()) }),
                        r(if wrong == "solprice" { price_key(2) } else { price_key(0) }),
                        r(if wrong == "price" { price_key(2) } else { price_key(t) }),
                        r(governor()),
                        crate::world::w(ver),
                        r(if t as usize >= 13 { system_program::ID } else { token_program(t) }),
                        r(system_program::ID),
                    ],
                )
            }
            "Proof" => {
                let s = s.unwrap();
                let mut proof = self.trap.prove(&s.signals, name_hash(&s.v)[0] as u64);
                if a["k"] == "bad" {
                    let (_, _, c) = self.trap.scalars(&s.signals, name_hash(&s.v)[0] as u64);
                    proof.c.0 = groth::g1(c + Fr::from(1u64));
                }
                ix(
                    &I::InitVerificationProof { verification_account_index: idx, proof },
                    vec![
                        svm::meta(if wrong == "payer" { attacker } else { me }, wrong != "sig", false),
                        crate::world::w(ver),
                    ],
                )
            }
            "Send" => {
                let s = s.unwrap();
                let b = self.bound(&s.r, &s.v, wrong);
                let (mi, ci) = self.minimum(&w.bank);
                let js = &s.inputs.join_split;
                ix(
                    &I::FinalizeVerificationSend {
                        verification_account_index: idx,
                        data: FinalizeSendData {
                            total_amount: js.amount.wrapping_add(js.fee).wrapping_add((wrong == "total") as u64),
                            token_id: js.token_id + (wrong == "token") as u16,
                            mt_index: match wrong {
                                "mt+" => mi + 1,
                                "mt-" => mi - 1,
                                _ => mi,
                            },
                            commitment_index: match wrong {
                                "ci+" => ci + 1,
                                "ci0" => 0,
                                _ => ci,
                            },
                            iv: b.iv,
                            encrypted_owner: b.owner,
                        },
                        uses_memo: bo(&a["memo"]),
                    },
                    vec![
                        r(b.recipient),
                        r(b.ident),
                        r(b.reference),
                        r(me),
                        crate::world::w(queue()),
                        crate::world::w(ver),
                        r(storage()),
                        crate::world::w(buffer()),
                        r(sysvar::instructions::ID),
                    ],
                )
            }
            "Insert" => {
                let s = s.unwrap();
                let t = self.trees(&s)[0];
                let t = if wrong == "tree" { 3 - t } else { t };
                let mut l = vec![r(me), crate::world::w(ver), crate::world::w(nullifier(t)), crate::world::w(nullifier_child(t))];
                if self.full > 0 {
                    l.push(crate::world::w(nullifier_child2(t)));
                }
                ix(&I::FinalizeVerificationInsertNullifier { verification_account_index: idx }, l)
            }
            kind @ ("XferL" | "XferT") => {
                let s = s.unwrap();
                let p = if wrong == "payer" { attacker } else { me };
                let dup = if wrong == "dup" { governor() } else { self.dup_marker(&s) };
                let wallet = if wrong == "wallet" { attacker } else { recipient() };
                let mut to = self.destination(&s);
                if wrong == "rcp" {
                    to = if tok == 0 { attacker } else { ata(&attacker, tok) };
                } else if wrong == "wallet" && bo(&s.r["ata"]) {
                    to = ata(&attacker, tok);
                }
                let opt = if wrong == "opt" {
                    if tok == 0 {
                        attacker
                    } else {
                        ata(&attacker, tok)
                    }
                } else if i(&s.r["opt"]) > 0 {
                    self.opt_to(&s.r)
                } else {
                    k("nobody")
                };
                let signer = svm::meta(p, wrong != "sig", true);
                let t1 = 1; // the token used when the wrong kind of transfer is tried
                let t = if tok == 0 { t1 } else { tok };
                if kind == "XferL" {
                    ix(
                        &I::FinalizeVerificationTransferLamports { verification_account_index: idx },
                        vec![
                            signer,
                            crate::world::w(to),
                            crate::world::w(pool()),
                            crate::world::w(collector()),
                            crate::world::w(opt),
                            crate::world::w(queue()),
                            crate::world::w(mqueue()),
                            crate::world::w(ver),
                            crate::world::w(dup),
                            r(system_program::ID),
                            r(sysvar::instructions::ID),
                        ],
                    )
                } else {
                    let acc = |owner: Pubkey| ata(&owner, t);
                    ix(
                        &I::FinalizeVerificationTransferToken { verification_account_index: idx },
                        vec![
                            signer,
                            crate::world::w(if wrong == "payacc" { acc(attacker) } else { acc(me) }),
                            crate::world::w(to),
                            r(wallet),
                            crate::world::w(pool()),
                            crate::world::w(if wrong == "poolacc" { acc(attacker) } else { acc(pool()) }),
                            crate::world::w(collector()),
                            crate::world::w(if wrong == "collacc" { acc(attacker) } else { acc(collector()) }),
                            crate::world::w(opt),
                            crate::world::w(queue()),
                            crate::world::w(mqueue()),
                            crate::world::w(ver),
                            crate::world::w(dup),
                            r(spl_associated_token_account::ID),
                            r(spl_token::ID),
                            r(system_program::ID),
                            r(if wrong == "mint" { mint(2) } else { mint(t) }),
                            r(sysvar::instructions::ID),
                        ],
                    )
                }
            }
            "Pay" => {
                let t = i(&a["t"]);
                let from = if wrong == "attacker" { attacker } else { payer(i(&a["p"])) };
                let amt = i(&a["a"]) as u64;
                let to = st(&a["to"]);
                let mut ix = if t == 0 {
                    system_instruction::transfer(&from, &self.account(to, 0), amt)
                } else {
                    let src = ata(&from, 1);
                    spl_token::instruction::transfer(&spl_token::ID, &src, &self.account(to, 1), &from, &[&from], amt).unwrap()
                };
                if wrong == "program" {
                    ix.program_id = noop();
                }
                ix
            }
            "Memo" => Instruction {
                program_id: if wrong == "program" { noop() } else { memo_program() },
                accounts: vec![],
                data: memo_text(st(&a["k"])),
            },
            "Revive" => system_instruction::transfer(&me, &ver, Bank::rent(VerificationAccount::SIZE)),
            x => panic!("instruction {x}"),
        }))
    }

    fn any(&self, w: &W) -> Value {
        w.slots.values().next().map(|s| s.r.clone()).unwrap_or_else(|| {
            serde_json::json!({"tok": 0, "amt": 5000000, "fee": "exact", "opt": 0, "out": 1, "ins": [{"n": 1, "r": "cur"}], "t0": 2,
                "t1": 1, "rec": "now", "fv": 0, "ata": false, "sp": false, "memo": false, "ref": false, "req": "send",
                "vkey": 0, "big": "", "rcp": "rcp", "oc": "opt"})
        })
    }

    /// the account an entry of the money map stands for: lamports (0) and token 1 (1)
    fn account(&self, name: &str, t: usize) -> Pubkey {
        match (name, t) {
            ("pool", 0) => pool(),
            ("pool", _) => ata(&pool(), 1),
            ("coll", 0) => collector(),
            ("coll", _) => ata(&collector(), 1),
            ("p1", 0) => payer(1),
            ("p1", _) => ata(&payer(1), 1),
            ("p2", 0) => payer(2),
            ("p2", _) => ata(&payer(2), 1),
            ("rcp", 0) => recipient(),
            ("rcp", _) => ata(&recipient(), 2),
            ("rcpacc", _) => recipient_account(),
            ("rcpata", _) => ata(&recipient(), 1),
            ("opt", 0) => opt_collector(0),
            ("opt", _) => opt_collector(1),
            (x, _) => panic!("account {x}"),
        }
    }

    fn minimum(&self, b: &Bank) -> (u32, u32) {
        let n = self.ptr;
        let mut d = b.data(&queue());
        let mut a = CommitmentQueueAccount::new(&mut d).unwrap();
        let q = CommitmentQueue::new(&mut a).len() as usize;
        (2 + ((n + q) >> 20) as u32, ((n + q) & ((1 << 20) - 1)) as u32)
    }

    fn balances(&self, b: &Bank) -> Vec<[i128; 2]> {
        MONEY[..8]
            .iter()
            .map(|n| [b.lamports(&self.account(n, 0)) as i128, b.token_balance(&self.account(n, 1)) as i128])
            .collect()
    }

    fn compute(&self, w: &mut W, x: i64, kind: &str, wrong: &str) -> Result<(), String> {
        let ver = verification(x);
        let me = payer(slot_payer(x));
        let id = (wrong == "vkey") as u32;
        let one = |b: &mut Bank| -> Result<(), String> {
            let c = ix(
                &I::ComputeVerification { verification_account_index: slot_index(x), vkey_id: id },
                vec![
                    r(me),
                    crate::world::w(ver),
                    r(vkey(id)),
                    r(vkey_data()),
                    r(sysvar::instructions::ID),
                ],
            );
            let nop = Instruction { program_id: noop(), accounts: vec![], data: vec![] };
            b.tx(&[nop.clone(), nop, c.clone(), c.clone(), c.clone(), c.clone(), c]).map_err(err)
        };
        let Some(s) = w.slots.get(&x).cloned() else { return one(&mut w.bank) };
        let total = s.prep + 43 + 17;
        let target = match kind {
            "prep" => s.prep,
            "half" => s.prep + 20,
            _ => total,
        };
        let before = w.bank.data(&ver);
        let key = (hash::hash(&before).to_bytes(), format!("{kind}{wrong}"));
        let hit = self.memo.lock().unwrap().get(&key).cloned();
        if let Some(h) = hit {
            return match h {
                Some(d) => {
                    w.bank.set_data(&ver, &d);
                    Ok(())
                }
                None => Err("refused (as before)".into()),
            };
        }
        // where the computation is
        let done = {
            let mut d = before.clone();
            if d.is_empty() { 0 } else { progress(&mut d, s.prep) }
        };
        let mut first = true;
        let mut n = done;
        let mut res = Ok(());
        while n < target || first {
            if let Err(e) = one(&mut w.bank) {
                res = Err(e);
                break;
            }
            n += 1;
            first = false;
        }
        self.memo.lock().unwrap().insert(key, if res.is_ok() { Some(w.bank.data(&ver)) } else { None });
        res
    }

    fn run(&self, w: &mut W, tx: &[Value]) -> Result<(), String> {
        if tx.len() == 1 && tx[0]["i"] == "Compute" {
            return self.compute(w, i(&tx[0]["x"]), st(&tx[0]["k"]), st(&tx[0]["w"]));
        }
        if tx.len() == 1 && tx[0]["i"] == "Upgrade" {
            upgrade_fee(&mut w.bank, 1);
            return Ok(());
        }
        let saved = (w.slots.clone(), w.pf.clone());
        let mut ixs = vec![];
        let mut relayed = false;
        for a in tx {
            if let Some(mut c) = self.instruction(w, a)? {
                if bo(&a["cpi"]) {
                    c = Instruction { program_id: relay(), accounts: c.accounts, data: c.data };
                    relayed = true;
                }
                ixs.push(c);
            }
        }
        if relayed {
            // the relayed program has to be part of the transaction
            let l = ixs.iter_mut().find(|x| x.program_id == relay()).unwrap();
            l.accounts.push(r(elusiv::id()));
        }
        let res = w.bank.tx(&ixs).map_err(err);
        if res.is_err() {
            (w.slots, w.pf) = saved;
        }
        res
    }
}

/// transactions of five computations that have been done
/// the counter of an account (it follows the bump seed and the version)
fn instruction(b: &[u8]) -> usize {
    u32::from_le_bytes(b[2..6].try_into().unwrap()) as usize
}
fn progress(b: &mut [u8], prep: usize) -> usize {
    let ins = instruction(b);
    let a = VerificationAccount::new(b).unwrap();
    match a.get_step() {
        VerificationStep::PublicInputPreparation => ins,
        VerificationStep::CombinedMillerLoop => prep + ins / 5,
        VerificationStep::FinalExponentiation => prep + 43 + ins,
    }
}

struct Bound {
    recipient: Pubkey,
    ident: Pubkey,
    reference: Pubkey,
    iv: [u8; 32],
    owner: [u8; 32],
}

fn err(e: TxError) -> String {
    format!("{e:?}")
}

fn state_name(s: &VerificationState) -> &'static str {
    match s {
        VerificationState::None => "None",
        VerificationState::FeeTransferred => "Fee",
        VerificationState::ProofSetup => "Setup",
        VerificationState::InsertNullifiers => "Insert",
        VerificationState::Finalized => "Final",
        VerificationState::Closed => "Closed",
    }
}

pub fn register_relay() {
    svm::register_program(relay(), |_, accounts, data| {
        let n = accounts.len() - 1;
        svm::call_program(elusiv::id(), || elusiv::process_instruction(&elusiv::id(), &accounts[..n], data))
    });
}

impl Model for Spend {
    type W = W;
    fn thread_init(&self) {
        register();
        register_relay();
    }

    fn init(&self, _s: &Value) -> W {
        let mut b = deployed();
        for id in [memo_program(), relay(), noop(), elusiv::id()] {
            b.set(id, 1, &[], Pubkey::default());
            b.accts.get_mut(&id).unwrap().executable = true;
        }
        for p in [payer(1), payer(2), k("attacker")] {
            person(&mut b, p, 1_000_000 * SOL, 1 << 50);
        }
        b.airdrop(&collector(), 1000 * SOL);
        b.airdrop(&pool(), 1000 * SOL);
        b.set_token_account(ata(&collector(), 1), mint(1), collector(), 1 << 40);
        b.set_token_account(ata(&pool(), 1), mint(1), pool(), 1 << 40);
        b.airdrop(&recipient(), SOL);
        b.airdrop(&opt_collector(0), SOL);
        b.airdrop(&k("nobody"), SOL);
        b.set_token_account(recipient_account(), mint(1), recipient(), 0);
        b.set_token_account(recipient_account2(), mint(2), recipient(), 0);
        b.set_token_account(opt_collector(1), mint(1), k("opt"), 0);

        // the verifying key, by its own instructions (its data is written directly)
        let admin = k("admin");
        let with_byte: Vec<u8> = std::iter::once(0).chain(self.key.iter().copied()).collect();
        b.set(vkey_data(), Bank::rent(with_byte.len()), &with_byte, elusiv::id());
        must(
            &mut b,
            "CreateVkeyAccount",
            &[ix(
                &I::CreateVkeyAccount { vkey_id: 0, public_inputs_count: 14, deploy_authority: ElusivOption::Some(admin) },
                vec![sw(admin), crate::world::w(vkey(0)), r(system_program::ID)],
            )],
        );
        must(
            &mut b,
            "CreateNewVkeyVersion",
            &[ix(
                &I::CreateNewVkeyVersion { vkey_id: 0 },
                vec![s(admin), crate::world::w(vkey(0)), crate::world::w(vkey_data())],
            )],
        );
        must(
            &mut b,
            "UpdateVkeyVersion",
            &[ix(
                &I::UpdateVkeyVersion { vkey_id: 0 },
                vec![sw(admin), crate::world::w(vkey(0)), crate::world::w(vkey_data()), r(system_program::ID)],
            )],
        );
        // (there is no instruction for a second key)
        let mut d = b.data(&vkey(0));
        d[0] = VKeyAccount::find(Some(1)).1;
        b.set(vkey(1), Bank::rent(d.len()), &d, elusiv::id());

        // trees
        let full = if self.full > 0 { full_map(self.full) } else { vec![] };
        for t in 0..4u32 {
            b.set_zeros(nullifier_child(t), NullifierChildAccount::SIZE, elusiv::id());
            must(
                &mut b,
                "EnableNullifierChildAccount",
                &[ix(
                    &I::EnableNullifierChildAccount { mt_index: t, child_index: 0 },
                    vec![crate::world::w(nullifier(t)), crate::world::w(nullifier_child(t))],
                )],
            );
            if self.full > 0 {
                b.set_zeros(nullifier_child2(t), NullifierChildAccount::SIZE, elusiv::id());
                must(
                    &mut b,
                    "EnableNullifierChildAccount",
                    &[ix(
                        &I::EnableNullifierChildAccount { mt_index: t, child_index: 1 },
                        vec![crate::world::w(nullifier(t)), crate::world::w(nullifier_child2(t))],
                    )],
                );
                b.set(nullifier_child(t), Bank::rent(full.len()), &full, elusiv::id());
                edit(&mut b, &nullifier(t), |d| {
                    let mut a = NullifierAccount::new(d).unwrap();
                    a.set_nullifier_hash_count(&(NULLIFIERS_PER_ACCOUNT as u32));
                    a.set_max_values(0, &Some(filler(self.full, NULLIFIERS_PER_ACCOUNT - 1)).into());
                });
            }
            if t < 2 {
                edit(&mut b, &nullifier(t), |d| NullifierAccount::new(d).unwrap().set_root(&mr_bytes(&opaque(81, t as usize))));
            }
        }
        edit(&mut b, &storage(), |d| {
            let mut a = StorageAccount::new(d).unwrap();
            a.set_next_commitment_ptr(&(self.ptr as u32));
            a.set_trees_count(&2);
            a.set_mt_roots_count(&(self.ptr as u32));
            for j in self.ptr.saturating_sub(HISTORY_ARRAY_SIZE)..self.ptr {
                a.set_active_mt_root_history(j % HISTORY_ARRAY_SIZE, &mr_bytes(&opaque(79, j)));
            }
        });
        let _ = RefTree::new();
        // queues and window
        edit(&mut b, &queue(), |d| {
            let mut a = CommitmentQueueAccount::new(d).unwrap();
            let mut q = CommitmentQueue::new(&mut a);
            for n in 0..self.qfill {
                let c = CommitmentHashRequest { commitment: mr_bytes(&opaque(85, n)), fee_version: 0, min_batching_rate: 0 };
                q.enqueue(c).unwrap();
            }
        });
        edit(&mut b, &mqueue(), |d| {
            let mut a = MetadataQueueAccount::new(d).unwrap();
            let mut q = MetadataQueue::new(&mut a);
            for n in 0..self.qfill {
                q.enqueue(meta_of(&format!("fill{n}"))).unwrap();
            }
        });
        edit(&mut b, &buffer(), |d| {
            let mut a = CommitmentBufferAccount::new(d).unwrap();
            for j in 1..=self.wfill {
                assert!(a.try_insert(&mr_bytes(&out_fr(-100 - j as i64))).is_ok());
            }
        });
        set_rate(&mut b, self.rate);
        let base = self.balances(&b);
        let mut w = W { bank: b, slots: BTreeMap::new(), pf: HashMap::new(), base };
        for (n, tx) in self.start.iter().enumerate() {
            if let Err(e) = self.run(&mut w, &arr(tx)) {
                panic!("transaction {n} of the start is refused: {e}");
            }
        }
        w
    }

    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        self.run(w, &arr(&a["tx"]))
    }

    fn check(&self, w: &W, e: &Value, _act: &Value) -> Vec<Diff> {
        let b = &w.bank;
        let mut v = vec![];
        for (x, sl) in fun(&e["sl"]) {
            let key = verification(x);
            let want = st(&sl["st"]);
            cmp(&mut v, "slot.open", want != "gone", b.exists(&key));
            if !b.exists(&key) || want == "gone" {
                continue;
            }
            acct!(b, key, VerificationAccount, a);
            cmp(&mut v, "slot.state", if want == "Dead" { "Closed" } else { want }, state_name(&a.get_state()));
            if want == "Dead" {
                continue;
            }
            let comp = i(&sl["comp"]);
            let s = &w.slots[&x];
            let want_ver = match st(&sl["ver"]) {
                "no" => None,
                x => Some(x == "true"),
            };
            cmp(&mut v, "slot.verdict", want_ver, a.get_is_verified().option());
            // (the finalisation uses the counter of the computation for the insertions)
            if matches!(want, "None" | "Fee" | "Setup") && want_ver.is_none() {
                let done = progress(&mut b.data(&key), s.prep);
                let w_ = [0, s.prep, s.prep + 20][comp as usize];
                cmp(&mut v, "slot.progress", w_, done);
            }
            if want == "Insert" {
                cmp(&mut v, "slot.inserted", i(&sl["n"]), instruction(&b.data(&key)) as i64);
            }
            let d = a.get_other_data();
            cmp(&mut v, "slot.payer", payer(slot_payer(x)).to_bytes(), d.fee_payer.skip_mr());
            cmp(&mut v, "slot.skip", bo(&sl["skip"]), d.skip_nullifier_pda);
            let rcp = d.recipient_wallet.option().map(|p| p.skip_mr());
            let want_rcp = if bo(&sl["rcp"]) { Some(self.bound(&s.r, &s.v, "").recipient.to_bytes()) } else { None };
            cmp(&mut v, "slot.recipient", want_rcp, rcp);
            let req = a.get_request();
            cmp(&mut v, "slot.request", true, req == ProofRequest::Send(s.inputs.clone()));
            cmp(&mut v, "slot.trees", self.trees(s), a.all_tree_indices());
            if comp == 0 {
                for (n, p) in s.signals.iter().enumerate() {
                    cmp(&mut v, "slot.signal", *p, a.get_public_input(n).skip_mr());
                }
            }
            if want != "None" {
                let tok = i(&s.r["tok"]);
                let conv = |l: u64| if tok == 0 { l } else { l / 50 };
                let f = Fees::of(i(&s.r["fv"]) as u32);
                cmp(&mut v, "slot.fee.hash", f.hash(self.rate), d.commitment_hash_fee.0);
                cmp(&mut v, "slot.fee.hashtok", conv(f.hash(self.rate)), d.commitment_hash_fee_token);
                cmp(&mut v, "slot.fee.proof", s.pf, d.proof_verification_fee as i128);
                cmp(&mut v, "slot.fee.net", f.bp * i(&s.r["amt"]) as u64 / 10_000, d.network_fee);
                cmp(&mut v, "slot.fee.sub", conv(f.sub), d.subvention);
                cmp(&mut v, "slot.fee.rate", self.rate, d.min_batching_rate);
                cmp(&mut v, "slot.fee.tok", tok as u16, d.token_id);
            }
            // the marker of its nullifiers exists (unless it is shared)
            if !bo(&sl["skip"]) {
                cmp(&mut v, "marker", true, b.exists(&self.dup_marker(s)));
            }
        }
        // markers of nothing
        let dups: Vec<Vec<i64>> = arr(&e["dup"]).iter().map(|l| arr(l).iter().map(i).collect()).collect();
        for s in w.slots.values() {
            let l: Vec<i64> = arr(&s.r["ins"]).iter().map(|x| i(&x["n"])).collect();
            cmp(&mut v, "marker", dups.contains(&l), b.exists(&self.dup_marker(s)));
        }
        // spent nullifiers
        let spent: Vec<(i64, i64)> = arr(&e["spent"]).iter().map(|p| (i(&p[0]), i(&p[1]))).collect();
        for t in 0..4u32 {
            let want = spent.iter().filter(|p| p.0 == t as i64).count();
            let mut d = b.data(&nullifier(t));
            let a = NullifierAccount::new(&mut d).unwrap();
            let fill = if self.full > 0 { NULLIFIERS_PER_ACCOUNT } else { 0 };
            cmp(&mut v, "nullifiers.count", want + fill, a.get_nullifier_hash_count() as usize);
            let wait = i(&e["mv"][t.to_string().as_str()]) as usize;
            cmp(&mut v, "nullifiers.wait", wait == 0, a.is_moved_nullifier_empty());
            let mut cd = b.data(&nullifier_child(t));
            let mut m = NullifierMap::new(&mut cd[1..]);
            let mut cd2 = if self.full > 0 { b.data(&nullifier_child2(t)) } else { vec![0; NullifierChildAccount::SIZE] };
            let mut m2 = NullifierMap::new(&mut cd2[1..]);
            for n in 1..80 {
                let x = OrdU256(nullifier_mr(n));
                let has = (m.contains(&x).is_some(), m2.contains(&x).is_some());
                let is = spent.contains(&(t as i64, n));
                cmp(&mut v, "nullifiers", (t, n, (is && self.full < 2, is && self.full == 2)), (t, n, has));
            }
            // the fillers: the largest ones have made way
            if self.full > 0 {
                let gone = if self.full == 1 { want } else { 0 };
                for j in [0, 1, 1000, 30_000].into_iter().chain(NULLIFIERS_PER_ACCOUNT - 12..NULLIFIERS_PER_ACCOUNT) {
                    let x = OrdU256(filler(self.full, j));
                    let has = (m.contains(&x).is_some(), m2.contains(&x).is_some());
                    let stays = j < NULLIFIERS_PER_ACCOUNT - gone;
                    // (those that were ousted last wait)
                    let waits = !stays && j < NULLIFIERS_PER_ACCOUNT - gone + wait;
                    cmp(&mut v, "nullifiers", (t, j, (stays, !stays && !waits)), (t, j, has));
                }
            }
        }
        // the window: who is remembered
        {
            acct!(b, buffer(), CommitmentBufferAccount, a);
            let win: Vec<i64> = arr(&e["win"]).iter().map(i).collect();
            let all: Vec<i64> = (1..=self.wfill as i64).map(|j| -100 - j).chain(win.iter().copied()).collect();
            cmp(&mut v, "window.len", all.len().min(128), RingBuffer::len(&a));
            let from = all.len().saturating_sub(128);
            for (j, c) in all.iter().enumerate() {
                if *c == 0 {
                    continue;
                }
                // (only the last occurrence counts)
                if all[j + 1..].contains(c) {
                    continue;
                }
                let found = a.find_position(&mr_bytes(&out_fr(*c))).is_some();
                cmp(&mut v, "window.member", (c, j >= from), (c, found));
            }
            for s in w.slots.values() {
                let js = &s.inputs.join_split;
                if !all.iter().any(|c| *c != 0 && out_raw(*c) == js.output_commitment.skip_mr()) {
                    let found = a.find_position(&js.output_commitment.reduce()).is_some();
                    cmp(&mut v, "window.member", false, found);
                }
            }
        }
        // queues
        {
            let q0 = self.qfill;
            let items = arr(&e["q"]);
            let mut d = b.data(&queue());
            let mut a = CommitmentQueueAccount::new(&mut d).unwrap();
            let q = CommitmentQueue::new(&mut a);
            cmp(&mut v, "queue.len", q0 + items.len(), q.len() as usize);
            let mut d = b.data(&mqueue());
            let mut a = MetadataQueueAccount::new(&mut d).unwrap();
            let mq = MetadataQueue::new(&mut a);
            cmp(&mut v, "mqueue.len", q0 + items.len(), mq.len() as usize);
            for n in 0..q0 {
                cmp(&mut v, "queue.commitment", Some(mr_bytes(&opaque(85, n))), q.view(n).ok().map(|x| x.commitment));
                cmp(&mut v, "mqueue.metadata", Some(meta_of(&format!("fill{n}"))), mq.view(n).ok());
            }
            for (n, c) in items.iter().enumerate() {
                let x = q.view(q0 + n).ok();
                cmp(&mut v, "queue.commitment", Some(mr_bytes(&out_fr(i(&c["c"])))), x.map(|x| x.commitment));
                cmp(&mut v, "queue.fv", Some(i(&c["fv"])), x.map(|x| x.fee_version as i64));
                cmp(&mut v, "queue.rate", Some(self.rate), x.map(|x| x.min_batching_rate));
                cmp(&mut v, "mqueue.metadata", Some(meta_of(st(&c["v"]))), mq.view(q0 + n).ok());
            }
        }
        // the tree does not change
        {
            acct!(b, storage(), StorageAccount, a);
            cmp(&mut v, "tree.ptr", self.ptr as u32, a.get_next_commitment_ptr());
            acct!(b, governor(), GovernorAccount, g);
            cmp(&mut v, "gov", i(&e["gov"]), g.get_fee_version() as i64);
        }
        cmp(&mut v, "ata", bo(&e["ata"]), b.exists(&ata(&recipient(), 1)));
        // money
        let mut pf = vec![[0i128; 2]; 8];
        for p in arr(&e["paid"]) {
            let name = st(&p[1]);
            let (s, t) = w.pf[name];
            pf[0][t] -= s;
            pf[if i(&p[0]) == 1 { 2 } else { 3 }][t] += s;
        }
        let now = self.balances(b);
        for (n, name) in MONEY[..8].iter().enumerate() {
            for t in 0..2 {
                if t == 0 && (*name == "rcpata" || *name == "rcpacc") {
                    continue;
                }
                let want = i(&e["m"][*name][t]) as i128 + pf[n][t];
                let f = format!("money.{}.{}", name, ["lamports", "token"][t]);
                cmp(&mut v, &f, want, now[n][t] - w.base[n][t]);
            }
        }
        v
    }
}
