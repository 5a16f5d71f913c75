//! Binds spec/Groth.tla to the verification of proofs.
use crate::engine::*;
use crate::groth::{g1, g2, Trapdoor};
use crate::refhash::raw_bytes;
use crate::svm::{self, *};
use crate::world::{deployed, edit, ix, k, kn, must, person, r, s, sw, w};
use ark_bn254::{Bn254, Fq, Fq2, Fr, G1Affine, G2Affine};
use ark_ec::PairingEngine;
use ark_ff::{Field, One, Zero};
use elusiv::fields::{G1A, G2A};
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::{ProofRequest, MAX_MT_COUNT};
use elusiv::proof::verifier::prepare_public_inputs_instructions;
use elusiv::proof::verifier::VerificationStep;
use elusiv::state::proof::{VerificationAccount, VerificationState};
use elusiv::state::vkey::VKeyAccount;
use elusiv::types::{Proof, RawU256, SendPublicInputs, JoinSplitPublicInputs, U256};
use elusiv_types::{ElusivOption, PDAAccount, ParentAccount, ProgramAccount, SizedAccount};
use serde_json::Value;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program, sysvar};
use std::sync::OnceLock;

const N_IX: i64 = 215;
const N_FINAL: i64 = 17;

pub struct Groth {}
#[derive(Clone)]
pub struct W {
    bank: Bank,
}

fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("no number: {v}"))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap()
}
fn fr(v: i64) -> Fr {
    if v < 0 {
        -Fr::from((-v) as u64)
    } else {
        Fr::from(v as u64)
    }
}
fn key(n: i64) -> Trapdoor {
    let f = |a: u64, b: u64, c: u64, d: u64, l: &[u64]| Trapdoor {
        alpha: Fr::from(a),
        beta: Fr::from(b),
        gamma: Fr::from(c),
        delta: Fr::from(d),
        ic: l.iter().map(|x| Fr::from(*x)).collect(),
    };
    match n {
        1 => f(3, 5, 7, 1, &[11, 13, 17]),
        2 => f(4, 9, 6, 2, &[19, 5, 23]),
        3 => f(2, 7, 3, 1, &[1, 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]),
        _ => panic!("key {n}"),
    }
}
/// keys 1, 2, 3 are stored with the numbers 0, 1, 2
fn vkey(n: i64) -> Pubkey {
    VKeyAccount::find(Some(n as u32 - 1)).0
}
fn vdata(n: i64) -> Pubkey {
    kn("groth-key-", n)
}
fn payer(x: i64) -> Pubkey {
    kn("groth-payer-", (x + 1) / 2)
}
fn account_index(x: i64) -> u8 {
    (x % 2) as u8
}
fn verification(x: i64) -> (Pubkey, u8) {
    VerificationAccount::find_with_pubkey(payer(x), Some(account_index(x) as u32))
}
/// a sum of digits times powers of 256
fn value(d: &[(i64, u32)]) -> Fr {
    d.iter().map(|(x, j)| fr(*x) * Fr::from(256u64).pow([*j as u64])).sum()
}
fn digits(v: &Value) -> Vec<(i64, u32)> {
    v.as_array().map_or(vec![], |l| l.iter().map(|e| (i(&e[0]), i(&e[1]) as u32)).collect())
}
fn order() -> [u8; 32] {
    let mut b = raw_bytes(&-Fr::one());
    b[0] += 1; // (the order is odd)
    b
}
/// 32 bytes: digits with carry, plus a multiple of the order
fn input(v: &Value) -> U256 {
    let d = digits(&v["d"]);
    let mut c = [0i64; 33];
    for (x, j) in &d {
        c[*j as usize] += x;
    }
    if d.iter().any(|(x, _)| *x < 0) {
        let o = order();
        (0..32).for_each(|j| c[j] += o[j] as i64);
    }
    let o = order();
    (0..32).for_each(|j| c[j] += o[j] as i64 * i(&v["lift"]));
    let mut out = [0u8; 32];
    let mut carry = 0i64;
    for j in 0..32 {
        let x = c[j] + carry;
        out[j] = x.rem_euclid(256) as u8;
        carry = x.div_euclid(256);
    }
    assert_eq!(carry, 0, "input {v} does not fit");
    out
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn inputs(c: &Value) -> Vec<U256> {
    arr(&c["ins"]).iter().map(input).collect()
}

/// a point of the twist that is not in the subgroup
fn stray() -> G2Affine {
    static P: OnceLock<G2Affine> = OnceLock::new();
    *P.get_or_init(|| {
        (1u64..)
            .filter_map(|x| G2Affine::get_point_from_x(Fq2::new(Fq::from(x), Fq::from(3u64)), false))
            .find(|p| p.is_on_curve() && !p.is_in_correct_subgroup_assuming_on_curve())
            .unwrap()
    })
}
fn power(v: &Value, j: u32) -> i64 {
    match v {
        Value::Array(l) => i(&l[j as usize]),
        _ => i(&v[j.to_string()]),
    }
}
fn proof(c: &Value) -> Proof {
    let p = &c["p"];
    let cc = value(&(0..32).map(|j| (power(&p["c"], j), j)).collect::<Vec<_>>());
    let mut a = g1(fr(i(&p["a"])));
    let mut b = g2(fr(i(&p["b"])));
    let mut d = g1(cc);
    let bad = st(&p["bad"]);
    let off1 = |p: G1Affine| G1Affine::new(p.x, p.y + Fq::one(), false);
    let off2 = |p: G2Affine| G2Affine::new(p.x, p.y + Fq2::one(), false);
    match bad {
        "" => {}
        "aoff" => a = off1(a),
        "boff" => b = off2(b),
        "coff" => d = off1(d),
        "bsub" => b = stray(),
        "alloff" => (a, b, d) = (off1(a), off2(b), off1(d)),
        "azero" => a = G1Affine::new(Fq::zero(), Fq::zero(), false),
        "bzero" => b = G2Affine::new(Fq2::zero(), Fq2::zero(), false),
        "czero" => d = G1Affine::new(Fq::zero(), Fq::zero(), false),
        "axy" => a = G1Affine::new(a.y, a.x, false),
        "bxy" => b = G2Affine::new(b.y, b.x, false),
        x => panic!("point {x}"),
    }
    Proof { a: G1A(a), b: G2A(b), c: G1A(d) }
}
/// what a library says about the proof (a check of the harness, not of the program)
fn reference(c: &Value) -> Option<bool> {
    let p = proof(c);
    if st(&c["p"]["bad"]) != "" || p.b.0.is_zero() {
        return None;
    }
    let t = key(i(&c["k"]));
    let mut l = t.ic[0];
    for (n, v) in arr(&c["ins"]).iter().enumerate() {
        l += value(&digits(&v["d"])) * t.ic[n + 1];
    }
    let f = |a: G1Affine, b: G2Affine| (a.into(), b.into());
    let one = Bn254::product_of_pairings(&[f(p.a.0, p.b.0), f(-g1(t.alpha), g2(t.beta)), f(-g1(l), g2(t.gamma)), f(-p.c.0, g2(t.delta))]);
    Some(one.is_one())
}

fn world() -> &'static Bank {
    static B: OnceLock<Bank> = OnceLock::new();
    B.get_or_init(|| {
        let mut b = deployed();
        let admin = k("admin");
        for id in [crate::spend_model::noop(), elusiv::id()] {
            b.set(id, 1, &[], Pubkey::default());
            b.accts.get_mut(&id).unwrap().executable = true;
        }
        for x in 1..=4 {
            person(&mut b, payer(x), 1_000_000_000, 0);
        }
        person(&mut b, k("stranger"), 1_000_000_000, 0);
        let data = |n: i64, flag: u8| -> Vec<u8> { std::iter::once(flag).chain(key(n).encode()).collect() };
        let d = data(1, 0);
        b.set(vdata(1), Bank::rent(d.len()), &d, elusiv::id());
        must(
            &mut b,
            "CreateVkeyAccount",
            &[ix(
                &I::CreateVkeyAccount { vkey_id: 0, public_inputs_count: 2, deploy_authority: ElusivOption::Some(admin) },
                vec![sw(admin), w(vkey(1)), r(system_program::ID)],
            )],
        );
        // a key that is not set up yet
        let unset = b.data(&vkey(1));
        must(&mut b, "CreateNewVkeyVersion", &[ix(&I::CreateNewVkeyVersion { vkey_id: 0 }, vec![s(admin), w(vkey(1)), w(vdata(1))])]);
        must(
            &mut b,
            "UpdateVkeyVersion",
            &[ix(&I::UpdateVkeyVersion { vkey_id: 0 }, vec![sw(admin), w(vkey(1)), w(vdata(1)), r(system_program::ID)])],
        );
        // (there is no instruction for further keys)
        let flag = b.data(&vdata(1))[0];
        for n in 2..=4 {
            let mut d = if n == 4 { unset.clone() } else { b.data(&vkey(1)) };
            d[0] = VKeyAccount::find(Some(n as u32 - 1)).1;
            b.set(vkey(n), Bank::rent(d.len()), &d, elusiv::id());
            edit(&mut b, &vkey(n), |d| {
                let mut a = VKeyAccount::new(d).unwrap();
                if n == 3 {
                    a.set_public_inputs_count(&14);
                }
                a.set_child_pubkey(0, Some(vdata(n.min(3))).into());
            });
            if n < 4 {
                let d = data(n, flag);
                b.set(vdata(n), Bank::rent(d.len()), &d, elusiv::id());
            }
        }
        b
    })
}

/// any request
pub fn a_request() -> ProofRequest {
    ProofRequest::Send(SendPublicInputs {
        join_split: JoinSplitPublicInputs {
            input_commitments: vec![],
            output_commitment: RawU256::new([0; 32]),
            recent_commitment_index: 0,
            fee_version: 0,
            amount: 0,
            fee: 0,
            optional_fee: Default::default(),
            token_id: 0,
            metadata: [0; 17],
        },
        recipient_is_associated_token_account: false,
        hashed_inputs: [0; 32],
        solana_pay_transfer: false,
    })
}

fn nop() -> Instruction {
    Instruction { program_id: crate::spend_model::noop(), accounts: vec![], data: vec![] }
}

struct Where {
    step: &'static str,
    ix: i64,
    left: i64,
    verdict: Option<bool>,
}
fn place(b: &Bank, x: i64) -> Where {
    let mut d = b.data(&verification(x).0);
    let n = u32::from_le_bytes(d[2..6].try_into().unwrap()) as i64;
    let a = VerificationAccount::new(&mut d).unwrap();
    let (step, total) = match a.get_step() {
        VerificationStep::PublicInputPreparation => ("prep", a.get_prepare_inputs_instructions_count() as i64),
        VerificationStep::CombinedMillerLoop => ("miller", N_IX),
        VerificationStep::FinalExponentiation => ("final", N_FINAL),
    };
    Where { step, ix: n, left: total - n, verdict: a.get_is_verified().option() }
}
fn stage(p: &Where) -> &'static str {
    if p.verdict.is_some() {
        "done"
    } else {
        p.step
    }
}

impl Groth {
    pub fn new(_c: &Value) -> Self {
        Groth {}
    }
    fn tx(&self, b: &mut Bank, x: i64, kid: i64, child: i64, shape: &str) -> Result<(), String> {
        let c = ix(
            &I::ComputeVerification { verification_account_index: account_index(x), vkey_id: kid as u32 - 1 },
            vec![r(payer(x)), w(verification(x).0), r(vkey(kid)), r(vdata(child)), r(sysvar::instructions::ID)],
        );
        let (n, c) = (nop(), c);
        let l = match shape {
            "five" => vec![n.clone(), n, c.clone(), c.clone(), c.clone(), c.clone(), c],
            "seven" => vec![c; 7],
            "lone" => vec![n.clone(), n.clone(), n.clone(), n.clone(), n.clone(), n, c],
            "one" => vec![c],
            "early" => vec![n, c.clone(), c.clone(), c],
            s => panic!("shape {s}"),
        };
        b.tx(&l).map_err(|e| format!("{e:?}"))
    }
    fn key_of(&self, b: &Bank, x: i64) -> i64 {
        let mut d = b.data(&verification(x).0);
        VerificationAccount::new(&mut d).unwrap().get_vkey_id() as i64 + 1
    }
    /// transactions until the stage is over, or half of it
    fn advance(&self, b: &mut Bank, x: i64, shape: &str, half: bool) -> Result<(), String> {
        let kid = self.key_of(b, x);
        let p = place(b, x);
        let from = stage(&p);
        let until = p.ix + p.left / 2;
        let mut n = 0;
        loop {
            let p = place(b, x);
            if stage(&p) != from || half && p.ix >= until {
                if n > 0 {
                    return Ok(());
                }
            }
            self.tx(b, x, kid, kid, shape)?;
            n += 1;
            if n > 600 {
                return Err("does not come to an end".into());
            }
        }
    }
}

impl Model for Groth {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }

    fn init(&self, stt: &Value) -> W {
        let mut b = world().clone();
        let l = arr(&stt["v"]);
        for (n, s) in l.iter().enumerate() {
            let x = n as i64 + 1;
            let c = &s["c"];
            let ins = inputs(c);
            let (key_, bump) = verification(x);
            b.set_zeros(key_, VerificationAccount::SIZE, elusiv::id());
            edit(&mut b, &key_, |d| {
                d[0] = bump;
                let steps = prepare_public_inputs_instructions(&ins, ins.len());
                let raw: Vec<RawU256> = ins.iter().map(|v| RawU256::new(*v)).collect();
                let mut a = VerificationAccount::new(d).unwrap();
                a.setup(RawU256::new(payer(x).to_bytes()), false, &raw, &steps, i(&c["k"]) as u32 - 1, a_request(), [0; MAX_MT_COUNT])
                    .unwrap_or_else(|_| panic!("setup"));
            });
            // the specification and the library agree on this case
            if let Some(v) = reference(c) {
                let spec = s["good"].as_bool().unwrap();
                assert_eq!(v, spec, "the specification is wrong about {c}");
            }
        }
        W { bank: b }
    }

    fn step(&self, w_: &mut W, a: &Value) -> Result<(), String> {
        let x = i(&a["x"]);
        let b = &mut w_.bank;
        let saved = b.clone();
        let res = match st(&a["n"]) {
            "Fee" => {
                edit(b, &verification(x).0, |d| {
                    VerificationAccount::new(d).unwrap().set_state(&VerificationState::FeeTransferred)
                });
                Ok(())
            }
            "Proof" => {
                let me = if a["by"] == "payer" { payer(x) } else { k("stranger") };
                b.tx(&[ix(
                    &I::InitVerificationProof { verification_account_index: account_index(x), proof: proof(&a["c"]) },
                    vec![svm::meta(me, true, false), w(verification(x).0)],
                )])
                .map_err(|e| format!("{e:?}"))
            }
            "Prep" | "Miller" | "Final" => self.advance(b, x, st(&a["sh"]), a["half"] == true),
            "Idle" | "Over" => {
                let kid = self.key_of(b, x);
                self.tx(b, x, kid, kid, st(&a["sh"]))
            }
            "Other" => {
                let kid = self.key_of(b, x);
                let o = 3 - kid;
                match st(&a["w"]) {
                    "key" => self.tx(b, x, o, o, "five"),
                    "unset" => {
                        edit(b, &verification(x).0, |d| VerificationAccount::new(d).unwrap().set_vkey_id(&3));
                        let e = self.tx(b, x, 4, 3, "five");
                        edit(b, &verification(x).0, |d| VerificationAccount::new(d).unwrap().set_vkey_id(&(kid as u32 - 1)));
                        e
                    }
                    _ => self.tx(b, x, kid, o, "five"),
                }
            }
            n => panic!("action {n}"),
        };
        if res.is_err() {
            *b = saved;
        }
        res
    }

    fn check(&self, w: &W, exp: &Value, _a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        for (n, s) in arr(&exp["v"]).iter().enumerate() {
            let x = n as i64 + 1;
            let p = place(&w.bank, x);
            cmp(&mut v, "stage", st(&s["stage"]), stage(&p));
            cmp(
                &mut v,
                "verdict",
                st(&s["verdict"]),
                match p.verdict {
                    None => "none",
                    Some(true) => "yes",
                    Some(false) => "no",
                },
            );
            let mut d = w.bank.data(&verification(x).0);
            let mut a = VerificationAccount::new(&mut d).unwrap();
            let state = match a.get_state() {
                VerificationState::None => "None",
                VerificationState::FeeTransferred => "Fee",
                VerificationState::ProofSetup => "Setup",
                _ => "?",
            };
            cmp(&mut v, "state", st(&s["st"]), state);
            cmp(&mut v, "key", i(&s["c"]["k"]), a.get_vkey_id() as i64 + 1);
            for (n, want) in inputs(&s["c"]).iter().enumerate() {
                cmp(&mut v, "input", *want, a.get_public_input(n).skip_mr());
            }
            if state == "Setup" {
                let want = proof(&s["c"]);
                cmp(&mut v, "proof", true, a.a.get().0 == want.a.0 && a.b.get().0 == want.b.0 && a.c.get().0 == want.c.0);
            }
        }
        v
    }
}
