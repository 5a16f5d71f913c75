//! Binds spec/Fees.tla to the fees of deposits, spends and settlements, and to new fee schedules.
use crate::engine::*;
use crate::spend_model::Spend;
use crate::svm::*;
use crate::world::*;
use elusiv::instruction::ElusivInstruction as I;
use elusiv::processor::{BaseCommitmentHashRequest, ProofRequest};
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::CommitmentMetadata;
use elusiv::state::proof::*;
use elusiv::token::Lamports;
use elusiv::types::{OptionalFee, RawU256};
use elusiv_types::{ElusivOption, ProgramAccount, TOKENS};
use serde_json::Value;
use solana_program::{instruction::Instruction, pubkey::Pubkey, system_program};
use std::collections::BTreeMap;

pub struct Fees {
    /// a native spend and one of token 1, each with an optional fee
    lives: [Life; 2],
    native: Bank,
}
struct Life {
    start: Bank, // before the fee of the spend is paid
    fee: Instruction,
    end: Bank, // before the spend is settled
    settle: Instruction,
}
#[derive(Clone)]
pub struct W {
    k: String,
    moved: BTreeMap<String, [i128; 2]>,
    kept: Vec<u128>,
}
fn i(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("no number: {v}"))
}
fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("no string: {v}"))
}
fn bo(v: &Value) -> bool {
    v.as_bool().unwrap_or_else(|| panic!("no boolean: {v}"))
}
fn wide(v: &Value) -> u128 {
    v.as_array().unwrap().iter().rev().fold(0, |a, d| a * 10_000 + d.as_u64().unwrap() as u128)
}
fn u(v: &Value) -> u64 {
    wide(v).try_into().unwrap()
}
fn err(e: impl std::fmt::Debug) -> String {
    format!("{e:?}")
}
fn sender() -> Pubkey {
    k("sender")
}
const WHO: [&str; 6] = ["sender", "payer", "pool", "coll", "rcp", "opt"];

fn sched(f: &Value, txs: u64) -> ProgramFee {
    ProgramFee {
        lamports_per_tx: Lamports(u(&f["lpt"])),
        base_commitment_network_fee: BasisPointFee(u(&f["bp"])),
        proof_network_fee: BasisPointFee(u(&f["nbp"])),
        base_commitment_subvention: Lamports(u(&f["sub"])),
        proof_subvention: Lamports(u(&f["psub"])),
        warden_hash_tx_reward: Lamports(u(&f["hrew"])),
        warden_proof_reward: Lamports(u(&f["prew"])),
        proof_base_tx_count: txs,
    }
}
fn fields(f: &ProgramFee) -> Vec<u128> {
    [
        f.lamports_per_tx.0,
        f.base_commitment_network_fee.0,
        f.proof_network_fee.0,
        f.base_commitment_subvention.0,
        f.proof_subvention.0,
        f.warden_hash_tx_reward.0,
        f.warden_proof_reward.0,
    ]
    .map(|x| x as u128)
    .to_vec()
}

/// the price account of token `t`
fn price(b: &mut Bank, t: u16, p: &Value) {
    let m = wide(&p["m"]) as i64;
    set_price(b, t, if bo(&p["neg"]) { -m } else { m }, i(&p["e"]) as i32, u(&p["c"]));
    if !bo(&p["live"]) {
        edit(b, &price_key(t), |d| {
            // the price is not current any more: status "halted" instead of "trading"
            assert_eq!(d[224..228], 1u32.to_le_bytes());
            d[224..228].copy_from_slice(&2u32.to_le_bytes());
        });
    }
}

/// who takes part in a case: accounts and the token accounts
struct Cast {
    tok: u16,
    who: BTreeMap<String, (Pubkey, Pubkey)>,
}
impl Cast {
    fn new(tok: u16, payer: Pubkey, rcp: (Pubkey, Pubkey), opt: (Pubkey, Pubkey)) -> Self {
        let t = if tok as usize >= TOKENS.len() { 0 } else { tok };
        let own = |p: Pubkey| (p, holding(&p, t));
        let l = [own(sender()), own(payer), own(pool()), own(collector()), rcp, opt];
        Cast { tok: t, who: WHO.iter().map(|n| n.to_string()).zip(l).collect() }
    }
    fn rich(&self, b: &mut Bank, of: impl Fn(&str) -> (u64, u64)) {
        for (n, (p, a)) in &self.who {
            let (l, t) = of(n);
            if !b.exists(p) || p != a || self.tok == 0 {
                b.airdrop(p, 1);
                b.accts.get_mut(p).unwrap().lamports = l;
            }
            if self.tok != 0 {
                let owner = match n.as_str() {
                    "pool" => pool(),
                    "coll" => collector(),
                    _ => *p,
                };
                b.set_token_account(*a, mint(self.tok), owner, t);
            }
        }
    }
    fn holds(&self, b: &Bank) -> BTreeMap<String, [i128; 2]> {
        let f = |p: &Pubkey, a: &Pubkey| {
            let t = if self.tok == 0 { 0 } else { u64::from_le_bytes(b.data(a)[64..72].try_into().unwrap()) };
            // (the lamports of token accounts never change here)
            [if self.tok != 0 && p == a { 0 } else { b.lamports(p) as i128 }, t as i128]
        };
        self.who.iter().map(|(n, (p, a))| (n.clone(), f(p, a))).collect()
    }
}
const E18: u64 = 1_000_000_000_000_000_000;
fn wealth(n: &str) -> (u64, u64) {
    match n {
        "sender" => (9 * E18, 9 * E18),
        "payer" => (4 * E18, 0),
        "pool" => (1_000_000_000_000, 1_000_000_000_000),
        "coll" => (4 * E18, 4 * E18),
        _ => (1_000_000_000, 0),
    }
}
fn rich(n: &str) -> (u64, u64) {
    match n {
        "pool" => (17 * E18, 17 * E18),
        "coll" => (1_000_000_000, 1_000_000_000),
        "sender" => wealth(n),
        _ => (1_000_000_000, 0),
    }
}
fn since(a: &BTreeMap<String, [i128; 2]>, b: &BTreeMap<String, [i128; 2]>) -> BTreeMap<String, [i128; 2]> {
    a.iter().map(|(n, x)| (n.clone(), [b[n][0] - x[0], b[n][1] - x[1]])).collect()
}
fn govern(b: &mut Bank, f: &ProgramFee, rate: u32) {
    edit(b, &governor(), |d| {
        let mut g = GovernorAccount::new(d).unwrap();
        g.set_program_fee(f);
        g.set_commitment_batching_rate(&rate);
    });
}

impl Fees {
    pub fn new(_c: &Value) -> Self {
        register();
        let lives: Vec<Value> = serde_json::from_str(include_str!("../lives.json")).unwrap();
        let life = |n: &str| {
            let x = lives.iter().find(|x| x["name"] == n).unwrap();
            let m = Spend::new(&x["consts"], x["start"].as_array().unwrap().clone());
            m.thread_init();
            let log = record(|| {
                let mut w = m.init(&Value::Null);
                for a in x["path"].as_array().unwrap() {
                    if let Err(e) = m.step(&mut w, a) {
                        panic!("the spend '{n}' cannot be prepared: {a}: {e}");
                    }
                }
            });
            let is = |c: &Instruction, tag: u8| c.program_id == elusiv::id() && c.data[0] == tag;
            let (start, fee) = log
                .iter()
                .find_map(|(b, t)| (t.len() == 1 && is(&t[0], FEE_TAG())).then(|| (b.clone(), t[0].clone())))
                .expect("no fee payment in the life of a spend");
            let (end, t) = log.last().unwrap();
            Life { start, fee, end: end.clone(), settle: t[2].clone() }
        };
        Fees { lives: [life("opt"), life("topt")], native: deployed() }
    }

    fn deposit(&self, a: &Value) -> Result<W, String> {
        let mut b = self.native.clone();
        let tok = i(&a["tok"]) as u16;
        let fp = k("fee-payer");
        let none = |n: &str| (k(n), holding(&k(n), if tok as usize >= TOKENS.len() { 0 } else { tok }));
        let cast = Cast::new(tok, fp, none("rcp"), none("opt"));
        cast.rich(&mut b, wealth);
        let rate = i(&a["rate"]) as u32;
        govern(&mut b, &sched(&a["f"], ProgramFee::proof_base_tx_count()), rate);
        price(&mut b, 0, &a["sol"]);
        if cast.tok != 0 {
            price(&mut b, cast.tok, &a["usd"]);
        }
        let (key, bump) = base_hashing(0);
        let h = |p: Pubkey| w(holding(&p, cast.tok));
        let t = ix(
            &I::StoreBaseCommitment {
                hash_account_index: 0,
                hash_account_bump: bump,
                request: BaseCommitmentHashRequest {
                    base_commitment: RawU256::new([7; 32].map(|x: u8| x / 2)),
                    recent_commitment_index: 0,
                    amount: u(&a["amt"]),
                    token_id: tok,
                    commitment: RawU256::new([5; 32].map(|x: u8| x / 2)),
                    fee_version: 0,
                    min_batching_rate: rate,
                },
                metadata: CommitmentMetadata::default(),
            },
            vec![
                s(sender()),
                h(sender()),
                sw(fp),
                h(fp),
                w(pool()),
                h(pool()),
                w(collector()),
                h(collector()),
                r(price_key(0)),
                r(price_key(tok)),
                r(governor()),
                r(storage()),
                w(key),
                w(base_buffer()),
                r(token_program(tok)),
                r(system_program::ID),
            ],
        );
        let before = cast.holds(&b);
        b.tx(&[t]).map_err(err)?;
        let mut moved = since(&before, &cast.holds(&b));
        moved.get_mut("payer").unwrap()[0] += b.lamports(&key) as i128;
        Ok(W { k: "deposit".into(), moved, kept: vec![] })
    }

    fn request(&self, b: &mut Bank, ver: &Pubkey, f: impl Fn(&mut elusiv::types::SendPublicInputs, &mut VerificationAccount)) {
        edit(b, ver, |d| {
            let mut v = VerificationAccount::new(d).unwrap();
            let mut r = v.get_request();
            if let ProofRequest::Send(p) = &mut r {
                f(p, &mut v);
            }
            v.set_request(&r);
        });
    }

    fn fee(&self, a: &Value) -> Result<W, String> {
        let tok = i(&a["tok"]) as u16;
        let l = &self.lives[(tok != 0) as usize];
        let mut b = l.start.clone();
        let (payer, ver) = (l.fee.accounts[0].pubkey, l.fee.accounts[9].pubkey);
        let none = |n: &str| (k(n), holding(&k(n), tok));
        let cast = Cast::new(tok, payer, none("rcp"), none("opt"));
        cast.rich(&mut b, wealth);
        govern(&mut b, &sched(&a["f"], ProgramFee::proof_base_tx_count()), i(&a["rate"]) as u32);
        price(&mut b, 0, &a["sol"]);
        if tok != 0 {
            price(&mut b, tok, &a["usd"]);
        }
        self.request(&mut b, &ver, |p, v| {
            p.join_split.amount = u(&a["amt"]);
            p.join_split.fee = u(&a["fee"]);
            p.join_split.token_id = tok;
            p.join_split.optional_fee = OptionalFee { collector: k("opt"), amount: u(&a["opt"]) };
            p.recipient_is_associated_token_account = bo(&a["ata"]);
            v.set_prepare_inputs_instructions_count(&(i(&a["cnt"]) as u32));
        });
        let mut t = l.fee.clone();
        for (x, o) in [(1, payer), (3, pool()), (5, collector())] {
            t.accounts[x].pubkey = holding(&o, tok);
        }
        t.accounts[6].pubkey = price_key(0);
        t.accounts[7].pubkey = price_key(tok);
        let before = cast.holds(&b);
        b.tx(&[t]).map_err(err)?;
        let moved = since(&before, &cast.holds(&b));
        let mut d = b.data(&ver);
        let o = VerificationAccount::new(&mut d).unwrap().get_other_data();
        let kept = [
            o.subvention,
            o.network_fee,
            o.commitment_hash_fee.0,
            o.commitment_hash_fee_token,
            o.proof_verification_fee,
            o.associated_token_account_rent,
        ];
        Ok(W { k: "fee".into(), moved, kept: kept.map(|x| x as u128).to_vec() })
    }

    fn settle(&self, a: &Value) -> Result<W, String> {
        let tok = i(&a["tok"]) as u16;
        let l = &self.lives[(tok != 0) as usize];
        let mut b = l.end.clone();
        // (the places of the accounts differ)
        let c = |n: usize, t: usize| l.settle.accounts[if tok == 0 { n } else { t }].pubkey;
        let (payer, ver, rcp, opt) = (c(0, 0), c(7, 11), c(1, 2), c(4, 8));
        assert!(b.data(&ver).len() > 500, "verification account of the settlement: {}", b.data(&ver).len());
        let cast = Cast::new(tok, payer, (rcp, rcp), (opt, opt));
        cast.rich(&mut b, rich);
        let x: Vec<u64> = a["x"].as_array().unwrap().iter().map(u).collect();
        self.request(&mut b, &ver, |p, v| {
            p.join_split.amount = u(&a["amt"]);
            p.join_split.optional_fee.amount = u(&a["opt"]);
            let mut o = v.get_other_data();
            o.subvention = x[0];
            o.network_fee = x[1];
            o.commitment_hash_fee = Lamports(x[2]);
            o.commitment_hash_fee_token = x[3];
            o.proof_verification_fee = x[4];
            o.associated_token_account_rent = x[5];
            o.recipient_wallet = ElusivOption::Some(RawU256::new(rcp.to_bytes()));
            v.set_other_data(&o);
            v.set_state(&VerificationState::Finalized);
            v.set_is_verified(&ElusivOption::Some(bo(&a["good"])));
        });
        let rent: i128 = l.settle.accounts.iter().filter(|m| ![payer, pool(), collector(), rcp, opt].contains(&m.pubkey)).map(|m| b.lamports(&m.pubkey) as i128).sum();
        let before = cast.holds(&b);
        b.tx(&[l.settle.clone()]).map_err(err)?;
        let left: i128 = l.settle.accounts.iter().filter(|m| ![payer, pool(), collector(), rcp, opt].contains(&m.pubkey)).map(|m| b.lamports(&m.pubkey) as i128).sum();
        let mut moved = since(&before, &cast.holds(&b));
        // the rents of the closed accounts
        moved.get_mut(if bo(&a["good"]) { "payer" } else { "coll" }).unwrap()[0] -= rent - left;
        Ok(W { k: "settle".into(), moved, kept: vec![] })
    }

    fn version(&self, a: &Value) -> Result<W, String> {
        let mut b = self.native.clone();
        b.accts.remove(&fee(0));
        let f = sched(&a["f"], i(&a["txs"]) as u64);
        b.tx(&[ix(
            &I::InitNewFeeVersion { fee_version: 0, program_fee: f },
            vec![sw(k("admin")), w(governor()), w(fee(0)), r(system_program::ID)],
        )])
        .map_err(err)?;
        let mut d = b.data(&governor());
        let now = fields(&GovernorAccount::new(&mut d).unwrap().get_program_fee());
        let mut d = b.data(&fee(0));
        let kept = fields(&FeeAccount::new(&mut d).unwrap().get_program_fee());
        // (both are reported if they differ)
        let kept = if now == kept { kept } else { [kept, now].concat() };
        Ok(W { k: "version".into(), moved: BTreeMap::new(), kept })
    }
}
#[allow(non_snake_case)]
fn FEE_TAG() -> u8 {
    ix(&I::InitVerificationTransferFee { verification_account_index: 0 }, (0..12).map(|_| r(pool())).collect()).data[0]
}

impl Model for Fees {
    type W = W;
    fn thread_init(&self) {
        register();
    }
    fn init(&self, _s: &Value) -> W {
        W { k: "none".into(), moved: BTreeMap::new(), kept: vec![] }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        *w = match st(&a["n"]) {
            "Deposit" => self.deposit(a),
            "Fee" => self.fee(a),
            "Settle" => self.settle(a),
            "Version" => self.version(a),
            x => panic!("action {x}"),
        }?;
        Ok(())
    }
    fn check(&self, w: &W, e: &Value, _a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        cmp(&mut v, "kind", st(&e["k"]), &w.k);
        let mut want: BTreeMap<String, [i128; 2]> = w.moved.keys().map(|n| (n.clone(), [0, 0])).collect();
        for m in e["mv"].as_array().unwrap() {
            let (f, t, unit, x) = (st(&m[0]), st(&m[1]), i(&m[2]) as usize, wide(&m[3]) as i128);
            want.entry(f.into()).or_default()[unit] -= x;
            want.entry(t.into()).or_default()[unit] += x;
        }
        for n in WHO {
            if want.contains_key(n) {
                cmp(&mut v, &format!("money.{n}"), Some(&want[n]), w.moved.get(n));
            }
        }
        let kept: Vec<u128> = e["kept"].as_array().unwrap().iter().map(wide).collect();
        for (n, (x, y)) in kept.iter().zip(&w.kept).enumerate() {
            let names = if w.k == "fee" {
                ["subvention", "network", "hash", "hash.token", "proof", "rent", ""]
            } else {
                ["lpt", "bp", "nbp", "sub", "psub", "hrew", "prew"]
            };
            cmp(&mut v, &format!("kept.{}", names[n]), x, y);
        }
        cmp(&mut v, "kept.count", kept.len(), w.kept.len());
        v
    }
}
