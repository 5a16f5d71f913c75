//! Binds spec/Wardens.tla to registration, updates, operators and attestation.
use crate::engine::*;
use crate::svm::{meta, Bank};
use crate::world::*;
use borsh::BorshSerialize;
use elusiv_types::{ElusivOption, PDAAccount};
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use elusiv_warden_network::operator::WardenOperatorAccount;
use elusiv_warden_network::warden::*;
use serde_json::Value;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

const MAX: usize = 512;
pub struct Wardens {
    base: usize,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
    fill: Vec<Pubkey>,
    old: u64,
}
fn op(k: Pubkey) -> Pubkey {
    WardenOperatorAccount::find_with_pubkey(k, None).0
}
fn att(k: Pubkey) -> Pubkey {
    BasicWardenAttesterMapAccount::find_with_pubkey(k, None).0
}
fn lut(n: i64) -> Pubkey {
    if n == 0 {
        Pubkey::default()
    } else {
        kn("lut-", n)
    }
}
fn opt<T>(v: i64, f: impl FnOnce(i64) -> T) -> ElusivOption<T> {
    if v == 0 {
        ElusivOption::None
    } else {
        ElusivOption::Some(f(v))
    }
}
impl Wardens {
    pub fn new(c: &Value) -> Self {
        Wardens { base: num(&c["Base"]) as usize }
    }
    fn digest(&self, b: &Bank, fill: &[Pubkey]) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        for (i, k) in fill.iter().enumerate() {
            b.data(&warden(i as u32)).hash(&mut h);
            b.data(&map(*k)).hash(&mut h);
        }
        h.finish()
    }
    fn instruction(&self, a: &Value) -> Instruction {
        let by = a.get("by").map_or(1, num);
        // (0: person 1 without signing, 90: the authority without signing)
        let sig = |w: bool| meta(who(match by { 0 => 1, 90 => 9, x => x }), by != 0 && by != 90, w);
        let id = |f: &str| num(&a[f]) as u32;
        let sys = r(system_program::ID);
        match st(&a["n"]) {
            "Init" => ix(&I::Init, init_accounts(sig(true))),
            "Register" => {
                let key = who(num(&a["key"]));
                let mut l = register_accounts(sig(true), id("id"), key);
                match st(&a["acc"]) {
                    "own" => {}
                    "record" => l[1] = w(warden(id("id") + 1)),
                    "map" => l[2] = w(map(kn("nobody", 0))),
                    "map2" => l[2] = w(att(key)),
                    "list" => l[4] = w(apa()),
                    "ids" => l[3] = w(proposals()),
                    "any" => l[1] = w(kn("any-account-", 0)),
                    x => panic!("acc {x}"),
                }
                ix(&I::RegisterBasicWarden { warden_id: id("id"), config: config(key, &a["c"]) }, l)
            }
            "State" => ix(&I::UpdateBasicWardenState { warden_id: id("id"), is_active: a["on"] == true }, vec![sig(false), w(warden(id("t")))]),
            "Lut" => ix(&I::UpdateBasicWardenLut { warden_id: id("id") }, vec![sig(false), w(warden(id("t"))), r(lut(num(&a["l"])))]),
            "Operator" => {
                let me = who(if by == 0 { 1 } else { by });
                let acc = if a["own"] == true { me } else { kn("nobody", 1) };
                let o = num(&a["o"]);
                ix(
                    &I::RegisterWardenOperator {
                        ident: text(&format!("operator {o}")),
                        url: text(&format!("https://{o}.example")),
                        jurisdiction: if o == 0 { None } else { Some(100 + o as u16) },
                    },
                    vec![sig(true), w(op(acc)), sys],
                )
            }
            "Confirm" => ix(&I::ConfirmBasicWardenOperation { warden_id: id("id") }, vec![sig(false), w(warden(id("t")))]),
            "Appoint" => {
                let x = who(num(&a["x"]));
                ix(&I::AddMetadataAttester { warden_id: id("id"), attester: x }, vec![sig(true), w(att(x)), w(warden(id("t"))), sys])
            }
            "Revoke" => {
                let x = who(num(&a["x"]));
                ix(&I::RevokeMetadataAttester { warden_id: id("id") }, vec![sig(true), r(x), w(att(x)), w(warden(id("t"))), sys])
            }
            "Attest" => {
                let v = &a["c"];
                ix(
                    &I::AttestBasicWardenMetadata {
                        attester_warden_id: id("aid"),
                        warden_id: id("id"),
                        member_index: id("mi"),
                        asn: match num(&v["asn"]) {
                            0 => None,
                            n => Some(64000 + n as u32),
                        },
                        timezone: timezone(num(&v["tz"])),
                        region: region(num(&v["reg"])),
                        uses_proxy: v["proxy"] == true,
                    },
                    vec![sig(false), r(warden(id("at"))), w(warden(id("t"))), w(basic())],
                )
            }
            "Close" => {
                let x = match st(&a["x"]) {
                    "ids" => wardens(),
                    "list" => basic(),
                    "record" => warden(self.base as u32),
                    "map" => map(who(1)),
                    x => panic!("account {x}"),
                };
                ix(&I::CloseProgramAccount, vec![sig(false), w(who(2)), w(x), sys])
            }
            x => panic!("action {x}"),
        }
    }
    fn record(&self, e: &Value) -> ElusivBasicWarden {
        let c = &e["c"];
        let mut cfg = config(who(num(&e["key"])), c);
        cfg.operator = opt(num(&e["op"]), who);
        cfg.warden_features.attestation = e["att"] == true;
        cfg.timezone = timezone(num(&e["tz"]));
        cfg.region = region(num(&e["reg"]));
        cfg.uses_proxy = e["proxy"] == true;
        ElusivBasicWarden {
            config: cfg,
            lut: lut(num(&e["lut"])),
            asn: opt(num(&e["asn"]), |n| 64000 + n as u32),
            is_operator_confirmed: e["conf"] == true,
            is_metadata_valid: opt(num(&e["valid"]), |n| n == 1),
            is_active: e["on"] == true,
            join_timestamp: (T0 + 1000 * num(&e["join"])) as u64,
            activation_timestamp: (T0 + 1000 * num(&e["since"])) as u64,
        }
    }
}
impl Model for Wardens {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, _s: &Value) -> W {
        let mut b = deployed();
        let fill: Vec<Pubkey> = (0..self.base).map(|i| kn("filler-", i)).collect();
        for (i, k) in fill.iter().enumerate() {
            register_plain(&mut b, i as u32, *k, (i % 200) as i64);
        }
        let old = self.digest(&b, &fill);
        W { b, fill, old }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        if a["n"] == "Wait" {
            w.b.unix_timestamp += 1000;
            return Ok(());
        }
        let i = self.instruction(a);
        w.b.tx(&[i]).map_err(|e| format!("{e:?}"))
    }
    fn check(&self, w: &W, e: &Value, _a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let b = &w.b;
        let recs = arr(&e["recs"]);
        let n = self.base + recs.len();
        let mut want: Vec<Pubkey> = vec![wardens(), basic(), apa(), proposals()];
        cmp(&mut v, "time", T0 + 1000 * num(&e["time"]), b.unix_timestamp);
        cmp(&mut v, "next", (n as u32).to_le_bytes().to_vec(), body(b, &wardens()));
        cmp(&mut v, "others", w.old, self.digest(b, &w.fill));
        for (i, k) in w.fill.iter().enumerate() {
            want.extend([warden(i as u32), map(*k)]);
        }
        for (j, x) in recs.iter().enumerate() {
            let id = (self.base + j) as u32;
            let r = self.record(x);
            let got = b.data(&warden(id));
            want.extend([warden(id), map(who(num(&x["key"])))]);
            let mut gd = got.clone();
            match <BasicWardenAccount as elusiv_types::ProgramAccount>::new(&mut gd) {
                Err(_) => v.push(diff("record.here", "a record", got.len())),
                Ok(a) => {
                    let g = a.get_warden();
                    cmp(&mut v, "record.config", true, g.config == r.config);
                    cmp(&mut v, "record.attestation", r.config.warden_features.attestation, g.config.warden_features.attestation);
                    cmp(&mut v, "record.operator", (r.config.operator.option(), r.is_operator_confirmed), (g.config.operator.option(), g.is_operator_confirmed));
                    cmp(&mut v, "record.active", (r.is_active, r.activation_timestamp), (g.is_active, g.activation_timestamp));
                    cmp(&mut v, "record.join", r.join_timestamp, g.join_timestamp);
                    cmp(&mut v, "record.lut", r.lut, g.lut);
                    cmp(&mut v, "record.metadata", (r.asn.option(), r.is_metadata_valid.option()), (g.asn.option(), g.is_metadata_valid.option()));
                }
            }
            cmp(&mut v, "record.bytes", true, r.try_to_vec().unwrap() == body(b, &warden(id)));
            cmp(&mut v, "map", id.to_le_bytes().to_vec(), body(b, &map(who(num(&x["key"])))));
        }
        // the list
        let l = body(b, &basic());
        let f = BasicWardenFeatures::default().try_to_vec().unwrap().len();
        let t = elusiv_types::TOKENS.len();
        cmp(&mut v, "list.size", 4 + MAX * (4 + f + t + 1), l.len());
        if l.len() == 4 + MAX * (4 + f + t + 1) {
            cmp(&mut v, "list.count", (n as u32).to_le_bytes().to_vec(), l[..4].to_vec());
            let mut fills = vec![];
            for i in 0..self.base {
                fills.push(config(w.fill[i], &serde_json::json!({"n": i % 200, "op": 0, "tz": 0, "reg": (i % 200) % 7, "proxy": false, "att": false, "toks": [0]})));
            }
            let mut bad: Vec<(usize, &str)> = vec![];
            for i in 0..MAX {
                let c = if i < self.base {
                    Some(ElusivBasicWardenConfig { ..fills[i].clone() })
                } else if i < n {
                    let x = &arr(&e["list"])[i - self.base];
                    let mut c = config(who(1), &x["c"]);
                    c.region = region(num(&x["reg"]));
                    Some(c)
                } else {
                    None
                };
                let at = |o: usize, s: usize| l[o + i * s..o + (i + 1) * s].to_vec();
                let parts = [
                    ("id", at(4, 4), c.as_ref().map_or(vec![0; 4], |_| (i as u32).to_le_bytes().to_vec())),
                    ("features", at(4 + 4 * MAX, f), c.as_ref().map_or(vec![0; f], |c| c.basic_warden_features.try_to_vec().unwrap())),
                    ("tokens", at(4 + (4 + f) * MAX, t), c.as_ref().map_or(vec![0; t], |c| c.tokens.iter().map(|x| *x as u8).collect())),
                    ("region", at(4 + (4 + f + t) * MAX, 1), c.as_ref().map_or(vec![0], |c| vec![c.region as u8])),
                ];
                for (nm, g, x) in parts {
                    if g != x {
                        bad.push((i, nm));
                    }
                }
            }
            for nm in ["id", "features", "tokens", "region"] {
                let p: Vec<usize> = bad.iter().filter(|x| x.1 == nm).map(|x| x.0).collect();
                cmp(&mut v, &format!("list.{nm}"), vec![], p);
            }
        }
        for x in arr(&e["ops"]) {
            let (p, o) = (who(num(&x[0])), num(&x[1]));
            want.push(op(p));
            let mut d = Pubkey::default().to_bytes().to_vec();
            d.clear();
            d.extend(text::<256>(&format!("operator {o}")).try_to_vec().unwrap());
            d.extend(text::<256>(&format!("https://{o}.example")).try_to_vec().unwrap());
            d.extend(opt(o, |o| 100 + o as u16).try_to_vec().unwrap());
            let g = body(b, &op(p));
            // (the recorded key is checked on its own: it comes first)
            cmp(&mut v, "operator.data", true, g.len() == 32 + d.len() && g[32..] == d[..]);
            cmp(&mut v, "operator.key", p.to_bytes().to_vec(), g.get(..32).map_or(vec![], |x| x.to_vec()));
        }
        for x in arr(&e["atts"]) {
            let p = who(num(&x[0]));
            want.push(att(p));
            cmp(&mut v, "attester", (num(&x[1]) as u32).to_le_bytes().to_vec(), body(b, &att(p)));
        }
        want.sort();
        want.dedup();
        cmp(&mut v, "accounts", want.len(), owned(b).len());
        cmp(&mut v, "accounts.which", true, want == owned(b));
        v
    }
}
