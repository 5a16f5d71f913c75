//! Binds spec/ApaNetwork.tla to the genesis of the attestation network.
use crate::engine::*;
use crate::svm::{meta, Bank};
use crate::world::*;
use elusiv_types::{PDAAccount, ProgramAccount};
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use elusiv_warden_network::network::ApaWardenNetworkAccount;
use elusiv_warden_network::warden::*;
use serde_json::{json, Value};
use solana_program::pubkey::Pubkey;
use solana_program::{hash, system_program};

const HALF: usize = 558;
const SIZE: usize = 6;
pub struct Apa {
    wardens: i64,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
    old: Vec<(Pubkey, Vec<u8>)>,
}
fn xkey(n: i64) -> Pubkey {
    kn("exchange-", n)
}
fn start(w: i64, q: i64, x: i64) -> [u8; HALF] {
    let mut d = [0; HALF];
    for (i, b) in d.iter_mut().enumerate() {
        *b = (w as usize * 53 + q as usize * 19 + i * 7 + i / 256 + 1) as u8;
    }
    d[400..432].copy_from_slice(xkey(x).as_ref());
    d
}
fn end(w: i64, e: i64) -> [u8; HALF] {
    let mut d = [0; HALF];
    for (i, b) in d.iter_mut().enumerate() {
        *b = (w as usize * 31 + e as usize * 101 + i * 3 + i / 256 + 5) as u8;
    }
    d
}
fn acc(id: i64) -> Pubkey {
    ApaWardenAccount::find(Some(id as u32)).0
}
fn places(e: &Value) -> Vec<Value> {
    arr(&e["places"])
}
fn message(e: &[Value], kind: &str) -> [u8; 32] {
    let mut quotes: Vec<Vec<u8>> = e
        .iter()
        .map(|p| {
            let w = num(&p["w"]);
            let mut d = start(w, num(&p["q"]), num(&p["x"])).to_vec();
            d.extend(end(w, num(&p["e"])));
            d
        })
        .collect();
    match kind {
        "right" => {}
        "rev" => quotes.reverse(),
        "drop" => {
            quotes.pop();
        }
        "starts" => quotes.iter_mut().for_each(|q| q.truncate(HALF)),
        "swap" => quotes.swap(0, 1),
        "zero" => return [0; 32],
        x => panic!("message {x}"),
    }
    hash::hash(&quotes.concat()).to_bytes()
}
impl Apa {
    pub fn new(c: &Value) -> Self {
        Apa { wardens: num(&c["Wardens"]) }
    }
    fn apply(&self, b: &mut Bank, cur: &[Value], a: &Value) -> Result<(), String> {
        let by = num(&a["by"]);
        let me = |w: bool| meta(who(if by == 0 { 1 } else { by }), by != 0, w);
        let i = match st(&a["n"]) {
            "Apply" => {
                let id = num(&a["id"]);
                ix(
                    &I::StartApaGenesisWardenApplication { warden_id: id as u32, quote_start: QuoteStart(start(by.max(1), num(&a["q"]), num(&a["x"]))) },
                    vec![me(true), r(map(who(num(&a["m"])))), w(acc(id)), w(if a["net"] == true { apa() } else { basic() }), r(system_program::ID)],
                )
            }
            "Complete" => ix(
                &I::CompleteApaGenesisWardenApplication { warden_id: num(&a["id"]) as u32, quote_end: QuoteEnd(end(by.max(1), num(&a["e"]))) },
                vec![me(false), r(map(who(num(&a["m"])))), w(apa())],
            ),
            "Confirm" => {
                let m = message(cur, st(&a["msg"]));
                ix(
                    &I::ConfirmApaGenesisNetwork { warden_id: num(&a["id"]) as u32, confirmation_message: m },
                    vec![meta(xkey(if by == 0 { num(&a["x0"]) } else { by }), by != 0, false), r(acc(num(&a["t"]))), w(apa())],
                )
            }
            x => panic!("action {x}"),
        };
        b.tx(&[i]).map_err(|e| format!("{e:?}"))
    }
}
fn bytes_of(e: &Value) -> Vec<u8> {
    let p = places(e);
    let get = |i: usize| p.get(i);
    let mut d = (p.len() as u32).to_le_bytes().to_vec();
    d.extend([0; 33]);
    for i in 0..SIZE {
        d.extend((get(i).map_or(0, |x| num(&x["w"]) as u32 - 1)).to_le_bytes());
    }
    for i in 0..SIZE {
        d.extend(get(i).map_or([0; HALF], |x| start(num(&x["w"]), num(&x["q"]), num(&x["x"]))));
    }
    for i in 0..SIZE {
        match get(i).filter(|x| num(&x["e"]) != 0) {
            Some(x) => {
                d.push(1);
                d.extend(end(num(&x["w"]), num(&x["e"])));
            }
            None => d.extend([0; HALF + 1]),
        }
    }
    for i in 0..SIZE {
        d.extend(get(i).map_or([0; 32], |x| xkey(num(&x["x"])).to_bytes()));
    }
    for i in 0..SIZE {
        d.push(get(i).map_or(0, |x| (x["conf"] == true) as u8));
    }
    d
}
impl Model for Apa {
    type W = (W, Value);
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, s: &Value) -> (W, Value) {
        let mut b = deployed();
        for p in 1..=self.wardens {
            register_plain(&mut b, p as u32 - 1, who(p), p);
        }
        let old = owned(&b).into_iter().filter(|k| *k != apa()).map(|k| (k, b.data(&k))).collect();
        for x in places(s) {
            let w = num(&x["w"]);
            self.apply(&mut b, &[], &json!({"n": "Apply", "by": w, "m": w, "id": w - 1, "q": x["q"], "x": x["x"], "net": true})).unwrap();
        }
        // (the places are completed from the last to the first)
        for x in places(s).iter().rev().filter(|x| num(&x["e"]) != 0) {
            let w = num(&x["w"]);
            self.apply(&mut b, &[], &json!({"n": "Complete", "by": w, "m": w, "id": w - 1, "e": x["e"]})).unwrap();
        }
        for x in places(s).iter().filter(|x| x["conf"] == true) {
            let w = num(&x["w"]);
            self.apply(&mut b, &places(s), &json!({"n": "Confirm", "by": x["x"], "id": w - 1, "t": w - 1, "msg": "right"})).unwrap();
        }
        (W { b, old }, s.clone())
    }
    fn step(&self, w: &mut (W, Value), a: &Value) -> Result<(), String> {
        let cur = a.get("cur").map_or(vec![], arr);
        self.apply(&mut w.0.b, &cur, a)
    }
    fn check(&self, w: &(W, Value), e: &Value, _a: &Value) -> Vec<Diff> {
        let b = &w.0.b;
        let mut v = vec![];
        let mut want: Vec<Pubkey> = w.0.old.iter().map(|x| x.0).collect();
        cmp(&mut v, "others", true, w.0.old.iter().all(|(k, d)| b.data(k) == *d));
        let p = places(e);
        let (x, g) = (bytes_of(e), body(b, &apa()));
        cmp(&mut v, "network.size", x.len(), g.len());
        if x.len() == g.len() {
            let mut o = 0;
            for (nm, l) in [("count", 4), ("key", 33), ("members", 24), ("starts", SIZE * HALF), ("ends", SIZE * (HALF + 1)), ("keys", SIZE * 32), ("confirmations", SIZE)] {
                if x[o..o + l] != g[o..o + l] {
                    let at: Vec<usize> = (0..l).filter(|i| x[o + i] != g[o + i]).map(|i| i * SIZE / l.max(1)).collect();
                    v.push(diff(&format!("network.{nm}"), "as specified", format!("differs at {:?}", at.first())));
                }
                o += l;
            }
        }
        let mut d = b.data(&apa());
        match ApaWardenNetworkAccount::new(&mut d) {
            Err(_) => v.push(diff("network.here", true, false)),
            Ok(n) => {
                let got = (n.is_application_phase(), n.is_confirmation_phase(), n.is_confirmed());
                cmp(&mut v, "phase", e["phase"].clone(), json!(match got {
                    (true, false, false) => "application",
                    (false, true, false) => "confirmation",
                    (false, false, true) => "confirmed",
                    _ => "?",
                }));
            }
        }
        for (i, x) in p.iter().enumerate() {
            let id = num(&x["w"]) - 1;
            want.push(acc(id));
            let mut d = (id as u32).to_le_bytes().to_vec();
            d.extend((i as u32).to_le_bytes());
            cmp(&mut v, "member", d, body(b, &acc(id)));
        }
        want.push(apa());
        want.sort();
        cmp(&mut v, "accounts", true, want == owned(b));
        v
    }
}
