//! Binds spec/Proposals.tla to the proposals.
use crate::engine::*;
use crate::svm::{meta, Bank};
use crate::world::*;
use borsh::BorshSerialize;
use elusiv_types::{ElusivOption, PDAAccount, TOKENS};
use elusiv_warden_network::apa::*;
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

pub struct Proposals {
    freeze: Vec<i64>,
    base: u32,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
    old: Vec<(Pubkey, Vec<u8>)>,
}
fn acc(n: u32) -> Pubkey {
    ApaProposalAccount::find(Some(n)).0
}
fn target(n: i64) -> Pubkey {
    kn("target-", n)
}
fn tmap(n: i64) -> Pubkey {
    ApaTargetMapAccount::find_with_pubkey(target(n), None).0
}
fn proposal(x: &Value, by: i64, time: u64) -> ApaProposal {
    ApaProposal {
        proponent: who(by),
        proponent_role: if x["role"] == "freeze" { ApaProponentRole::TokenFreezingAuthority } else { ApaProponentRole::Default },
        timestamp: time,
        target: target(num(&x["tgt"])),
        level: match num(&x["lvl"]) {
            0 => ApaLevel::Flag1,
            1 => ApaLevel::Flag2,
            _ => ApaLevel::Outcast,
        },
        token_constraint: match num(&x["con"]) {
            -1 => ElusivOption::None,
            c => ElusivOption::Some(c as u16),
        },
        reason: text(&format!("because of {} and {}", x["lvl"], x["con"])),
    }
}
impl Proposals {
    pub fn new(c: &Value) -> Self {
        assert_eq!(num(&c["NTok"]) as usize, elusiv_types::SPL_TOKEN_COUNT, "number of tokens");
        Proposals { freeze: arr(&c["Freeze"]).iter().map(num).collect(), base: num(&c["Base"]) as u32 }
    }
}
impl Model for Proposals {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, _s: &Value) -> W {
        let mut b = deployed();
        for (t, k) in TOKENS.iter().enumerate().skip(1) {
            match self.freeze[t - 1] {
                99 => b.set(k.mint, SOL, &[0; 82], spl_token::ID),
                0 => b.set_mint(k.mint, None, 6),
                p => b.set_mint(k.mint, Some(who(p)), 6),
            }
        }
        // mints of no supported token
        b.set_mint(k("fake-mint-1"), Some(who(1)), 6);
        b.set_mint(k("fake-mint-2"), Some(who(2)), 6);
        b.set_mint(TOKENS[0].mint, Some(who(1)), 9);
        if self.base > 0 {
            let h = head(&b, &proposals());
            let mut d = b.data(&proposals());
            d[h..h + 4].copy_from_slice(&self.base.to_le_bytes());
            b.set_data(&proposals(), &d);
        }
        let old = owned(&b).into_iter().filter(|k| *k != proposals()).map(|k| (k, b.data(&k))).collect();
        W { b, old }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        if a["n"] == "Wait" {
            w.b.unix_timestamp += 1000;
            return Ok(());
        }
        if a["n"] == "Donate" {
            let t = tmap(num(&a["tgt"]));
            w.b.airdrop(&t, Bank::rent(0));
            return Ok(());
        }
        use crate::world::w as wr;
        let by = num(&a["by"]);
        let p = proposal(a, num(&a["as"]), 77);
        let id = self.base.wrapping_add(num(&a["id"]) as u32);
        let mint = match num(&a["mint"]) {
            -1 => k("fake-mint-1"),
            -2 => k("fake-mint-2"),
            -3 => k("nothing"),
            t => TOKENS[t as usize].mint,
        };
        let i = ix(
            &I::ProposeApaProposal { proposal_id: id, proposal: p },
            vec![
                meta(who(by.max(1)), by != 0, true),
                wr(acc(self.base.wrapping_add(num(&a["acc"]) as u32))),
                wr(proposals()),
                wr(tmap(num(&a["tm"]))),
                r(mint),
                r(system_program::ID),
            ],
        );
        w.b.tx(&[i]).map_err(|e| format!("{e:?}"))
    }
    fn check(&self, w: &W, e: &Value, _a: &Value) -> Vec<Diff> {
        let b = &w.b;
        let mut v = vec![];
        let mut want: Vec<Pubkey> = w.old.iter().map(|x| x.0).collect();
        want.push(proposals());
        cmp(&mut v, "others", true, w.old.iter().all(|(k, d)| b.data(k) == *d));
        let l = arr(&e["props"]);
        cmp(&mut v, "count", self.base.wrapping_add(l.len() as u32).to_le_bytes().to_vec(), body(b, &proposals()));
        for (n, x) in l.iter().enumerate() {
            let key = acc(self.base.wrapping_add(n as u32));
            want.push(key);
            let p = proposal(x, num(&x["by"]), (T0 + 1000 * num(&x["time"])) as u64);
            let (x, g) = (p.try_to_vec().unwrap(), body(b, &key));
            if x.len() != g.len() {
                v.push(diff("proposal.size", x.len(), g.len()));
            } else {
                for (nm, o, l) in [("proponent", 0, 32), ("role", 32, 1), ("time", 33, 8), ("target", 41, 32), ("level", 73, 1), ("token", 74, 3), ("reason", 77, x.len() - 77)] {
                    if x[o..o + l] != g[o..o + l] {
                        v.push(diff(&format!("proposal.{nm}"), &x[o..(o + l).min(o + 32)], &g[o..(o + l).min(o + 32)]));
                    }
                }
            }
        }
        for t in arr(&e["targets"]) {
            want.push(tmap(num(&t)));
            cmp(&mut v, "target", vec![0; 5], body(b, &tmap(num(&t))));
        }
        want.sort();
        cmp(&mut v, "accounts", true, want == owned(b));
        v
    }
}
