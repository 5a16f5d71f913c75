//! Binds spec/WardenStats.tla to the tracking of wardens' work.
use crate::engine::*;
use crate::svm::{meta, Bank};
use crate::world::*;
use elusiv_types::{PDAAccount, ProgramAccount};
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use elusiv_warden_network::warden::*;
use serde_json::Value;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_program::{system_program, sysvar};

pub struct Stats {
    years: Vec<u32>,
    left: i64,
    kind: String,
}
#[derive(Clone)]
pub struct W {
    b: Bank,
}
fn acc(w: i64, y: u32) -> Pubkey {
    BasicWardenStatsAccount::find_with_pubkey(who(w), Some(y)).0
}
fn elusiv_id() -> Pubkey {
    *ELUSIV.get_or_init(|| {
        // (first program of the list, testnet: what both programs are built with here)
        let t = std::fs::read_to_string("/repo/Id.toml").expect("Id.toml");
        let l = t.lines().find(|l| l.starts_with("testnet")).expect("testnet id");
        l.split('"').nth(1).unwrap().parse().expect("program id")
    })
}
static ELUSIV: std::sync::OnceLock<Pubkey> = std::sync::OnceLock::new();
impl Stats {
    pub fn new(c: &Value) -> Self {
        Stats { years: arr(&c["Years"]).iter().map(|y| num(y) as u32).collect(), left: num(&c["Left"]), kind: st(&c["Full"]).into() }
    }
    fn base(&self, what: &str) -> u32 {
        if self.left != 99 && (self.kind == what || self.kind == "both") {
            u32::MAX - self.left as u32
        } else {
            0
        }
    }
    fn open(&self, b: &mut Bank, w: i64, y: u32) -> Result<(), String> {
        let i = ix(&I::OpenBasicWardenStatsAccount { year: y as u16 }, vec![r(who(w)), meta(who(5), true, true), crate::world::w(acc(w, y)), r(system_program::ID)]);
        b.tx(&[i]).map_err(|e| format!("{e:?}"))
    }
}
impl Model for Stats {
    type W = W;
    fn thread_init(&self) {
        crate::world::register();
    }
    fn init(&self, _s: &Value) -> W {
        let mut b = deployed();
        for p in [elusiv_id(), k("another program")] {
            b.set(p, 1, &[], Pubkey::default());
            b.accts.get_mut(&p).unwrap().executable = true;
        }
        for w in [1, 2] {
            for y in &self.years {
                self.open(&mut b, w, *y).unwrap();
                if self.left != 99 {
                    let mut d = b.data(&acc(w, *y));
                    {
                        let mut a = BasicWardenStatsAccount::new(&mut d).unwrap();
                        let full = WardenStatistics { activity: [self.base("day"); 366], total: self.base("total") };
                        a.set_store(&full);
                        a.set_send(&full);
                        a.set_migrate(&full);
                    }
                    b.set_data(&acc(w, *y), &d);
                }
            }
        }
        W { b }
    }
    fn step(&self, w: &mut W, a: &Value) -> Result<(), String> {
        if a["n"] == "Open" {
            return self.open(&mut w.b, num(&a["w"]), num(&a["y"]) as u32);
        }
        w.b.unix_timestamp = num(&a["day"]) * 86_400 + num(&a["sec"]);
        let (me, y) = (num(&a["w"]), num(&a["y"]) as u32);
        let p = &a["prev"];
        let prog = match st(&p["prog"]) {
            "elusiv" => elusiv_id(),
            "own" => k("another program"),
            "other" => k("another program"),
            x => panic!("program {x}"),
        };
        let (pos, len) = (num(&p["pos"]), num(&p["len"]));
        let accs = (0..len).map(|j| if j == pos { meta(who(me), true, true) } else { meta(kn("somebody-", j), false, true) }).collect();
        let data = match num(&p["tag"]) {
            -1 => vec![],
            t => vec![t as u8, 7, 7],
        };
        let prev = Instruction { program_id: prog, accounts: accs, data };
        let noop = Instruction { program_id: k("another program"), accounts: vec![], data: vec![99] };
        let track = ix(
            &I::TrackBasicWardenStats { year: y as u16, can_fail: a["fail"] == true },
            vec![r(who(me)), crate::world::w(acc(num(&a["aw"]), num(&a["ay"]) as u32)), r(sysvar::instructions::ID)],
        );
        let ixs = match st(&a["place"]) {
            "next" => vec![prev, track],
            "later" => vec![prev, noop, track],
            "third" => vec![noop, prev, track],
            "before" => vec![track, prev],
            "alone" => vec![track],
            "twice" => vec![prev, track.clone(), track],
            x => panic!("place {x}"),
        };
        w.b.tx(&ixs).map_err(|e| format!("{e:?}"))
    }
    fn check(&self, w: &W, e: &Value, _a: &Value) -> Vec<Diff> {
        let mut v = vec![];
        let mut want = vec![wardens(), basic(), apa(), proposals()];
        for s in arr(&e["stats"]) {
            let y = num(&s["y"]) as u32;
            let key = acc(num(&s["w"]), y);
            want.push(key);
            let mut d = w.b.data(&key);
            let a = match BasicWardenStatsAccount::new(&mut d) {
                Ok(a) => a,
                Err(_) => {
                    v.push(diff("stats.here", "open", "not there"));
                    continue;
                }
            };
            cmp(&mut v, "stats.year", y, a.get_year() as u32);
            cmp(&mut v, "stats.last", num(&s["lastd"]) * 86_400 + num(&s["lasts"]), a.get_last_activity_timestamp() as i64);
            for (nm, g) in [("store", a.get_store()), ("send", a.get_send()), ("migrate", a.get_migrate())] {
                let days = &s[nm];
                let mut act = vec![self.base("day"); 366];
                let mut tot = self.base("total");
                for x in arr(days) {
                    act[num(&x[0]) as usize - 1] += num(&x[1]) as u32;
                    tot += num(&x[1]) as u32;
                }
                cmp(&mut v, &format!("stats.{nm}.total"), tot, g.total);
                let diffs: Vec<(usize, u32, u32)> = (0..366).filter(|&i| act[i] != g.activity[i]).map(|i| (i + 1, act[i], g.activity[i])).collect();
                cmp(&mut v, &format!("stats.{nm}.days"), vec![], diffs);
            }
        }
        want.sort();
        cmp(&mut v, "accounts", true, want == owned(&w.b));
        v
    }
}
