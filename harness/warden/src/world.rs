//! The deployed warden network and helpers to talk to it.
use crate::svm::{meta, Bank};
use borsh::{BorshDeserialize, BorshSerialize};
use elusiv_types::{ElusivOption, PDAAccount};
use elusiv_warden_network::apa::*;
use elusiv_warden_network::instruction::ElusivWardenNetworkInstruction as I;
use elusiv_warden_network::network::*;
use elusiv_warden_network::warden::*;
use serde_json::Value;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{hash, system_program};

pub const SOL: u64 = 1_000_000_000;
pub const T0: i64 = 1_700_000_000;

pub fn k(name: &str) -> Pubkey {
    Pubkey::new_from_array(hash::hash(name.as_bytes()).to_bytes())
}
pub fn kn(name: &str, n: impl std::fmt::Display) -> Pubkey {
    k(&format!("{name}{n}"))
}
pub fn w(p: Pubkey) -> AccountMeta {
    meta(p, false, true)
}
pub fn r(p: Pubkey) -> AccountMeta {
    meta(p, false, false)
}
pub fn ix(i: &I, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: elusiv_warden_network::id(), accounts, data: i.try_to_vec().unwrap() }
}
pub fn num(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("no number: {v}"))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("no string: {v}"))
}
pub fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_else(|| panic!("no list: {v}"))
}
/// persons of the specification (9: the attestation authority)
pub fn who(n: i64) -> Pubkey {
    match n {
        9 => Pubkey::default(),
        n => kn("warden-person-", n),
    }
}
pub fn wardens() -> Pubkey {
    WardensAccount::find(None).0
}
pub fn basic() -> Pubkey {
    BasicWardenNetworkAccount::find(None).0
}
pub fn apa() -> Pubkey {
    ApaWardenNetworkAccount::find(None).0
}
pub fn proposals() -> Pubkey {
    ApaProposalsAccount::find(None).0
}
pub fn warden(id: u32) -> Pubkey {
    BasicWardenAccount::find(Some(id)).0
}
pub fn map(key: Pubkey) -> Pubkey {
    BasicWardenMapAccount::find_with_pubkey(key, None).0
}
pub fn text<const N: usize>(s: &str) -> FixedLenString<N> {
    let mut d = (s.len() as u64).to_le_bytes().to_vec();
    d.extend(s.as_bytes());
    d.resize(8 + N, 0);
    FixedLenString::try_from_slice(&d).unwrap()
}
pub fn region(n: i64) -> WardenRegion {
    use WardenRegion::*;
    [Africa, America, Antarctica, Asia, Australia, Europe, Other][n as usize]
}
pub fn timezone(n: i64) -> Timezone {
    Timezone { area: n as u8, location: text(&format!("zone{n}")) }
}
/// the configuration number c of the specification
pub fn config(key: Pubkey, c: &Value) -> ElusivBasicWardenConfig {
    let n = num(&c["n"]);
    let toks = arr(&c["toks"]).iter().map(num).collect::<Vec<_>>();
    let mut tokens = [false; elusiv_types::TOKENS.len()];
    for (i, t) in tokens.iter_mut().enumerate() {
        *t = toks.contains(&(i as i64));
    }
    ElusivBasicWardenConfig {
        ident: text(&format!("warden {n}")),
        key,
        operator: match num(&c["op"]) {
            0 => ElusivOption::None,
            o => ElusivOption::Some(who(o)),
        },
        addr: std::net::Ipv4Addr::new(10, 0, 1, n as u8),
        rpc_port: 8000 + n as u16,
        tls_mode: TlsMode::Optional,
        uses_proxy: c["proxy"] == true,
        jurisdiction: 70 + n as u16,
        timezone: timezone(num(&c["tz"])),
        region: region(num(&c["reg"])),
        version: [1, n as u16, 3],
        platform: text("linux"),
        warden_features: WardenFeatures { apa: n % 2 == 0, attestation: c["att"] == true },
        basic_warden_features: BasicWardenFeatures { rpc: n % 2 == 1, relay: n % 3 == 1, instant_relay: n % 5 == 2 },
        tokens,
    }
}
/// what identifies an account of the program before its fields
pub fn head(b: &Bank, key: &Pubkey) -> usize {
    let _ = (b, key);
    <elusiv_types::PDAAccountData as elusiv_types::BorshSerDeSized>::SIZE
}
pub fn body(b: &Bank, key: &Pubkey) -> Vec<u8> {
    let d = b.data(key);
    let h = head(b, key);
    if d.len() < h {
        vec![]
    } else {
        d[h..].to_vec()
    }
}
/// accounts owned by the program
pub fn owned(b: &Bank) -> Vec<Pubkey> {
    b.accts.iter().filter(|(_, a)| a.owner == elusiv_warden_network::id()).map(|(k, _)| *k).collect()
}
pub fn init_accounts(payer: AccountMeta) -> Vec<AccountMeta> {
    vec![payer, w(wardens()), w(basic()), w(apa()), w(proposals()), r(system_program::ID)]
}
pub fn register_accounts(by: AccountMeta, id: u32, key: Pubkey) -> Vec<AccountMeta> {
    vec![by, w(warden(id)), w(map(key)), w(wardens()), w(basic()), r(system_program::ID)]
}
pub fn must(r: crate::svm::TxResult) {
    if let Err(e) = r {
        panic!("setup refused: {e:?}");
    }
}
pub fn register_plain(b: &mut Bank, id: u32, key: Pubkey, n: i64) {
    b.airdrop(&key, SOL);
    let c = config(key, &serde_json::json!({"n": n, "op": 0, "tz": n % 7, "reg": n % 7, "proxy": false, "att": false, "toks": [0]}));
    must(b.tx(&[ix(&I::RegisterBasicWarden { warden_id: id, config: c }, register_accounts(meta(key, true, true), id, key))]));
}
pub fn deployed() -> Bank {
    let mut b = Bank::new();
    b.unix_timestamp = T0;
    b.set(elusiv_warden_network::id(), 1, &[], Pubkey::default());
    b.accts.get_mut(&elusiv_warden_network::id()).unwrap().executable = true;
    // (the authority's key is that of the system program: let it act like a person)
    b.set(Pubkey::default(), 1000 * SOL, &[], Pubkey::default());
    for p in 1..20 {
        if p != 9 {
            b.airdrop(&who(p), 1000 * SOL);
        }
    }
    must(b.tx(&[ix(&I::Init, init_accounts(meta(who(8), true, true)))]));
    b
}
pub fn register() {
    crate::svm::register_program(elusiv_warden_network::id(), elusiv_warden_network::process_instruction);
}
