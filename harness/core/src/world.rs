//! The deployed program in a bank, set up through its own instructions, and helpers to talk to it.
use crate::svm::{meta, Bank};
use borsh::BorshSerialize;
use elusiv::instruction::ElusivInstruction;
use elusiv::state::commitment::*;
use elusiv::state::fee::*;
use elusiv::state::governor::*;
use elusiv::state::metadata::*;
use elusiv::state::nullifier::*;
use elusiv::state::program_account::{PDAAccount, ProgramAccount, SizedAccount};
use elusiv::state::storage::*;
use elusiv::token::{Lamports, Price, TOKENS};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_program::{hash, system_program, sysvar};
use std::sync::OnceLock;

pub const SOL: u64 = 1_000_000_000;

pub fn k(name: &str) -> Pubkey {
    Pubkey::new_from_array(hash::hash(name.as_bytes()).to_bytes())
}
pub fn kn(name: &str, n: impl std::fmt::Display) -> Pubkey {
    k(&format!("{name}{n}"))
}

pub fn w(p: Pubkey) -> AccountMeta {
    meta(p, false, true)
}
pub fn r(p: Pubkey) -> AccountMeta {
    meta(p, false, false)
}
pub fn s(p: Pubkey) -> AccountMeta {
    meta(p, true, false)
}
pub fn sw(p: Pubkey) -> AccountMeta {
    meta(p, true, true)
}

pub fn ix(i: &ElusivInstruction, accounts: Vec<AccountMeta>) -> Instruction {
    Instruction { program_id: elusiv::id(), accounts, data: i.try_to_vec().unwrap() }
}

pub fn pool() -> Pubkey {
    PoolAccount::find(None).0
}
pub fn collector() -> Pubkey {
    FeeCollectorAccount::find(None).0
}
pub fn governor() -> Pubkey {
    GovernorAccount::find(None).0
}
pub fn storage() -> Pubkey {
    StorageAccount::find(None).0
}
pub fn queue() -> Pubkey {
    CommitmentQueueAccount::find(None).0
}
pub fn mqueue() -> Pubkey {
    MetadataQueueAccount::find(None).0
}
pub fn hashing() -> Pubkey {
    CommitmentHashingAccount::find(None).0
}
pub fn metadata() -> Pubkey {
    MetadataAccount::find(None).0
}
pub fn base_buffer() -> Pubkey {
    BaseCommitmentBufferAccount::find(None).0
}
pub fn buffer() -> Pubkey {
    CommitmentBufferAccount::find(None).0
}
pub fn fee(v: u32) -> Pubkey {
    FeeAccount::find(Some(v)).0
}
pub fn nullifier(i: u32) -> Pubkey {
    NullifierAccount::find(Some(i)).0
}
pub fn base_hashing(i: u32) -> (Pubkey, u8) {
    BaseCommitmentHashingAccount::find(Some(i))
}
pub fn mint(t: u16) -> Pubkey {
    TOKENS[t as usize].mint
}
pub fn ata(owner: &Pubkey, t: u16) -> Pubkey {
    spl_associated_token_account::get_associated_token_address(owner, &mint(t))
}
/// the account in which `owner` holds token `t`
pub fn holding(owner: &Pubkey, t: u16) -> Pubkey {
    if t == 0 || t as usize >= TOKENS.len() {
        *owner
    } else {
        ata(owner, t)
    }
}
pub fn token_program(t: u16) -> Pubkey {
    if t == 0 {
        system_program::ID
    } else {
        spl_token::ID
    }
}
pub fn price_key(t: u16) -> Pubkey {
    TOKENS.get(t as usize).map_or(k("no price"), |x| x.pyth_usd_price_key)
}

pub const STORAGE_CHILDREN: usize = 25;
pub const METADATA_CHILDREN: usize = 16;
pub fn storage_child(i: usize) -> Pubkey {
    kn("storage-child-", i)
}
pub fn metadata_child(i: usize) -> Pubkey {
    kn("metadata-child-", i)
}
/// number of the node in the flat array of the tree (level 0 = root)
pub fn node_pos(level: usize, index: usize) -> usize {
    (1usize << level) - 1 + index
}
pub const PER_STORAGE_CHILD: usize = 83_887;
pub const PER_METADATA_CHILD: usize = 65_536;

/// the fee schedule of the specification
pub fn schedule(v: u32) -> ProgramFee {
    let (lpt, bp, pbp, sub, psub, hrew, prew) =
        if v == 0 { (5000, 120, 75, 10_000, 30_000, 400, 900) } else { (7000, 35, 200, 0, 0, 600, 100) };
    ProgramFee {
        lamports_per_tx: Lamports(lpt),
        base_commitment_network_fee: BasisPointFee(bp),
        proof_network_fee: BasisPointFee(pbp),
        base_commitment_subvention: Lamports(sub),
        proof_subvention: Lamports(psub),
        warden_hash_tx_reward: Lamports(hrew),
        warden_proof_reward: Lamports(prew),
        proof_base_tx_count: ProgramFee::proof_base_tx_count(),
    }
}

pub fn set_price(b: &mut Bank, t: u16, price: i64, expo: i32, conf: u64) {
    let d = elusiv::token::pyth_price_account_data(&Price { price, conf, expo }).ok().unwrap();
    b.set(price_key(t), Bank::rent(d.len()), &d, k("pyth"));
}

pub fn edit<T>(b: &mut Bank, key: &Pubkey, f: impl FnOnce(&mut Vec<u8>) -> T) -> T {
    let mut d = b.data(key);
    let r = f(&mut d);
    b.set_data(key, &d);
    r
}
#[macro_export]
macro_rules! acct {
    ($b:expr, $key:expr, $T:ident, $v:ident) => {
        let mut _data = $b.data(&$key);
        #[allow(unused_mut)]
        let mut $v = $T::new(&mut _data).unwrap();
    };
}

/// A freshly deployed program: all accounts opened, fee version 0, one nullifier account per tree 0..3
/// (without child accounts)
pub fn deployed() -> Bank {
    static B: OnceLock<Bank> = OnceLock::new();
    B.get_or_init(deploy).clone()
}

pub fn must(b: &mut Bank, what: &str, ixs: &[Instruction]) {
    if let Err(e) = b.tx(ixs) {
        panic!("set-up step '{what}' was refused: {e:?}");
    }
}

pub fn open_single_metas(payer: Pubkey) -> Vec<AccountMeta> {
    vec![
        sw(payer),
        w(pool()),
        w(collector()),
        w(hashing()),
        w(queue()),
        w(storage()),
        w(base_buffer()),
        r(system_program::ID),
    ]
}
pub fn accounts_v1_metas(payer: Pubkey) -> Vec<AccountMeta> {
    vec![sw(payer), w(buffer()), w(mqueue()), w(metadata()), r(storage()), r(hashing()), w(queue()), r(system_program::ID)]
}

fn deploy() -> Bank {
    register();
    let mut b = Bank::new();
    let admin = k("admin");
    b.airdrop(&admin, 1_000_000 * SOL);
    must(&mut b, "OpenSingleInstanceAccounts", &[ix(&ElusivInstruction::OpenSingleInstanceAccounts, open_single_metas(admin))]);
    must(
        &mut b,
        "SetupGovernorAccount",
        &[ix(&ElusivInstruction::SetupGovernorAccount, vec![sw(admin), w(governor()), r(system_program::ID)])],
    );
    must(
        &mut b,
        "InitNewFeeVersion",
        &[ix(
            &ElusivInstruction::InitNewFeeVersion { fee_version: 0, program_fee: schedule(0) },
            vec![sw(admin), w(governor()), w(fee(0)), r(system_program::ID)],
        )],
    );
    must(&mut b, "CreateNewAccountsV1", &[ix(&ElusivInstruction::CreateNewAccountsV1, accounts_v1_metas(admin))]);
    for i in 0..STORAGE_CHILDREN {
        b.set_zeros(storage_child(i), StorageChildAccount::SIZE, elusiv::id());
        must(
            &mut b,
            "EnableStorageChildAccount",
            &[ix(
                &ElusivInstruction::EnableStorageChildAccount { child_index: i as u32 },
                vec![w(storage()), w(storage_child(i))],
            )],
        );
    }
    for i in 0..METADATA_CHILDREN {
        b.set_zeros(metadata_child(i), MetadataChildAccount::SIZE, elusiv::id());
        must(
            &mut b,
            "EnableMetadataChildAccount",
            &[ix(
                &ElusivInstruction::EnableMetadataChildAccount { child_index: i as u32 },
                vec![w(metadata()), w(metadata_child(i))],
            )],
        );
    }
    for i in 0..5 {
        open_nullifier(&mut b, i);
    }
    // tokens: mints, token accounts of the program, prices (SOL = 20 USD, stable coins 1 USD)
    for t in 1..TOKENS.len() as u16 {
        b.set_mint(mint(t), None, TOKENS[t as usize].decimals);
        b.set_token_account(ata(&pool(), t), mint(t), pool(), 0);
        b.set_token_account(ata(&collector(), t), mint(t), collector(), 0);
        set_price(&mut b, t, 1_000_000, -6, 0);
    }
    set_price(&mut b, 0, 20, 0, 0);
    b.airdrop(&sysvar::rent::ID, 1);
    b
}

pub fn open_nullifier(b: &mut Bank, i: u32) {
    must(
        b,
        "OpenNullifierAccount",
        &[ix(
            &ElusivInstruction::OpenNullifierAccount { mt_index: i },
            vec![sw(k("admin")), w(nullifier(i)), r(system_program::ID)],
        )],
    );
}

pub fn register() {
    crate::svm::register_program(elusiv::id(), elusiv::process_instruction);
}

/// funds a person with lamports and tokens 1 and 2
pub fn person(b: &mut Bank, p: Pubkey, lamports: u64, tokens: u64) {
    b.airdrop(&p, lamports);
    for t in [1, 2] {
        b.set_token_account(ata(&p, t), mint(t), p, tokens);
    }
}

/// fabricates the fee schedule `v` as the current one (there is no instruction for it)
pub fn upgrade_fee(b: &mut Bank, v: u32) {
    let key = fee(v);
    let bump = FeeAccount::find(Some(v)).1;
    let mut d = vec![0; FeeAccount::SIZE];
    d[0] = bump;
    {
        let mut f = FeeAccount::new(&mut d).unwrap();
        f.set_program_fee(&schedule(v));
    }
    b.set(key, Bank::rent(d.len()), &d, elusiv::id());
    edit(b, &governor(), |d| {
        let mut g = GovernorAccount::new(d).unwrap();
        g.set_fee_version(&v);
        g.set_program_fee(&schedule(v));
    });
}

pub fn set_rate(b: &mut Bank, rate: u32) {
    edit(b, &governor(), |d| GovernorAccount::new(d).unwrap().set_commitment_batching_rate(&rate));
}

/// Writes a node of the active tree into its child account
pub fn write_node(b: &mut Bank, level: usize, index: usize, v: &[u8; 32]) {
    let pos = node_pos(level, index);
    let key = storage_child(pos / PER_STORAGE_CHILD);
    let a = b.accts.get_mut(&key).unwrap();
    a.data.write(1 + (pos % PER_STORAGE_CHILD) * 32, v);
}
pub fn read_node(b: &Bank, level: usize, index: usize) -> [u8; 32] {
    let pos = node_pos(level, index);
    let at = 1 + (pos % PER_STORAGE_CHILD) * 32;
    b.get(&storage_child(pos / PER_STORAGE_CHILD)).unwrap().data.slice(at, at + 32).try_into().unwrap()
}
pub fn read_metadata(b: &Bank, i: usize) -> [u8; 17] {
    let at = 1 + (i % PER_METADATA_CHILD) * 17;
    b.get(&metadata_child(i / PER_METADATA_CHILD)).unwrap().data.slice(at, at + 17).try_into().unwrap()
}
pub fn write_metadata(b: &mut Bank, i: usize, v: &[u8; 17]) {
    let a = b.accts.get_mut(&metadata_child(i / PER_METADATA_CHILD)).unwrap();
    a.data.write(1 + (i % PER_METADATA_CHILD) * 17, v);
}

/// child accounts that hold the siblings (and the path) of the leaves first..first+n
pub fn storage_children_for(first: usize, n: usize) -> Vec<usize> {
    let mut v = vec![];
    for leaf in first..first + n {
        for h in 0..=20usize {
            let i = leaf.min((1 << 20) - 1) >> h;
            for x in [i, i ^ 1] {
                if h == 20 && x > 0 {
                    continue;
                }
                let c = node_pos(20 - h, x) / PER_STORAGE_CHILD;
                if !v.contains(&c) {
                    v.push(c);
                }
            }
        }
    }
    v.sort();
    v
}
