//! A small in-process Solana runtime ("bank"): runs transactions of native builds of the programs
//! with the runtime rules that the programs rely on (atomicity, signer and writable privileges,
//! ownership of data and lamports, program derived signers, rent, CPI into the system program, the
//! SPL token program and the associated-token-account program).
#![allow(dead_code)]

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
    sysvar::{self, instructions as ixsysvar},
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Once};

const PAGE: usize = 4096;

fn zero_page() -> Arc<[u8]> {
    static Z: std::sync::OnceLock<Arc<[u8]>> = std::sync::OnceLock::new();
    Z.get_or_init(|| Arc::from(vec![0u8; PAGE])).clone()
}

thread_local! {
    static RECORD: RefCell<Option<Vec<(Bank, Vec<Instruction>)>>> = RefCell::new(None);
}
/// The transactions that are tried in `f`, with the bank before each
pub fn record(f: impl FnOnce()) -> Vec<(Bank, Vec<Instruction>)> {
    RECORD.with(|r| *r.borrow_mut() = Some(vec![]));
    f();
    RECORD.with(|r| r.borrow_mut().take().unwrap())
}

/// Account data as shared pages, so that clones of a bank are cheap even for multi-megabyte accounts.
#[derive(Clone)]
pub struct Paged {
    len: usize,
    pages: Arc<Vec<Arc<[u8]>>>,
}

impl Paged {
    pub fn new(data: &[u8]) -> Self {
        let z = zero_page();
        let page = |c: &[u8]| if *c == *z { z.clone() } else { Arc::from(c) };
        Paged { len: data.len(), pages: Arc::new(data.chunks(PAGE).map(page).collect()) }
    }
    pub fn zeros(len: usize) -> Self {
        let full: Arc<[u8]> = zero_page();
        let mut pages: Vec<Arc<[u8]>> = vec![full; len / PAGE];
        if len % PAGE != 0 {
            pages.push(Arc::from(vec![0u8; len % PAGE]));
        }
        Paged { len, pages: Arc::new(pages) }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn to_vec(&self) -> Vec<u8> {
        // zeroed lazily by the system; pages that are all zero are not touched
        let mut v = vec![0; self.len];
        let z = zero_page();
        for (i, p) in self.pages.iter().enumerate() {
            if !Arc::ptr_eq(p, &z) {
                v[i * PAGE..i * PAGE + p.len()].copy_from_slice(p);
            }
        }
        v
    }
    pub fn slice(&self, from: usize, to: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(to - from);
        let mut i = from;
        while i < to {
            let p = &self.pages[i / PAGE];
            let e = ((i / PAGE + 1) * PAGE).min(to);
            v.extend_from_slice(&p[i % PAGE..i % PAGE + (e - i)]);
            i = e;
        }
        v
    }
    pub fn write(&mut self, at: usize, bytes: &[u8]) {
        // only touches the pages concerned
        let pages = Arc::make_mut(&mut self.pages);
        let mut i = 0;
        while i < bytes.len() {
            let pos = at + i;
            let n = (PAGE - pos % PAGE).min(bytes.len() - i);
            let mut v = pages[pos / PAGE].to_vec();
            v[pos % PAGE..pos % PAGE + n].copy_from_slice(&bytes[i..i + n]);
            pages[pos / PAGE] = Arc::from(v);
            i += n;
        }
    }
    fn update(&self, data: &[u8]) -> Self {
        if data.len() != self.len {
            return Paged::new(data);
        }
        let mut changed: Option<Vec<Arc<[u8]>>> = None;
        for (i, c) in data.chunks(PAGE).enumerate() {
            if *self.pages[i] != *c {
                changed.get_or_insert_with(|| (*self.pages).clone())[i] = Arc::from(c);
            }
        }
        match changed {
            None => self.clone(),
            Some(p) => Paged { len: self.len, pages: Arc::new(p) },
        }
    }
    fn same(&self, data: &[u8]) -> bool {
        data.len() == self.len && data.chunks(PAGE).zip(self.pages.iter()).all(|(c, p)| *c == **p)
    }
    pub fn same_as(&self, o: &Paged) -> bool {
        self.len == o.len
            && self.pages.iter().zip(o.pages.iter()).all(|(a, b)| Arc::ptr_eq(a, b) || **a == **b)
    }
}

#[derive(Clone)]
pub struct Acct {
    pub lamports: u64,
    pub data: Paged,
    pub owner: Pubkey,
    pub executable: bool,
}

pub type ProgramFn = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

#[derive(Clone, Debug, PartialEq)]
pub enum TxError {
    /// Refused by the program with an error
    Program(usize, ProgramError),
    /// The program aborted (panic)
    Panic(usize, String),
    /// Refused by the runtime
    Runtime(usize, String),
}

impl TxError {
    pub fn is_panic(&self) -> bool {
        matches!(self, TxError::Panic(..))
    }
}

pub type TxResult = Result<(), TxError>;

#[derive(Clone)]
pub struct Bank {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub unix_timestamp: i64,
    pub slot: u64,
}

struct Work {
    key: Box<Pubkey>,
    owner: Box<Pubkey>,
    lamports: Rc<RefCell<&'static mut u64>>,
    data: Rc<RefCell<&'static mut [u8]>>,
    signer: bool,
    writable: bool,
    executable: bool,
    // allocations, freed when the transaction ends
    lam_ptr: *mut u64,
    bufs: RefCell<Vec<(*mut u8, usize)>>,
}

impl Work {
    fn new(key: Pubkey, a: Option<&Acct>, signer: bool, writable: bool) -> Self {
        let (lamports, data, owner, executable) = match a {
            Some(a) => (a.lamports, a.data.to_vec(), a.owner, a.executable),
            None => (0, vec![], system_program::ID, false),
        };
        let lam_ptr = Box::into_raw(Box::new(lamports));
        let mut w = Work {
            key: Box::new(key),
            owner: Box::new(owner),
            lamports: Rc::new(RefCell::new(unsafe { &mut *lam_ptr })),
            data: Rc::new(RefCell::new(&mut [])),
            signer,
            writable,
            executable,
            lam_ptr,
            bufs: RefCell::new(vec![]),
        };
        w.set_data(data);
        w
    }
    fn set_data(&mut self, data: Vec<u8>) {
        let b = data.into_boxed_slice();
        let len = b.len();
        let ptr = Box::into_raw(b) as *mut u8;
        self.bufs.borrow_mut().push((ptr, len));
        *self.data.borrow_mut() = unsafe { std::slice::from_raw_parts_mut(ptr, len) };
    }
    fn info(&self, signer: bool, writable: bool) -> AccountInfo<'static> {
        let key: &'static Pubkey = unsafe { &*(&*self.key as *const Pubkey) };
        let owner: &'static Pubkey = unsafe { &*(&*self.owner as *const Pubkey) };
        AccountInfo {
            key,
            is_signer: signer,
            is_writable: writable,
            lamports: self.lamports.clone(),
            data: self.data.clone(),
            owner,
            executable: self.executable,
            rent_epoch: 0,
        }
    }
    fn lam(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.lam_ptr) }
    }
    fn owner(&self) -> Pubkey {
        unsafe { std::ptr::read_volatile(&*self.owner as *const Pubkey) }
    }
    fn set_owner(&mut self, o: Pubkey) {
        unsafe { std::ptr::write_volatile(&mut *self.owner as *mut Pubkey, o) }
    }
    fn bytes(&self) -> &'static [u8] {
        // programs may swap the slice (realloc); read it through the RefCell
        let d = self.data.as_ptr();
        unsafe { &*(*d as *const [u8]) }
    }
}

impl Drop for Work {
    fn drop(&mut self) {
        for (p, l) in self.bufs.borrow().iter() {
            unsafe { drop(Box::from_raw(std::slice::from_raw_parts_mut(*p, *l) as *mut [u8])) };
        }
        unsafe { drop(Box::from_raw(self.lam_ptr)) };
    }
}

/// What an account looked like when the running program last got control
struct Pre {
    lamports: u64,
    owner: Pubkey,
    data: Option<Vec<u8>>, // only for accounts not owned by the running program
    hash: u64,
}

struct Ctx {
    work: Vec<Work>,
    index: HashMap<Pubkey, usize>,
    program: Pubkey,
    ix_accts: Vec<usize>,
    pre: HashMap<usize, Pre>,
    clock: Clock,
    cpi_log: Vec<String>,
    depth: u32,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = RefCell::new(None);
    static CLOCK: RefCell<Clock> = RefCell::new(Clock::default());
    static QUIET: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static RUNTIME_ERR: RefCell<Option<String>> = RefCell::new(None);
    static LAST_CPI: RefCell<Vec<String>> = RefCell::new(vec![]);
}

pub fn last_cpi_log() -> Vec<String> {
    LAST_CPI.with(|l| l.borrow().clone())
}

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var_os("SVM_LOG").is_some() {
            eprintln!("log: {m}");
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, var: *mut u8) -> u64 {
        CLOCK.with(|c| unsafe { *(var as *mut Clock) = c.borrow().clone() });
        0
    }
    fn sol_get_rent_sysvar(&self, var: *mut u8) -> u64 {
        unsafe { *(var as *mut Rent) = Rent::default() };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        cpi(ix, infos, seeds)
    }
}

static INIT: Once = Once::new();
pub fn init_svm() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if QUIET.with(|q| q.get()) {
                LAST_PANIC.with(|p| *p.borrow_mut() = i.to_string());
            } else {
                prev(i);
            }
        }));
    });
}

/// Runs `f`, turning a panic into an Err with its message.
pub fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn fx(data: &[u8]) -> u64 {
    // fast non-cryptographic hash of account data
    let mut h: u64 = 0xcbf29ce484222325 ^ data.len() as u64;
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = (h.rotate_left(5) ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x517cc1b727220a95);
    }
    for b in it.remainder() {
        h = (h.rotate_left(5) ^ *b as u64).wrapping_mul(0x517cc1b727220a95);
    }
    h
}

fn rt_err(msg: String) -> ProgramError {
    RUNTIME_ERR.with(|r| {
        r.borrow_mut().get_or_insert(msg);
    });
    ProgramError::Custom(0xdead)
}

fn snapshot(ctx: &mut Ctx) {
    let mut pre = HashMap::new();
    for &i in &ctx.ix_accts {
        let w = &ctx.work[i];
        let owner = w.owner();
        let foreign = owner != ctx.program;
        let d = w.bytes();
        let data = if foreign { Some(d.to_vec()) } else { None };
        // data of owned writable accounts may change freely, all others not at all
        let hash = if !w.writable { fx(d) } else { 0 };
        pre.insert(i, Pre { lamports: w.lam(), owner, data, hash });
    }
    ctx.pre = pre;
}

/// The runtime's checks on what the running program did since the last snapshot
fn verify(ctx: &Ctx) -> Result<(), String> {
    let mut sum_pre = 0u128;
    let mut sum_post = 0u128;
    for (&i, p) in &ctx.pre {
        let w = &ctx.work[i];
        let (lam, owner) = (w.lam(), w.owner());
        sum_pre += p.lamports as u128;
        sum_post += lam as u128;
        if owner != p.owner {
            return Err(format!("owner of {} changed by program", w.key));
        }
        if !w.writable {
            if lam != p.lamports {
                return Err(format!("lamports of read-only {} changed", w.key));
            }
            if fx(w.bytes()) != p.hash {
                return Err(format!("data of read-only {} changed", w.key));
            }
        }
        if p.owner != ctx.program {
            if lam < p.lamports {
                return Err(format!("external lamport spend from {}", w.key));
            }
            if p.data.as_deref() != Some(w.bytes()) {
                return Err(format!("external data change of {}", w.key));
            }
        }
    }
    if sum_pre != sum_post {
        return Err(format!("unbalanced instruction: {sum_pre} -> {sum_post}"));
    }
    Ok(())
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    // Runs outside of the CTX borrow while SPL token executes
    let (metas, program) = CTX.with(|c| -> Result<_, ProgramError> {
        let c = c.borrow();
        let ctx = c.as_ref().expect("CPI outside of a transaction");
        verify(ctx).map_err(rt_err)?;
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(
                Pubkey::create_program_address(s, &ctx.program)
                    .map_err(|_| rt_err("CPI: seeds do not form an address".into()))?,
            );
        }
        let mut metas = vec![];
        let mut merged: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in &ix.accounts {
            let e = merged.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        for m in &ix.accounts {
            let i = *ctx.index.get(&m.pubkey).ok_or_else(|| rt_err(format!("CPI: unknown account {}", m.pubkey)))?;
            if !ctx.work[i].executable {
                if !ctx.ix_accts.contains(&i) {
                    return Err(rt_err(format!("CPI: account {} not given to the caller", m.pubkey)));
                }
                if !infos.iter().any(|a| a.key == &m.pubkey) {
                    return Err(rt_err(format!("CPI: account {} missing from infos", m.pubkey)));
                }
            }
            let (s, w) = merged[&m.pubkey];
            if s && !(ctx.work[i].signer || pdas.contains(&m.pubkey)) {
                return Err(rt_err(format!("CPI: signer privilege escalation {}", m.pubkey)));
            }
            if w && !ctx.work[i].writable {
                return Err(rt_err(format!("CPI: writable privilege escalation {}", m.pubkey)));
            }
            metas.push((i, s, w));
        }
        // the callee program must be part of the transaction
        match ctx.index.get(&ix.program_id) {
            Some(_) => {}
            _ => return Err(rt_err(format!("CPI: program {} not given to the caller", ix.program_id))),
        }
        Ok((metas, ix.program_id))
    })?;

    let r = if program == system_program::ID {
        CTX.with(|c| system(c.borrow_mut().as_mut().unwrap(), &metas, &ix.data))
    } else if program == spl_token::ID {
        token(&metas, &ix.data)
    } else if program == spl_associated_token_account::ID {
        CTX.with(|c| ata(c.borrow_mut().as_mut().unwrap(), &metas, &ix.data))
    } else {
        Err(rt_err(format!("CPI into unknown program {program}")))
    };
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().unwrap();
        let l = format!(
            "{} {:?} [{}] {}",
            if program == system_program::ID { "system" } else if program == spl_token::ID { "token" } else { "ata" },
            &ix.data[..ix.data.len().min(16)],
            ix.accounts.iter().map(|m| m.pubkey.to_string()[..6].to_string()).collect::<Vec<_>>().join(","),
            if r.is_ok() { "ok" } else { "err" }
        );
        ctx.cpi_log.push(l);
        snapshot(ctx);
    });
    // a failing CPI aborts the whole transaction in the runtime
    if let Err(e) = &r {
        RUNTIME_ERR.with(|x| {
            x.borrow_mut().get_or_insert(format!("CPI failed: {e:?}"));
        });
    }
    r
}

/// A call of another program by a registered one, with the accounts and privileges of the caller
pub fn call_program(id: Pubkey, f: impl FnOnce() -> ProgramResult) -> ProgramResult {
    let caller = CTX.with(|c| -> Result<_, ProgramError> {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().expect("call outside of a transaction");
        verify(ctx).map_err(rt_err)?;
        let caller = std::mem::replace(&mut ctx.program, id);
        ctx.depth += 1;
        snapshot(ctx);
        Ok(caller)
    })?;
    let r = f();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c.as_mut().unwrap();
        if r.is_ok() {
            verify(ctx).map_err(rt_err)?;
        } else {
            rt_err(format!("CPI failed: {r:?}"));
        }
        ctx.program = caller;
        ctx.depth -= 1;
        snapshot(ctx);
        r
    })
}

fn u64at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

fn system(ctx: &mut Ctx, metas: &[(usize, bool, bool)], data: &[u8]) -> ProgramResult {
    let tag = u32::from_le_bytes(data[..4].try_into().unwrap());
    match tag {
        0 => {
            // CreateAccount
            let (lam, space) = (u64at(data, 4), u64at(data, 12) as usize);
            let owner = Pubkey::new(&data[20..52]);
            let (f, t) = (metas[0], metas[1]);
            if !f.1 || !t.1 {
                return Err(ProgramError::MissingRequiredSignature);
            }
            sys_create(ctx, f.0, t.0, lam, space, owner)
        }
        2 => {
            let lam = u64at(data, 4);
            let (f, t) = (metas[0], metas[1]);
            if !f.1 {
                return Err(ProgramError::MissingRequiredSignature);
            }
            sys_transfer(ctx, f.0, t.0, lam)
        }
        _ => Err(rt_err(format!("system instruction {tag} not supported"))),
    }
}

fn sys_transfer(ctx: &mut Ctx, f: usize, t: usize, lam: u64) -> ProgramResult {
    if !ctx.work[f].writable || !ctx.work[t].writable {
        return Err(rt_err("system: transfer with read-only account".into()));
    }
    if ctx.work[f].owner() != system_program::ID {
        return Err(rt_err("system: transfer from account of another owner".into()));
    }
    if !ctx.work[f].bytes().is_empty() {
        return Err(ProgramError::InvalidArgument);
    }
    if ctx.work[f].lam() < lam {
        return Err(ProgramError::Custom(1));
    }
    if f == t {
        return Ok(());
    }
    let (a, b) = (ctx.work[f].lam() - lam, ctx.work[t].lam() + lam);
    **ctx.work[f].lamports.borrow_mut() = a;
    **ctx.work[t].lamports.borrow_mut() = b;
    Ok(())
}

fn sys_create(ctx: &mut Ctx, f: usize, t: usize, lam: u64, space: usize, owner: Pubkey) -> ProgramResult {
    let w = &ctx.work[t];
    if w.lam() > 0 || !w.bytes().is_empty() || w.owner() != system_program::ID {
        return Err(ProgramError::Custom(0)); // AccountAlreadyInUse
    }
    if space > 10 * 1024 * 1024 {
        return Err(ProgramError::Custom(3));
    }
    sys_transfer(ctx, f, t, lam)?;
    ctx.work[t].set_data(vec![0; space]);
    ctx.work[t].set_owner(owner);
    Ok(())
}

fn token(metas: &[(usize, bool, bool)], data: &[u8]) -> ProgramResult {
    let infos: Vec<AccountInfo<'static>> = CTX.with(|c| {
        let c = c.borrow();
        let ctx = c.as_ref().unwrap();
        metas.iter().map(|&(i, s, w)| ctx.work[i].info(s, w)).collect()
    });
    spl_token::processor::Processor::process(&spl_token::ID, &infos, data)
}

fn ata(ctx: &mut Ctx, metas: &[(usize, bool, bool)], data: &[u8]) -> ProgramResult {
    // accounts: funder, ata, wallet, mint, system, token [, rent]
    if !(data.is_empty() || data == [0]) {
        return Err(rt_err("ATA instruction not supported".into()));
    }
    let (funder, a, wallet, mint) = (metas[0], metas[1].0, metas[2].0, metas[3].0);
    let expect = spl_associated_token_account::get_associated_token_address(&ctx.work[wallet].key, &ctx.work[mint].key);
    if *ctx.work[a].key != expect {
        return Err(ProgramError::InvalidSeeds);
    }
    if *ctx.work[metas[4].0].key != system_program::ID || *ctx.work[metas[5].0].key != spl_token::ID {
        return Err(ProgramError::IncorrectProgramId);
    }
    if ctx.work[a].owner() != system_program::ID {
        return Err(ProgramError::IllegalOwner);
    }
    if !funder.1 {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let size = spl_token::state::Account::LEN;
    let need = Rent::default().minimum_balance(size).max(1);
    let have = ctx.work[a].lam();
    if have < need {
        sys_transfer(ctx, funder.0, a, need - have)?;
    }
    let mut st = spl_token::state::Account::default();
    if ctx.work[mint].owner() != spl_token::ID || spl_token::state::Mint::unpack(ctx.work[mint].bytes()).is_err() {
        return Err(ProgramError::InvalidAccountData);
    }
    st.mint = *ctx.work[mint].key;
    st.owner = *ctx.work[wallet].key;
    st.state = spl_token::state::AccountState::Initialized;
    if st.mint == spl_token::native_mint::ID {
        st.is_native = solana_program::program_option::COption::Some(need);
    }
    let mut d = vec![0; size];
    st.pack_into_slice(&mut d);
    ctx.work[a].set_data(d);
    ctx.work[a].set_owner(spl_token::ID);
    Ok(())
}

thread_local! {
    static PROGRAMS: RefCell<HashMap<Pubkey, ProgramFn>> = RefCell::new(HashMap::new());
}
pub fn register_program(id: Pubkey, f: ProgramFn) {
    PROGRAMS.with(|p| p.borrow_mut().insert(id, f));
}

impl Bank {
    pub fn new() -> Self {
        init_svm();
        let mut b = Bank { accts: BTreeMap::new(), unix_timestamp: 1_672_531_200 + 86_400 * 10, slot: 1000 };
        for id in [system_program::ID, spl_token::ID, spl_associated_token_account::ID] {
            b.accts.insert(
                id,
                Acct { lamports: 1, data: Paged::new(&[]), owner: Pubkey::default(), executable: true },
            );
        }
        b
    }
    pub fn rent(len: usize) -> u64 {
        Rent::default().minimum_balance(len)
    }
    pub fn get(&self, k: &Pubkey) -> Option<&Acct> {
        self.accts.get(k)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map_or(0, |a| a.lamports)
    }
    pub fn data(&self, k: &Pubkey) -> Vec<u8> {
        self.accts.get(k).map_or(vec![], |a| a.data.to_vec())
    }
    pub fn exists(&self, k: &Pubkey) -> bool {
        self.accts.contains_key(k)
    }
    pub fn set(&mut self, k: Pubkey, lamports: u64, data: &[u8], owner: Pubkey) {
        self.accts.insert(k, Acct { lamports, data: Paged::new(data), owner, executable: false });
    }
    pub fn set_zeros(&mut self, k: Pubkey, len: usize, owner: Pubkey) {
        self.accts.insert(
            k,
            Acct { lamports: Self::rent(len), data: Paged::zeros(len), owner, executable: false },
        );
    }
    pub fn set_data(&mut self, k: &Pubkey, data: &[u8]) {
        let a = self.accts.get_mut(k).expect("set_data: no account");
        a.data = a.data.update(data);
    }
    pub fn airdrop(&mut self, k: &Pubkey, lamports: u64) {
        self.accts
            .entry(*k)
            .or_insert(Acct { lamports: 0, data: Paged::new(&[]), owner: system_program::ID, executable: false })
            .lamports += lamports;
    }
    pub fn token_balance(&self, k: &Pubkey) -> u64 {
        self.accts
            .get(k)
            .and_then(|a| spl_token::state::Account::unpack(&a.data.to_vec()).ok())
            .map_or(0, |a| a.amount)
    }
    pub fn set_token_account(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) {
        let st = spl_token::state::Account {
            mint,
            owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        };
        let mut d = vec![0; spl_token::state::Account::LEN];
        st.pack_into_slice(&mut d);
        let r = Self::rent(d.len());
        self.set(k, r, &d, spl_token::ID);
    }
    pub fn set_mint(&mut self, k: Pubkey, freeze: Option<Pubkey>, decimals: u8) {
        let st = spl_token::state::Mint {
            supply: 1 << 60,
            decimals,
            is_initialized: true,
            freeze_authority: freeze.into(),
            ..Default::default()
        };
        let mut d = vec![0; spl_token::state::Mint::LEN];
        st.pack_into_slice(&mut d);
        let r = Self::rent(d.len());
        self.set(k, r, &d, spl_token::ID);
    }

    /// Runs a transaction atomically.  `metas[i].is_signer` is taken as "signed" (there are no real
    /// signatures): callers model a missing signature with an unset flag.
    pub fn tx(&mut self, ixs: &[Instruction]) -> TxResult {
        init_svm();
        RECORD.with(|r| {
            if let Some(l) = r.borrow_mut().as_mut() {
                l.push((self.clone(), ixs.to_vec()));
            }
        });
        let clock =
            Clock { slot: self.slot, unix_timestamp: self.unix_timestamp, ..Default::default() };
        CLOCK.with(|c| *c.borrow_mut() = clock.clone());
        // message level account flags
        let mut order: Vec<Pubkey> = vec![];
        let mut flags: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        let mut add = |k: Pubkey, s: bool, w: bool| {
            let e = flags.entry(k).or_insert_with(|| {
                order.push(k);
                (false, false)
            });
            e.0 |= s;
            e.1 |= w;
        };
        for ix in ixs {
            for m in &ix.accounts {
                add(m.pubkey, m.is_signer, m.is_writable);
            }
            add(ix.program_id, false, false);
        }
        let sysvar_data = ixs_sysvar_data(ixs, &flags);
        let mut work = vec![];
        let mut index = HashMap::new();
        for k in &order {
            let (s, mut w) = flags[k];
            index.insert(*k, work.len());
            // programs and sysvars are never writable
            if *k == ixsysvar::ID || sysvar::is_sysvar_id(k) || self.accts.get(k).map_or(false, |a| a.executable) {
                w = false;
            }
            if *k == ixsysvar::ID {
                let a = Acct { lamports: 1, data: Paged::new(&sysvar_data), owner: sysvar::ID, executable: false };
                work.push(Work::new(*k, Some(&a), s, w));
            } else {
                work.push(Work::new(*k, self.accts.get(k), s, w));
            }
        }
        CTX.with(|c| {
            *c.borrow_mut() = Some(Ctx {
                work,
                index,
                program: Pubkey::default(),
                ix_accts: vec![],
                pre: HashMap::new(),
                clock,
                cpi_log: vec![],
                depth: 0,
            })
        });
        let mut result = Ok(());
        for (n, ix) in ixs.iter().enumerate() {
            RUNTIME_ERR.with(|r| *r.borrow_mut() = None);
            let r = self.run_ix(n, ix);
            let rt = RUNTIME_ERR.with(|r| r.borrow_mut().take());
            let r = match (r, rt) {
                (Err(TxError::Program(_, e)), None) => Err(TxError::Program(n, e)),
                (_, Some(m)) => Err(TxError::Runtime(n, m)),
                (r, None) => r,
            };
            if r.is_err() {
                result = r;
                break;
            }
        }
        let ctx = CTX.with(|c| c.borrow_mut().take()).unwrap();
        LAST_CPI.with(|l| *l.borrow_mut() = ctx.cpi_log.clone());
        if result.is_err() {
            return result;
        }
        // rent state and commit
        for w in &ctx.work {
            if !w.writable {
                continue;
            }
            let (lam, len) = (w.lam(), w.bytes().len());
            if lam != 0 && lam < Self::rent(len) {
                let ok = match self.accts.get(&w.key) {
                    Some(a) => a.lamports < Self::rent(a.data.len()) && a.data.len() == len && lam <= a.lamports,
                    None => false,
                };
                if !ok {
                    return Err(TxError::Runtime(ixs.len(), format!("{} left without rent", w.key)));
                }
            }
        }
        for w in &ctx.work {
            if !w.writable {
                continue;
            }
            let lam = w.lam();
            if lam == 0 {
                self.accts.remove(&*w.key);
                continue;
            }
            match self.accts.get_mut(&*w.key) {
                Some(a) => {
                    a.lamports = lam;
                    a.owner = w.owner();
                    a.data = a.data.update(w.bytes());
                }
                None => {
                    self.accts.insert(
                        *w.key,
                        Acct { lamports: lam, data: Paged::new(w.bytes()), owner: w.owner(), executable: false },
                    );
                }
            }
        }
        Ok(())
    }

    fn run_ix(&self, n: usize, ix: &Instruction) -> TxResult {
        if ix.program_id == system_program::ID || ix.program_id == spl_token::ID {
            // top-level builtin
            let metas: Vec<(usize, bool, bool)> = CTX.with(|c| {
                let mut c = c.borrow_mut();
                let ctx = c.as_mut().unwrap();
                ctx.program = ix.program_id;
                ix.accounts
                    .iter()
                    .map(|m| {
                        let i = ctx.index[&m.pubkey];
                        (i, ctx.work[i].signer, ctx.work[i].writable)
                    })
                    .collect()
            });
            let r = if ix.program_id == system_program::ID {
                CTX.with(|c| system(c.borrow_mut().as_mut().unwrap(), &metas, &ix.data))
            } else {
                token(&metas, &ix.data)
            };
            return r.map_err(|e| TxError::Program(n, e));
        }
        let f = PROGRAMS.with(|p| p.borrow().get(&ix.program_id).copied());
        let f = match f {
            Some(f) => f,
            None if !self.accts.get(&ix.program_id).map_or(false, |a| a.executable) => {
                return Err(TxError::Runtime(n, format!("unknown program {}", ix.program_id)))
            }
            None => return Ok(()), // some unrelated program that does nothing
        };
        let infos: Vec<AccountInfo<'static>> = CTX.with(|c| {
            let mut c = c.borrow_mut();
            let ctx = c.as_mut().unwrap();
            ctx.program = ix.program_id;
            ctx.ix_accts = vec![];
            for m in &ix.accounts {
                let i = ctx.index[&m.pubkey];
                if !ctx.ix_accts.contains(&i) {
                    ctx.ix_accts.push(i);
                }
            }
            if let Some(i) = ctx.index.get(&ixsysvar::ID) {
                let w = &ctx.work[*i];
                let mut d = w.data.borrow_mut();
                let l = d.len();
                d[l - 2..].copy_from_slice(&(n as u16).to_le_bytes());
            }
            snapshot(ctx);
            ix.accounts
                .iter()
                .map(|m| {
                    let w = &ctx.work[ctx.index[&m.pubkey]];
                    w.info(w.signer, w.writable)
                })
                .collect()
        });
        let pid: &'static Pubkey = unsafe { &*(&ix.program_id as *const Pubkey) };
        let accs: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&infos[..]) };
        let r = quiet_catch(|| f(pid, accs, &ix.data));
        match r {
            Err(m) => Err(TxError::Panic(n, m)),
            Ok(Err(e)) => Err(TxError::Program(n, e)),
            Ok(Ok(())) => {
                CTX.with(|c| verify(c.borrow().as_ref().unwrap())).map_err(|m| TxError::Runtime(n, m))
            }
        }
    }

    /// Keys of the accounts in which two banks differ
    pub fn diff(&self, o: &Bank) -> Vec<Pubkey> {
        let mut v = vec![];
        for (k, a) in &self.accts {
            match o.accts.get(k) {
                Some(b) if a.lamports == b.lamports && a.owner == b.owner && a.data.same_as(&b.data) => {}
                _ => v.push(*k),
            }
        }
        for k in o.accts.keys() {
            if !self.accts.contains_key(k) {
                v.push(*k);
            }
        }
        v
    }
}

fn ixs_sysvar_data(ixs: &[Instruction], flags: &HashMap<Pubkey, (bool, bool)>) -> Vec<u8> {
    // Layout of the instructions sysvar
    let mut head: Vec<u8> = (ixs.len() as u16).to_le_bytes().to_vec();
    let mut body: Vec<u8> = vec![];
    let base = 2 + 2 * ixs.len();
    for ix in ixs {
        head.extend(((base + body.len()) as u16).to_le_bytes());
        body.extend((ix.accounts.len() as u16).to_le_bytes());
        for m in &ix.accounts {
            let (s, w) = flags[&m.pubkey];
            body.push((s as u8) | ((w as u8) << 1));
            body.extend(m.pubkey.to_bytes());
        }
        body.extend(ix.program_id.to_bytes());
        body.extend((ix.data.len() as u16).to_le_bytes());
        body.extend(&ix.data);
    }
    head.extend(body);
    head.extend([0, 0]);
    head
}

pub fn meta(k: Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: s, is_writable: w }
}
