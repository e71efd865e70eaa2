//! Minimal native emulation of the Solana runtime around the real program.
//!
//! Accounts live in per-thread buffers that use the runtime's serialized
//! account layout (so `realloc`/`assign` work).  One instruction is executed
//! by calling the program's real entry point; cross program invocations are
//! routed to the real SPL token processor and to small native versions of the
//! system and associated-token programs.  States are stored as sparse
//! differences to an immutable base image.

use solana_program::{
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::Instruction,
    program_error::ProgramError,
    program_pack::Pack,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_instruction::SystemInstruction,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;

pub const SPARE: usize = 10240;
const HDR: usize = 8 + 32 + 32 + 8 + 8;
pub const BLK: usize = 64;

#[derive(Clone, Debug)]
pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub executable: bool,
    pub data: Vec<u8>,
    /// largest data length this account may ever reach
    pub cap: usize,
}

impl Acct {
    pub fn new(key: Pubkey, owner: Pubkey, lamports: u64, data: Vec<u8>) -> Self {
        let cap = data.len();
        Acct {
            key,
            owner,
            lamports,
            executable: false,
            data,
            cap,
        }
    }
    pub fn empty(key: Pubkey, cap: usize) -> Self {
        Acct {
            key,
            owner: solana_program::system_program::id(),
            lamports: 0,
            executable: false,
            data: vec![],
            cap,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Now {
    pub ts: i64,
    pub slot: u64,
}

/// Immutable set of accounts all states of one world refer to.
#[derive(Clone)]
pub struct Image {
    pub accts: Vec<Acct>,
    pub index: HashMap<Pubkey, usize>,
}

impl Image {
    pub fn new(accts: Vec<Acct>) -> Self {
        let index = accts.iter().enumerate().map(|(i, a)| (a.key, i)).collect();
        Image { accts, index }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AcctDiff {
    pub idx: u16,
    pub lamports: u64,
    pub owner: Pubkey,
    pub len: u32,
    pub blocks: Vec<(u32, [u8; BLK])>,
}

/// One global state: difference of all accounts to the image plus the clock.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct State {
    pub now: Now,
    pub diffs: Vec<AcctDiff>,
}

#[derive(Clone, Debug)]
pub struct Meta {
    pub acct: usize,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug)]
pub struct Ix {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub ok: bool,
    pub err: String,
    pub logs: Vec<Vec<u8>>,
    pub ret: Vec<u8>,
}

struct Buf {
    mem: Vec<u64>,
    cap: usize,
    /// dirty = may differ from the image
    dirty: bool,
    /// bytes [0, hi) of data may differ from the (zero extended) image
    hi: usize,
}

impl Buf {
    fn ptr(&self) -> *mut u8 {
        self.mem.as_ptr() as *mut u8
    }
    fn data_ptr(&self) -> *mut u8 {
        unsafe { self.ptr().add(HDR) }
    }
    fn len(&self) -> usize {
        unsafe { *(self.ptr().add(HDR - 8) as *const u64) as usize }
    }
    fn set_len(&mut self, n: usize) {
        unsafe {
            *(self.ptr().add(HDR - 8) as *mut u64) = n as u64;
            *(self.ptr().add(4) as *mut u32) = n as u32;
        }
    }
    fn lamports_ptr(&self) -> *mut u64 {
        unsafe { self.ptr().add(HDR - 16) as *mut u64 }
    }
    fn owner_ptr(&self) -> *mut Pubkey {
        unsafe { self.ptr().add(HDR - 48) as *mut Pubkey }
    }
    fn key_ptr(&self) -> *const Pubkey {
        unsafe { self.ptr().add(8) as *const Pubkey }
    }
}

pub struct Machine {
    pub image: Arc<Image>,
    bufs: Vec<Buf>,
    pub now: Now,
    /// indices of accounts whose buffers may differ from the image
    dirty: Vec<usize>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static IN_PROGRAM: Cell<bool> = Cell::new(false);
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static PDA_CACHE: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new());
}

#[derive(Default)]
struct Ctx {
    ts: i64,
    slot: u64,
    logs: Vec<Vec<u8>>,
    ret: Vec<u8>,
    text: Vec<String>,
    keep_text: bool,
}

struct Stubs;

fn pda(seeds: &[&[u8]], program: &Pubkey) -> Result<Pubkey, ProgramError> {
    let mut k = Vec::with_capacity(128);
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    k.extend_from_slice(program.as_ref());
    if let Some(p) = PDA_CACHE.with(|c| c.borrow().get(&k).copied()) {
        return Ok(p);
    }
    let p = Pubkey::create_program_address(seeds, program)
        .map_err(|_| ProgramError::InvalidSeeds)?;
    PDA_CACHE.with(|c| c.borrow_mut().insert(k, p));
    Ok(p)
}

pub const RENT_PER_BYTE: u64 = 6960;
pub fn rent_min(len: usize) -> u64 {
    (len as u64 + 128) * RENT_PER_BYTE
}

impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.keep_text {
                c.text.push(m.to_string());
            }
        })
    }
    fn sol_log_compute_units(&self) {}
    fn sol_remaining_compute_units(&self) -> u64 {
        1_400_000
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            unsafe {
                *(var_addr as *mut Clock) = Clock {
                    slot: c.slot,
                    epoch_start_timestamp: 0,
                    epoch: 0,
                    leader_schedule_epoch: 0,
                    unix_timestamp: c.ts,
                };
            }
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe {
            *(var_addr as *mut Rent) = Rent::default();
        }
        0
    }
    fn sol_log_data(&self, fields: &[&[u8]]) {
        CTX.with(|c| c.borrow_mut().logs.push(fields.concat()))
    }
    fn sol_set_return_data(&self, data: &[u8]) {
        CTX.with(|c| c.borrow_mut().ret = data.to_vec())
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        None
    }
    fn sol_get_stack_height(&self) -> u64 {
        1
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        signers_seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let caller = openbook_v2::id();
        let mut pdas = vec![];
        for s in signers_seeds {
            pdas.push(pda(s, &caller)?);
        }
        let mut accs: Vec<AccountInfo> = Vec::with_capacity(ix.accounts.len());
        for m in &ix.accounts {
            let mut signer = pdas.contains(&m.pubkey);
            let mut writable = false;
            let mut found = None;
            for i in infos.iter().filter(|i| i.key == &m.pubkey) {
                signer |= i.is_signer;
                writable |= i.is_writable;
                found = Some(i);
            }
            let f = found.ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !writable {
                return Err(ProgramError::InvalidArgument);
            }
            let mut a = f.clone();
            a.is_signer = m.is_signer;
            a.is_writable = m.is_writable;
            accs.push(a);
        }
        if ix.program_id == spl_token::id() {
            spl_token::processor::Processor::process(&spl_token::id(), &accs, &ix.data)
        } else if solana_program::system_program::check_id(&ix.program_id) {
            system_process(&accs, &ix.data)
        } else if ix.program_id == anchor_spl::associated_token::ID {
            ata_process(&accs)
        } else if ix.program_id == caller {
            // self invocation that only carries an event
            CTX.with(|c| c.borrow_mut().logs.push(ix.data.clone()));
            Ok(())
        } else {
            Err(ProgramError::IncorrectProgramId)
        }
    }
}

fn move_lamports(from: &AccountInfo, to: &AccountInfo, amount: u64) -> ProgramResult {
    if **from.lamports.borrow() < amount {
        return Err(ProgramError::InsufficientFunds);
    }
    if from.key == to.key {
        return Ok(());
    }
    **from.lamports.borrow_mut() -= amount;
    **to.lamports.borrow_mut() += amount;
    Ok(())
}

fn need_signer(a: &AccountInfo) -> ProgramResult {
    if a.is_signer {
        Ok(())
    } else {
        Err(ProgramError::MissingRequiredSignature)
    }
}

fn grow(a: &AccountInfo, space: u64) -> ProgramResult {
    // the buffer always has room: caps are fixed by the image
    if !a.data_is_empty() {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    let mut d = a.data.borrow_mut();
    let p = d.as_mut_ptr();
    unsafe {
        *(p.offset(-8) as *mut u64) = space;
        *d = std::slice::from_raw_parts_mut(p, space as usize);
    }
    d.fill(0);
    Ok(())
}

fn system_process(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix: SystemInstruction = bincode_decode(data)?;
    let sys = solana_program::system_program::id();
    match ix {
        SystemInstruction::CreateAccount {
            lamports,
            space,
            owner,
        } => {
            need_signer(&accs[0])?;
            need_signer(&accs[1])?;
            if accs[1].lamports() > 0 || accs[1].owner != &sys {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            if accs[0].owner != &sys || !accs[0].data_is_empty() {
                return Err(ProgramError::InvalidArgument);
            }
            grow(&accs[1], space)?;
            move_lamports(&accs[0], &accs[1], lamports)?;
            accs[1].assign(&owner);
            Ok(())
        }
        SystemInstruction::Transfer { lamports } => {
            need_signer(&accs[0])?;
            if accs[0].owner != &sys || !accs[0].data_is_empty() {
                return Err(ProgramError::InvalidArgument);
            }
            move_lamports(&accs[0], &accs[1], lamports)
        }
        SystemInstruction::Allocate { space } => {
            need_signer(&accs[0])?;
            if accs[0].owner != &sys {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            grow(&accs[0], space)
        }
        SystemInstruction::Assign { owner } => {
            need_signer(&accs[0])?;
            if accs[0].owner != &sys {
                return Err(ProgramError::IllegalOwner);
            }
            accs[0].assign(&owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn bincode_decode(d: &[u8]) -> Result<SystemInstruction, ProgramError> {
    let bad = ProgramError::InvalidInstructionData;
    let u32at = |o: usize| -> Result<u32, ProgramError> {
        Ok(u32::from_le_bytes(
            d.get(o..o + 4).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
        ))
    };
    let u64at = |o: usize| -> Result<u64, ProgramError> {
        Ok(u64::from_le_bytes(
            d.get(o..o + 8).ok_or(ProgramError::InvalidInstructionData)?.try_into().unwrap(),
        ))
    };
    let pk = |o: usize| -> Result<Pubkey, ProgramError> {
        Ok(Pubkey::try_from(d.get(o..o + 32).ok_or(ProgramError::InvalidInstructionData)?).unwrap())
    };
    Ok(match u32at(0)? {
        0 => SystemInstruction::CreateAccount {
            lamports: u64at(4)?,
            space: u64at(12)?,
            owner: pk(20)?,
        },
        1 => SystemInstruction::Assign { owner: pk(4)? },
        2 => SystemInstruction::Transfer {
            lamports: u64at(4)?,
        },
        8 => SystemInstruction::Allocate { space: u64at(4)? },
        _ => return Err(bad),
    })
}

/// associated token account creation: payer, ata, wallet, mint, system, token
fn ata_process(accs: &[AccountInfo]) -> ProgramResult {
    let want =
        anchor_spl::associated_token::get_associated_token_address(accs[2].key, accs[3].key);
    if &want != accs[1].key {
        return Err(ProgramError::InvalidSeeds);
    }
    need_signer(&accs[0])?;
    grow(&accs[1], spl_token::state::Account::LEN as u64)?;
    move_lamports(&accs[0], &accs[1], rent_min(spl_token::state::Account::LEN))?;
    accs[1].assign(&spl_token::id());
    let st = token_account(accs[3].key, accs[2].key, 0);
    accs[1].data.borrow_mut().copy_from_slice(&st);
    Ok(())
}

pub fn token_account(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut v = vec![0u8; spl_token::state::Account::LEN];
    spl_token::state::Account {
        mint: *mint,
        owner: *owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        ..Default::default()
    }
    .pack_into_slice(&mut v);
    v
}

pub fn mint_account(decimals: u8, supply: u64) -> Vec<u8> {
    let mut v = vec![0u8; spl_token::state::Mint::LEN];
    spl_token::state::Mint {
        decimals,
        supply,
        is_initialized: true,
        ..Default::default()
    }
    .pack_into_slice(&mut v);
    v
}

pub fn install() {
    use std::sync::Once;
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let old = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if IN_PROGRAM.with(|c| c.get()) {
                PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic: {info}"));
            } else {
                old(info)
            }
        }));
    });
}

const WATCHED: usize = 256;
static TICK: AtomicU64 = AtomicU64::new(1);
static WATCH: [AtomicU64; WATCHED] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; WATCHED]
};
static NEXT_SLOT: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static WATCH_SLOT: usize = NEXT_SLOT.fetch_add(1, Relaxed) as usize % WATCHED;
}

/// Call `f` when one instruction has been running for `secs` seconds.
pub fn watchdog(secs: u64, f: impl Fn() + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let t = TICK.fetch_add(1, Relaxed) + 1;
        if WATCH.iter().map(|w| w.load(Relaxed)).any(|s| s != 0 && t > s + secs) {
            f();
        }
    });
}

/// Run code of the program under test that may panic.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_PROGRAM.with(|c| c.set(true));
    let slot = WATCH_SLOT.with(|s| *s);
    WATCH[slot].store(TICK.load(Relaxed), Relaxed);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    WATCH[slot].store(0, Relaxed);
    IN_PROGRAM.with(|c| c.set(false));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}

pub fn set_clock(now: Now) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.ts = now.ts;
        c.slot = now.slot;
    });
}

impl Machine {
    pub fn new(image: Arc<Image>, now: Now) -> Self {
        install();
        let mut m = Machine {
            bufs: image
                .accts
                .iter()
                .map(|a| {
                    let cap = a.cap.max(a.data.len()) + SPARE;
                    let words = (HDR + cap + 15) / 8;
                    Buf {
                        mem: vec![0u64; words],
                        cap,
                        dirty: false,
                        hi: 0,
                    }
                })
                .collect(),
            image,
            now,
            dirty: vec![],
        };
        for i in 0..m.bufs.len() {
            m.reset(i);
        }
        m
    }

    fn reset_hdr(&mut self, i: usize) {
        let a = &self.image.accts[i];
        let b = &mut self.bufs[i];
        unsafe {
            *(b.key_ptr() as *mut Pubkey) = a.key;
            *b.owner_ptr() = a.owner;
            *b.lamports_ptr() = a.lamports;
        }
        b.set_len(a.data.len());
    }

    fn reset(&mut self, i: usize) {
        self.reset_hdr(i);
        let a = &self.image.accts[i];
        let b = &mut self.bufs[i];
        let hi = b.hi.max(a.data.len());
        unsafe {
            let d = std::slice::from_raw_parts_mut(b.data_ptr(), b.cap);
            d[..a.data.len()].copy_from_slice(&a.data);
            d[a.data.len()..hi.min(b.cap)].fill(0);
        }
        b.hi = 0;
        b.dirty = false;
    }

    /// restore account to the image, touching only changed blocks
    fn revert(&mut self, i: usize) {
        let a = &self.image.accts[i];
        let b = &mut self.bufs[i];
        let n = a.data.len();
        unsafe {
            let d = std::slice::from_raw_parts_mut(b.data_ptr(), b.cap);
            let mut o = 0;
            while o < n {
                let e = (o + 512).min(n);
                if d[o..e] != a.data[o..e] {
                    d[o..e].copy_from_slice(&a.data[o..e]);
                }
                o = e;
            }
            let hi = b.hi.max(b.len()).min(b.cap);
            if hi > n {
                d[n..hi].fill(0);
            }
        }
        self.reset_hdr(i);
        self.bufs[i].hi = 0;
        self.bufs[i].dirty = false;
    }

    pub fn load(&mut self, s: &State) {
        let dirty = std::mem::take(&mut self.dirty);
        for i in dirty {
            self.revert(i);
        }
        self.now = s.now;
        for d in &s.diffs {
            let i = d.idx as usize;
            let b = &mut self.bufs[i];
            unsafe {
                *b.owner_ptr() = d.owner;
                *b.lamports_ptr() = d.lamports;
            }
            let old = b.len();
            b.set_len(d.len as usize);
            b.hi = b.hi.max(d.len as usize).max(old);
            let data = unsafe { std::slice::from_raw_parts_mut(b.data_ptr(), b.cap) };
            if (d.len as usize) < old {
                data[d.len as usize..old].fill(0);
            }
            for (k, blk) in &d.blocks {
                let o = *k as usize * BLK;
                data[o..o + BLK].copy_from_slice(blk);
            }
            b.dirty = true;
            self.dirty.push(i);
        }
    }

    pub fn save(&self) -> State {
        let mut diffs = vec![];
        let mut idx: Vec<usize> = self.dirty.clone();
        idx.sort_unstable();
        for i in idx {
            let a = &self.image.accts[i];
            let b = &self.bufs[i];
            let len = b.len();
            let cur = unsafe { std::slice::from_raw_parts(b.data_ptr(), b.cap) };
            let mut blocks = vec![];
            let n = len.max(0);
            let mut o = 0;
            while o < n {
                // coarse compare first
                let e = (o + BLK * 16).min(n);
                let same = e <= a.data.len() && cur[o..e] == a.data[o..e];
                if !same {
                    let mut p = o;
                    while p < e {
                        let q = p + BLK;
                        let mut base = [0u8; BLK];
                        if p < a.data.len() {
                            let k = (a.data.len() - p).min(BLK);
                            base[..k].copy_from_slice(&a.data[p..p + k]);
                        }
                        let mut c = [0u8; BLK];
                        let k = (len - p).min(BLK);
                        c[..k].copy_from_slice(&cur[p..p + k]);
                        if c != base {
                            blocks.push(((p / BLK) as u32, c));
                        }
                        p = q;
                    }
                }
                o = e;
            }
            let (owner, lamports) = unsafe { (*b.owner_ptr(), *b.lamports_ptr()) };
            if blocks.is_empty()
                && len == a.data.len()
                && owner == a.owner
                && lamports == a.lamports
            {
                continue;
            }
            diffs.push(AcctDiff {
                idx: i as u16,
                lamports,
                owner,
                len: len as u32,
                blocks,
            });
        }
        State {
            now: self.now,
            diffs,
        }
    }

    pub fn data(&self, i: usize) -> &[u8] {
        let b = &self.bufs[i];
        unsafe { std::slice::from_raw_parts(b.data_ptr(), b.len()) }
    }
    pub fn lamports(&self, i: usize) -> u64 {
        unsafe { *self.bufs[i].lamports_ptr() }
    }
    pub fn owner(&self, i: usize) -> Pubkey {
        unsafe { *self.bufs[i].owner_ptr() }
    }
    pub fn key(&self, i: usize) -> Pubkey {
        self.image.accts[i].key
    }

    fn mark(&mut self, i: usize) {
        if !self.bufs[i].dirty {
            self.bufs[i].dirty = true;
            self.dirty.push(i);
        }
    }

    /// Direct environment write (oracle data and the like).
    pub fn poke(&mut self, i: usize, off: usize, bytes: &[u8]) {
        self.mark(i);
        let b = &mut self.bufs[i];
        let d = unsafe { std::slice::from_raw_parts_mut(b.data_ptr(), b.len()) };
        d[off..off + bytes.len()].copy_from_slice(bytes);
    }
    pub fn poke_owner(&mut self, i: usize, owner: Pubkey) {
        self.mark(i);
        unsafe { *self.bufs[i].owner_ptr() = owner }
    }
    pub fn poke_lamports(&mut self, i: usize, l: u64) {
        self.mark(i);
        unsafe { *self.bufs[i].lamports_ptr() = l }
    }
    pub fn poke_data(&mut self, i: usize, bytes: &[u8]) {
        self.mark(i);
        let b = &mut self.bufs[i];
        assert!(bytes.len() <= b.cap);
        b.hi = b.hi.max(bytes.len()).max(b.len());
        b.set_len(bytes.len());
        let d = unsafe { std::slice::from_raw_parts_mut(b.data_ptr(), b.cap) };
        d[..bytes.len()].copy_from_slice(bytes);
    }

    /// Execute one instruction.  On failure the buffers are left modified; the
    /// caller must `load` a state again (use `exec_or_reload` for convenience).
    pub fn exec(&mut self, ix: &Ix) -> Outcome {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.ts = self.now.ts;
            c.slot = self.now.slot;
            c.logs.clear();
            c.ret.clear();
            c.text.clear();
        });
        for m in &ix.metas {
            self.mark(m.acct);
        }
        let mut pre_lamports = 0u128;
        let mut uniq: Vec<usize> = ix.metas.iter().map(|m| m.acct).collect();
        uniq.sort_unstable();
        uniq.dedup();
        let mut ro: Vec<(usize, u64, Pubkey, Vec<u8>)> = vec![];
        for &i in &uniq {
            pre_lamports += self.lamports(i) as u128;
            let l = self.bufs[i].len();
            self.bufs[i].set_len(l);
            if !ix.metas.iter().any(|m| m.acct == i && m.writable) && l <= 4096 {
                ro.push((i, self.lamports(i), self.owner(i), self.data(i).to_vec()));
            }
        }
        let infos: Vec<AccountInfo<'static>> = {
            let mut out: Vec<AccountInfo<'static>> = Vec::with_capacity(ix.metas.len());
            let mut first: Vec<(usize, usize)> = vec![];
            for m in &ix.metas {
                if let Some((_, k)) = first.iter().find(|(a, _)| *a == m.acct) {
                    let mut c = out[*k].clone();
                    // privileges of duplicates are merged by the message format
                    c.is_signer |= m.signer;
                    c.is_writable |= m.writable;
                    out.push(c);
                    continue;
                }
                let b = &self.bufs[m.acct];
                unsafe {
                    let data: &'static mut [u8] =
                        std::slice::from_raw_parts_mut(b.data_ptr(), b.len());
                    out.push(AccountInfo {
                        key: &*(b.key_ptr()),
                        lamports: Rc::new(RefCell::new(&mut *b.lamports_ptr())),
                        data: Rc::new(RefCell::new(data)),
                        owner: &*(b.owner_ptr()),
                        rent_epoch: u64::MAX,
                        is_signer: m.signer,
                        is_writable: m.writable,
                        executable: self.image.accts[m.acct].executable,
                    });
                }
                first.push((m.acct, out.len() - 1));
            }
            // second pass so that earlier duplicates see merged privileges
            for i in 0..out.len() {
                let a = ix.metas[i].acct;
                out[i].is_signer = ix.metas.iter().any(|m| m.acct == a && m.signer);
                out[i].is_writable = ix.metas.iter().any(|m| m.acct == a && m.writable);
            }
            out
        };
        let res = {
            let slice: &'static [AccountInfo<'static>] =
                unsafe { std::slice::from_raw_parts(infos.as_ptr(), infos.len()) };
            guarded(|| openbook_v2::entry(&openbook_v2::ID, slice, &ix.data))
        };
        drop(infos);
        let mut out = CTX.with(|c| {
            let mut c = c.borrow_mut();
            Outcome {
                ok: false,
                err: String::new(),
                logs: std::mem::take(&mut c.logs),
                ret: std::mem::take(&mut c.ret),
            }
        });
        match res {
            Ok(Ok(())) => out.ok = true,
            Ok(Err(e)) => out.err = format!("{e:?}"),
            Err(p) => out.err = p,
        }
        for &i in &uniq {
            let l = self.bufs[i].len();
            self.bufs[i].hi = self.bufs[i].hi.max(l).max(self.image.accts[i].data.len());
        }
        if out.ok {
            // runtime post-conditions
            let mut post = 0u128;
            for &i in &uniq {
                post += self.lamports(i) as u128;
                if self.lamports(i) == 0 && self.bufs[i].len() != 0 {
                    // account is purged
                    self.bufs[i].hi = self.bufs[i].hi.max(self.bufs[i].len());
                    let b = &mut self.bufs[i];
                    let d = unsafe { std::slice::from_raw_parts_mut(b.data_ptr(), b.cap) };
                    d[..b.hi].fill(0);
                    self.bufs[i].set_len(0);
                    unsafe {
                        *self.bufs[i].owner_ptr() = solana_program::system_program::id();
                    }
                }
            }
            if post != pre_lamports {
                out.ok = false;
                out.err = "runtime: lamports not conserved".into();
            }
            for (i, l, o, d) in ro {
                if self.lamports(i) != l || self.owner(i) != o || self.data(i) != &d[..] {
                    out.ok = false;
                    out.err = format!("runtime: read-only account {i} modified");
                }
            }
        }
        out
    }
}

/// Text logs of the next executions on this thread are kept (debugging aid).
pub fn keep_text(on: bool) {
    CTX.with(|c| c.borrow_mut().keep_text = on)
}
pub fn take_text() -> Vec<String> {
    CTX.with(|c| std::mem::take(&mut c.borrow_mut().text))
}
