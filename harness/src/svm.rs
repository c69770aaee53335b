//! A small native stand-in for the Solana runtime: it runs the program's real entry point on accounts laid out in
//! the loader's input format, dispatches cross-program calls to the real SPL token processors (or to stand-ins for
//! the venues, see ext.rs) and applies a transaction's effects only when every instruction of it succeeds.
use anchor_lang::solana_program::{
    self,
    account_info::AccountInfo,
    clock::Clock,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    program_stubs::{set_syscall_stubs, SyscallStubs},
    pubkey::Pubkey,
    rent::Rent,
    system_program,
    sysvar::instructions::{construct_instructions_data, store_current_index, BorrowedAccountMeta, BorrowedInstruction, ID as SYSVAR_IX_ID},
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub exec: bool,
}

impl Acct {
    pub fn empty() -> Acct {
        Acct { lamports: 0, data: vec![], owner: system_program::ID, exec: false }
    }
}

/// A cross-program call to anything that is not a token or system program, as observed.
#[derive(Clone, Debug)]
pub struct ExtCall {
    pub name: String,
    pub keys: Vec<(String, Pubkey)>,
    pub ints: Vec<(String, u128)>,
}

#[derive(Default, Clone)]
pub struct Ctx {
    pub slot: u64,
    pub ts: i64,
    pub siblings: Vec<Instruction>, // processed siblings, oldest first
    pub stack_height: u64,
    pub events: Vec<Vec<u8>>,
    pub calls: Vec<ExtCall>,
    pub ret: Option<(Pubkey, Vec<u8>)>,
    pub cur: Pubkey,
    pub env: BTreeMap<String, u128>, // choices of the environment (what the stand-ins should do)
    pub logs: Vec<String>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub fn rent() -> Rent {
    Rent::default()
}

// What the program logs goes to standard output; it is kept in memory for the instruction that runs.
mod log {
    use std::io::{Read, Seek, SeekFrom, Write};
    use std::os::fd::FromRawFd;
    extern "C" {
        fn memfd_create(name: *const std::ffi::c_char, flags: u32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
    }
    thread_local! {
        static FILE: std::cell::RefCell<Option<std::fs::File>> = const { std::cell::RefCell::new(None) };
    }
    pub fn open() {
        unsafe {
            let f = memfd_create(c"log".as_ptr(), 0);
            if f >= 0 && dup2(f, 1) == 1 {
                FILE.with(|x| *x.borrow_mut() = Some(std::fs::File::from_raw_fd(f)));
            }
        }
    }
    pub fn take() -> Vec<String> {
        let _ = std::io::stdout().flush();
        FILE.with(|x| {
            let mut x = x.borrow_mut();
            let Some(f) = x.as_mut() else { return vec![] };
            let mut t = vec![];
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.read_to_end(&mut t);
            let _ = f.set_len(0);
            let _ = f.seek(SeekFrom::Start(0));
            String::from_utf8_lossy(&t).lines().map(|l| l.to_string()).collect()
        })
    }
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.logs.len() < 64 {
                c.logs.push(m.to_string())
            }
        })
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        invoke(ix, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        CTX.with(|c| {
            let c = c.borrow();
            let clock = Clock { slot: c.slot, unix_timestamp: c.ts, ..Clock::default() };
            unsafe { *(p as *mut Clock) = clock }
        });
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { *(p as *mut Rent) = rent() };
        0
    }
    fn sol_get_return_data(&self) -> Option<(Pubkey, Vec<u8>)> {
        CTX.with(|c| c.borrow().ret.clone())
    }
    fn sol_set_return_data(&self, d: &[u8]) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let cur = c.cur;
            c.ret = Some((cur, d.to_vec()))
        })
    }
    fn sol_get_processed_sibling_instruction(&self, i: usize) -> Option<Instruction> {
        CTX.with(|c| {
            let c = c.borrow();
            let n = c.siblings.len();
            if i < n { Some(c.siblings[n - 1 - i].clone()) } else { None }
        })
    }
    fn sol_get_stack_height(&self) -> u64 {
        CTX.with(|c| c.borrow().stack_height)
    }
}

pub fn install() {
    log::open();
    set_syscall_stubs(Box::new(Stubs));
}

pub const EVENT_TAG: [u8; 8] = [0xe4, 0x45, 0xa5, 0x2e, 0x51, 0xcb, 0x9a, 0x1d];

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CTX.with(|c| c.borrow().cur);
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
    }
    // SAFETY: the infos outlive this call; lifetimes are only unified.
    let infos: &[AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
    let mut callee: Vec<AccountInfo<'static>> = vec![];
    for m in &ix.accounts {
        let info = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        let can_sign = infos.iter().any(|i| *i.key == m.pubkey && i.is_signer) || pdas.contains(&m.pubkey);
        let can_write = infos.iter().any(|i| *i.key == m.pubkey && i.is_writable);
        if m.is_signer && !can_sign {
            return Err(ProgramError::MissingRequiredSignature); // runtime: privilege escalation
        }
        if m.is_writable && !can_write {
            return Err(ProgramError::Immutable); // runtime: privilege escalation
        }
        let mut c = info.clone();
        c.is_signer = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
        c.is_writable = ix.accounts.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
        callee.push(c);
    }
    let callee: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&callee[..]) };
    let prev = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.stack_height += 1;
        std::mem::replace(&mut c.cur, ix.program_id)
    });
    let r = dispatch(&ix.program_id, callee, &ix.data);
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.stack_height -= 1;
        c.cur = prev;
    });
    r
}

fn dispatch(pid: &Pubkey, accs: &'static [AccountInfo<'static>], data: &[u8]) -> ProgramResult {
    use anchor_spl::token::spl_token;
    use anchor_spl::token_2022::spl_token_2022;
    if *pid == dynamic_bonding_curve::ID {
        if data.len() >= 8 && data[..8] == EVENT_TAG {
            let want = Pubkey::find_program_address(&[b"__event_authority"], &dynamic_bonding_curve::ID).0;
            if accs.len() != 1 || *accs[0].key != want || !accs[0].is_signer {
                return Err(ProgramError::InvalidArgument);
            }
            CTX.with(|c| c.borrow_mut().events.push(data[8..].to_vec()));
            return Ok(());
        }
        return Err(ProgramError::InvalidInstructionData);
    }
    if *pid == system_program::ID {
        return crate::ext::system(accs, data);
    }
    if *pid == spl_token::ID {
        return spl_token::processor::Processor::process(pid, accs, data);
    }
    if *pid == spl_token_2022::ID {
        return spl_token_2022::processor::Processor::process(pid, accs, data);
    }
    crate::ext::dispatch(pid, accs, data)
}

/// One account in the loader's layout (so that `realloc` and owner changes work as on chain), in a buffer of its own
/// that keeps zero-copy data aligned on this host.
struct Slot {
    buf: Vec<u128>,
    len: usize,
}

const HEAD: usize = 88; // flags, original length, key, owner, lamports, data length

impl Slot {
    fn new(key: &Pubkey, a: &Acct) -> Slot {
        let len = a.data.len();
        let mut buf = vec![0u128; (HEAD + len + 10240) / 16 + 1];
        let p = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, HEAD + len) };
        p[4..8].copy_from_slice(&(len as u32).to_le_bytes());
        p[8..40].copy_from_slice(&key.to_bytes());
        p[40..72].copy_from_slice(&a.owner.to_bytes());
        p[72..80].copy_from_slice(&a.lamports.to_le_bytes());
        p[80..88].copy_from_slice(&(len as u64).to_le_bytes());
        p[88..].copy_from_slice(&a.data);
        Slot { buf, len }
    }

    /// SAFETY: the slot must outlive every use of the info and its clones.
    unsafe fn info(&mut self, signer: bool, writable: bool, exec: bool) -> AccountInfo<'static> {
        let p = self.buf.as_mut_ptr() as *mut u8;
        AccountInfo {
            key: &*(p.add(8) as *const Pubkey),
            owner: &*(p.add(40) as *const Pubkey),
            lamports: Rc::new(RefCell::new(&mut *(p.add(72) as *mut u64))),
            data: Rc::new(RefCell::new(std::slice::from_raw_parts_mut(p.add(HEAD), self.len))),
            rent_epoch: 0,
            is_signer: signer,
            is_writable: writable,
            executable: exec,
        }
    }
}

#[derive(Clone)]
pub struct Ix {
    pub metas: Vec<AccountMeta>,
    pub data: Vec<u8>,
    /// None: the program under test; Some: an inert foreign instruction (only seen by introspection)
    pub foreign: Option<Pubkey>,
    /// 0: top level; 1: called by another program; 2: called by a program that was itself called
    pub via: u64,
    /// part of the same outer instruction as the previous one
    pub join: bool,
}

#[derive(Clone, Default)]
pub struct Bank {
    pub accts: HashMap<Pubkey, Acct>,
    pub slot: u64,
    pub ts: i64,
}

#[derive(Default, Clone)]
pub struct IxOut {
    pub err: Option<String>,
    pub events: Vec<Vec<u8>>,
    pub calls: Vec<ExtCall>,
    pub logs: Vec<String>,
    /// accounts whose content, lamports or owner changed
    pub touched: Vec<Pubkey>,
}

pub fn err_name(e: &ProgramError) -> String {
    match e {
        ProgramError::Custom(c) => format!("c{}", c),
        other => format!("{:?}", other),
    }
}

impl Bank {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_else(Acct::empty)
    }

    /// Runs the n-th instruction of a transaction on the current state. The caller keeps a copy to restore when the
    /// transaction as a whole fails.
    pub fn exec(&mut self, ixs: &[Ix], n: usize, env: &BTreeMap<String, u128>) -> IxOut {
        let pid = dynamic_bonding_curve::ID;
        // outer instructions as the instructions sysvar shows them
        let mut outers: Vec<(Pubkey, Vec<AccountMeta>, Vec<u8>)> = vec![];
        let mut outer_of = vec![];
        for ix in ixs {
            if ix.via == 0 {
                outers.push((ix.foreign.unwrap_or(pid), ix.metas.clone(), ix.data.clone()));
            } else if ix.join && !outers.is_empty() && outers.last().unwrap().0 == crate::world::aggregator() {
                outers.last_mut().unwrap().1.extend(ix.metas.clone());
            } else {
                outers.push((crate::world::aggregator(), ix.metas.clone(), vec![9; 8]));
            }
            outer_of.push(outers.len() - 1);
        }
        let borrowed: Vec<BorrowedInstruction> = outers
            .iter()
            .map(|(p, a, d)| BorrowedInstruction {
                program_id: p,
                accounts: a
                    .iter()
                    .map(|m| BorrowedAccountMeta { pubkey: &m.pubkey, is_signer: m.is_signer, is_writable: m.is_writable })
                    .collect(),
                data: d,
            })
            .collect();
        let mut sysvar = construct_instructions_data(&borrowed);
        store_current_index(&mut sysvar, outer_of[n] as u16);
        let ix = &ixs[n];
        let as_ix = |i: &Ix| Instruction { program_id: i.foreign.unwrap_or(pid), accounts: i.metas.clone(), data: i.data.clone() };
        let siblings: Vec<Instruction> = match ix.via {
            0 => (0..n).filter(|j| ixs[*j].via == 0).map(|j| as_ix(&ixs[j])).collect(),
            1 => (0..n).filter(|j| ixs[*j].via == 1 && outer_of[*j] == outer_of[n]).map(|j| as_ix(&ixs[j])).collect(),
            _ => vec![],
        };
        if ix.foreign.is_some() {
            return IxOut::default();
        }
        CTX.with(|c| {
            *c.borrow_mut() = Ctx {
                slot: self.slot,
                ts: self.ts,
                stack_height: 1 + ix.via,
                siblings,
                cur: pid,
                env: env.clone(),
                ..Ctx::default()
            }
        });
        let res = {
            let get = |k: &Pubkey| -> Acct {
                if *k == SYSVAR_IX_ID {
                    return Acct { lamports: 1, data: sysvar.clone(), owner: solana_program::sysvar::ID, exec: false };
                }
                self.get(k)
            };
            run_one(&pid, &ix.metas, &get, &ix.data)
        };
        let mut out = IxOut::default();
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            out.events = std::mem::take(&mut c.events);
            out.calls = std::mem::take(&mut c.calls);
            out.logs = std::mem::take(&mut c.logs);
            out.logs.extend(log::take());
        });
        match res {
            Ok(changed) => {
                for (k, a) in changed {
                    out.touched.push(k);
                    if a.lamports == 0 {
                        self.accts.remove(&k);
                    } else {
                        self.accts.insert(k, a);
                    }
                }
            }
            Err(e) => {
                out.err = Some(e);
                out.events.clear();
                out.calls.clear();
            }
        }
        out
    }

    /// the runtime's rent rule at the end of a transaction
    pub fn rent_ok(&self, before: &Bank) -> bool {
        self.accts.iter().all(|(k, a)| {
            let min = rent().minimum_balance(a.data.len());
            if a.lamports >= min || a.owner == solana_program::sysvar::ID || a.exec {
                return true;
            }
            let b = before.get(k);
            b == *a || (b.lamports != 0 && b.lamports < rent().minimum_balance(b.data.len()) && a.data.len() == b.data.len() && a.lamports <= b.lamports)
        })
    }
}

fn run_one(pid: &Pubkey, metas: &[AccountMeta], get: &dyn Fn(&Pubkey) -> Acct, data: &[u8]) -> Result<Vec<(Pubkey, Acct)>, String> {
    let mut slots: Vec<Slot> = vec![];
    let mut of: HashMap<Pubkey, usize> = HashMap::new();
    let mut list: Vec<AccountInfo<'static>> = vec![];
    for (i, m) in metas.iter().enumerate() {
        if let Some(j) = of.get(&m.pubkey) {
            list.push(list[*j].clone());
            continue;
        }
        of.insert(m.pubkey, i);
        let a = get(&m.pubkey);
        let signer = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_signer);
        let writable = metas.iter().any(|x| x.pubkey == m.pubkey && x.is_writable);
        slots.push(Slot::new(&m.pubkey, &a));
        list.push(unsafe { slots.last_mut().unwrap().info(signer, writable, a.exec) });
    }
    // SAFETY: `slots` and `list` outlive the call; nothing keeps the infos afterwards.
    let infos: &'static [AccountInfo<'static>] = unsafe { std::mem::transmute(&list[..]) };
    let (p, d): (&'static Pubkey, &'static [u8]) = unsafe { std::mem::transmute((pid, data)) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dynamic_bonding_curve::entry(p, infos, d)));
    match r {
        Err(e) => {
            let s = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            return Err(format!("panic:{}", s));
        }
        Ok(Err(e)) => return Err(err_name(&e)),
        Ok(Ok(())) => {}
    }
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let (mut before, mut after) = (0u128, 0u128);
    for i in infos.iter() {
        if !seen.insert(*i.key) {
            continue;
        }
        let old = get(i.key);
        let new = Acct { lamports: **i.lamports.borrow(), data: i.data.borrow().to_vec(), owner: *i.owner, exec: old.exec };
        before += old.lamports as u128;
        after += new.lamports as u128;
        if new != old {
            if !i.is_writable {
                return Err("ReadonlyModified".into());
            }
            out.push((*i.key, new));
        }
    }
    if before != after {
        return Err("UnbalancedInstruction".into());
    }
    Ok(out)
}
