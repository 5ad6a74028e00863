//! Accounts database, transaction execution, cross program calls, sysvars.

use solana_program::account_info::AccountInfo;
use solana_program::clock::Clock;
use solana_program::entrypoint::{self, ProgramResult};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction::SystemInstruction;
use solana_program::{bpf_loader_upgradeable, system_program, sysvar};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Once};

const MAX_GROW: usize = 10 * 1024;
/// Operations on decimals an instruction may use. The most any run needs is
/// some 15,000, for a ring buffer full of snapshots.
const BUDGET: u64 = 500_000;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Account {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

pub type Entry = fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult;

/// Durable state. Cloning is cheap, that is what a fork is.
#[derive(Clone, Default)]
pub struct Bank {
    accounts: BTreeMap<Pubkey, Arc<Account>>,
    pub slot: u64,
    pub unix_timestamp: i64,
}

#[derive(Clone, Debug)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub signers: BTreeSet<Pubkey>,
}

/// Where to cut a transaction short.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Abort {
    /// Die at the n-th call into the runtime (log, sysvar or CPI), counted
    /// from 1 over the whole transaction.
    pub syscall: Option<u64>,
    /// Die after the n-th CPI returned.
    pub after_cpi: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum TxError {
    /// The program returned this error.
    Program(usize, ProgramError),
    /// The program panicked.
    Panic(usize, String),
    /// The runtime refused it.
    Runtime(String),
    /// Injected fault.
    Injected,
}

#[derive(Clone, Debug)]
pub struct TxOutcome {
    pub result: Result<(), TxError>,
    pub syscalls: u64,
    pub cpis: u64,
    /// Whether the requested abort was reached.
    pub aborted: bool,
    pub logs: Vec<String>,
}

impl TxOutcome {
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
}

impl Bank {
    pub fn get(&self, key: &Pubkey) -> Option<&Account> {
        self.accounts.get(key).map(|a| a.as_ref())
    }

    pub fn get_mut(&mut self, key: &Pubkey) -> Option<&mut Account> {
        self.accounts.get_mut(key).map(Arc::make_mut)
    }

    pub fn set(&mut self, key: Pubkey, acc: Account) {
        self.accounts.insert(key, Arc::new(acc));
    }

    pub fn remove(&mut self, key: &Pubkey) {
        self.accounts.remove(key);
    }

    pub fn iter(&self) -> impl Iterator<Item = (&Pubkey, &Account)> {
        self.accounts.iter().map(|(k, a)| (k, a.as_ref()))
    }

    /// Keys whose account differs between the two banks.
    pub fn diff(&self, other: &Bank) -> Vec<Pubkey> {
        let mut out = vec![];
        for (k, a) in &self.accounts {
            match other.accounts.get(k) {
                Some(b) if Arc::ptr_eq(a, b) || a == b => (),
                _ => out.push(*k),
            }
        }
        for k in other.accounts.keys() {
            if !self.accounts.contains_key(k) {
                out.push(*k);
            }
        }
        out
    }

    /// FNV over everything, to compare executions.
    pub fn digest(&self) -> u64 {
        let mut h = Fnv::default();
        h.u64(self.slot);
        for (k, a) in &self.accounts {
            h.bytes(k.as_ref());
            h.u64(a.lamports);
            h.bytes(a.owner.as_ref());
            h.bytes(&a.data);
        }
        h.0
    }

    pub fn new_system_account(&mut self, key: Pubkey, lamports: u64) {
        self.set(
            key,
            Account { lamports, data: vec![], owner: system_program::id(), executable: false },
        );
    }

    pub fn new_program(&mut self, key: Pubkey) {
        self.set(
            key,
            Account {
                lamports: 1,
                data: vec![],
                owner: solana_program::bpf_loader::id(),
                executable: true,
            },
        );
    }

    /// Genesis: the programs and sysvars every run needs.
    pub fn genesis() -> Self {
        let mut bank = Bank { slot: 1, unix_timestamp: 1_650_000_000, ..Default::default() };
        bank.new_program(spl_token::id());
        bank.set(
            system_program::id(),
            Account {
                lamports: 1,
                data: vec![],
                owner: native_loader(),
                executable: true,
            },
        );
        let rent = Rent::default();
        let mut data = vec![];
        data.extend_from_slice(&rent.lamports_per_byte_year.to_le_bytes());
        data.extend_from_slice(&rent.exemption_threshold.to_le_bytes());
        data.push(rent.burn_percent);
        bank.set(
            sysvar::rent::id(),
            Account { lamports: 1, data, owner: sysvar::id(), executable: false },
        );
        bank
    }

    /// Installs a program the way the upgradeable loader lays it out, returns
    /// the program data address.
    pub fn new_upgradeable_program(&mut self, key: Pubkey, authority: Option<Pubkey>) -> Pubkey {
        let (pd, _) =
            Pubkey::find_program_address(&[key.as_ref()], &bpf_loader_upgradeable::id());
        let mut data = vec![2, 0, 0, 0];
        data.extend_from_slice(pd.as_ref());
        self.set(
            key,
            Account {
                lamports: 1,
                data,
                owner: bpf_loader_upgradeable::id(),
                executable: true,
            },
        );
        let mut data = vec![3, 0, 0, 0];
        data.extend_from_slice(&7u64.to_le_bytes());
        match authority {
            Some(a) => {
                data.push(1);
                data.extend_from_slice(a.as_ref());
            }
            None => {
                data.push(0);
                data.extend_from_slice(&[0; 32]);
            }
        }
        self.set(
            pd,
            Account {
                lamports: 1,
                data,
                owner: bpf_loader_upgradeable::id(),
                executable: false,
            },
        );
        pd
    }
}

#[derive(Clone, Debug)]
pub struct Fnv(pub u64);

impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}

impl Fnv {
    pub fn bytes(&mut self, b: &[u8]) {
        // eight bytes at a time, this hashes megabytes per run
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.u64(u64::from_le_bytes(c.try_into().unwrap()));
        }
        for x in it.remainder() {
            self.u64(*x as u64);
        }
    }
    pub fn u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x0000_0100_0000_01B3);
        self.0 ^= self.0 >> 29;
    }
}

// ---------------------------------------------------------------------------
// execution
// ---------------------------------------------------------------------------

/// Payload of the panic which models the transaction being cut short.
struct InjectedAbort;

#[derive(Clone, Copy)]
struct Privilege {
    signer: bool,
    writable: bool,
}

struct Frame {
    program: Pubkey,
    privileges: BTreeMap<Pubkey, Privilege>,
    /// State of each account when the running program last had a clean bill.
    clean: BTreeMap<Pubkey, Account>,
}

#[derive(Default)]
struct Ctx {
    slot: u64,
    unix_timestamp: i64,
    syscalls: u64,
    cpis: u64,
    abort: Abort,
    aborted: bool,
    logs: Vec<String>,
    keep_logs: bool,
    frame: Option<Frame>,
    runtime_error: Option<String>,
}

thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static BUF: RefCell<Vec<u64>> = RefCell::new(Vec::new());
    static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
    /// Only panics raised below a transaction are swallowed.
    static IN_TX: RefCell<bool> = RefCell::new(false);
}

static INSTALL: Once = Once::new();

/// Routes every runtime call of the programs to this simulator.
pub fn install() {
    INSTALL.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let in_tx = IN_TX.with(|f| *f.borrow());
            if !in_tx {
                return default(info);
            }
            if info.payload().downcast_ref::<InjectedAbort>().is_none() {
                let msg = info.to_string();
                PANIC_MSG.with(|m| *m.borrow_mut() = Some(msg));
            }
        }));
    });
}

fn syscall() {
    let die = CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.syscalls += 1;
        if c.abort.syscall == Some(c.syscalls) {
            c.aborted = true;
            true
        } else {
            false
        }
    });
    if die {
        std::panic::panic_any(InjectedAbort);
    }
}

struct Stubs;

impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if c.keep_logs {
                c.logs.push(message.to_string());
            }
        });
        syscall();
    }

    fn sol_log_data(&self, _fields: &[&[u8]]) {
        syscall();
    }

    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        syscall();
        CTX.with(|c| {
            let c = c.borrow();
            let clock = Clock {
                slot: c.slot,
                epoch_start_timestamp: 0,
                epoch: c.slot / 432_000,
                leader_schedule_epoch: c.slot / 432_000 + 1,
                unix_timestamp: c.unix_timestamp,
            };
            unsafe { *(var_addr as *mut Clock) = clock };
        });
        0
    }

    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        syscall();
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }

    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        syscall();
        let res = invoke(ix, infos, seeds);
        let die = CTX.with(|c| {
            let mut c = c.borrow_mut();
            c.cpis += 1;
            if c.abort.after_cpi == Some(c.cpis) {
                c.aborted = true;
                true
            } else {
                false
            }
        });
        if die || res.is_err() {
            // a failed CPI ends the whole transaction, the caller never gets
            // to see the error
            match res {
                Err(e) if !die => {
                    CTX.with(|c| {
                        let mut c = c.borrow_mut();
                        if c.runtime_error.is_none() {
                            c.runtime_error = Some(format!("cpi failed: {e:?}"));
                        }
                    });
                    std::panic::panic_any(InjectedAbort);
                }
                _ => std::panic::panic_any(InjectedAbort),
            }
        }
        Ok(())
    }
}

fn runtime_error(msg: impl Into<String>) -> ProgramError {
    CTX.with(|c| c.borrow_mut().runtime_error = Some(msg.into()));
    ProgramError::Custom(0xdead)
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let mut frame = match CTX.with(|c| c.borrow_mut().frame.take()) {
        Some(f) => f,
        None => return Err(runtime_error("call depth")),
    };
    let res = invoke_in(&mut frame, ix, infos, seeds);
    CTX.with(|c| c.borrow_mut().frame = Some(frame));
    res
}

fn invoke_in(
    frame: &mut Frame,
    ix: &Instruction,
    infos: &[AccountInfo],
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    let mut pdas = BTreeSet::new();
    for s in seeds {
        match Pubkey::create_program_address(s, &frame.program) {
            Ok(k) => {
                pdas.insert(k);
            }
            Err(_) => return Err(runtime_error("invalid seeds")),
        }
    }
    if !frame.privileges.contains_key(&ix.program_id) {
        return Err(runtime_error("program account missing in cpi"));
    }
    let mut callee = Vec::with_capacity(ix.accounts.len());
    for m in &ix.accounts {
        let info = match infos.iter().find(|i| *i.key == m.pubkey) {
            Some(i) => i,
            None => return Err(runtime_error("account missing in cpi")),
        };
        let has = match frame.privileges.get(&m.pubkey) {
            Some(p) => *p,
            None => return Err(runtime_error("unknown account in cpi")),
        };
        if m.is_writable && !has.writable {
            return Err(runtime_error("writable privilege escalated"));
        }
        if m.is_signer && !has.signer && !pdas.contains(&m.pubkey) {
            return Err(runtime_error("signer privilege escalated"));
        }
        let mut info = info.clone();
        info.is_signer = m.is_signer;
        info.is_writable = m.is_writable;
        callee.push(info);
    }
    // what the caller did so far has to be legal before the callee sees it
    for i in infos {
        check_account(frame, i)?;
    }
    if ix.program_id == spl_token::id() {
        spl_token::processor::Processor::process(&ix.program_id, &callee, &ix.data)?;
    } else if ix.program_id == system_program::id() {
        system_process(&callee, &ix.data)?;
    } else {
        return Err(runtime_error("unsupported program in cpi"));
    }
    // the callee may only have changed what it owns
    for i in &callee {
        let now = snapshot(i);
        if let Some(clean) = frame.clean.get(i.key) {
            if now.data != clean.data
                && clean.owner != ix.program_id
                && !(ix.program_id == system_program::id())
            {
                return Err(runtime_error("callee modified foreign data"));
            }
            if now != *clean && !i.is_writable {
                return Err(runtime_error("callee modified read only account"));
            }
        }
        frame.clean.insert(*i.key, now);
    }
    Ok(())
}

fn snapshot(i: &AccountInfo) -> Account {
    Account {
        lamports: i.lamports(),
        data: i.data.borrow().to_vec(),
        owner: *i.owner,
        executable: i.executable,
    }
}

/// The changes of the running program to one account since the last check.
fn check_account(frame: &mut Frame, i: &AccountInfo) -> ProgramResult {
    let clean = match frame.clean.get(i.key) {
        Some(c) => c,
        None => return Err(runtime_error("unknown account")),
    };
    let writable = frame.privileges[i.key].writable;
    let owned = clean.owner == frame.program;
    let data_same = match i.data.try_borrow() {
        Ok(d) => **d == *clean.data,
        // held mutably by the caller: the runtime would refuse the CPI if the
        // account took part in it
        Err(_) => return Ok(()),
    };
    let owner_same = *i.owner == clean.owner;
    let lamports = i.lamports();
    if data_same && owner_same && lamports == clean.lamports {
        return Ok(());
    }
    if !writable {
        return Err(runtime_error(format!("read only account {} modified", i.key)));
    }
    if !data_same && !owned {
        return Err(runtime_error(format!("foreign account {} modified", i.key)));
    }
    if !owner_same && !owned {
        return Err(runtime_error("owner of foreign account changed"));
    }
    if lamports < clean.lamports && !owned {
        return Err(runtime_error("lamports of foreign account spent"));
    }
    let now = snapshot(i);
    frame.clean.insert(*i.key, now);
    Ok(())
}

fn system_process(accs: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let ix = parse_system(data).ok_or(ProgramError::InvalidInstructionData)?;
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (from, to) = (&accs[0], &accs[1]);
            if !from.is_signer || !to.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if to.lamports() > 0 {
                return Err(ProgramError::Custom(0));
            }
            sys_allocate(to, space)?;
            to.assign(&owner);
            sys_transfer(from, to, lamports)
        }
        SystemInstruction::Transfer { lamports } => sys_transfer(&accs[0], &accs[1], lamports),
        SystemInstruction::Allocate { space } => {
            if !accs[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            sys_allocate(&accs[0], space)
        }
        SystemInstruction::Assign { owner } => {
            if !accs[0].is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if *accs[0].owner != system_program::id() {
                return Err(ProgramError::IllegalOwner);
            }
            accs[0].assign(&owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn sys_transfer(from: &AccountInfo, to: &AccountInfo, lamports: u64) -> ProgramResult {
    if !from.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    if !from.data_is_empty() || *from.owner != system_program::id() {
        return Err(ProgramError::InvalidArgument);
    }
    if from.lamports() < lamports {
        return Err(ProgramError::InsufficientFunds);
    }
    **from.try_borrow_mut_lamports()? -= lamports;
    **to.try_borrow_mut_lamports()? += lamports;
    Ok(())
}

fn sys_allocate(acc: &AccountInfo, space: u64) -> ProgramResult {
    if !acc.data_is_empty() || *acc.owner != system_program::id() {
        return Err(ProgramError::AccountAlreadyInitialized);
    }
    if space > MAX_GROW as u64 {
        return Err(ProgramError::InvalidArgument);
    }
    acc.realloc(space as usize, true)
}

/// The instructions the programs use, in bincode.
fn parse_system(data: &[u8]) -> Option<SystemInstruction> {
    let tag = u32::from_le_bytes(data.get(..4)?.try_into().ok()?);
    let u64_at = |i: usize| -> Option<u64> {
        Some(u64::from_le_bytes(data.get(i..i + 8)?.try_into().ok()?))
    };
    let key_at = |i: usize| -> Option<Pubkey> { Some(Pubkey::new(data.get(i..i + 32)?)) };
    Some(match tag {
        0 => SystemInstruction::CreateAccount {
            lamports: u64_at(4)?,
            space: u64_at(12)?,
            owner: key_at(20)?,
        },
        1 => SystemInstruction::Assign { owner: key_at(4)? },
        2 => SystemInstruction::Transfer { lamports: u64_at(4)? },
        8 => SystemInstruction::Allocate { space: u64_at(4)? },
        _ => return None,
    })
}

/// Which programs a bank can run, besides the token and system programs.
#[derive(Clone, Default)]
pub struct Programs(pub Vec<(Pubkey, Entry)>);

impl Programs {
    /// Runs all instructions of a transaction, all or nothing.
    pub fn execute(&self, bank: &mut Bank, tx: &Tx, abort: Abort, keep_logs: bool) -> TxOutcome {
        install();
        CTX.with(|c| {
            *c.borrow_mut() = Ctx {
                slot: bank.slot,
                unix_timestamp: bank.unix_timestamp,
                abort,
                keep_logs,
                ..Default::default()
            }
        });
        // privileges are those of the message, not of the single instruction
        let mut privileges: BTreeMap<Pubkey, Privilege> = BTreeMap::new();
        for ix in &tx.ixs {
            for m in &ix.accounts {
                let p = privileges
                    .entry(m.pubkey)
                    .or_insert(Privilege { signer: false, writable: false });
                p.writable |= m.is_writable;
                p.signer |= m.is_signer;
            }
        }
        let mut result = Ok(());
        for (k, p) in &privileges {
            if p.signer && !tx.signers.contains(k) {
                result = Err(TxError::Runtime(format!("signature of {k} missing")));
            }
        }
        let mut work = bank.clone();
        if result.is_ok() {
            for (n, ix) in tx.ixs.iter().enumerate() {
                result = self.run_ix(&mut work, n, ix, &privileges);
                if result.is_err() {
                    break;
                }
            }
        }
        if result.is_ok() {
            let touched: Vec<_> = privileges.keys().copied().collect();
            for k in touched {
                if work.get(&k).map_or(false, |a| a.lamports == 0) {
                    work.remove(&k);
                }
            }
            *bank = work;
        }
        CTX.with(|c| {
            let c = &mut *c.borrow_mut();
            TxOutcome {
                result,
                syscalls: c.syscalls,
                cpis: c.cpis,
                aborted: c.aborted,
                logs: std::mem::take(&mut c.logs),
            }
        })
    }

    fn run_ix(
        &self,
        bank: &mut Bank,
        n: usize,
        ix: &Instruction,
        privileges: &BTreeMap<Pubkey, Privilege>,
    ) -> Result<(), TxError> {
        let entry: Entry = match self.0.iter().find(|(k, _)| *k == ix.program_id) {
            Some((_, e)) => *e,
            None if ix.program_id == spl_token::id() => |id, accs, data| {
                spl_token::processor::Processor::process(id, accs, data)
            },
            None if ix.program_id == system_program::id() => {
                |_, accs, data| system_process(accs, data)
            }
            None => return Err(TxError::Runtime("unknown program".into())),
        };
        let is_system = ix.program_id == system_program::id();

        let mut buf = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
        let offsets = serialize(bank, ix, privileges, &mut buf);
        let mut clean = BTreeMap::new();
        let mut lamports_before = 0u128;
        for m in &ix.accounts {
            clean.entry(m.pubkey).or_insert_with(|| {
                let a = load(bank, &m.pubkey);
                lamports_before += a.lamports as u128;
                a
            });
        }
        let mut ix_privileges = BTreeMap::new();
        for m in &ix.accounts {
            ix_privileges.insert(m.pubkey, privileges[&m.pubkey]);
        }
        CTX.with(|c| {
            c.borrow_mut().frame =
                Some(Frame { program: ix.program_id, privileges: ix_privileges, clean })
        });

        let ptr = buf.as_mut_ptr() as *mut u8;
        PANIC_MSG.with(|m| *m.borrow_mut() = None);
        IN_TX.with(|f| *f.borrow_mut() = true);
        // parsed once: a realloc changes the lengths the layout hangs on
        let (id, infos, data) = unsafe { entrypoint::deserialize(ptr) };
        let outer = decimal::meter::refill(BUDGET);
        let run = catch_unwind(AssertUnwindSafe(|| entry(id, &infos, data)));
        decimal::meter::refill(outer);
        IN_TX.with(|f| *f.borrow_mut() = false);

        let mut frame = CTX.with(|c| c.borrow_mut().frame.take());
        let (aborted, runtime_err) = CTX.with(|c| {
            let mut c = c.borrow_mut();
            (c.aborted, c.runtime_error.take())
        });
        let mut res = if aborted {
            Err(TxError::Injected)
        } else if let Some(e) = runtime_err {
            Err(TxError::Runtime(e))
        } else {
            match run {
                Ok(Ok(())) => Ok(()),
                Ok(Err(e)) => Err(TxError::Program(n, e)),
                Err(_) => {
                    let msg = PANIC_MSG
                        .with(|m| m.borrow_mut().take())
                        .unwrap_or_else(|| "panic".into());
                    Err(TxError::Panic(n, msg))
                }
            }
        };
        if res.is_ok() {
            // the checks of the runtime after the program returned
            let frame = frame.as_mut().unwrap();
            let mut seen = BTreeSet::new();
            let mut lamports_after = 0u128;
            for (i, off) in infos.iter().zip(&offsets) {
                if off.is_none() || !seen.insert(*i.key) {
                    continue;
                }
                let grown = i.data_len();
                let orig = load(bank, i.key).data.len();
                if grown > orig + MAX_GROW {
                    res = Err(TxError::Runtime("realloc too large".into()));
                    break;
                }
                if !is_system && check_account(frame, i).is_err() {
                    let e = CTX.with(|c| c.borrow_mut().runtime_error.take());
                    res = Err(TxError::Runtime(e.unwrap_or_default()));
                    break;
                }
                lamports_after += i.lamports() as u128;
                let now = snapshot(i);
                let before = load(bank, i.key);
                if now != before {
                    // rent: an account must end exempt or gone
                    let min = Rent::default().minimum_balance(now.data.len());
                    if now.lamports != 0 && now.lamports < min && !now.data.is_empty() {
                        res = Err(TxError::Runtime("not rent exempt".into()));
                        break;
                    }
                    bank.set(*i.key, now);
                }
            }
            if res.is_ok() && lamports_after != lamports_before {
                res = Err(TxError::Runtime("sum of lamports changed".into()));
            }
        }
        BUF.with(|b| *b.borrow_mut() = buf);
        res
    }
}

fn load(bank: &Bank, key: &Pubkey) -> Account {
    bank.get(key).cloned().unwrap_or(Account {
        lamports: 0,
        data: vec![],
        owner: system_program::id(),
        executable: false,
    })
}

/// The memory layout programs are handed by the loader. Returns for each
/// account whether it is the first of its key.
fn serialize(
    bank: &Bank,
    ix: &Instruction,
    privileges: &BTreeMap<Pubkey, Privilege>,
    buf: &mut Vec<u64>,
) -> Vec<Option<()>> {
    let mut size = 8usize;
    let mut firsts: Vec<Option<usize>> = vec![];
    for (n, m) in ix.accounts.iter().enumerate() {
        let dup = ix.accounts[..n].iter().position(|o| o.pubkey == m.pubkey);
        firsts.push(dup);
        size += 8;
        if dup.is_none() {
            let len = bank.get(&m.pubkey).map_or(0, |a| a.data.len());
            size += 32 + 32 + 8 + 8 + len + MAX_GROW;
            size += (8 - size % 8) % 8;
            size += 8;
        }
    }
    size += 8 + ix.data.len() + 32 + 64;
    buf.clear();
    buf.resize(size / 8 + 8, 0);
    let bytes: &mut [u8] =
        unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
    let mut off = 0;
    let put = |off: &mut usize, bytes: &mut [u8], b: &[u8]| {
        bytes[*off..*off + b.len()].copy_from_slice(b);
        *off += b.len();
    };
    put(&mut off, bytes, &(ix.accounts.len() as u64).to_le_bytes());
    for (m, dup) in ix.accounts.iter().zip(&firsts) {
        if let Some(d) = dup {
            put(&mut off, bytes, &[*d as u8, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        let p = privileges[&m.pubkey];
        let acc = bank.get(&m.pubkey);
        put(
            &mut off,
            bytes,
            &[
                0xff,
                p.signer as u8,
                p.writable as u8,
                acc.map_or(false, |a| a.executable) as u8,
                0,
                0,
                0,
                0,
            ],
        );
        put(&mut off, bytes, m.pubkey.as_ref());
        let owner = acc.map_or(system_program::id(), |a| a.owner);
        put(&mut off, bytes, owner.as_ref());
        put(&mut off, bytes, &acc.map_or(0, |a| a.lamports).to_le_bytes());
        let data: &[u8] = acc.map_or(&[], |a| &a.data);
        put(&mut off, bytes, &(data.len() as u64).to_le_bytes());
        put(&mut off, bytes, data);
        off += MAX_GROW;
        off += (8 - off % 8) % 8;
        put(&mut off, bytes, &0u64.to_le_bytes());
    }
    put(&mut off, bytes, &(ix.data.len() as u64).to_le_bytes());
    put(&mut off, bytes, &ix.data);
    put(&mut off, bytes, ix.program_id.as_ref());
    firsts.iter().map(|d| if d.is_none() { Some(()) } else { None }).collect()
}

pub fn meta(key: Pubkey, signer: bool, writable: bool) -> AccountMeta {
    AccountMeta { pubkey: key, is_signer: signer, is_writable: writable }
}

fn native_loader() -> Pubkey {
    "NativeLoader1111111111111111111111111111111".parse().unwrap()
}
