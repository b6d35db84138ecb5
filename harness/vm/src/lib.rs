//! A miniature Solana runtime: accounts, the program input ABI, system-program CPIs and the
//! account-modification rules the validator enforces after every instruction.

use solana_program::pubkey::Pubkey;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

pub const SYSTEM: Pubkey = Pubkey::new_from_array([0; 32]);
pub const MAX_GROW: usize = 10240;
pub const ACCT_HEADER: usize = 88;

pub fn rent(len: usize) -> u64 {
    (128 + len as u64) * 6960
}

// ---------------------------------------------------------------------------------------------
// allocator: on-chain, byte buffers come from a bump allocator with no alignment guarantee

thread_local! {
    pub static SKEW: Cell<usize> = const { Cell::new(0) };
}

/// Byte-aligned allocations are handed out at an address that is `SKEW` modulo 8 while `SKEW` is
/// set (as the on-chain bump allocator does); everything else behaves like the system allocator.
pub struct SkewAlloc;

unsafe impl GlobalAlloc for SkewAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 1 {
            return System.alloc(l);
        }
        let k = SKEW.with(|s| s.get());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 16, 16));
        if p.is_null() {
            return p;
        }
        p.add(8 + (k & 7))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() > 1 {
            return System.alloc_zeroed(l);
        }
        let k = SKEW.with(|s| s.get());
        let p = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + 16, 16));
        if p.is_null() {
            return p;
        }
        p.add(8 + (k & 7))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 1 {
            return System.dealloc(p, l);
        }
        let base = p as usize & !15;
        System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(l.size() + 16, 16))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() > 1 {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, 1));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

// ---------------------------------------------------------------------------------------------
// world

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub executable: bool,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct World {
    pub accts: BTreeMap<Pubkey, Acct>,
}

static EMPTY: Acct = Acct { lamports: 0, owner: SYSTEM, data: Vec::new(), executable: false };

impl World {
    pub fn get(&self, k: &Pubkey) -> &Acct {
        self.accts.get(k).unwrap_or(&EMPTY)
    }
    pub fn get_mut(&mut self, k: &Pubkey) -> &mut Acct {
        self.accts.entry(*k).or_default()
    }
    pub fn put(&mut self, k: Pubkey, a: Acct) {
        self.accts.insert(k, a);
    }
    /// accounts without lamports do not survive the instruction
    pub fn purge(&mut self) {
        // within a transaction an account without lamports keeps its owner and data
        self.accts.retain(|_, a| a.lamports > 0 || a.owner != SYSTEM || !a.data.is_empty());
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Meta {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ix {
    pub metas: Vec<Meta>,
    pub data: Vec<u8>,
}

impl Ix {
    /// flags are OR-ed over duplicates, as the message compiler does
    pub fn merged(&self) -> Vec<Meta> {
        let mut v = self.metas.clone();
        for m in v.iter_mut() {
            for o in &self.metas {
                if o.key == m.key {
                    m.signer |= o.signer;
                    m.writable |= o.writable;
                }
            }
        }
        v
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// the program returned an error code
    Program(u64),
    /// the program panicked (aborts the transaction)
    Panic(String),
    /// a system-program CPI failed
    Cpi(String),
    /// the runtime rejected what the program did to the accounts
    Runtime(String),
}

// ---------------------------------------------------------------------------------------------
// syscalls

pub mod cpi;
pub mod dynprog;

pub struct CpiAbort(pub String);

thread_local! {
    static STACK_HEIGHT: Cell<u64> = const { Cell::new(1) };
    static CLOCK: Cell<i64> = const { Cell::new(1_700_000_000) };
    static CPI_ERR: RefCell<Option<String>> = const { RefCell::new(None) };
    /// regions the running program may touch through mem syscalls
    static REGION: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    pub static LOG: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}

pub fn set_stack_height(h: u64) {
    STACK_HEIGHT.with(|s| s.set(h));
}
pub fn stack_height() -> u64 {
    STACK_HEIGHT.with(|s| s.get())
}
pub fn set_clock(t: i64) {
    CLOCK.with(|s| s.set(t));
}
pub fn clock() -> i64 {
    CLOCK.with(|s| s.get())
}

pub struct Stubs;

fn check_region(p: usize, n: usize, what: &str) {
    let (lo, hi) = REGION.with(|r| r.get());
    // an access that starts inside the input buffer has to stay inside it
    if p >= lo && p < hi && p + n > hi {
        panic!("access violation: {what} of {n} bytes leaves the input region");
    }
}

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        LOG.with(|l| {
            if let Some(v) = l.borrow_mut().as_mut() {
                v.push(message.to_string())
            }
        });
    }
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe {
            *(addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default();
        }
        0
    }
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe {
            let c = solana_program::clock::Clock { unix_timestamp: clock(), slot: 7, ..Default::default() };
            *(addr as *mut solana_program::clock::Clock) = c;
        }
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        stack_height()
    }
    fn sol_invoke_signed(
        &self,
        ix: &solana_program::instruction::Instruction,
        infos: &[solana_program::account_info::AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> solana_program::entrypoint::ProgramResult {
        if let Err(e) = cpi::invoke(ix, infos, seeds) {
            // on chain a failed call ends the transaction
            cpi_fail(&e);
        }
        Ok(())
    }
    unsafe fn sol_memcpy(&self, dst: *mut u8, src: *const u8, n: usize) {
        let (s, d) = (src as usize, dst as usize);
        assert!(s + n <= d || d + n <= s, "memcpy does not support overlapping regions");
        check_region(d, n, "memcpy");
        check_region(s, n, "memcpy");
        std::ptr::copy_nonoverlapping(src, dst, n);
    }
    unsafe fn sol_memmove(&self, dst: *mut u8, src: *const u8, n: usize) {
        check_region(dst as usize, n, "memmove");
        check_region(src as usize, n, "memmove");
        std::ptr::copy(src, dst, n);
    }
    unsafe fn sol_memset(&self, s: *mut u8, c: u8, n: usize) {
        check_region(s as usize, n, "memset");
        std::ptr::write_bytes(s, c, n);
    }
}

fn cpi_fail(s: &str) -> ! {
    CPI_ERR.with(|e| *e.borrow_mut() = Some(s.to_string()));
    std::panic::resume_unwind(Box::new(CpiAbort(s.to_string())))
}

unsafe fn rd_u64(p: *mut u8, off: usize) -> u64 {
    (p.add(off) as *mut u64).read_unaligned()
}
unsafe fn wr_u64(p: *mut u8, off: usize, v: u64) {
    (p.add(off) as *mut u64).write_unaligned(v)
}
unsafe fn rd_key(p: *mut u8, off: usize) -> Pubkey {
    Pubkey::new_from_array((p.add(off) as *mut [u8; 32]).read_unaligned())
}

/// The system program, as reached through nitrate's CPI helpers.
fn system_cpi(from: *mut u8, to: *mut u8, data: &[u8]) {
    let kind = u32::from_le_bytes(data[..4].try_into().unwrap());
    let lamports = u64::from_le_bytes(data[4..12].try_into().unwrap());
    unsafe {
        let signer = |p: *mut u8| *p.add(1) != 0;
        let writable = |p: *mut u8| *p.add(2) != 0;
        if !signer(from) || !writable(from) {
            cpi_fail("system: funder must be a writable signer");
        }
        if !writable(to) {
            cpi_fail("system: target must be writable");
        }
        if kind == 0 && !signer(to) {
            cpi_fail("system: new account must sign");
        }
        let space = if kind == 0 { u64::from_le_bytes(data[12..20].try_into().unwrap()) } else { 0 };
        if kind == 0 {
            if rd_u64(to, 72) != 0 || rd_u64(to, 80) != 0 || rd_key(to, 40) != SYSTEM {
                cpi_fail("system: account already in use");
            }
            if space as usize > MAX_GROW {
                cpi_fail("system: space too large for a CPI");
            }
        } else if kind != 2 {
            cpi_fail("system: unexpected instruction");
        }
        if rd_key(from, 40) != SYSTEM {
            cpi_fail("system: funder not owned by the system program");
        }
        if rd_u64(from, 80) != 0 {
            cpi_fail("system: funder carries data");
        }
        let have = rd_u64(from, 72);
        if have < lamports {
            cpi_fail("system: insufficient lamports");
        }
        wr_u64(from, 72, have - lamports);
        let b = rd_u64(to, 72);
        wr_u64(to, 72, b + lamports);
        if kind == 0 {
            wr_u64(to, 80, space);
            std::ptr::write_bytes(to.add(ACCT_HEADER), 0, space as usize);
            std::ptr::copy_nonoverlapping(data[20..52].as_ptr(), to.add(40), 32);
        }
    }
}

pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    nitrate_program::system::vp::set(system_cpi);
    pbt::install_panic_hook();
}

// ---------------------------------------------------------------------------------------------
// input serialization

pub struct Input {
    pub buf: Vec<u64>,
    pub len: usize,
    /// (key, offset of the account header)
    pub at: Vec<(Pubkey, usize)>,
}

pub fn serialize(w: &World, metas: &[Meta], data: &[u8], program: &Pubkey) -> Input {
    let mut size = 8 + 8 + data.len() + 32 + 64;
    for m in metas {
        size += ACCT_HEADER + w.get(&m.key).data.len() + MAX_GROW + 24;
    }
    let mut buf = vec![0u64; size / 8 + 2];
    let base = buf.as_mut_ptr() as *mut u8;
    let mut off = 0usize;
    let mut at: Vec<(Pubkey, usize)> = vec![];
    let mut first: Vec<usize> = vec![];
    unsafe {
        wr_u64(base, 0, metas.len() as u64);
        off += 8;
        for (i, m) in metas.iter().enumerate() {
            if let Some(j) = metas[..i].iter().position(|o| o.key == m.key) {
                *base.add(off) = j as u8;
                off += 8;
                first.push(j);
                continue;
            }
            first.push(i);
            let a = w.get(&m.key);
            let p = base.add(off);
            at.push((m.key, off));
            *p = 0xff;
            *p.add(1) = m.signer as u8;
            *p.add(2) = m.writable as u8;
            *p.add(3) = a.executable as u8;
            std::ptr::copy_nonoverlapping(m.key.as_ref().as_ptr(), p.add(8), 32);
            std::ptr::copy_nonoverlapping(a.owner.as_ref().as_ptr(), p.add(40), 32);
            wr_u64(p, 72, a.lamports);
            wr_u64(p, 80, a.data.len() as u64);
            std::ptr::copy_nonoverlapping(a.data.as_ptr(), p.add(ACCT_HEADER), a.data.len());
            off += ACCT_HEADER + a.data.len() + MAX_GROW;
            off = (off + 7) & !7;
            off += 8; // rent epoch
        }
        wr_u64(base, off, data.len() as u64);
        off += 8;
        std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(off), data.len());
        off += data.len();
        std::ptr::copy_nonoverlapping(program.as_ref().as_ptr(), base.add(off), 32);
        off += 32;
    }
    Input { buf, len: off, at }
}

/// Applies the validator's post-instruction checks; on success returns the new world.
pub fn settle(
    pre: &World,
    post: Vec<(Pubkey, Acct)>,
    metas: &[Meta],
    program: &Pubkey,
    check_rent: bool,
) -> Result<World, String> {
    let (mut sum_pre, mut sum_post) = (0u128, 0u128);
    let mut w = pre.clone();
    for (k, a) in post {
        let old = pre.get(&k);
        let m = metas.iter().find(|m| m.key == k).unwrap();
        sum_pre += old.lamports as u128;
        sum_post += a.lamports as u128;
        if a == *old {
            continue;
        }
        if !m.writable {
            return Err(format!("readonly account {k} modified"));
        }
        if old.executable {
            return Err(format!("executable account {k} modified"));
        }
        // ownership as seen through system CPIs: a freshly created account belongs to the program
        let fresh = old.owner == SYSTEM && old.data.is_empty() && old.lamports == 0 && a.owner == *program;
        let own = old.owner == *program || fresh;
        if a.data != old.data && !own {
            return Err(format!("data of {k} modified by a program that does not own it"));
        }
        if a.owner != old.owner && !fresh {
            if !own {
                return Err(format!("owner of {k} changed by a program that does not own it"));
            }
            if !a.data.iter().all(|b| *b == 0) {
                return Err(format!("owner of {k} changed with data"));
            }
        }
        if a.data.len() > old.data.len() + MAX_GROW {
            return Err(format!("{k} grew too much"));
        }
        if a.data.len() > 10 * 1024 * 1024 {
            return Err(format!("{k} too large"));
        }
        if a.lamports < old.lamports && !own && !(old.owner == SYSTEM && m.signer) {
            return Err(format!("lamports of {k} taken by a program that does not own it"));
        }
        if check_rent && a.lamports > 0 {
            let exempt = a.lamports >= rent(a.data.len());
            let was_exempt = old.lamports >= rent(old.data.len());
            if !exempt && (was_exempt || old.lamports == 0) {
                return Err(format!("{k} left below the rent exemption"));
            }
        }
        w.put(k, a);
    }
    if sum_pre != sum_post {
        return Err("sum of lamports changed".into());
    }
    w.purge();
    Ok(w)
}

pub type Entry = unsafe extern "C" fn(*mut u8) -> u64;

/// Runs one instruction of `program` (native `entry`) against the world.
pub fn run(
    w: &World,
    ix: &Ix,
    program: &Pubkey,
    entry: &dyn Fn(*mut u8) -> u64,
    skew: usize,
    check_rent: bool,
) -> Result<World, Fail> {
    let metas = ix.merged();
    let mut input = serialize(w, &metas, &ix.data, program);
    let base = input.buf.as_mut_ptr() as *mut u8;
    let flags: Vec<[u8; 3]> = input
        .at
        .iter()
        .map(|(_, o)| unsafe { [*base.add(o + 1), *base.add(o + 2), *base.add(o + 3)] })
        .collect();
    CPI_ERR.with(|e| *e.borrow_mut() = None);
    cpi::push(program, &metas, w);
    let old_region = REGION.with(|r| r.replace((base as usize, base as usize + input.len)));
    let old = SKEW.with(|s| s.replace(skew & 7));
    let r = pbt::guard(|| entry(base));
    SKEW.with(|s| s.set(old));
    REGION.with(|r| r.set(old_region));
    let base_world = cpi::pop();
    match r {
        Err(m) => {
            if let Some(c) = CPI_ERR.with(|e| e.borrow_mut().take()) {
                return Err(Fail::Cpi(c));
            }
            return Err(Fail::Panic(m));
        }
        Ok(0) => {}
        Ok(c) => return Err(Fail::Program(c)),
    }
    let mut post = Vec::with_capacity(input.at.len());
    for (i, (k, o)) in input.at.iter().enumerate() {
        unsafe {
            let p = base.add(*o);
            if [*p.add(1), *p.add(2), *p.add(3)] != flags[i] || rd_key(p, 8) != *k {
                return Err(Fail::Runtime(format!("account header of {k} clobbered")));
            }
            let n = rd_u64(p, 80) as usize;
            let cap = w.get(k).data.len() + MAX_GROW;
            if n > cap {
                return Err(Fail::Runtime(format!("{k} grew beyond its buffer")));
            }
            let data = std::slice::from_raw_parts(p.add(ACCT_HEADER), n).to_vec();
            post.push((
                *k,
                Acct {
                    lamports: rd_u64(p, 72),
                    owner: rd_key(p, 40),
                    data,
                    executable: w.get(k).executable,
                },
            ));
        }
    }
    let next = settle(base_world.as_ref().unwrap_or(w), post, &metas, program, check_rent && base_world.is_none()).map_err(Fail::Runtime)?;
    if check_rent && base_world.is_some() {
        for m in &metas {
            let (old, a) = (w.get(&m.key), next.get(&m.key));
            if a != old && a.lamports > 0 && a.lamports < rent(a.data.len()) && (old.lamports >= rent(old.data.len()) || old.lamports == 0) {
                return Err(Fail::Runtime(format!("{} left below the rent exemption", m.key)));
            }
        }
    }
    Ok(next)
}

/// Runs one asset-program instruction.
pub fn run_asset(w: &World, ix: &Ix, skew: usize) -> Result<World, Fail> {
    run(w, ix, &asset_program::ID, &|p| unsafe { asset_program::entrypoint::entrypoint(p) }, skew, true)
}
