use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use std::cell::RefCell;

extern "C" {
    fn entrypoint(input: *mut u8) -> u64;
}

/// Services of the host. Results are plain numbers: nothing unwinds or frees memory across the boundary.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Host {
    pub invoke: extern "C" fn(ix: *const Instruction, infos: *const AccountInfo<'static>, n: usize, seeds: *const &'static [&'static [u8]], m: usize) -> u64,
    pub clock: extern "C" fn() -> i64,
    pub height: extern "C" fn() -> u64,
}

struct Stubs(Host);
struct CallFailed;

thread_local! {
    static MESSAGE: RefCell<String> = const { RefCell::new(String::new()) };
}

impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_data(&self, _: &[&[u8]]) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_rent_sysvar(&self, addr: *mut u8) -> u64 {
        unsafe { *(addr as *mut solana_program::rent::Rent) = solana_program::rent::Rent::default() };
        0
    }
    fn sol_get_clock_sysvar(&self, addr: *mut u8) -> u64 {
        let c = solana_program::clock::Clock { unix_timestamp: (self.0.clock)(), slot: 7, ..Default::default() };
        unsafe { *(addr as *mut solana_program::clock::Clock) = c };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        (self.0.height)()
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> solana_program::entrypoint::ProgramResult {
        let r = (self.0.invoke)(ix, infos.as_ptr() as *const _, infos.len(), seeds.as_ptr() as *const _, seeds.len());
        if r != 0 {
            // on chain a failed call ends the transaction
            std::panic::resume_unwind(Box::new(CallFailed));
        }
        Ok(())
    }
}

#[no_mangle]
pub extern "C" fn vp_init(h: *const Host) {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs(unsafe { *h })));
    std::panic::set_hook(Box::new(|i| MESSAGE.with(|m| *m.borrow_mut() = i.to_string())));
}

/// 0: success; u64::MAX: a call failed; u64::MAX-1: panic; else the program's error
#[no_mangle]
pub extern "C" fn vp_run(input: *mut u8) -> u64 {
    match std::panic::catch_unwind(|| unsafe { entrypoint(input) }) {
        Ok(v) => v,
        Err(e) => {
            let r = if e.is::<CallFailed>() { u64::MAX } else { u64::MAX - 1 };
            std::mem::forget(e);
            r
        }
    }
}

#[no_mangle]
pub extern "C" fn vp_message(buf: *mut u8, cap: usize) -> usize {
    MESSAGE.with(|m| {
        let m = m.borrow();
        let n = m.len().min(cap);
        unsafe { std::ptr::copy_nonoverlapping(m.as_ptr(), buf, n) };
        n
    })
}
