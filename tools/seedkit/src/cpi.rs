//! Records the calls a program makes, without carrying them out.
#![allow(dead_code)]
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, pubkey::Pubkey};
use std::sync::Mutex;

pub static CALLS: Mutex<Vec<(Instruction, Vec<Vec<Vec<u8>>>)>> = Mutex::new(vec![]);
struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut solana_program::rent::Rent) = Default::default() };
        0
    }
    fn sol_get_clock_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut solana_program::clock::Clock) = Default::default() };
        0
    }
    fn sol_invoke_signed(&self, i: &Instruction, _: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        CALLS.lock().unwrap().push((i.clone(), seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect()));
        Ok(())
    }
}
pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
}
pub fn calls() -> Vec<(Instruction, Vec<Vec<Vec<u8>>>)> {
    std::mem::take(&mut *CALLS.lock().unwrap())
}
pub fn key(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}
/// An account of any content, kept for the rest of the run; data is eight-byte aligned.
pub fn account(k: Pubkey, owner: Pubkey, data: &[u8], signer: bool, writable: bool) -> AccountInfo<'static> {
    let buf: &'static mut [u64] = Box::leak(vec![0u64; data.len() / 8 + 2].into_boxed_slice());
    let d: &'static mut [u8] = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, data.len()) };
    d.copy_from_slice(data);
    AccountInfo::new(Box::leak(Box::new(k)), signer, writable, Box::leak(Box::new(1_000_000_000)), d, Box::leak(Box::new(owner)), false, 0)
}

/// Serialises accounts (address, owner, data, rights: any of "s" and "w") the way the loader does.
pub fn input(program: Pubkey, accounts: &[(Pubkey, Pubkey, Vec<u8>, &str)], data: &[u8]) -> Vec<u64> {
    let mut v: Vec<u8> = (accounts.len() as u64).to_le_bytes().to_vec();
    for (i, a) in accounts.iter().enumerate() {
        if let Some(j) = accounts[..i].iter().position(|x| x.0 == a.0) {
            v.extend([j as u8, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        v.extend([255, a.3.contains('s') as u8, a.3.contains('w') as u8, 0, 0, 0, 0, 0]);
        v.extend(a.0.as_ref());
        v.extend(a.1.as_ref());
        v.extend(1_000_000_000u64.to_le_bytes());
        v.extend((a.2.len() as u64).to_le_bytes());
        v.extend(&a.2);
        v.resize((v.len() + 10240 + 7) / 8 * 8, 0);
        v.extend([0; 8]);
    }
    v.extend((data.len() as u64).to_le_bytes());
    v.extend(data);
    v.extend(program.as_ref());
    v.resize((v.len() + 7) / 8 * 8, 0);
    v.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
