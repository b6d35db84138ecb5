//! Programs loaded as shared libraries (see dyn_common.rs).

use super::*;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;

#[repr(C)]
struct Host {
    invoke: extern "C" fn(ix: *const Instruction, infos: *const AccountInfo<'static>, n: usize, seeds: *const &'static [&'static [u8]], m: usize) -> u64,
    clock: extern "C" fn() -> i64,
    height: extern "C" fn() -> u64,
}

thread_local! {
    static WHY: RefCell<String> = const { RefCell::new(String::new()) };
}

extern "C" fn h_invoke(ix: *const Instruction, infos: *const AccountInfo<'static>, n: usize, seeds: *const &'static [&'static [u8]], m: usize) -> u64 {
    let (ix, infos, seeds) = unsafe { (&*ix, std::slice::from_raw_parts(infos, n), std::slice::from_raw_parts(seeds, m)) };
    match pbt::guard(|| cpi::invoke(ix, infos, seeds)) {
        Ok(Ok(())) => 0,
        Ok(Err(e)) | Err(e) => {
            WHY.with(|w| *w.borrow_mut() = e);
            1
        }
    }
}
extern "C" fn h_clock() -> i64 {
    clock()
}
extern "C" fn h_height() -> u64 {
    stack_height()
}

#[derive(Clone, Copy)]
pub struct Dyn {
    run: extern "C" fn(*mut u8) -> u64,
    message: extern "C" fn(*mut u8, usize) -> usize,
}

impl Dyn {
    pub fn load(name: &str) -> Dyn {
        let dir = std::env::current_exe().expect("own path").parent().unwrap().to_path_buf();
        let path = std::ffi::CString::new(dir.join(name).to_str().unwrap()).unwrap();
        unsafe {
            let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL | libc::RTLD_DEEPBIND);
            if h.is_null() {
                panic!("cannot load {name}: {:?}", std::ffi::CStr::from_ptr(libc::dlerror()));
            }
            let sym = |s: &str| {
                let c = std::ffi::CString::new(s).unwrap();
                let p = libc::dlsym(h, c.as_ptr());
                assert!(!p.is_null(), "{s} missing in {name}");
                p
            };
            let init: extern "C" fn(*const Host) = std::mem::transmute(sym("vp_init"));
            let d = Dyn { run: std::mem::transmute(sym("vp_run")), message: std::mem::transmute(sym("vp_message")) };
            init(&Host { invoke: h_invoke, clock: h_clock, height: h_height });
            d
        }
    }

    /// Runs one instruction of the loaded program.
    pub fn exec(&self, w: &World, ix: &Ix, program: &Pubkey, check_rent: bool) -> Result<World, Fail> {
        let run = self.run;
        match super::run(w, ix, program, &|p| run(p), 0, check_rent) {
            Err(Fail::Program(u64::MAX)) => Err(Fail::Cpi(WHY.with(|w| w.borrow().clone()))),
            Err(Fail::Program(c)) if c == u64::MAX - 1 => {
                let mut b = vec![0u8; 400];
                let n = (self.message)(b.as_mut_ptr(), b.len());
                Err(Fail::Panic(String::from_utf8_lossy(&b[..n]).into_owned()))
            }
            r => r,
        }
    }
}
