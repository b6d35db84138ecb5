//! Just enough of a runtime to run asset program instructions natively.
#![allow(dead_code)]
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const SYS: Pubkey = Pubkey::new_from_array([0; 32]);
pub const NONE: Pubkey = asset_program::ID;
const GROW: usize = 10240;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Acct {
    pub lamports: u64,
    pub owner: Pubkey,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct World(pub BTreeMap<Pubkey, Acct>);

pub fn rent(n: usize) -> u64 {
    (128 + n as u64) * 6960
}
pub fn key(n: u8) -> Pubkey {
    Pubkey::new_from_array([n; 32])
}

static HEIGHT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
pub fn height(h: u64) {
    HEIGHT.store(h, std::sync::atomic::Ordering::SeqCst);
}

struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, m: &str) {
        if std::env::var("DEMO_LOG").is_ok() {
            println!("  log: {m}");
        }
    }
    fn sol_get_rent_sysvar(&self, a: *mut u8) -> u64 {
        unsafe { *(a as *mut solana_program::rent::Rent) = Default::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        HEIGHT.load(std::sync::atomic::Ordering::SeqCst)
    }
}

unsafe fn rd(p: *mut u8, o: usize) -> u64 {
    (p.add(o) as *mut u64).read_unaligned()
}
unsafe fn wr(p: *mut u8, o: usize, v: u64) {
    (p.add(o) as *mut u64).write_unaligned(v)
}
unsafe fn rk(p: *mut u8, o: usize) -> Pubkey {
    Pubkey::new_from_array((p.add(o) as *mut [u8; 32]).read_unaligned())
}

fn system(from: *mut u8, to: *mut u8, d: &[u8]) {
    unsafe {
        let lam = u64::from_le_bytes(d[4..12].try_into().unwrap());
        assert!(*from.add(1) != 0 && *from.add(2) != 0 && *to.add(2) != 0, "cpi: rights");
        assert!(rk(from, 40) == SYS && rd(from, 80) == 0 && rd(from, 72) >= lam, "cpi: funder");
        if d[0] == 0 {
            assert!(*to.add(1) != 0 && rd(to, 72) == 0 && rd(to, 80) == 0 && rk(to, 40) == SYS, "cpi: account in use");
            let space = u64::from_le_bytes(d[12..20].try_into().unwrap());
            assert!(space as usize <= GROW, "cpi: space");
            wr(to, 80, space);
            std::ptr::write_bytes(to.add(88), 0, space as usize);
            std::ptr::copy_nonoverlapping(d[20..].as_ptr(), to.add(40), 32);
        }
        wr(from, 72, rd(from, 72) - lam);
        wr(to, 72, rd(to, 72) + lam);
    }
}

pub fn init() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(Stubs));
    nitrate_program::system::vp::set(system);
    std::panic::set_hook(Box::new(|i| eprintln!("{i}")));
}

impl World {
    pub fn get(&self, k: Pubkey) -> Acct {
        self.0.get(&k).cloned().unwrap_or_default()
    }
    pub fn wallet(&mut self, k: Pubkey) {
        self.0.insert(k, Acct { lamports: 1 << 40, ..Default::default() });
    }
    /// Accounts are (address, rights), rights being any of "s" (signer) and "w" (writable).
    pub fn run(&mut self, accounts: &[(Pubkey, &str)], data: &[u8]) -> Result<(), String> {
        let r = self.attempt(accounts, data);
        println!("{:?} {}: {:?}", &data[..data.len().min(12)], accounts.len(), r);
        r
    }
    fn attempt(&mut self, accounts: &[(Pubkey, &str)], data: &[u8]) -> Result<(), String> {
        let any = |k: Pubkey, c: char| accounts.iter().any(|a| a.0 == k && a.1.contains(c));
        let mut size = 64 + data.len();
        for a in accounts {
            size += 120 + self.get(a.0).data.len() + GROW;
        }
        let mut buf = vec![0u64; size / 8 + 2];
        let base = buf.as_mut_ptr() as *mut u8;
        let mut at = vec![];
        unsafe {
            wr(base, 0, accounts.len() as u64);
            let mut o = 8;
            for (i, a) in accounts.iter().enumerate() {
                if let Some(j) = accounts[..i].iter().position(|x| x.0 == a.0) {
                    *base.add(o) = j as u8;
                    o += 8;
                    continue;
                }
                let x = self.get(a.0);
                at.push((a.0, o));
                *base.add(o) = 0xff;
                *base.add(o + 1) = any(a.0, 's') as u8;
                *base.add(o + 2) = any(a.0, 'w') as u8;
                std::ptr::copy_nonoverlapping(a.0.as_ref().as_ptr(), base.add(o + 8), 32);
                std::ptr::copy_nonoverlapping(x.owner.as_ref().as_ptr(), base.add(o + 40), 32);
                wr(base, o + 72, x.lamports);
                wr(base, o + 80, x.data.len() as u64);
                std::ptr::copy_nonoverlapping(x.data.as_ptr(), base.add(o + 88), x.data.len());
                o = (o + 88 + x.data.len() + GROW + 7) / 8 * 8 + 8;
            }
            wr(base, o, data.len() as u64);
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(o + 8), data.len());
            std::ptr::copy_nonoverlapping(NONE.as_ref().as_ptr(), base.add(o + 8 + data.len()), 32);
            match std::panic::catch_unwind(|| asset_program::entrypoint::entrypoint(base)) {
                Ok(0) => {}
                Ok(c) => return Err(format!("error {c:#x}")),
                Err(_) => return Err("panic".into()),
            }
            let mut next = self.clone();
            for (k, o) in at {
                let p = base.add(o);
                let n = Acct { lamports: rd(p, 72), owner: rk(p, 40), data: std::slice::from_raw_parts(p.add(88), rd(p, 80) as usize).to_vec() };
                let old = self.get(k);
                if n == old {
                    continue;
                }
                if !any(k, 'w') {
                    return Err(format!("readonly account {k} changed"));
                }
                if n.data != old.data && old.owner != NONE && !(old.lamports == 0 && n.owner == NONE) {
                    return Err(format!("foreign account {k} changed"));
                }
                if n.lamports > 0 && n.lamports < rent(n.data.len()) {
                    return Err(format!("{k} below rent exemption"));
                }
                if n.lamports == 0 {
                    next.0.remove(&k);
                } else {
                    next.0.insert(k, n);
                }
            }
            *self = next;
        }
        Ok(())
    }
    /// Creates an asset at `k` (standard, mutable, extensions), optionally in a group.
    pub fn create(&mut self, k: Pubkey, owner: Pubkey, authority: Pubkey, std: u8, mutable: bool, exts: &[(u8, Vec<u8>)], group: Option<Pubkey>) -> Result<(), String> {
        let payer = key(250);
        self.wallet(payer);
        let mut d = vec![2u8, 4, 0, 0, 0];
        d.extend(b"name");
        d.extend([std, mutable as u8, 1]);
        d.extend((exts.len() as u32).to_le_bytes());
        for (t, b) in exts {
            d.extend(ext(*t, b));
        }
        let g = group.map_or((NONE, ""), |g| (g, "w"));
        self.run(&[(k, "sw"), (authority, "s"), (owner, ""), g, (NONE, ""), (payer, "sw"), (SYS, "")], &d)
    }
}

/// extension input: type, length, data
pub fn ext(t: u8, b: &[u8]) -> Vec<u8> {
    let mut d = vec![t];
    d.extend((b.len() as u32).to_le_bytes());
    d.push(1);
    d.extend((b.len() as u32).to_le_bytes());
    d.extend(b);
    d
}
pub fn update_ext(t: u8, b: &[u8]) -> Vec<u8> {
    let mut d = vec![10u8, 0, 0, 1];
    d.extend(ext(t, b));
    d
}
pub fn str8(s: &str) -> Vec<u8> {
    let mut d = vec![s.len() as u8];
    d.extend(s.as_bytes());
    d
}
/// (type, content) of every extension
pub fn exts(d: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let u = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let (mut o, mut v) = (168, vec![]);
    while o + 16 <= d.len() && u(o) != 0 {
        v.push((u(o), d[o + 16..o + 16 + u(o + 4) as usize].to_vec()));
        o = u(o + 8) as usize;
    }
    v
}
