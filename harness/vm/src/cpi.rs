//! Cross-program calls between natively run programs: privilege rules, account views, callee dispatch.

use super::*;
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;

struct Frame {
    program: Pubkey,
    metas: Vec<Meta>,
    pre: World,
    /// the accounts as of the last call the program made (None: none yet)
    base: Option<World>,
}

/// A program a call can reach: gets the world, the instruction with effective rights, and its stack height.
pub type Callee = std::rc::Rc<dyn Fn(&World, &Ix) -> Result<World, String>>;

#[derive(Clone, Debug)]
pub struct Call {
    pub caller: Pubkey,
    pub program: Pubkey,
    /// rights as the callee sees them, per position
    pub ix: Ix,
    /// rights as the caller wrote them
    pub raw: Vec<Meta>,
    pub ok: bool,
    /// accounts handed over with the call
    pub infos: Vec<Pubkey>,
}

thread_local! {
    static FRAMES: RefCell<Vec<Frame>> = const { RefCell::new(vec![]) };
    static CALLEES: RefCell<BTreeMap<Pubkey, Callee>> = const { RefCell::new(BTreeMap::new()) };
    /// every call made, when recording
    pub static CALLS: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
    static RECORD_ONLY: Cell<bool> = const { Cell::new(false) };
    pub static SKEW_IN: Cell<usize> = const { Cell::new(0) };
}

pub fn push(program: &Pubkey, metas: &[Meta], w: &World) {
    // only programs that make calls through `invoke` need the snapshot
    let light = *program == asset_program::ID;
    FRAMES.with(|f| f.borrow_mut().push(Frame { program: *program, metas: metas.to_vec(), pre: if light { World::default() } else { w.clone() }, base: None }));
}
pub fn pop() -> Option<World> {
    FRAMES.with(|f| f.borrow_mut().pop()).and_then(|f| f.base)
}

pub fn register(program: Pubkey, f: Callee) {
    CALLEES.with(|c| c.borrow_mut().insert(program, f));
}

/// While set, calls are recorded and not carried out.
pub fn record_only(on: bool) {
    RECORD_ONLY.with(|r| r.set(on));
    CALLS.with(|c| c.borrow_mut().clear());
}
pub fn take_calls() -> Vec<Call> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

fn err_text(f: &Fail) -> String {
    match f {
        Fail::Program(c) => format!("error code {c:#x}"),
        Fail::Panic(m) => format!("panic {m}"),
        Fail::Cpi(m) => m.clone(),
        Fail::Runtime(m) => format!("runtime: {m}"),
    }
}

pub fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
    let (caller, cmetas, base) = FRAMES.with(|f| {
        let f = f.borrow();
        let t = f.last().expect("a running program");
        (t.program, t.metas.clone(), t.base.clone().unwrap_or_else(|| t.pre.clone()))
    });
    let raw: Vec<Meta> = ix.accounts.iter().map(|a| Meta { key: a.pubkey, signer: a.is_signer, writable: a.is_writable }).collect();
    let callee_ix = Ix { metas: raw.clone(), data: ix.data.clone() };
    let merged = callee_ix.merged();
    if RECORD_ONLY.with(|r| r.get()) {
        CALLS.with(|c| c.borrow_mut().push(Call { caller, program: ix.program_id, ix: callee_ix, raw, ok: true, infos: infos.iter().map(|i| *i.key).collect() }));
        return Ok(());
    }
    let mut pdas = vec![];
    for s in seeds {
        pdas.push(Pubkey::create_program_address(s, &caller).map_err(|e| format!("signer seeds: {e:?}"))?);
    }
    if !cmetas.iter().any(|m| m.key == ix.program_id) {
        return Err(format!("program {} is not among the accounts", ix.program_id));
    }
    // the caller's view of the accounts
    let mut post: Vec<(Pubkey, Acct)> = vec![];
    for i in infos {
        if post.iter().any(|p| p.0 == *i.key) {
            continue;
        }
        if !cmetas.iter().any(|m| m.key == *i.key) {
            return Err(format!("account {} was not given to the program", i.key));
        }
        let lamports = **i.try_borrow_lamports().map_err(|_| "account borrowed during a call".to_string())?;
        let data = i.try_borrow_data().map_err(|_| "account borrowed during a call".to_string())?.to_vec();
        post.push((*i.key, Acct { lamports, owner: *i.owner, data, executable: i.executable }));
    }
    let w = settle(&base, post.clone(), &cmetas, &caller, false)?;
    for m in &merged {
        let Some(c) = cmetas.iter().find(|c| c.key == m.key) else { return Err(format!("account {} was not given to the program", m.key)) };
        if !infos.iter().any(|i| *i.key == m.key) {
            return Err(format!("account {} missing from the call", m.key));
        }
        if m.writable && !c.writable {
            return Err(format!("writable privilege escalated for {}", m.key));
        }
        if m.signer && !c.signer && !pdas.contains(&m.key) {
            return Err(format!("signer privilege escalated for {}", m.key));
        }
    }
    let f = CALLEES.with(|c| c.borrow().get(&ix.program_id).cloned()).ok_or_else(|| format!("unknown program {}", ix.program_id))?;
    let eff = Ix { metas: merged, data: ix.data.clone() };
    let h = stack_height();
    set_stack_height(h + 1);
    let skew = SKEW.with(|s| s.replace(0));
    let r = f(&w, &eff);
    SKEW.with(|s| s.set(skew));
    set_stack_height(h);
    CALLS.with(|c| c.borrow_mut().push(Call { caller, program: ix.program_id, ix: eff.clone(), raw, ok: r.is_ok(), infos: vec![] }));
    let next = r?;
    for i in infos {
        let a = next.get(i.key);
        let m = cmetas.iter().find(|m| m.key == *i.key).unwrap();
        if !m.writable || !eff.metas.iter().any(|e| e.key == *i.key && e.writable) {
            continue;
        }
        **i.try_borrow_mut_lamports().map_err(|_| "account borrowed during a call".to_string())? = a.lamports;
        if i.data_len() != a.data.len() {
            i.realloc(a.data.len(), false).map_err(|e| format!("account data cannot grow to {}: {e:?}", a.data.len()))?;
        }
        i.try_borrow_mut_data().map_err(|_| "account borrowed during a call".to_string())?.copy_from_slice(&a.data);
        if *i.owner != a.owner {
            i.assign(&a.owner);
        }
    }
    // accounts without lamports stay visible until the end of the transaction
    let mut nb = next;
    for (k, _) in &post {
        if !nb.accts.contains_key(k) {
            nb.put(*k, Acct::default());
        }
    }
    FRAMES.with(|f| f.borrow_mut().last_mut().unwrap().base = Some(nb));
    Ok(())
}

/// The asset program as a callee.
pub fn asset_callee() -> Callee {
    std::rc::Rc::new(|w, ix| {
        run(w, ix, &asset_program::ID, &|p| unsafe { asset_program::entrypoint::entrypoint(p) }, SKEW_IN.with(|s| s.get()), false).map_err(|f| err_text(&f))
    })
}

/// The system program as a callee (create account, transfer, allocate, assign).
pub fn system_callee() -> Callee {
    std::rc::Rc::new(|w, ix| {
        let d = &ix.data;
        let u = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
        let m = &ix.metas;
        let mut n = w.clone();
        match d[0] {
            0 | 2 => {
                let lam = u(4);
                let (from, to) = (&m[0], &m[1]);
                if !from.signer || !from.writable || !to.writable || (d[0] == 0 && !to.signer) {
                    return Err("system: missing signature or write access".into());
                }
                let (f, t) = (w.get(&from.key).clone(), w.get(&to.key).clone());
                if d[0] == 0 && (t.lamports != 0 || !t.data.is_empty() || t.owner != SYSTEM) {
                    return Err("system: account already in use".into());
                }
                if f.owner != SYSTEM || !f.data.is_empty() || f.lamports < lam {
                    return Err("system: cannot fund".into());
                }
                n.get_mut(&from.key).lamports -= lam;
                let t = n.get_mut(&to.key);
                t.lamports += lam;
                if d[0] == 0 {
                    t.data = vec![0; u(12) as usize];
                    t.owner = Pubkey::new_from_array(d[20..52].try_into().unwrap());
                }
            }
            x => return Err(format!("system: instruction {x} not modelled")),
        }
        Ok(n)
    })
}
