//! C17: instructions built by the Rust clients, directly and as cross-program calls.

use crate::gen::*;
use crate::glue::*;
use crate::hist::*;
use crate::model::*;
use crate::proxy::{callees, differ};
use nifty_asset::types as ct;
use pbt::{Case, Source};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use vm::{Fail, Ix, Meta, World, SYSTEM};

pub enum BridgeOp {
    Bridge,
    Create(bool),
}

pub const BRIDGE: Pubkey = solana_program::pubkey!("BridgezKrNugsZwTcyAMYba643Z93RzC2yN1Y24LwAkm");

pub fn standard_of(b: u8) -> ct::Standard {
    [ct::Standard::NonFungible, ct::Standard::Managed, ct::Standard::Soulbound, ct::Standard::Proxied][b as usize]
}
pub fn type_of(b: u8) -> ct::ExtensionType {
    use ct::ExtensionType::*;
    [None, Attributes, Blob, Creators, Links, Metadata, Grouping, Royalties, Manager, Proxy, Properties, Bucket][b as usize]
}
pub fn ext_of(e: &ExtIn) -> ct::ExtensionInput {
    ct::ExtensionInput { extension_type: type_of(e.ty), length: e.length, data: e.data.clone() }
}
pub fn roles_of(r: &Roles) -> ct::DelegateInput {
    use ct::DelegateRole::*;
    match r {
        Roles::All => ct::DelegateInput::All,
        Roles::Some(v) => ct::DelegateInput::Some { roles: v.iter().map(|b| [None, Transfer, Lock, Burn][*b as usize]).collect() },
    }
}
pub fn strategy_of(v: Option<u16>) -> ct::Strategy {
    match v {
        None => ct::Strategy::Trim,
        Some(value) => ct::Strategy::Extend { value },
    }
}
/// accounts whose address never varies
pub fn known_address(name: &str) -> Pubkey {
    match name {
        "system_program" => SYSTEM,
        "nifty_asset_program" => PROGRAM,
        "token_metadata_program" => solana_program::pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s"),
        "sysvar_instructions" => solana_program::pubkey!("Sysvar1nstructions1111111111111111111111111"),
        "spl_token_program" => solana_program::pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA"),
        _ => solana_program::pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"),
    }
}
pub fn well_known(name: &str, k: Option<Pubkey>) -> bool {
    k == Some(known_address(name))
}

/// Whether the client's vocabulary can express the operation.
pub fn expressible(op: &Op) -> bool {
    let ty = |e: &ExtIn| e.ty as u32 <= MAX_TYPE;
    match op {
        Op::Create { standard, exts, .. } => *standard < 4 && exts.iter().flatten().all(ty),
        Op::Approve(Roles::Some(v)) | Op::Revoke(Roles::Some(v)) => v.iter().all(|b| *b < 4),
        Op::Allocate(e) => ty(e),
        Op::Update { ext, .. } => ext.iter().all(ty),
        Op::Remove(t) => *t as u32 <= MAX_TYPE,
        _ => true,
    }
}

type Slot = (Option<Pubkey>, bool);

fn expected(table: &[(&str, &str)], slots: &[Slot], placeholder: Pubkey) -> Vec<Meta> {
    table
        .iter()
        .zip(slots)
        .map(|((_, f), (key, flag))| match key {
            None => m(placeholder, false, false),
            Some(k) => m(*k, f.contains('s') || (f.contains('?') && *flag), f.contains('w')),
        })
        .collect()
}

fn metas_of(ix: &Instruction) -> Vec<Meta> {
    ix.accounts.iter().map(|a| m(a.pubkey, a.is_signer, a.is_writable)).collect()
}

fn say(v: &[Meta]) -> String {
    v.iter().map(|x| format!("{}{}{}", name_of(&x.key), if x.signer { "!" } else { "" }, if x.writable { "*" } else { "" })).collect::<Vec<_>>().join(" ")
}

fn differs(style: &str, name: &str, program: &Pubkey, want: (&Pubkey, &[Meta], &[u8]), metas: &[Meta], data: &[u8]) -> Option<String> {
    if program != want.0 {
        return Some(format!("{name} ({style}) addresses {program} instead of {}", want.0));
    }
    if data != want.2 {
        return Some(format!("{name} ({style}) encodes {} instead of {}", short(data), short(want.2)));
    }
    if metas != want.1 {
        return Some(format!("{name} ({style}) names [{}] instead of [{}]", say(metas), say(want.1)));
    }
    None
}

/// Runs a native program (a closure over its accounts) in the mini runtime.
pub fn native(w: &World, metas: &[Meta], program: &Pubkey, f: &dyn Fn(&[AccountInfo<'static>]) -> ProgramResult) -> Result<World, Fail> {
    let ix = Ix { metas: metas.to_vec(), data: vec![] };
    vm::run(
        w,
        &ix,
        program,
        &|p| {
            let (_, infos, _) = unsafe { solana_program::entrypoint::deserialize::<'static>(p) };
            match f(&infos) {
                Ok(()) => 0,
                Err(e) => u64::from(e),
            }
        },
        0,
        true,
    )
}

const STYLES: [&str; 4] = ["instruction", "builder", "call", "call builder"];

pub fn c17(s: &mut Source, c: &mut Case) {
    callees();
    if s.chance(1, 8) {
        return bridge(s, c);
    }
    let d = Knobs::default();
    let kn = Knobs { perturb: 0, forged: 0, empty: 20, junk: 3, exts: [0, 3, 3, 4, 2, 3, 4, 4, 2, 2, 4, 2], ops: [4, 4, 6, 4, 4, 4, 4, 4, 4, 4, 6, 4, 5, 4, 4, 4, 4, 5], locked: 10, ..d };
    let mut w = gen_world(s, &kn);
    let n = s.range(1, 4);
    for _ in 0..n {
        s.begin();
        let g = gen_op(s, &w, &kn);
        let style = s.us(4);
        let loose = s.chance(1, 6);
        let (skip, rev) = (s.bool(), s.bool());
        let nrem = [0, 0, 1, 2, 3, 5][s.us(6)];
        let rem: Vec<Meta> = (0..nrem).map(|_| m(*s.pick(&keys().wallet), s.bool(), s.bool())).collect();
        let g = g.map(|(op, mut metas)| {
            if loose {
                for x in metas.iter_mut() {
                    if s.chance(1, 2) {
                        x.key = any_key(s);
                    }
                }
            }
            (op, metas)
        });
        s.end();
        let Some((op, metas)) = g else { continue };
        if !expressible(&op) {
            continue;
        }
        if let Some(next) = step(&w, &op, &metas, style, skip, rev, &rem, c) {
            w = next;
        }
        if c.failed() {
            return;
        }
    }
}

/// The remaining accounts as a builder is given them: at once, one by one, or in several parts.
pub fn parts<T>(rem: &[T], skip: bool, rev: bool) -> Vec<&[T]> {
    let n = rem.len();
    match (skip, rev) {
        _ if n == 0 => vec![],
        (false, false) => vec![rem],
        (true, false) => vec![&rem[..1], &rem[1..]],
        (false, true) => vec![&rem[..n / 2], &rem[n / 2..]],
        (true, true) => vec![&rem[..n - 1], &rem[n - 1..]],
    }
}

#[allow(clippy::too_many_arguments)]
fn step(w: &World, op: &Op, metas: &[Meta], style: usize, skip: bool, rev: bool, rem: &[Meta], c: &mut Case) -> Option<World> {
    let ks = keys();
    let (name, table) = ASSET_TABLE[op.disc() as usize];
    if metas.len() != table.len() {
        return None;
    }
    let slots: Vec<Slot> = table.iter().zip(metas).map(|((_, f), x)| (if f.contains('o') && x.key == PROGRAM { None } else { Some(x.key) }, x.signer)).collect();
    let mut want = expected(table, &slots, PROGRAM);
    let fixed = want.len();
    want.extend_from_slice(rem);
    let data = op.encode();
    c.evals += 1;
    c.label(format!("{name} by {}", STYLES[style]));
    let mut h = pbt::hash_bytes(&data) ^ pbt::mix(style as u64 * 4 + skip as u64 * 2 + rev as u64);
    for x in &want {
        h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ (x.signer as u64) << 1 ^ (x.writable as u64));
    }
    c.nontrivial.push(h);
    c.log(|| format!("{name} by {} [{}] data {}", STYLES[style], say(&want), short(&data)));
    let meant = Ix { metas: metas.to_vec(), data: data.clone() };
    let client = Ix { metas: want.clone(), data: data.clone() };
    // the client can only express what is within the documented rights
    let covered = metas.iter().zip(&want).all(|(a, b)| a.key == b.key && (!a.signer || b.signer) && (!a.writable || b.writable));
    if style < 2 {
        let arem: Vec<AccountMeta> = rem.iter().map(|x| AccountMeta { pubkey: x.key, is_signer: x.signer, is_writable: x.writable }).collect();
        let r = pbt::guard(|| if style == 0 { asset_direct(op, &slots, &arem) } else { asset_builder(op, &slots, &arem, skip, rev) });
        let ix = match r {
            Ok(ix) => ix,
            Err(e) => {
                c.fail(format!("{name} ({}) panics: {e}", STYLES[style]));
                return None;
            }
        };
        if let Some(e) = differs(STYLES[style], name, &ix.program_id, (&PROGRAM, &want, &data), &metas_of(&ix), &ix.data) {
            c.fail(e);
            return None;
        }
        vm::set_stack_height(1);
        pbt::set_phase(1);
        let a = vm::run_asset(w, &meant, 0);
        let b = vm::run_asset(w, &Ix { metas: metas_of(&ix), data: ix.data }, 0);
        pbt::set_phase(0);
        if let (true, Ok(x)) = (covered, &a) {
            match &b {
                Err(f) => c.fail(format!("{name} ({}) is rejected ({}) although the instruction asked for is accepted", STYLES[style], fail_text(f))),
                Ok(y) => {
                    if let Some(e) = differ(x, y) {
                        c.fail(format!("{name} ({}) does not have the effect asked for: {e}", STYLES[style]));
                    }
                }
            }
            c.label(format!("{name} performed"));
        }
        return b.ok();
    }
    // a program calling with the same accounts; its own addresses sign by seeds
    let caller = ks.prog[0];
    let mut outer: Vec<Meta> = vec![];
    let mut at = vec![];
    let mut pdas = [false; 2];
    for x in &want[..fixed] {
        let mut x = *x;
        if let Some(i) = ks.pda.iter().position(|p| *p == x.key) {
            pdas[i] |= x.signer;
            x.signer = false;
        }
        at.push(outer.len());
        outer.push(x);
    }
    let prog = outer.len();
    outer.push(m(PROGRAM, false, false));
    let r0 = outer.len();
    for x in rem {
        outer.push(m(x.key, true, true));
    }
    // rights of one account add up over its positions
    let merged = Ix { metas: outer.clone(), data: vec![] }.merged();
    let bumps = [[ks.bump[0]], [ks.bump[1]]];
    let s0: [&[u8]; 2] = [ks.stub[0].as_ref(), &bumps[0]];
    let s1: [&[u8]; 2] = [ks.stub[1].as_ref(), &bumps[1]];
    let mut seeds: Vec<&[&[u8]]> = vec![];
    if pdas[0] {
        seeds.push(&s0);
    }
    if pdas[1] {
        seeds.push(&s1);
    }
    vm::set_stack_height(2);
    pbt::set_phase(1);
    let direct = vm::run_asset(w, &client, 0);
    vm::set_stack_height(1);
    vm::cpi::record_only(false);
    let r = native(w, &merged, &caller, &|infos| {
        let a: Vec<(Option<&AccountInfo>, bool)> = slots.iter().enumerate().map(|(i, (k, f))| (k.map(|_| &infos[at[i]]), *f)).collect();
        let rm: Vec<(&AccountInfo, bool, bool)> = rem.iter().enumerate().map(|(i, x)| (&infos[r0 + i], x.writable, x.signer)).collect();
        if style == 2 {
            asset_cpi(op, &infos[prog], &a, &rm, &seeds)
        } else {
            asset_cpi_builder(op, &infos[prog], &a, &rm, &seeds, skip, rev)
        }
    });
    pbt::set_phase(0);
    let calls = vm::cpi::take_calls();
    let refused = r.as_ref().err().map(fail_text);
    let [call] = &calls[..] else {
        c.fail(format!("{name} ({}) makes {} calls ({:?})", STYLES[style], calls.len(), refused));
        return None;
    };
    // remaining accounts are given as (account, is_writable, is_signer)
    let mut got = call.raw.clone();
    let flipped: Vec<Meta> = rem.iter().map(|x| m(x.key, x.writable, x.signer)).collect();
    let mut swapped = false;
    if got.len() == want.len() && got[fixed..] != *rem && got[fixed..] == flipped[..] {
        swapped = true;
        if style == 3 {
            c.finding("C17", "cpi-remaining-swapped", format!("{name} ({}): remaining accounts given as (account, is_writable, is_signer) arrive with the two rights swapped", STYLES[style]));
        }
        got.truncate(fixed);
        got.extend_from_slice(rem);
    }
    if let Some(e) = differs(STYLES[style], name, &call.program, (&PROGRAM, &want, &data), &got, &call.ix.data) {
        c.fail(e);
        return None;
    }
    if swapped {
        return None;
    }
    match (&direct, &r) {
        (Ok(x), Ok(y)) => {
            c.label(format!("{name} performed by a call"));
            if let Some(e) = differ(x, y) {
                c.fail(format!("{name} ({}) does not have the effect asked for: {e}", STYLES[style]));
            }
        }
        (Ok(_), Err(f)) => c.fail(format!("{name} ({}) fails ({}) although the instruction succeeds", STYLES[style], fail_text(f))),
        (Err(_), Ok(_)) => c.fail(format!("{name} ({}) succeeds although the instruction fails", STYLES[style])),
        _ => {}
    }
    r.ok()
}

/// The bridge's client: what it builds, not what the bridge does with it.
fn bridge(s: &mut Source, c: &mut Case) {
    let op = if s.bool() { BridgeOp::Bridge } else { BridgeOp::Create(s.bool()) };
    let (name, table) = BRIDGE_TABLE[matches!(op, BridgeOp::Create(_)) as usize];
    let data = match op {
        BridgeOp::Bridge => vec![0],
        BridgeOp::Create(x) => vec![1, x as u8],
    };
    let fixed_names = ["system_program", "nifty_asset_program", "token_metadata_program", "sysvar_instructions", "spl_token_program", "spl_ata_program"];
    let slots: Vec<Slot> = table
        .iter()
        .map(|(n, f)| {
            let key = if fixed_names.contains(n) && s.chance(2, 3) { known_address(n) } else { any_key(s) };
            (if f.contains('o') && s.bool() { None } else { Some(key) }, s.bool())
        })
        .collect();
    let (style, skip, rev) = (s.us(4), s.bool(), s.bool());
    let rem: Vec<Meta> = (0..s.us(5)).map(|_| m(*s.pick(&keys().wallet), s.bool(), s.bool())).collect();
    let mut want = expected(table, &slots, BRIDGE);
    let fixed = want.len();
    want.extend_from_slice(&rem);
    c.evals += 1;
    c.label(format!("bridge {name} by {}", STYLES[style]));
    let mut h = pbt::hash_bytes(&data) ^ pbt::mix(1000 + style as u64 * 4 + skip as u64 * 2 + rev as u64);
    for x in &want {
        h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ (x.signer as u64) << 1 ^ (x.writable as u64));
    }
    c.nontrivial.push(h);
    c.log(|| format!("bridge {name} by {} [{}]", STYLES[style], say(&want)));
    if style < 2 {
        let arem: Vec<AccountMeta> = rem.iter().map(|x| AccountMeta { pubkey: x.key, is_signer: x.signer, is_writable: x.writable }).collect();
        match pbt::guard(|| if style == 0 { bridge_direct(&op, &slots, &arem) } else { bridge_builder(&op, &slots, &arem, skip, rev) }) {
            Ok(ix) => {
                if let Some(e) = differs(STYLES[style], name, &ix.program_id, (&BRIDGE, &want, &data), &metas_of(&ix), &ix.data) {
                    c.fail(format!("bridge {e}"));
                }
            }
            Err(e) => c.fail(format!("bridge {name} ({}) panics: {e}", STYLES[style])),
        }
        return;
    }
    let w = World::default();
    let mut outer: Vec<Meta> = want[..fixed].to_vec();
    let prog = outer.len();
    outer.push(m(BRIDGE, false, false));
    let r0 = outer.len();
    outer.extend(rem.iter().map(|x| m(x.key, true, true)));
    vm::cpi::record_only(true);
    let given = std::cell::RefCell::new(vec![]);
    let r = native(&w, &outer, &keys().prog[0], &|infos| {
        *given.borrow_mut() = infos.iter().map(|i| *i.key).collect();
        let a: Vec<(Option<&AccountInfo>, bool)> = slots.iter().enumerate().map(|(i, (k, f))| (k.map(|_| &infos[i]), *f)).collect();
        let rm: Vec<(&AccountInfo, bool, bool)> = rem.iter().enumerate().map(|(i, x)| (&infos[r0 + i], x.writable, x.signer)).collect();
        if style == 2 {
            bridge_cpi(&op, &infos[prog], &a, &rm, &[])
        } else {
            bridge_cpi_builder(&op, &infos[prog], &a, &rm, &[], skip, rev)
        }
    });
    let calls = vm::cpi::take_calls();
    vm::cpi::record_only(false);
    let [call] = &calls[..] else {
        c.fail(format!("bridge {name} ({}) makes {} calls ({:?})", STYLES[style], calls.len(), r.err().map(|f| fail_text(&f))));
        return;
    };
    let mut got = call.raw.clone();
    let flipped: Vec<Meta> = rem.iter().map(|x| m(x.key, x.writable, x.signer)).collect();
    if got.len() == want.len() && got[fixed..] != rem[..] && got[fixed..] == flipped[..] {
        if style == 3 {
            c.finding("C17", "cpi-remaining-swapped", format!("bridge {name} ({}): remaining accounts given as (account, is_writable, is_signer) arrive with the two rights swapped", STYLES[style]));
        }
        got.truncate(fixed);
        got.extend_from_slice(&rem);
    }
    if let Some(e) = differs(STYLES[style], name, &call.program, (&BRIDGE, &want, &data), &got, &call.ix.data) {
        c.fail(format!("bridge {e}"));
        return;
    }
    // every account named has to be handed over
    if let Some(x) = call.raw.iter().find(|x| !call.infos.contains(&x.key)) {
        c.fail(format!("bridge {name} ({}): account {} is named but not handed over", STYLES[style], name_of(&x.key)));
    }
}
