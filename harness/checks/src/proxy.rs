//! C20: the reference proxy program, loaded and run with nested calls into the asset program.
//! Oracle: a statement of what the proxy has to do with each instruction, over the asset program itself.

use crate::gen::*;
use crate::hist::fail_text;
use crate::model::*;
use pbt::{Case, Source};
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;
use vm::dynprog::Dyn;
use vm::{Ix, Meta, World, SYSTEM};

const IMAGE: &str = include_str!("/repo/programs/proxy/src/image.svg");

pub fn proxy_id() -> Pubkey {
    keys().prog[0]
}

fn program() -> Dyn {
    static D: OnceLock<Dyn> = OnceLock::new();
    *D.get_or_init(|| Dyn::load("libdyn_proxy.so"))
}

pub fn callees() {
    thread_local!(static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if !DONE.with(|d| d.replace(true)) {
        vm::cpi::register(PROGRAM, vm::cpi::asset_callee());
        vm::cpi::register(SYSTEM, vm::cpi::system_callee());
    }
}

fn attr_data(n: i64) -> Vec<u8> {
    let mut o = vec![];
    push_str(&mut o, "transfers");
    push_str(&mut o, &format!("{n:>12}"));
    o
}
fn blob_data(rgb: &str) -> Vec<u8> {
    let mut o = vec![];
    push_str(&mut o, "image/svg+xml");
    o.extend_from_slice(IMAGE.replace("{#RGB#}", rgb).as_bytes());
    o
}
fn prop_data(t: i64) -> Vec<u8> {
    let mut o = vec![];
    push_str(&mut o, "last_transferred");
    o.push(1);
    o.extend_from_slice(&(t as u64).to_le_bytes());
    o
}
fn proxy_data(stub: &Pubkey, bump: u8, authority: Option<Pubkey>) -> Vec<u8> {
    let mut o = proxy_id().as_ref().to_vec();
    o.extend_from_slice(stub.as_ref());
    o.push(bump);
    o.extend_from_slice(authority.unwrap_or_default().as_ref());
    o
}

/// the colour of the drawing in this account, when it is one the proxy can have drawn
fn colour(w: &World, k: &Pubkey) -> Option<String> {
    let a = AssetM::parse(&w.get(k).data).ok()?;
    let d = &a.ext(BLOB)?.data;
    let at = IMAGE.find("{#RGB#}")? + 14;
    let c = std::str::from_utf8(d.get(at..at + 11)?).ok()?.to_string();
    let parts: Vec<&str> = c.split(',').collect();
    (parts.len() == 3 && parts.iter().all(|p| p.len() == 3 && p.trim().parse::<u8>().is_ok()) && *d == blob_data(&c)).then_some(c)
}

pub enum Want {
    Done(World),
    Refused(&'static str),
    /// either refused or done like this
    Either(World),
}

struct P<'a> {
    metas: &'a [Meta],
    pda: Option<Pubkey>,
}

impl P<'_> {
    /// a call into the asset program with the rights the proxy may pass on
    fn call(&self, w: &World, metas: Vec<Meta>, data: Vec<u8>) -> Result<World, &'static str> {
        if !self.metas.iter().any(|m| m.key == PROGRAM) {
            return Err("asset program not among the accounts");
        }
        for x in &metas {
            let c = self.metas.iter().find(|c| c.key == x.key).ok_or("account not among the accounts")?;
            if x.writable && !c.writable {
                return Err("account not writable");
            }
            if x.signer && !c.signer && self.pda != Some(x.key) {
                return Err("missing signature");
            }
        }
        let ix = Ix { metas, data };
        vm::set_stack_height(2);
        let r = vm::run(w, &ix, &PROGRAM, &|p| unsafe { asset_program::entrypoint::entrypoint(p) }, 0, false);
        vm::set_stack_height(1);
        r.map_err(|_| "refused by the asset program")
    }
}

fn string(b: &[u8]) -> Option<String> {
    if b.len() < 4 || u32at(b, 0) as usize != b.len() - 4 {
        return None;
    }
    String::from_utf8(b[4..].to_vec()).ok()
}

/// What the proxy has to do. `rgb`: the colour it chose, when it drew one.
fn want(w: &World, ix: &Ix, rgb: Option<String>) -> Want {
    let metas = ix.merged();
    let none = m(PROGRAM, false, false);
    let get = |i: usize| metas.get(i).copied();
    let first = match get(0) {
        Some(f) => f,
        None => return Want::Refused("no accounts"),
    };
    let done = |r: Result<World, &'static str>| match r {
        Ok(w) => Want::Done(w),
        Err(e) => Want::Refused(e),
    };
    if ix.data.first() == Some(&0) {
        if let Some(name) = string(&ix.data[1..]) {
            if metas.len() < 7 {
                return Want::Refused("missing accounts");
            }
            let (stub, owner, authority) = (metas[1], metas[2], metas[3]);
            if !authority.signer || !stub.signer {
                return Want::Refused("missing signature");
            }
            let (pda, bump) = Pubkey::find_program_address(&[stub.key.as_ref()], &proxy_id());
            if pda != first.key {
                return Want::Refused("asset address not derived from the stub");
            }
            let opt = |i: usize, s: bool, wr: bool| if metas[i].key == proxy_id() { none } else { m(metas[i].key, s, wr) };
            let p = P { metas: &metas, pda: Some(pda) };
            let op = Op::Create {
                name,
                standard: 3,
                mutable: true,
                exts: Some(vec![
                    ExtIn::full(ATTRIBUTES, attr_data(0)),
                    ExtIn::full(BLOB, blob_data("000,000,000")),
                    ExtIn::full(PROXY, proxy_data(&stub.key, bump, Some(authority.key))),
                    ExtIn::full(PROPERTIES, prop_data(vm::clock())),
                ]),
            };
            let v = vec![m(pda, true, true), m(pda, true, false), m(owner.key, false, false), none, none, opt(4, true, true), opt(5, false, false)];
            return match p.call(w, v, op.encode()) {
                // the program in the wrong position: whether that works is not specified
                Ok(w) if metas[6].key != PROGRAM => Want::Either(w),
                r => done(r),
            };
        }
    }
    let Some(disc) = ix.data.first() else { return Want::Refused("no data") };
    if *disc > 17 {
        return Want::Refused("unknown instruction");
    }
    let Some(proxy) = AssetM::parse(&w.get(&first.key).data).ok().and_then(|a| a.ext(PROXY).cloned()) else {
        return Want::Refused("no proxy data");
    };
    if proxy.data.len() != 97 {
        return Want::Refused("no proxy data");
    }
    let pda = Pubkey::create_program_address(&[&proxy.data[32..64], &proxy.data[64..65]], &proxy_id()).ok();
    if pda.is_none() {
        return Want::Refused("no such derivation");
    }
    let auth = Pubkey::new_from_array(proxy.data[65..97].try_into().unwrap());
    let p = P { metas: &metas, pda };
    match Op::decode(&ix.data) {
        Some(Op::Transfer) => {
            if metas.len() < 4 || !metas[4..].iter().any(|x| x.key == PROGRAM) {
                return Want::Refused("missing accounts");
            }
            let a = AssetM::parse(&w.get(&first.key).data).unwrap();
            let Some(at) = a.ext(ATTRIBUTES) else { return Want::Refused("no counter") };
            let n = match counter(&at.data) {
                Some(Ok(n)) => n,
                None => 0,
                Some(Err(_)) => return Want::Refused("counter is not a number"),
            };
            if n == i64::MAX {
                return Want::Refused("counter overflow");
            }
            let up = |w: &World, ty: u32, d: Vec<u8>| {
                let op = Op::Update { name: None, mutable: None, ext: Some(ExtIn::full(ty, d)) };
                p.call(w, vec![m(first.key, true, true), m(first.key, true, false), none, none, none, none], op.encode())
            };
            let rgb = rgb.unwrap_or("  0,  0,  0".into());
            let r = up(w, ATTRIBUTES, attr_data(n + 1))
                .and_then(|w| up(&w, BLOB, blob_data(&rgb)))
                .and_then(|w| up(&w, PROPERTIES, prop_data(vm::clock())))
                .and_then(|w| {
                    // without a group account its place has the address of the asset program
                    p.call(&w, vec![m(first.key, true, true), m(metas[1].key, true, false), m(metas[2].key, false, false), m(metas[3].key, false, false)], vec![7])
                });
            match r {
                // the asset acting as its own owner or delegate
                Ok(w) if metas[1].key == first.key => Want::Either(w),
                r => done(r),
            }
        }
        Some(Op::Update { name, mutable, .. }) => {
            if metas.len() < 6 || !metas[6..].iter().any(|x| x.key == PROGRAM) {
                return Want::Refused("missing accounts");
            }
            if !metas[1].signer {
                return Want::Refused("missing signature of the proxy authority");
            }
            if auth == Pubkey::default() || auth != metas[1].key {
                return Want::Refused("not the proxy authority");
            }
            let op = Op::Update { name, mutable, ext: None };
            done(p.call(w, vec![m(first.key, true, true), m(first.key, true, false), none, none, none, none], op.encode()))
        }
        _ => {
            // the asset signs as itself only; standing in as an authority takes the proxy authority
            if metas[1..].iter().any(|x| x.key == first.key) && (auth == Pubkey::default() || !metas.iter().any(|x| x.key == auth && x.signer)) {
                return Want::Refused("the asset's own authority without the proxy authority");
            }
            let mut v = metas.clone();
            v[0].signer = true;
            done(p.call(w, v, ix.data.clone()))
        }
    }
}

/// None: no such attribute; Err: not a number
fn counter(d: &[u8]) -> Option<Result<i64, ()>> {
    let mut o = 0;
    while o < d.len() {
        let n = d[o] as usize;
        let name = &d[o + 1..o + 1 + n];
        o += 1 + n;
        let k = d[o] as usize;
        let v = &d[o + 1..o + 1 + k];
        o += 1 + k;
        if name == b"transfers" {
            return Some(std::str::from_utf8(v).map_err(|_| ()).and_then(|t| t.trim().parse().map_err(|_| ())));
        }
    }
    None
}

fn synth(s: &mut Source, i: usize, kn: &Knobs) -> AssetM {
    let ks = keys();
    let key = ks.pda[i];
    let auth = if s.chance(1, 6) { None } else { Some(*s.pick(&ks.wallet)) };
    let n = match s.weighted(&[4, 4, 1, 1]) {
        0 => 0,
        1 => s.draw(100) as i64,
        2 => 999_999_999_999,
        _ => *s.pick(&[-1i64, 9_999_999_999_99, 99_999_999_999, 42]),
    };
    let mut exts = vec![
        ExtM::full(ATTRIBUTES, attr_data(n)),
        ExtM::full(BLOB, blob_data("000,000,000")),
        ExtM::full(PROXY, proxy_data(&ks.stub[i], ks.bump[i], auth)),
        ExtM::full(PROPERTIES, prop_data(1)),
    ];
    match s.us(3) {
        0 => exts.reverse(),
        1 => exts.rotate_left(2),
        _ => {}
    }
    if s.chance(1, 10) {
        exts.retain(|e| e.ty == PROXY || s.chance(2, 3));
    }
    if s.chance(1, 10) {
        if let Some(e) = exts.iter_mut().find(|e| e.ty == ATTRIBUTES) {
            *e = ExtM::full(ATTRIBUTES, gen_content(s, ATTRIBUTES, &Ctx { key, cur: None, junk: 0, synth: true }));
        }
    }
    for _ in 0..s.weighted(&[3, 3, 1]) {
        let t = pick_ext(s, kn);
        if t != 0 && t != MANAGER && !exts.iter().any(|e| e.ty == t) {
            let at = s.us(exts.len() + 1);
            exts.insert(at, ExtM::full(t, gen_content(s, t, &Ctx { key, cur: None, junk: 0, synth: true })));
        }
    }
    let mut a = AssetM {
        disc: 1,
        state: s.chance(kn.locked, 100) as u8,
        standard: 3,
        mutable: !s.chance(kn.immutable, 100),
        owner: person(s),
        group: None,
        authority: if s.chance(1, 8) { *s.pick(&ks.wallet) } else { key },
        delegate: s.chance(kn.delegate, 100).then(|| (*s.pick(&ks.wallet), 1 + s.draw(7) as u8)),
        name: name35(&gen_name(s)),
        exts,
        len: 0,
    };
    a.len = a.end();
    if s.chance(kn.spare, 100) {
        a.len += *s.pick(&[8usize, 24, 100]);
    }
    a
}

/// a group of the world with room for one more member, which it counts
fn join(s: &mut Source, w: &mut World) -> Option<Pubkey> {
    let groups: Vec<Pubkey> = view(w).assets.iter().filter(|(k, a)| !keys().pda.contains(k) && a.ext(GROUPING).is_some()).map(|x| x.0).collect();
    if groups.is_empty() {
        return None;
    }
    let k = *s.pick(&groups);
    let mut a = AssetM::parse(&w.get(&k).data).ok()?;
    let len = w.get(&k).data.len();
    let e = a.ext_mut(GROUPING)?;
    let (n, max) = (u64at(&e.data, 0) + 1, u64at(&e.data, 8));
    if max != 0 && n > max {
        return None;
    }
    e.data[..8].copy_from_slice(&n.to_le_bytes());
    let mut d = a.encode();
    d.resize(len, 0);
    w.get_mut(&k).data = d;
    Some(k)
}

fn gen_step(s: &mut Source, w: &World, kn: &Knobs) -> Option<(Ix, bool)> {
    let ks = keys();
    let none = m(PROGRAM, false, false);
    let i = s.us(2);
    let auth_of = |k: &Pubkey| -> Option<Pubkey> {
        let a = AssetM::parse(&w.get(k).data).ok()?;
        let p = a.ext(PROXY)?;
        let x = Pubkey::new_from_array(p.data.get(65..97)?.try_into().ok()?);
        (x != Pubkey::default()).then_some(x)
    };
    let create = w.get(&ks.pda[i]).lamports == 0 || s.chance(1, 25);
    if create && s.chance(4, 5) {
        let name = gen_name(s);
        let mut data = vec![0];
        data.extend_from_slice(&(name.len() as u32).to_le_bytes());
        data.extend_from_slice(name.as_bytes());
        let asset = if s.chance(1, 12) { any_key(s) } else { ks.pda[i] };
        let payer = if s.chance(1, 10) { m(proxy_id(), false, false) } else { m(*s.pick(&ks.wallet), true, true) };
        let sys = if s.chance(1, 12) { m(proxy_id(), false, false) } else { m(SYSTEM, false, false) };
        let mut ix = Ix {
            metas: vec![m(asset, false, true), m(ks.stub[i], true, false), m(person(s), false, false), m(*s.pick(&ks.wallet), true, false), payer, sys, none],
            data,
        };
        if s.chance(kn.perturb, 100) {
            perturb(s, &mut ix);
        }
        for x in ix.metas.iter_mut().filter(|x| ks.pda.contains(&x.key)) {
            x.signer = false;
        }
        return Some((ix, true));
    }
    let (op, mut metas) = gen_op(s, w, kn)?;
    if op.disc() != 2 && !s.chance(1, 8) && !ks.pda.contains(&metas[0].key) {
        // instructions about other assets are rarely of interest here
        return None;
    }
    let target = metas[0].key;
    let auth = auth_of(&target);
    if matches!(op, Op::Update { .. }) && s.chance(5, 6) {
        if let Some(a) = auth {
            metas[1] = m(a, true, metas[1].writable);
        }
    }
    if matches!(op, Op::Handover | Op::Remove(_) | Op::Resize(_)) && s.chance(1, 3) {
        metas[1] = m(target, false, true);
    }
    if !s.chance(1, 15) {
        metas.push(none);
    }
    if s.chance(1, 3) {
        let x = match auth {
            Some(a) if s.chance(3, 4) => a,
            _ => *s.pick(&ks.wallet),
        };
        metas.push(m(x, s.chance(5, 6), s.chance(1, 4)));
    }
    let mut ix = Ix { metas, data: op.encode() };
    if s.chance(kn.forged, 100) {
        forge(s, w, &mut ix);
    }
    if s.chance(kn.perturb, 100) {
        perturb(s, &mut ix);
    }
    // nobody holds the private key of a derived address
    for x in ix.metas.iter_mut().filter(|x| ks.pda.contains(&x.key)) {
        x.signer = false;
    }
    Some((ix, !s.chance(1, 10)))
}

pub fn c20(s: &mut Source, c: &mut Case) {
    callees();
    let kn = Knobs {
        ops: [1, 4, 1, 6, 1, 6, 5, 24, 6, 2, 12, 2, 1, 3, 3, 5, 6, 5],
        exts: [0, 0, 0, 3, 2, 3, 3, 4, 0, 0, 0, 2],
        standards: [8, 1, 1, 0],
        locked: 8,
        delegate: 40,
        grouped: 25,
        perturb: 12,
        forged: 4,
        immutable: 6,
        buffers: 10,
        ..Knobs::default()
    };
    let ks = keys();
    let mut w = gen_world(s, &kn);
    for i in 0..2 {
        s.begin();
        if s.chance(3, 4) {
            let mut a = synth(s, i, &kn);
            if s.chance(2, 5) {
                a.group = join(s, &mut w);
            }
            let mut d = a.encode();
            d.resize(a.len, 0);
            w.put(ks.pda[i], vm::Acct { lamports: vm::rent(d.len()) + *s.pick(&[0u64, 0, 1000]), owner: PROGRAM, data: d, executable: false });
        } else {
            w.accts.remove(&ks.pda[i]);
        }
        s.end();
    }
    crate::hist::describe(&w, c);
    for _ in 0..s.range(1, 8) {
        s.begin();
        let g = gen_step(s, &w, &kn);
        let t = if s.chance(1, 6) { *s.pick(&[0i64, 1, 1 << 31, (1 << 32) + 5, 1 << 40, i64::MAX]) } else { 1_700_000_000 + s.draw(1 << 30) as i64 };
        s.end();
        let Some((ix, through)) = g else { continue };
        vm::set_clock(t);
        vm::set_stack_height(1);
        if !through {
            // straight to the asset program, without the proxy
            let pda = ix.metas.first().map_or(false, |x| ks.pda.contains(&x.key));
            let r = vm::run_asset(&w, &ix, 0);
            c.evals += 1;
            let proxied = pda && AssetM::parse(&w.get(&ix.metas[0].key).data).map_or(false, |a| a.disc == 1 && a.standard == 3);
            if proxied {
                c.label("direct call");
                c.nontrivial.push(pbt::hash_bytes(&ix.data) ^ pbt::hash_bytes(&w.get(&ix.metas[0].key).data));
                if r.is_ok() {
                    c.fail(format!("{}: the asset program performed it on a proxied asset without the proxy", show(&ix, 1)));
                    return;
                }
            }
            if let Ok(n) = r {
                w = n;
            }
            continue;
        }
        let first = ix.metas.first().map(|x| x.key).unwrap_or_default();
        pbt::set_phase(0);
        let got = program().exec(&w, &ix, &proxy_id(), true);
        c.evals += 1;
        let rgb = got.as_ref().ok().and_then(|n| colour(n, &first));
        let mut wanted = want(&w, &ix, rgb);
        if let Want::Done(n) | Want::Either(n) = &wanted {
            // rent is settled at the end of the transaction
            let short = ix.metas.iter().any(|x| {
                let (o, a) = (w.get(&x.key), n.get(&x.key));
                a != o && a.lamports > 0 && a.lamports < vm::rent(a.data.len()) && (o.lamports >= vm::rent(o.data.len()) || o.lamports == 0)
            });
            if short {
                wanted = Want::Refused("an account is left below the rent exemption");
            }
        }
        let name = if ix.data.first() == Some(&0) && ix.data.len() > 1 { "Create (proxy)" } else { OP_NAMES.get(*ix.data.first().unwrap_or(&255) as usize).copied().unwrap_or("?") };
        c.log(|| {
            format!(
                "proxy {name} {} => {}",
                show(&ix, 1),
                match (&wanted, &got) {
                    (Want::Refused(x), Err(_)) => format!("rejected ({x})"),
                    (_, Err(f)) => format!("rejected ({})", fail_text(f)),
                    (_, Ok(_)) => "ok".into(),
                }
            )
        });
        c.label(match &wanted {
            Want::Refused(x) => format!("{name}: refused: {x}"),
            _ => format!("{name}: performed"),
        });
        if !matches!(wanted, Want::Refused("missing accounts" | "no proxy data" | "no accounts" | "no data" | "unknown instruction")) {
            let mut h = pbt::hash_bytes(&ix.data);
            for x in &ix.metas {
                h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ x.signer as u64 ^ pbt::hash_bytes(&w.get(&x.key).data));
            }
            c.nontrivial.push(h);
        }
        match (wanted, got) {
            (Want::Refused(_), Err(_)) | (Want::Either(_), Err(_)) => {}
            (Want::Refused(e), Ok(_)) => return c.fail(format!("proxy {name} {}: accepted but it has to be refused: {e}", show(&ix, 1))),
            (Want::Done(_), Err(f)) => return c.fail(format!("proxy {name} {}: refused ({}) but it has to succeed", show(&ix, 1), fail_text(&f))),
            (Want::Done(e) | Want::Either(e), Ok(n)) => {
                if let Some(d) = differ(&e, &n) {
                    return c.fail(format!("proxy {name} {}: {d}", show(&ix, 1)));
                }
                w = n;
            }
        }
    }
}

/// first difference between two worlds, ignoring vanished accounts
pub fn differ(a: &World, b: &World) -> Option<String> {
    let (mut a, mut b) = (a.clone(), b.clone());
    a.purge();
    b.purge();
    for k in a.accts.keys().chain(b.accts.keys()) {
        let (x, y) = (a.get(k), b.get(k));
        if x == y {
            continue;
        }
        let n = name_of(k);
        if x.lamports != y.lamports {
            return Some(format!("{n}: balance {} instead of {}", y.lamports, x.lamports));
        }
        if x.owner != y.owner {
            return Some(format!("{n}: owned by {} instead of {}", y.owner, x.owner));
        }
        return Some(match (AssetM::parse(&x.data), AssetM::parse(&y.data)) {
            (Ok(p), Ok(q)) => {
                if let Some(e) = p.exts.iter().find(|e| q.ext(e.ty) != Some(e)) {
                    format!("{n}: extension {} is {:?} instead of {:?}", e.ty, q.ext(e.ty).map(|x| String::from_utf8_lossy(&x.data).into_owned()), String::from_utf8_lossy(&e.data))
                } else {
                    let i = x.data.iter().zip(&y.data).position(|(a, b)| a != b).unwrap_or(x.data.len().min(y.data.len()));
                    let j = i.saturating_sub(24);
                    let around = |d: &[u8]| format!("{} bytes, {:?}", d.len(), &d[j..d.len().min(i + 24)]);
                    format!("{n}: account differs at byte {i}: from {j} {} instead of {}", around(&y.data), around(&x.data))
                }
            }
            _ => format!("{n}: data differs ({} bytes instead of {})", y.data.len(), x.data.len()),
        });
    }
    None
}
