//! Model-based histories: generated instruction sequences are run against the real program and
//! against the reference model; any difference is classified and handed to the property's concern.

use crate::gen::*;
use crate::model::*;
use pbt::{Case, Source};
use solana_program::pubkey::Pubkey;
use vm::{Fail, Ix, World};

pub struct Step<'a> {
    pub pre: &'a World,
    pub ix: &'a Ix,
    pub op: Option<&'a Op>,
    pub height: u64,
    pub expect: &'a Expect,
    pub result: &'a Result<World, Fail>,
}

impl Step<'_> {
    pub fn disc(&self) -> u8 {
        self.ix.data.first().copied().unwrap_or(255)
    }
    pub fn is(&self, d: &[u8]) -> bool {
        d.contains(&self.disc())
    }
    pub fn reason(&self) -> &'static str {
        match self.expect {
            Expect::Err(e) => e,
            _ => "",
        }
    }
    /// decoded first account before the step
    pub fn subject(&self) -> Option<AssetM> {
        let k = self.ix.metas.first()?.key;
        let a = self.pre.get(&k);
        if a.owner != PROGRAM {
            return None;
        }
        AssetM::parse(&a.data).ok()
    }
    pub fn accepted(&self) -> bool {
        self.result.is_ok()
    }
    pub fn must_succeed(&self) -> bool {
        matches!(self.expect, Expect::Ok(_))
    }
}

pub struct Profile {
    pub knobs: Knobs,
    /// which differences break this property
    pub concern: fn(&Step, &Mismatch) -> bool,
    /// which parts of an existing asset no instruction that has to be rejected may change
    pub undue: fn(Aspect) -> bool,
    /// which steps count as exercising it
    pub relevant: fn(&Step) -> bool,
    /// an extra check on the state after every accepted step
    pub after: Option<fn(&Step, &World) -> Option<String>>,
}

pub fn fail_text(f: &Fail) -> String {
    match f {
        Fail::Program(c) => format!("error code {c:#x}"),
        Fail::Panic(m) => format!("panic {m}"),
        Fail::Cpi(m) => format!("cpi {m}"),
        Fail::Runtime(m) => format!("runtime {m}"),
    }
}

/// Runs one instruction on both sides.
pub fn both(w: &World, ix: &Ix, height: u64, skew: usize) -> (Expect, Result<World, Fail>, Vec<Mismatch>) {
    let e = expect(w, ix, height);
    vm::set_stack_height(height);
    pbt::set_phase(if matches!(e, Expect::Ok(_)) { 2 } else { 1 });
    let r = vm::run_asset(w, ix, skew);
    pbt::set_phase(0);
    let mut mm = vec![];
    match (&e, &r) {
        (Expect::Ok(o), Ok(got)) | (Expect::Open(o), Ok(got)) => mm = compare(o, got, &|k| name_of(k)),
        (Expect::Ok(_), Err(f)) => {
            mm.push(Mismatch { aspect: Aspect::Rejected, what: format!("rejected ({}) but it has to succeed", fail_text(f)) })
        }
        (Expect::Err(why), Ok(_)) => {
            mm.push(Mismatch { aspect: Aspect::Accepted, what: format!("accepted but it has to be rejected: {why}") })
        }
        _ => {}
    }
    (e, r, mm)
}

pub fn gen_ix(s: &mut Source, w: &World, kn: &Knobs) -> Option<(Ix, &'static str)> {
    let (op, metas) = gen_op(s, w, kn)?;
    let mut ix = Ix { metas, data: op.encode() };
    let mut how = "";
    if s.chance(kn.forged, 100) {
        forge(s, w, &mut ix);
    }
    if s.chance(kn.perturb, 100) {
        how = perturb(s, &mut ix);
        if s.chance(1, 4) {
            perturb(s, &mut ix);
        }
    }
    Some((ix, how))
}

pub fn describe(w: &World, c: &mut Case) {
    if !c.tracing {
        return;
    }
    for (k, a) in view(w).assets {
        let e: Vec<String> = a.exts.iter().map(|e| format!("{}:{}", e.ty, e.length)).collect();
        let d = a.delegate.map(|(k, r)| format!("{}/{:03b}", name_of(&k), r)).unwrap_or("-".into());
        let g = a.grouping().map(|g| format!(" size {} max {} gdel {:?}", g.size, g.max, g.delegate.map(|k| name_of(&k)))).unwrap_or_default();
        let mg = a.manager().map(|(k, r)| format!(" manager {}/{:03b}", name_of(&k), r)).unwrap_or_default();
        c.log(|| {
            format!(
                "{}: owner {} auth {} deleg {d} group {:?} std {} lock {} mut {} exts [{}] len {}{g}{mg}",
                name_of(&k),
                name_of(&a.owner),
                name_of(&a.authority),
                a.group.map(|k| name_of(&k)),
                a.standard,
                a.state,
                a.mutable,
                e.join(" "),
                a.len,
            )
        });
    }
    for (k, a) in view(w).buffers {
        let e: Vec<String> = a.exts.iter().map(|e| format!("{}:{}/{}", e.ty, e.data.len(), e.length)).collect();
        c.log(|| format!("{}: buffer [{}] len {}", name_of(&k), e.join(" "), a.len));
    }
}

pub fn history(p: &Profile, s: &mut Source, c: &mut Case) {
    let mut w = gen_world(s, &p.knobs);
    describe(&w, c);
    let n = s.range(1, p.knobs.steps);
    for _ in 0..n {
        s.begin();
        let g = gen_ix(s, &w, &p.knobs);
        let height = if s.chance(p.knobs.cpi, 100) { 2 + s.draw(3) } else { 1 };
        let skew = s.us(8);
        s.end();
        let Some((ix, _)) = g else { continue };
        if let Some(next) = one(p, &w, &ix, height, skew, c) {
            w = next;
        }
        if c.failed() {
            return;
        }
    }
}

/// One checked step; returns the next world.
pub fn one(p: &Profile, w: &World, ix: &Ix, height: u64, skew: usize, c: &mut Case) -> Option<World> {
    let (e, r, mm) = both(w, ix, height, skew);
    c.evals += 1;
    let op = Op::decode(&ix.data);
    let st = Step { pre: w, ix, op: op.as_ref(), height, expect: &e, result: &r };
    c.log(|| {
        format!(
            "{} => {}",
            show(ix, height),
            match (&e, &r) {
                (Expect::Err(x), Err(_)) => format!("rejected ({x})"),
                (_, Err(f)) => format!("rejected ({})", fail_text(f)),
                (_, Ok(_)) => "ok".to_string(),
            }
        )
    });
    if (p.relevant)(&st) {
        let name = OP_NAMES.get(st.disc() as usize).copied().unwrap_or("?");
        c.label(match (&e, &r) {
            (Expect::Err(x), _) => format!("{name}: refused: {x}"),
            (_, Ok(_)) => format!("{name}: performed"),
            _ => format!("{name}: left open"),
        });
        let mut h = pbt::hash_bytes(&ix.data) ^ pbt::mix(height);
        for mt in &ix.metas {
            let a = w.get(&mt.key);
            h = pbt::mix(h ^ pbt::hash_bytes(mt.key.as_ref()) ^ (mt.signer as u64) << 1 ^ (mt.writable as u64));
            h = pbt::mix(h ^ pbt::hash_bytes(&a.data) ^ a.lamports);
        }
        c.nontrivial.push(h);
    }
    for x in &mm {
        if (p.concern)(&st, x) {
            c.fail(format!("{}: {}", show(ix, height), x.what));
            return None;
        }
    }
    if let (Expect::Err(why), Ok(got)) = (&e, &r) {
        for x in changes(w, got) {
            if (p.undue)(x.aspect) {
                c.fail(format!("{}: changed by an instruction that has to be rejected ({why}): {}", show(ix, height), x.what));
                return None;
            }
        }
    }
    let next = r.as_ref().ok()?;
    if let Some(f) = p.after {
        if let Some(m) = f(&st, next) {
            c.fail(format!("{}: {m}", show(ix, height)));
            return None;
        }
    }
    // the history goes on from the state the program produced, unless that state already differs
    // from the specified one in a way that is another property's concern
    if mm.is_empty() {
        Some(next.clone())
    } else if let Expect::Ok(o) | Expect::Open(o) = &e {
        c.label("resynchronised");
        Some(o.world.clone())
    } else {
        c.label("resynchronised");
        None
    }
}

/// What an accepted instruction changed on assets that existed before it.
fn changes(pre: &World, got: &World) -> Vec<Mismatch> {
    let mut old = pre.clone();
    old.accts.retain(|_, a| a.owner == PROGRAM && a.data.len() >= ASSET_LEN && a.data[0] == 1);
    let mut new = got.clone();
    new.accts.retain(|k, _| old.accts.contains_key(k));
    compare(&Out { world: old, unordered: vec![], buffer: None }, &new, &|k| name_of(k))
}

pub fn key_of(ix: &Ix, i: usize) -> Option<Pubkey> {
    ix.metas.get(i).map(|m| m.key)
}
