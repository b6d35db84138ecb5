//! C18: the mint helper, the allocation macros and the JSON extension values.

use crate::client::{native, type_of};
use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use crate::proxy::{callees, differ};
use nifty_asset::{allocate_and_write, allocate_instruction_data, allocate_update_data_length};
use nifty_asset::{AssetArgs, ExtensionArgs, ExtensionValue, JsonCreator, JsonExtension, MintAccounts, MintIxArgs};
use pbt::{Case, Source};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use vm::{rent, Acct, Fail, Ix, Meta, World, SYSTEM};

fn none() -> Meta {
    m(PROGRAM, false, false)
}
pub fn sys() -> Meta {
    m(SYSTEM, false, false)
}

/// lengths around the limits the helpers split at, and anything in between
pub fn size(s: &mut Source, max: usize) -> usize {
    let n = match s.weighted(&[4, 3, 3, 3, 3, 2, 2]) {
        0 => s.us(64),
        1 => s.us(1300),
        2 => s.range(905, 935),
        3 => 920 + 925 * s.range(1, 4) + s.us(5) - 2,
        4 => 1163 + 1168 * s.us(4) + s.us(13) - 6,
        5 => s.us(max),
        _ => s.range(1140, 1190),
    };
    n.min(max)
}

pub fn world() -> World {
    let mut w = World::default();
    for x in keys().wallet {
        w.put(x, Acct { lamports: 100_000_000_000, owner: SYSTEM, data: vec![], executable: false });
    }
    w
}

/// extensions as (type, content)
pub fn extensions(s: &mut Source, key: Pubkey, max: usize) -> Vec<(u32, Vec<u8>)> {
    let mut v: Vec<(u32, Vec<u8>)> = vec![];
    let many = s.chance(1, 25);
    let n = if many { s.range(8, 11) } else { s.weighted(&[1, 4, 4, 3, 2]) };
    let first = s.us(11);
    for i in 0..n {
        let ty = if many { 1 + (first + i) % 11 } else { s.range(1, 11) } as u32;
        if v.iter().any(|e| e.0 == ty) && !s.chance(1, 12) {
            continue;
        }
        let junk = if s.chance(1, 10) { 40 } else { 0 };
        let mut d = gen_content(s, ty, &Ctx { key, cur: None, junk, synth: false });
        match ty {
            BLOB | BUCKET if s.chance(3, 4) => {
                let n = size(s, max);
                if ty == BLOB {
                    let k = d.first().map_or(0, |x| 1 + *x as usize);
                    d.truncate(k);
                } else {
                    d.clear();
                }
                let have = d.len().min(n);
                let b = s.blob(n - have);
                d.extend(b);
            }
            ATTRIBUTES | LINKS if s.chance(1, 3) => {
                let n = size(s, max);
                d.clear();
                while d.len() + 4 < n {
                    let t: String = (0..(n - d.len() - 3).min(200)).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                    push_str(&mut d, "k");
                    push_str(&mut d, &t);
                }
            }
            _ => {}
        }
        v.push((ty, d));
    }
    v
}

/// size of a transaction carrying just this instruction
fn tx_size(ix: &Instruction, payer: &Pubkey) -> usize {
    let mut keys = vec![*payer];
    let mut signers = vec![*payer];
    for a in &ix.accounts {
        if !keys.contains(&a.pubkey) {
            keys.push(a.pubkey);
        }
        if a.is_signer && !signers.contains(&a.pubkey) {
            signers.push(a.pubkey);
        }
    }
    if !keys.contains(&ix.program_id) {
        keys.push(ix.program_id);
    }
    let short = |n: usize| if n < 0x80 { 1 } else if n < 0x4000 { 2 } else { 3 };
    short(signers.len()) + 64 * signers.len() + 3 + short(keys.len()) + 32 * keys.len() + 32 + 1 + 1 + short(ix.accounts.len()) + ix.accounts.len() + short(ix.data.len()) + ix.data.len()
}

/// what the reference model makes of a list of instructions
pub enum Ref {
    Done(World),
    /// not specified whether it is accepted
    Open(World),
    Refused(&'static str),
}
pub fn reference(w: &World, ixs: &[Ix], height: u64) -> Ref {
    let (mut w, mut open) = (w.clone(), false);
    for ix in ixs {
        match expect(&w, ix, height) {
            Expect::Ok(o) => w = o.world,
            Expect::Open(o) => {
                open = true;
                w = o.world
            }
            Expect::Err(e) => return Ref::Refused(e),
        }
    }
    if open {
        Ref::Open(w)
    } else {
        Ref::Done(w)
    }
}

/// allocation of one extension in pieces of 5000 bytes
pub fn plain(asset: Meta, payer: Meta, ty: u32, d: &[u8]) -> Vec<Ix> {
    let first = d.len().min(5000);
    let mut v = vec![Ix {
        metas: vec![asset, payer, sys()],
        data: Op::Allocate(ExtIn { ty: ty as u8, length: d.len() as u32, data: Some(d[..first].to_vec()) }).encode(),
    }];
    for c in d[first..].chunks(5000) {
        v.push(Ix { metas: vec![asset, payer, sys()], data: Op::Write { overwrite: false, bytes: c.to_vec() }.encode() });
    }
    v
}

/// An extension given with all of its data by one instruction.
pub fn whole(asset: Meta, payer: Meta, ty: u32, d: &[u8]) -> Ix {
    part(asset, payer, ty, d, d.len())
}

/// An extension given with the first of its data.
pub fn part(asset: Meta, payer: Meta, ty: u32, d: &[u8], length: usize) -> Ix {
    Ix { metas: vec![asset, payer, sys()], data: Op::Allocate(ExtIn { ty: ty as u8, length: length as u32, data: Some(d.to_vec()) }).encode() }
}

pub fn mint(s: &mut Source, c: &mut Case) {
    let ks = keys();
    let w = world();
    let asset = *s.pick(&ks.asset);
    let owner = *s.pick(&ks.wallet);
    let payer = if s.chance(1, 3) { None } else { Some(*s.pick(&ks.wallet)) };
    let who = payer.unwrap_or(owner);
    let name = gen_name(s);
    let mutable = s.bool();
    let exts = extensions(s, asset, 12_000);
    let mut standard = s.weighted(&[6, 2, 2, 1]) as u8;
    if exts.iter().any(|e| e.0 == MANAGER) && s.chance(7, 8) {
        standard = 1;
    }
    let args = MintIxArgs {
        accounts: MintAccounts { asset, owner, payer },
        asset_args: AssetArgs { name: name.clone(), standard: crate::client::standard_of(standard), mutable },
        extension_args: exts.iter().map(|(t, d)| ExtensionArgs { extension_type: type_of(*t as u8), data: d.clone() }).collect(),
    };
    c.log(|| format!("mint {asset} for {} paid by {}: {name:?} standard {standard} mutable {mutable} extensions {:?}", name_of(&owner), name_of(&who), exts.iter().map(|e| (e.0, e.1.len())).collect::<Vec<_>>()));
    c.evals += 1;
    let ixs = match pbt::guard(|| nifty_asset::mint(args)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => return c.fail(format!("mint refuses: {e}")),
        Err(e) => return c.fail(format!("mint panics: {e}")),
    };
    let mut want: Vec<Ix> = vec![];
    let (a, p) = (m(asset, true, true), m(who, true, true));
    for (t, d) in &exts {
        want.extend(plain(a, p, *t, d));
    }
    want.push(Ix {
        metas: vec![a, m(owner, false, false), m(owner, false, false), none(), none(), p, sys()],
        data: Op::Create { name, standard, mutable, exts: None }.encode(),
    });
    let want = reference(&w, &want, 1);
    let mut h = 0;
    for (i, ix) in ixs.iter().enumerate() {
        h = pbt::mix(h ^ pbt::hash_bytes(&ix.data));
        let n = tx_size(ix, &who);
        if n > 1232 {
            return c.fail(format!("instruction {i} of {} needs a transaction of {n} bytes", ixs.len()));
        }
    }
    c.nontrivial.push(h);
    vm::set_stack_height(1);
    let mut got: Result<World, (usize, Fail)> = Ok(w.clone());
    for (i, ix) in ixs.iter().enumerate() {
        if ix.program_id != PROGRAM {
            return c.fail(format!("instruction {i} addresses {}", ix.program_id));
        }
        let x = Ix { metas: ix.accounts.iter().map(|a| m(a.pubkey, a.is_signer, a.is_writable)).collect(), data: ix.data.clone() };
        if let Some(b) = x.metas.iter().find(|x| x.signer && x.key != asset && x.key != who) {
            return c.fail(format!("instruction {i} needs the signature of {}", name_of(&b.key)));
        }
        pbt::set_phase(if matches!(want, Ref::Done(_)) { 2 } else { 1 });
        let r = vm::run_asset(got.as_ref().unwrap(), &x, 0);
        pbt::set_phase(0);
        match r {
            Ok(n) => got = Ok(n),
            Err(f) => {
                got = Err((i, f));
                break;
            }
        }
    }
    let pieces = ixs.len() - 1 - exts.len().min(ixs.len() - 1);
    match (&want, &got) {
        (Ref::Done(x) | Ref::Open(x), Ok(y)) => {
            c.label(format!("minted with {} extensions and {} more writes", exts.len(), if pieces == 0 { "no" } else if pieces < 5 { "a few" } else { "many" }));
            if let Some(e) = differ(x, y) {
                c.fail(format!("the asset minted is not the one described: {e}"));
            }
        }
        (Ref::Done(_), Err((i, f))) => c.fail(format!("instruction {i} of {} is rejected: {}", ixs.len(), fail_text(f))),
        (Ref::Refused(e), Ok(_)) => c.fail(format!("minted although the asset described is not valid: {e}")),
        (Ref::Refused(e), Err(_)) => c.label(format!("refused: {e}")),
        _ => c.label("left open"),
    }
}

fn forward(infos: &[AccountInfo<'static>], ty: u8, d: &[u8], seeds: Option<&[&[&[u8]]]>) -> solana_program::entrypoint::ProgramResult {
    let (program, asset, payer, system) = (&infos[0], &infos[1], &infos[2], &infos[3]);
    match seeds {
        Some(seeds) => allocate_and_write!(program, asset, payer, system, type_of(ty), d, seeds),
        None => allocate_and_write!(program, asset, payer, system, type_of(ty), d),
    }
    Ok(())
}

pub fn macros(s: &mut Source, c: &mut Case) {
    callees();
    let ks = keys();
    let w = world();
    let pda = s.chance(1, 2);
    let slot = s.us(2);
    let asset = if pda { ks.pda[slot] } else { *s.pick(&ks.asset) };
    let payer = *s.pick(&ks.wallet);
    let style = s.us(4);
    let optional = style != 0 && s.chance(1, 5);
    let exts = extensions(s, asset, 4_500);
    let mut w = w;
    let mut asset_w = Acct::default();
    if optional {
        // nothing to pay: the account exists and holds enough
        asset_w = Acct { lamports: rent(200_000), owner: PROGRAM, data: vec![0; ASSET_LEN], executable: false };
        w.put(asset, asset_w.clone());
    }
    let _ = asset_w;
    let (a, p) = (m(asset, true, true), m(payer, true, true));
    let mut list: Vec<Ix> = vec![];
    let mut done: Vec<(u32, Vec<u8>)> = vec![];
    let mut total = 0;
    for (t, d) in exts {
        total += d.len() + 64;
        if total > 9_500 {
            break;
        }
        let payer = if optional { none() } else { p };
        // a single instruction carries everything, however much it is
        let q = if style == 0 { plain(a, payer, t, &d) } else { vec![whole(a, payer, t, &d)] };
        list.extend(q.into_iter().map(|mut x| {
            if optional {
                x.metas[2] = none();
            }
            x
        }));
        done.push((t, d));
    }
    if done.is_empty() || (optional && done.iter().any(|e| e.1.len() > 5000)) {
        return;
    }
    // the last one may announce more than it brings
    let mut announced = done[done.len() - 1].1.len();
    if style == 1 && s.chance(1, 4) {
        announced += if s.bool() { s.range(1, 40) } else { s.range(200, 140_000) };
        let (t, d) = &done[done.len() - 1];
        let i = list.len() - 1;
        list[i].data = part(a, p, *t, d, announced).data;
    }
    c.evals += 1;
    c.log(|| format!("style {style} asset {} payer {} optional {optional} extensions {:?}", name_of(&asset), name_of(&payer), done.iter().map(|e| (e.0, e.1.len())).collect::<Vec<_>>()));
    c.nontrivial.push(done.iter().fold(pbt::mix(style as u64 * 4 + pda as u64 * 2 + optional as u64), |h, e| pbt::mix(h ^ pbt::hash_bytes(&e.1) ^ e.0 as u64)));
    let want = reference(&w, &list, 2);
    let bump = [ks.bump[slot]];
    let sd: [&[u8]; 2] = [ks.stub[slot].as_ref(), &bump];
    let seeds: [&[&[u8]]; 1] = [&sd];
    let metas = [none(), m(asset, !pda, true), p, sys()];
    vm::set_stack_height(1);
    pbt::set_phase(if matches!(want, Ref::Done(_)) { 2 } else { 1 });
    let r = native(&w, &metas, &ks.prog[0], &|infos| {
        for (i, (t, d)) in done.iter().enumerate() {
            let ty = *t as u8;
            let sg: Option<&[&[&[u8]]]> = if pda { Some(&seeds) } else { None };
            if style == 0 {
                forward(infos, ty, d, sg)?;
                continue;
            }
            #[allow(unused_mut, unused_assignments)]
            let data = match style {
                1 => allocate_instruction_data!(type_of(ty), if i + 1 == done.len() { announced } else { d.len() }, d),
                2 => {
                    let mut x = allocate_instruction_data!(type_of(ty), d.len());
                    x.extend_from_slice(d);
                    x
                }
                _ => {
                    let mut x = allocate_instruction_data!(type_of(ty), 7);
                    x.extend_from_slice(d);
                    allocate_update_data_length!(d.len(), x);
                    x
                }
            };
            let accounts = nifty_asset::instructions::AllocateCpiAccounts {
                asset: &infos[1],
                payer: if optional { None } else { Some(&infos[2]) },
                system_program: if optional { None } else { Some(&infos[3]) },
            };
            match sg {
                Some(s) => accounts.invoke_signed(&infos[0], data, s)?,
                None => accounts.invoke(&infos[0], data)?,
            }
        }
        Ok(())
    });
    pbt::set_phase(0);
    // data that is completed by a further write is checked then: bad data may be refused
    let bad = style == 0 && done.iter().any(|(t, d)| on_create(*t, d, None) != Content::Ok(d.clone()));
    match (&want, &r) {
        _ if bad => c.label("style 0: bad data"),
        (Ref::Done(x) | Ref::Open(x), Ok(y)) => {
            c.label(format!("style {style}: {} extensions", done.len()));
            if let Some(e) = differ(x, y) {
                c.fail(format!("the data did not arrive as given: {e}"));
            }
        }
        (Ref::Done(_), Err(f)) => c.fail(format!("the helper fails: {}", fail_text(f))),
        (Ref::Refused(e), Ok(_)) => c.fail(format!("accepted although it has to be rejected: {e}")),
        (Ref::Refused(e), Err(_)) => c.label(format!("refused: {e}")),
        _ => c.label("left open"),
    }
}

fn jtext(t: &str) -> String {
    serde_json::to_string(t).unwrap()
}

/// Extension values as they appear in an asset file.
pub fn json(s: &mut Source, c: &mut Case) {
    let ks = keys();
    c.evals += 1;
    let mut path = None;
    let kind = s.weighted(&[3, 3, 3, 1, 3, 3]);
    let (ty, name, text, want) = match kind {
        0 => {
            let n = s.us(5);
            let mut items = vec![];
            let mut want = vec![];
            for _ in 0..n {
                let (k, v, share) = (any_key(s), s.bool(), s.draw(256) as u8);
                items.push(format!("{{\"address\":\"{k}\",\"verified\":{v},\"share\":{share}}}"));
                want.extend_from_slice(k.as_ref());
                want.push(v as u8);
                want.push(share);
                let j = JsonCreator::from_data(&want[want.len() - 34..]);
                if j != (JsonCreator { address: k, verified: v, share }) {
                    return c.fail(format!("creator {k}/{v}/{share} reads back as {j:?}"));
                }
            }
            (CREATORS, "Creators", format!("[{}]", items.join(",")), want)
        }
        1 | 2 => {
            let mut items = vec![];
            let mut want = vec![];
            let second = if kind == 1 { "value" } else { "uri" };
            for _ in 0..s.us(5) {
                let (a, b) = (text_(s), text_(s));
                items.push(format!("{{\"name\":{},\"{second}\":{}}}", jtext(&a), jtext(&b)));
                push_str(&mut want, &a);
                push_str(&mut want, &b);
            }
            (if kind == 1 { ATTRIBUTES } else { LINKS }, if kind == 1 { "Attributes" } else { "Links" }, format!("[{}]", items.join(",")), want)
        }
        3 => {
            let t = text_(s);
            let n = size(s, 3000);
            let b = s.blob(n);
            let p = std::env::temp_dir().join(format!("vp-c18-{}-{:?}", std::process::id(), std::thread::current().id()));
            std::fs::write(&p, &b).expect("scratch file");
            let mut want = vec![];
            push_str(&mut want, &t);
            want.extend(b);
            let text = format!("{{\"content_type\":{},\"path\":{}}}", jtext(&t), jtext(p.to_str().unwrap()));
            path = Some(p);
            (BLOB, "Blob", text, want)
        }
        4 => {
            let (a, b, d) = (text_(s), text_(s), text_(s));
            let mut want = vec![];
            for t in [&a, &b, &d] {
                push_str(&mut want, t);
            }
            (METADATA, "Metadata", format!("{{\"symbol\":{},\"description\":{},\"uri\":{}}}", jtext(&a), jtext(&b), jtext(&d)), want)
        }
        _ => {
            let bp = s.u64_any();
            let deny = s.bool();
            let items: Vec<Pubkey> = (0..s.us(6)).map(|_| *s.pick(&ks.wallet)).collect();
            let list = items.iter().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(",");
            let mut want = bp.to_le_bytes().to_vec();
            let inner = if deny { Cons::OwnedBy(0, items) } else { Cons::Match(0, items) };
            want.extend(if deny { Cons::Not(Box::new(inner), true) } else { inner }.encode());
            (ROYALTIES, "Royalties", format!("{{\"kind\":\"{}\",\"basis_points\":{bp},\"items\":[{list}]}}", if deny { "Denylist" } else { "Allowlist" }), want)
        }
    };
    let text = format!("{{\"extension_type\":\"{name}\",\"value\":{text}}}");
    c.log(|| text.clone());
    c.label(name);
    c.nontrivial.push(pbt::hash_bytes(text.as_bytes()));
    // the whole asset file around it
    let (fname, std, mutable, owner) = (text_(s), s.us(4), s.bool(), any_key(s));
    let stds = ["NonFungible", "Managed", "Soulbound", "Proxied"];
    let keypair = s.bool().then(|| text_(s));
    let file = format!(
        "{{\"name\":{},\"standard\":\"{}\",\"mutable\":{mutable},\"extensions\":[{text}],\"owner\":\"{owner}\",\"asset_keypair_path\":{}}}",
        jtext(&fname),
        stds[std],
        keypair.as_ref().map_or("null".into(), |p| jtext(p))
    );
    let r = pbt::guard(|| -> Result<(u8, Vec<u8>, String), String> {
        let f: nifty_asset::AssetFile = serde_json::from_str(&file).map_err(|e| format!("asset file {file}: {e}"))?;
        let g: nifty_asset::AssetFile = serde_json::from_str(&serde_json::to_string(&f).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        let same = f.name == fname
            && f.standard as usize == std
            && f.mutable == mutable
            && f.owner == owner
            && f.extensions.len() == 1
            && f.asset_keypair_path.as_ref().map(|p| p.to_string_lossy().to_string()) == keypair;
        if !same || f != g {
            return Err(format!("the asset file {file} reads as {f:?}, written and read again {g:?}"));
        }
        let e: JsonExtension = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let back = serde_json::to_string(&e).map_err(|e| e.to_string())?;
        let again: JsonExtension = serde_json::from_str(&back).map_err(|e| e.to_string())?;
        let v: ExtensionValue = again.value;
        let (a, b) = (e.value.into_data(), v.into_data());
        if a != b {
            return Err("written and read again it yields other bytes".into());
        }
        Ok((e.extension_type as u8, a, back))
    });
    if let Some(p) = path {
        std::fs::remove_file(&p).ok();
    }
    match r {
        Ok(Ok((t, got, _))) => {
            // metadata may or may not spell out its empty image
            let alt = [&want[..], &[0]].concat();
            if t as u32 != ty || !(got == want || (ty == METADATA && got == alt)) {
                c.fail(format!("{text} yields type {t} {} instead of type {ty} {}", short(&got), short(&want)));
            }
        }
        Ok(Err(e)) | Err(e) => c.fail(format!("{text}: {e}")),
    }
}

fn text_(s: &mut Source) -> String {
    text(s)
}
