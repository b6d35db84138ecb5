//! C19: what the Rust clients decode from accounts.

use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use borsh::{BorshDeserialize, BorshSerialize};
use nifty_asset::types as ct;
use nifty_asset_types::podded::ZeroCopy;
use nifty_asset_types::state::{Asset, DelegateRole};
use pbt::{Case, Source};
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

fn client(key: &Pubkey, d: &[u8], by_info: bool) -> Result<nifty_asset::Asset, String> {
    let r = pbt::guard(|| {
        if by_info {
            let (mut l, mut d, owner) = (1u64, d.to_vec(), PROGRAM);
            let i = AccountInfo::new(key, false, false, &mut l, &mut d, &owner, false, 0);
            nifty_asset::Asset::try_from(&i).map_err(|e| e.to_string())
        } else {
            nifty_asset::Asset::from_bytes(d).map_err(|e| e.to_string())
        }
    });
    match r {
        Ok(x) => x,
        Err(e) => Err(format!("panic {e}")),
    }
}

fn roles(v: &[DelegateRole]) -> Result<u8, String> {
    let mut r = 0;
    for x in v {
        let b = match x {
            DelegateRole::None => 0,
            DelegateRole::Transfer => TRANSFER,
            DelegateRole::Lock => LOCK,
            DelegateRole::Burn => BURN,
        };
        if b != 0 && r & b != 0 {
            return Err("a role appears twice".into());
        }
        r |= b;
    }
    if v.contains(&DelegateRole::None) && r != 0 {
        return Err("no role and some role".into());
    }
    Ok(r)
}

fn header(d: &[u8], a: &AssetM, x: &nifty_asset::Asset) -> Option<String> {
    let say = |what: &str, got: String, want: String| if got == want { None } else { Some(format!("{what} {got} instead of {want}")) };
    let r = match roles(&x.delegate.roles.to_vec()) {
        Ok(r) => r,
        Err(e) => return Some(e),
    };
    let dl = x.delegate.address.to_option().map(|k| (k, r));
    say("discriminator", format!("{:?}", x.discriminator), if a.disc == 1 { "Asset" } else { "Uninitialized" }.into())
        .or_else(|| say("state", format!("{:?}", x.state), ["Unlocked", "Locked"][a.state as usize].into()))
        .or_else(|| say("standard", format!("{:?}", x.standard), ["NonFungible", "Managed", "Soulbound", "Proxied"][a.standard as usize].into()))
        .or_else(|| say("mutable", format!("{}", x.mutable), format!("{}", a.mutable)))
        .or_else(|| say("owner", format!("{}", x.owner), format!("{}", a.owner)))
        .or_else(|| say("group", format!("{:?}", x.group.to_option()), format!("{:?}", a.group)))
        .or_else(|| say("authority", format!("{}", x.authority), format!("{}", a.authority)))
        .or_else(|| say("delegate", format!("{dl:?}"), format!("{:?}", a.delegate.map(|(k, r)| (k, r & 7)))))
        .or_else(|| say("name", format!("{:?}", x.name), format!("{:?}", a.name)))
        .or_else(|| say("bytes when written again", format!("{:?}", x.try_to_vec().ok()), format!("{:?}", Some(d[..ASSET_LEN].to_vec()))))
}

/// The asset as the program's own library sees it.
fn program_view(d: &[u8], x: &nifty_asset::Asset) -> Option<String> {
    // the library reads eight-byte aligned memory
    let mut buf = vec![0u64; d.len() / 8 + 1];
    let b = unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, d.len()) };
    b.copy_from_slice(d);
    let a = Asset::load(&b[..ASSET_LEN]);
    let end = x.name.iter().position(|c| *c == 0).unwrap_or(35);
    let utf8 = std::str::from_utf8(&x.name[..end]).is_ok();
    let deleg: Option<(Pubkey, u8)> = a.delegate.value().map(|d| (*d.address, d.roles));
    let mine = (
        a.discriminator as u8,
        a.state as u8,
        a.standard as u8,
        bool::from(a.mutable),
        a.owner,
        a.group.value().map(|g| **g),
        a.authority,
        deleg.map(|(k, r)| (k, r & 7)),
        if utf8 { (*a.name).to_string() } else { String::new() },
    );
    let r = roles(&x.delegate.roles.to_vec()).unwrap_or(255);
    let name = String::from_utf8_lossy(&x.name[..end]).into_owned();
    let theirs = (x.discriminator.clone() as u8, x.state as u8, x.standard as u8, x.mutable, x.owner, x.group.to_option(), x.authority, x.delegate.address.to_option().map(|k| (k, r)), name);
    if (mine.0, mine.1, mine.2, mine.3, mine.4, mine.5, mine.6, mine.7) != (theirs.0, theirs.1, theirs.2, theirs.3, theirs.4, theirs.5, theirs.6, theirs.7) {
        return Some(format!("the client sees {theirs:?}, the program {mine:?}"));
    }
    if utf8 && mine.8 != theirs.8 {
        return Some(format!("the client sees the name {:?}, the program {:?}", theirs.8, mine.8));
    }
    None
}

fn strings(d: &[u8]) -> Vec<String> {
    let (mut v, mut o) = (vec![], 0);
    while o < d.len() {
        let n = d[o] as usize;
        v.push(String::from_utf8_lossy(&d[o + 1..o + 1 + n]).into_owned());
        o += 1 + n;
    }
    v
}

/// Some(message) when the client's type for this extension decodes something else than stored.
fn extension(e: &ExtM) -> Option<String> {
    let d = &e.data[..];
    let bad = |what: String| Some(format!("extension {} ({}) decodes to {what}", e.ty, short(d)));
    // only complete, canonical content of the current version
    if readable(e.ty, d) != Some(true) {
        return None;
    }
    // a Rust string cannot hold text that is not UTF-8
    if matches!(e.ty, ATTRIBUTES | LINKS | METADATA) && strings(d).concat().contains('\u{fffd}') || e.ty == BLOB && std::str::from_utf8(&d[1..1 + d[0] as usize]).is_err() {
        return None;
    }
    let r = pbt::guard(|| -> Result<Option<String>, std::io::Error> {
        Ok(match e.ty {
            ATTRIBUTES => {
                let x = ct::Attributes::try_from_slice(d)?;
                let got: Vec<String> = x.values.iter().flat_map(|t| [t.name.to_string(), t.value.to_string()]).collect();
                if got != strings(d) { bad(format!("{got:?}")) } else { None }
            }
            LINKS => {
                let x = ct::Links::try_from_slice(d)?;
                let got: Vec<String> = x.values.iter().flat_map(|t| [t.name.to_string(), t.uri.to_string()]).collect();
                if got != strings(d) { bad(format!("{got:?}")) } else { None }
            }
            BLOB => {
                let x = ct::Blob::try_from_slice(d)?;
                let n = 1 + d[0] as usize;
                if x.content_type.as_bytes() != &d[1..n] || x.data[..] != d[n..] { bad(format!("{x:?}")) } else { None }
            }
            BUCKET => {
                let x = ct::Bucket::try_from_slice(d)?;
                if x.data[..] != *d { bad(format!("{x:?}")) } else { None }
            }
            CREATORS => {
                let x = ct::Creators::try_from_slice(d)?;
                let got: Vec<(Pubkey, bool, u8)> = x.values.iter().map(|c| (c.address, c.verified, c.share)).collect();
                if got != creators(d) { bad(format!("{got:?}")) } else { None }
            }
            METADATA => {
                let want = strings(d);
                if want.len() != 4 {
                    return Ok(None);
                }
                let x = ct::Metadata::try_from_slice(d)?;
                let got = [x.symbol.to_string(), x.description.to_string(), x.uri.to_string(), x.image_uri.to_string()];
                if got[..] != want[..] { bad(format!("{got:?}")) } else { None }
            }
            GROUPING => {
                if d.len() != 48 {
                    return Ok(None);
                }
                let (x, g) = (ct::Grouping::try_from_slice(d)?, Grp::read(d));
                if (x.size, x.max_size, x.delegate.to_option()) != (g.size, g.max, g.delegate) { bad(format!("{x:?}")) } else { None }
            }
            MANAGER => {
                let x = ct::Manager::try_from_slice(d)?;
                let k = Pubkey::new_from_array(d[..32].try_into().unwrap());
                let want = if k == Pubkey::default() { None } else { Some(k) };
                if x.delegate.address.to_option() != want || roles(&x.delegate.roles.to_vec()) != Ok(d[32] & 7) { bad(format!("{x:?}")) } else { None }
            }
            PROXY => {
                let x = ct::Proxy::try_from_slice(d)?;
                let k = Pubkey::new_from_array(d[65..97].try_into().unwrap());
                let want = if k == Pubkey::default() { None } else { Some(k) };
                if x.program.as_ref() != &d[..32] || x.seeds[..] != d[32..64] || x.bump != d[64] || x.authority.to_option() != want { bad(format!("{x:?}")) } else { None }
            }
            _ => None,
        })
    });
    match r {
        Ok(Ok(x)) => x,
        Ok(Err(x)) => bad(format!("an error: {x}")),
        Err(x) => bad(format!("a panic: {x}")),
    }
}

pub fn c19(s: &mut Source, c: &mut Case) {
    let kn = Knobs { perturb: 5, exts: [0, 4, 3, 4, 4, 4, 4, 2, 4, 3, 1, 3], standards: [5, 4, 2, 4], delegate: 60, grouped: 55, locked: 30, forged: 0, junk: 0, ..Knobs::default() };
    let mut w = gen_world(s, &kn);
    vm::set_stack_height(1);
    for _ in 0..s.us(4) {
        s.begin();
        let g = gen_ix(s, &w, &kn);
        s.end();
        if let Some((ix, _)) = g {
            pbt::set_phase(1);
            let r = vm::run_asset(&w, &ix, 0);
            pbt::set_phase(0);
            if let Ok(n) = r {
                w = n;
            }
        }
    }
    for (k, a) in &w.accts {
        if a.owner != PROGRAM {
            continue;
        }
        let Ok(mine) = AssetM::parse(&a.data) else { continue };
        c.evals += 1;
        c.nontrivial.push(pbt::hash_bytes(&a.data));
        let info = s.bool();
        c.log(|| format!("{}: {:?}", name_of(k), mine));
        match client(k, &a.data, info) {
            Err(e) => return c.fail(format!("{}: the account does not decode: {e}", name_of(k))),
            Ok(x) => {
                if let Some(e) = header(&a.data, &mine, &x).or_else(|| program_view(&a.data, &x)) {
                    return c.fail(format!("{}: {e}", name_of(k)));
                }
            }
        }
        let mut o = ASSET_LEN;
        for e in &mine.exts {
            c.label(format!("extension {}", e.ty));
            let want = (e.ty, e.length as u32, pad8(o + EXT_LEN + e.length) as u32);
            match ct::ExtensionHeader::try_from_slice(&a.data[o..o + EXT_LEN]) {
                Ok(h) if (h.kind, h.length, h.boundary) == want => {}
                h => return c.fail(format!("{}: extension header decodes to {h:?} instead of {want:?}", name_of(k))),
            }
            o = pad8(o + EXT_LEN + e.length);
            if e.data.len() == e.length {
                if let Some(m) = extension(e) {
                    return c.fail(format!("{}: {m}", name_of(k)));
                }
            }
        }
        // bytes that are no complete asset
        let mut d = a.data.clone();
        match s.us(6) {
            0 | 1 => {
                let n = if s.bool() { s.us(ASSET_LEN) } else { ASSET_LEN - 1 - s.us(4) };
                d.truncate(n);
            }
            2 => d[0] = 2 + s.draw(254) as u8,
            3 => d[1] = 2 + s.draw(254) as u8,
            4 => d[2] = 4 + s.draw(252) as u8,
            _ => d[3] = 2 + s.draw(254) as u8,
        }
        match client(k, &d, !info) {
            Ok(x) => return c.fail(format!("{} bytes starting {:?} decode to {x:?}", d.len(), &d[..d.len().min(4)])),
            Err(e) if e.starts_with("panic") => return c.fail(format!("{} bytes starting {:?}: {e}", d.len(), &d[..d.len().min(4)])),
            _ => {}
        }
    }
}

/// The bridge's vault accounts, and the names of error codes.
pub fn others(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    if s.bool() {
        let n = s.draw(40) as u32;
        let name = |x: Option<String>| x.unwrap_or_else(|| "unknown".into());
        let a: (String, String) = (
            name(num_traits::FromPrimitive::from_u32(n).map(|e: asset_program::error::AssetError| format!("{e} {e:?}"))),
            name(num_traits::FromPrimitive::from_u32(n).map(|e: nifty_asset::errors::AssetError| format!("{e} {e:?}"))),
        );
        c.nontrivial.push(n as u64);
        c.label("error code");
        if a.0 != a.1 {
            c.fail(format!("error code {n} is {:?} in the program and {:?} in the client", a.0, a.1));
        }
        return;
    }
    let (st, bump, mint, ab) = (s.draw(2) as u8, s.draw(256) as u8, any_key(s), s.draw(256) as u8);
    let mut d = vec![1, st, bump];
    d.extend_from_slice(mint.as_ref());
    d.push(ab);
    c.log(|| format!("{d:?}"));
    c.nontrivial.push(pbt::hash_bytes(&d));
    c.label("vault");
    let dec = |d: &[u8]| match pbt::guard(|| nifty_bridge::accounts::Vault::from_bytes(d)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(e.to_string()),
        Err(e) => Err(format!("panic {e}")),
    };
    match dec(&d) {
        Err(e) => c.fail(format!("vault {d:?}: {e}")),
        Ok(v) => {
            if (format!("{:?} {:?}", v.discriminator, v.state), v.bump, v.mint, v.asset_bump) != (format!("Vault {}", ["Idle", "Active"][st as usize]), bump, mint, ab) {
                c.fail(format!("vault {d:?} decodes to {v:?}"));
            }
        }
    }
    let seeds: [&[u8]; 2] = [b"vault", mint.as_ref()];
    let pda = Pubkey::find_program_address(&seeds, &crate::client::BRIDGE);
    if nifty_bridge::accounts::Vault::find_pda(&mint) != pda || nifty_bridge::accounts::Vault::create_pda(mint, pda.1).ok() != Some(pda.0) {
        c.fail(format!("the vault of {mint} is looked for at the wrong address"));
    }
    let n = s.us(d.len());
    match s.us(3) {
        0 => d.truncate(n),
        1 => d[0] = 2 + s.draw(254) as u8,
        _ => d[1] = 2 + s.draw(254) as u8,
    }
    match dec(&d) {
        Ok(v) => c.fail(format!("{d:?} decodes to {v:?}")),
        Err(e) if e.starts_with("panic") => c.fail(format!("{d:?}: {e}")),
        _ => {}
    }
}
