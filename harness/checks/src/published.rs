//! C24: the published interface descriptions (idls/*.json) against the programs: instructions are
//! encoded, and accounts decoded, by interpreting the descriptions alone.

use crate::client::{expressible, BRIDGE};
use crate::gen::*;
use crate::glue::*;
use crate::hist::*;
use crate::model::*;
use crate::proxy::{differ, proxy_id};
use pbt::{Case, Source};
use serde_json::Value as J;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;
use std::sync::OnceLock;
use vm::{Ix, Meta};

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    B(bool),
    N(u64),
    S(Vec<u8>),
    Y(Vec<u8>),
    K(Pubkey),
    O(Option<Box<V>>),
    L(Vec<V>),
    F(Vec<(String, V)>),
    E(String, Vec<(String, V)>),
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect()
}
fn f(n: &str, v: V) -> (String, V) {
    (norm(n), v)
}
fn e(n: &str) -> V {
    V::E(norm(n), vec![])
}
fn opt(v: Option<V>) -> V {
    V::O(v.map(Box::new))
}

pub struct Docs {
    codama: J,
    asset: J,
    interface: J,
    bridge: J,
    proxy: J,
}
fn docs() -> Result<&'static Docs, String> {
    static D: OnceLock<Result<Docs, String>> = OnceLock::new();
    D.get_or_init(|| {
        let read = |n: &str| -> Result<J, String> {
            let p = format!("/repo/idls/{n}.json");
            let t = std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?;
            serde_json::from_str(&t).map_err(|e| format!("{p}: {e}"))
        };
        Ok(Docs { codama: read("asset-program.codama")?, asset: read("asset_program")?, interface: read("nifty_asset_interface")?, bridge: read("bridge_program")?, proxy: read("proxy_program")? })
    })
    .as_ref()
    .map_err(|e| e.clone())
}

type R<T> = Result<T, String>;
fn text<'a>(j: &'a J, k: &str) -> R<&'a str> {
    j[k].as_str().ok_or_else(|| format!("no {k} in {}", short_json(j)))
}
fn list<'a>(j: &'a J, k: &str) -> R<&'a Vec<J>> {
    j[k].as_array().ok_or_else(|| format!("no {k} in {}", short_json(j)))
}
fn short_json(j: &J) -> String {
    j.to_string().chars().take(120).collect()
}
fn named<'a>(j: &'a J, k: &str, n: &str) -> Option<&'a J> {
    j[k].as_array()?.iter().find(|x| x["name"].as_str().map(norm) == Some(norm(n)))
}
fn number(fmt: &str, n: u64, o: &mut Vec<u8>) -> R<()> {
    let w = match fmt {
        "u8" => 1,
        "u16" => 2,
        "u32" => 4,
        "u64" => 8,
        _ => return Err(format!("number format {fmt}")),
    };
    if w < 8 && n >> (8 * w) != 0 {
        return Err(format!("{n} does not fit {fmt}"));
    }
    o.extend_from_slice(&n.to_le_bytes()[..w]);
    Ok(())
}
/// Fields by name, in the description's order, each exactly once.
fn fields<'a>(want: &[J], v: &'a [(String, V)]) -> R<Vec<(usize, &'a V)>> {
    if want.len() != v.len() {
        return Err(format!("{} fields described, {} known ({:?})", want.len(), v.len(), v.iter().map(|x| &x.0).collect::<Vec<_>>()));
    }
    want.iter()
        .enumerate()
        .map(|(i, w)| {
            let n = norm(text(w, "name")?);
            v.iter().find(|x| x.0 == n).map(|x| (i, &x.1)).ok_or_else(|| format!("field {n} is unknown"))
        })
        .collect()
}

// ---- the shank format

fn shank(d: &Docs, doc: &J, t: &J, v: &V, o: &mut Vec<u8>) -> R<()> {
    if let Some(p) = t.as_str() {
        match (p, v) {
            ("bool", V::B(b)) => o.push(*b as u8),
            ("string", V::S(x)) | ("bytes", V::Y(x)) => {
                o.extend_from_slice(&(x.len() as u32).to_le_bytes());
                o.extend_from_slice(x);
            }
            ("publicKey", V::K(k)) => o.extend_from_slice(k.as_ref()),
            (_, V::N(n)) => number(p, *n, o)?,
            _ => return Err(format!("{v:?} is no {p}")),
        }
        return Ok(());
    }
    if let (Some(t), V::O(x)) = (t.get("option"), v) {
        o.push(x.is_some() as u8);
        return x.as_ref().map_or(Ok(()), |x| shank(d, doc, t, x, o));
    }
    if let (Some(t), V::L(x)) = (t.get("vec"), v) {
        o.extend_from_slice(&(x.len() as u32).to_le_bytes());
        return x.iter().try_for_each(|x| shank(d, doc, t, x, o));
    }
    let Some(n) = t["defined"].as_str() else { return Err(format!("type {} for {v:?}", short_json(t))) };
    let Some(def) = named(doc, "types", n) else {
        // types of the library are only in the other description
        return codama(d, &named(&d.codama["program"], "definedTypes", n).ok_or(format!("type {n} is not described"))?["type"], v, o);
    };
    let def = &def["type"];
    match (text(def, "kind")?, v) {
        ("struct", V::F(x)) => {
            let fs = list(def, "fields")?;
            fields(fs, x)?.into_iter().try_for_each(|(i, x)| shank(d, doc, &fs[i]["type"], x, o))
        }
        ("enum", V::E(n, x)) => {
            let vs = list(def, "variants")?;
            let i = vs.iter().position(|y| y["name"].as_str().map(norm).as_ref() == Some(n)).ok_or_else(|| format!("no variant {n} in {}", short_json(def)))?;
            o.push(i as u8);
            let none = vec![];
            let fs = vs[i]["fields"].as_array().unwrap_or(&none);
            fields(fs, x)?.into_iter().try_for_each(|(i, x)| shank(d, doc, &fs[i]["type"], x, o))
        }
        (k, _) => Err(format!("{v:?} is no {k}")),
    }
}

// ---- the codama format

fn codama(d: &Docs, t: &J, v: &V, o: &mut Vec<u8>) -> R<()> {
    match (text(t, "kind")?, v) {
        ("numberTypeNode", V::N(n)) => {
            if t["endian"] != "le" {
                return Err("big endian".into());
            }
            number(text(t, "format")?, *n, o)
        }
        ("booleanTypeNode", V::B(b)) => codama(d, &t["size"], &V::N(*b as u64), o),
        ("publicKeyTypeNode", V::K(k)) => {
            o.extend_from_slice(k.as_ref());
            Ok(())
        }
        ("stringTypeNode", V::S(x)) | ("bytesTypeNode", V::Y(x)) => {
            o.extend_from_slice(x);
            Ok(())
        }
        ("sizePrefixTypeNode", _) => {
            let mut b = vec![];
            codama(d, &t["type"], v, &mut b)?;
            codama(d, &t["prefix"], &V::N(b.len() as u64), o)?;
            o.extend_from_slice(&b);
            Ok(())
        }
        ("optionTypeNode", V::O(x)) => {
            codama(d, &t["prefix"], &V::N(x.is_some() as u64), o)?;
            x.as_ref().map_or(Ok(()), |x| codama(d, &t["item"], x, o))
        }
        ("arrayTypeNode", V::L(x)) => {
            match text(&t["count"], "kind")? {
                "prefixedCountNode" => codama(d, &t["count"]["prefix"], &V::N(x.len() as u64), o)?,
                "fixedCountNode" if t["count"]["value"].as_u64() == Some(x.len() as u64) => {}
                "remainderCountNode" => {}
                k => return Err(format!("{} items for {k}", x.len())),
            }
            x.iter().try_for_each(|x| codama(d, &t["item"], x, o))
        }
        ("definedTypeLinkNode", _) => codama(d, linked(d, t)?, v, o),
        ("structTypeNode", V::F(x)) => {
            let fs = list(t, "fields")?;
            fields(fs, x)?.into_iter().try_for_each(|(i, x)| codama(d, &fs[i]["type"], x, o))
        }
        ("enumTypeNode", V::E(n, x)) => {
            let vs = list(t, "variants")?;
            let i = vs.iter().position(|y| y["name"].as_str().map(norm).as_ref() == Some(n)).ok_or_else(|| format!("no variant {n} in {}", short_json(t)))?;
            codama(d, &t["size"], &V::N(i as u64), o)?;
            if vs[i]["struct"].is_null() {
                return if x.is_empty() { Ok(()) } else { Err(format!("variant {n} has no fields")) };
            }
            codama(d, &vs[i]["struct"], &V::F(x.clone()), o)
        }
        (k, _) => Err(format!("{v:?} is no {k}")),
    }
}
fn linked<'a>(d: &'a Docs, t: &J) -> R<&'a J> {
    let n = text(t, "name")?;
    Ok(&named(&d.codama["program"], "definedTypes", n).ok_or(format!("type {n} is not described"))?["type"])
}

fn take<'b>(b: &mut &'b [u8], n: usize) -> R<&'b [u8]> {
    if b.len() < n {
        return Err(format!("{n} bytes wanted, {} left", b.len()));
    }
    let (x, r) = b.split_at(n);
    *b = r;
    Ok(x)
}
fn decode(d: &Docs, t: &J, b: &mut &[u8]) -> R<V> {
    Ok(match text(t, "kind")? {
        "numberTypeNode" => {
            let w = match text(t, "format")? {
                "u8" => 1,
                "u16" => 2,
                "u32" => 4,
                "u64" => 8,
                x => return Err(format!("number format {x}")),
            };
            let mut n = [0; 8];
            n[..w].copy_from_slice(take(b, w)?);
            V::N(u64::from_le_bytes(n))
        }
        "booleanTypeNode" => match decode(d, &t["size"], b)? {
            V::N(0) => V::B(false),
            V::N(1) => V::B(true),
            x => return Err(format!("{x:?} is no boolean")),
        },
        "publicKeyTypeNode" => V::K(Pubkey::try_from(take(b, 32)?).unwrap()),
        "stringTypeNode" => V::S(take(b, b.len())?.to_vec()),
        "bytesTypeNode" => V::Y(take(b, b.len())?.to_vec()),
        "fixedSizeTypeNode" => {
            let n = t["size"].as_u64().ok_or("no size")? as usize;
            let mut x = take(b, n)?;
            decode(d, &t["type"], &mut x)?
        }
        "sizePrefixTypeNode" => {
            let V::N(n) = decode(d, &t["prefix"], b)? else { return Err("prefix".into()) };
            let mut x = take(b, n as usize)?;
            decode(d, &t["type"], &mut x)?
        }
        "arrayTypeNode" => {
            let mut v = vec![];
            match text(&t["count"], "kind")? {
                "remainderCountNode" => {
                    while !b.is_empty() {
                        v.push(decode(d, &t["item"], b)?);
                    }
                }
                "fixedCountNode" => {
                    for _ in 0..t["count"]["value"].as_u64().ok_or("no count")? {
                        v.push(decode(d, &t["item"], b)?);
                    }
                }
                _ => {
                    let V::N(n) = decode(d, &t["count"]["prefix"], b)? else { return Err("count".into()) };
                    for _ in 0..n {
                        v.push(decode(d, &t["item"], b)?);
                    }
                }
            }
            V::L(v)
        }
        // these two are written by hand in the clients
        "definedTypeLinkNode" if t["importFrom"] == "hooked" => match text(t, "name")? {
            "nullablePublicKey" => V::K(Pubkey::try_from(take(b, 32)?).unwrap()),
            "delegateRoles" => V::N(take(b, 1)?[0] as u64),
            x => return Err(format!("hooked type {x}")),
        },
        "definedTypeLinkNode" => decode(d, linked(d, t)?, b)?,
        "structTypeNode" => V::F(list(t, "fields")?.iter().map(|x| Ok((norm(text(x, "name")?), decode(d, &x["type"], b)?))).collect::<R<Vec<_>>>()?),
        "enumTypeNode" => {
            let V::N(n) = decode(d, &t["size"], b)? else { return Err("discriminant".into()) };
            let vs = list(t, "variants")?;
            let x = vs.get(n as usize).ok_or(format!("no variant {n}"))?;
            e(text(x, "name")?)
        }
        k => return Err(format!("cannot decode {k}")),
    })
}

// ---- what the program means

const STANDARD: [&str; 4] = ["NonFungible", "Managed", "Soulbound", "Proxied"];
const TYPES: [&str; 12] = ["None", "Attributes", "Blob", "Creators", "Links", "Metadata", "Grouping", "Royalties", "Manager", "Proxy", "Properties", "Bucket"];
fn ext(x: &ExtIn) -> V {
    V::F(vec![f("extension_type", e(TYPES[x.ty as usize])), f("length", V::N(x.length as u64)), f("data", opt(x.data.clone().map(V::Y)))])
}
fn roles(r: &Roles) -> V {
    match r {
        Roles::All => e("All"),
        Roles::Some(v) => V::E(norm("Some"), vec![f("roles", V::L(v.iter().map(|b| e(["None", "Transfer", "Lock", "Burn"][*b as usize])).collect()))]),
    }
}
/// The arguments: one value with its name, or the fields of a struct.
fn args(op: &Op) -> Vec<(String, V)> {
    match op {
        Op::Create { name, standard, mutable, exts } => vec![
            f("name", V::S(name.clone().into_bytes())),
            f("standard", e(STANDARD[*standard as usize])),
            f("mutable", V::B(*mutable)),
            f("extensions", opt(exts.as_ref().map(|v| V::L(v.iter().map(ext).collect())))),
        ],
        Op::Approve(r) | Op::Revoke(r) => vec![f("delegate_input", roles(r))],
        Op::Allocate(x) => vec![f("extension", ext(x))],
        Op::Update { name, mutable, ext: x } => vec![f("name", opt(name.clone().map(|n| V::S(n.into_bytes())))), f("mutable", opt(mutable.map(V::B))), f("extension", opt(x.as_ref().map(ext)))],
        Op::Write { overwrite, bytes } => vec![f("overwrite", V::B(*overwrite)), f("bytes", V::Y(bytes.clone()))],
        Op::Remove(t) => vec![f("extension_type", e(TYPES[*t as usize]))],
        Op::Resize(None) => vec![f("strategy", e("Trim"))],
        Op::Resize(Some(n)) => vec![f("strategy", V::E(norm("Extend"), vec![f("value", V::N(*n as u64))]))],
        _ => vec![],
    }
}

type Slot = (Option<Pubkey>, bool);

/// An instruction as a shank description has it.
fn by_shank(d: &Docs, doc: &J, name: &str, args: &[(String, V)], slots: &[Slot]) -> R<(Pubkey, Vec<Meta>, Vec<u8>)> {
    let ix = named(doc, "instructions", name).ok_or("not described")?;
    let program = Pubkey::from_str(text(&doc["metadata"], "address")?).map_err(|e| e.to_string())?;
    let mut data = vec![];
    number(text(&ix["discriminant"], "type")?, ix["discriminant"]["value"].as_u64().ok_or("no discriminant")?, &mut data)?;
    let a = list(ix, "args")?;
    match (&a[..], args) {
        ([], []) => {}
        // a single argument is either the value itself or a struct with all the values
        ([one], [(n, v)]) if norm(text(one, "name")?) == *n => shank(d, doc, &one["type"], v, &mut data)?,
        ([one], _) => shank(d, doc, &one["type"], &V::F(args.to_vec()), &mut data)?,
        _ => {
            for (i, v) in fields(a, args)? {
                shank(d, doc, &a[i]["type"], v, &mut data)?;
            }
        }
    }
    let accounts = list(ix, "accounts")?;
    if accounts.len() != slots.len() {
        return Err(format!("{} accounts described instead of {}", accounts.len(), slots.len()));
    }
    let yes = |j: &J, k: &str| j[k].as_bool().unwrap_or(false);
    let metas = accounts
        .iter()
        .zip(slots)
        .map(|(a, (key, flag))| match key {
            None if yes(a, "isOptional") => Ok(m(program, false, false)),
            None => Err(format!("account {} cannot be omitted", a["name"])),
            Some(k) => Ok(m(*k, yes(a, "isSigner") || yes(a, "isOptionalSigner") && *flag, yes(a, "isMut"))),
        })
        .collect::<R<Vec<_>>>()?;
    Ok((program, metas, data))
}
/// An instruction as the codama description has it.
fn by_codama(d: &Docs, name: &str, args: &[(String, V)], slots: &[Slot]) -> R<(Pubkey, Vec<Meta>, Vec<u8>)> {
    let p = &d.codama["program"];
    let ix = named(p, "instructions", name).ok_or("not described")?;
    let program = Pubkey::from_str(text(p, "publicKey")?).map_err(|e| e.to_string())?;
    let a = list(ix, "arguments")?;
    let mut data = vec![];
    let mut given = 0;
    for x in a {
        let n = norm(text(x, "name")?);
        match args.iter().find(|y| y.0 == n) {
            Some((_, v)) => {
                given += 1;
                codama(d, &x["type"], v, &mut data)?;
            }
            None if x["defaultValueStrategy"] == "omitted" => codama(d, &x["type"], &V::N(x["defaultValue"]["number"].as_u64().ok_or("no fixed value")?), &mut data)?,
            None => return Err(format!("argument {n} is unknown")),
        }
    }
    if given != args.len() {
        return Err(format!("takes only {given} of the {} arguments", args.len()));
    }
    let accounts = list(ix, "accounts")?;
    if accounts.len() != slots.len() {
        return Err(format!("{} accounts described instead of {}", accounts.len(), slots.len()));
    }
    let metas = accounts
        .iter()
        .zip(slots)
        .map(|(a, (key, flag))| match key {
            None if a["isOptional"] == true && ix["optionalAccountStrategy"] == "programId" => Ok(m(program, false, false)),
            None => Err(format!("account {} cannot be omitted", a["name"])),
            Some(k) => Ok(m(*k, a["isSigner"] == true || a["isSigner"] == "either" && *flag, a["isWritable"] == true)),
        })
        .collect::<R<Vec<_>>>()?;
    Ok((program, metas, data))
}

fn rights(table: &[(&str, &str)], slots: &[Slot], placeholder: Pubkey, first_signs: bool) -> Vec<Meta> {
    table
        .iter()
        .zip(slots)
        .enumerate()
        .map(|(i, ((_, f), (key, flag)))| match key {
            None => m(placeholder, false, false),
            Some(k) => m(*k, f.contains('s') || (f.contains('?') && *flag) || (first_signs && i == 0), f.contains('w')),
        })
        .collect()
}
fn say(v: &[Meta]) -> String {
    v.iter().map(|x| format!("{}{}{}", name_of(&x.key), if x.signer { "!" } else { "" }, if x.writable { "*" } else { "" })).collect::<Vec<_>>().join(" ")
}
fn judge(doc: &str, name: &str, got: R<(Pubkey, Vec<Meta>, Vec<u8>)>, program: &Pubkey, metas: &[Meta], data: &[u8]) -> Result<Ix, String> {
    let (p, a, d) = got.map_err(|e| format!("{doc}: {name}: {e}"))?;
    if p != *program {
        return Err(format!("{doc}: the program is at {p} instead of {program}"));
    }
    if d != data {
        return Err(format!("{doc}: {name} is encoded as {} instead of {}", short(&d), short(data)));
    }
    if a != metas {
        return Err(format!("{doc}: {name} takes [{}] instead of [{}]", say(&a), say(metas)));
    }
    Ok(Ix { metas: a, data: d })
}

/// Instructions of the three programs encoded by their descriptions.
pub fn instructions(s: &mut Source, c: &mut Case) {
    crate::proxy::callees();
    let d = match docs() {
        Ok(d) => d,
        Err(e) => return c.fail(e),
    };
    c.evals += 1;
    let note = |c: &mut Case, doc: &str, name: &str, metas: &[Meta], data: &[u8]| {
        c.label(format!("{doc}: {name}"));
        let mut h = pbt::hash_bytes(data) ^ pbt::hash_bytes(doc.as_bytes());
        for x in metas {
            h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ (x.signer as u64) << 1 ^ (x.writable as u64));
        }
        c.nontrivial.push(h);
        c.log(|| format!("{doc}: {name} [{}] data {}", say(metas), short(data)));
    };
    match s.us(12) {
        0 | 1 => {
            let i = s.us(2);
            let (name, table) = BRIDGE_TABLE[i];
            let coll = s.bool();
            let slots: Vec<Slot> = table.iter().map(|(_, f)| (if f.contains('o') && s.bool() { None } else { Some(any_key(s)) }, s.bool())).collect();
            let (data, args) = if i == 0 { (vec![0], vec![]) } else { (vec![1, coll as u8], vec![f("is_collection", V::B(coll))]) };
            let want = rights(table, &slots, BRIDGE, false);
            note(c, "bridge_program", name, &want, &data);
            if let Err(e) = judge("bridge_program", name, by_shank(d, &d.bridge, name, &args, &slots), &BRIDGE, &want, &data) {
                c.fail(e);
            }
            return;
        }
        2 => {
            let table = [("asset", "w"), ("stub", "s"), ("owner", ""), ("authority", "s"), ("payer", "osw"), ("system_program", "o"), ("nifty_asset_program", "")];
            let slots: Vec<Slot> = table.iter().map(|(_, f)| (if f.contains('o') && s.bool() { None } else { Some(any_key(s)) }, s.bool())).collect();
            let name = gen_name(s);
            let mut data = vec![0];
            data.extend_from_slice(&(name.len() as u32).to_le_bytes());
            data.extend_from_slice(name.as_bytes());
            let want = rights(&table, &slots, proxy_id(), false);
            note(c, "proxy_program", "Create", &want, &data);
            if let Err(e) = judge("proxy_program", "Create", by_shank(d, &d.proxy, "Create", &[f("name", V::S(name.into_bytes()))], &slots), &proxy_id(), &want, &data) {
                c.fail(e);
            }
            return;
        }
        _ => {}
    }
    let kn = Knobs { perturb: 0, forged: 0, empty: 20, junk: 3, exts: [0, 3, 3, 4, 2, 3, 4, 4, 2, 2, 4, 2], ops: [4, 4, 6, 4, 4, 4, 4, 4, 4, 4, 6, 4, 5, 4, 4, 4, 4, 5], locked: 10, ..Knobs::default() };
    let w = gen_world(s, &kn);
    let Some((op, metas)) = gen_op(s, &w, &kn) else { return };
    let (name, table) = ASSET_TABLE[op.disc() as usize];
    if !expressible(&op) || metas.len() != table.len() {
        return;
    }
    let slots: Vec<Slot> = table.iter().zip(&metas).map(|((_, f), x)| (if f.contains('o') && x.key == PROGRAM { None } else { Some(x.key) }, x.signer)).collect();
    let data = op.encode();
    let args = args(&op);
    let which = s.us(3);
    let doc = ["asset-program.codama", "asset_program", "nifty_asset_interface"][which];
    let want = rights(table, &slots, PROGRAM, which == 2);
    note(c, doc, name, &want, &data);
    let got = match which {
        0 => by_codama(d, name, &args, &slots),
        1 => by_shank(d, &d.asset, name, &args, &slots),
        _ => by_shank(d, &d.interface, name, &args, &slots),
    };
    let ix = match judge(doc, name, got, &PROGRAM, &want, &data) {
        Ok(ix) => ix,
        Err(e) => return c.fail(e),
    };
    // and what it does
    let covered = metas.iter().zip(&want).all(|(a, b)| a.key == b.key && (!a.signer || b.signer) && (!a.writable || b.writable));
    if !covered {
        return;
    }
    vm::set_stack_height(1);
    pbt::set_phase(1);
    let a = vm::run_asset(&w, &Ix { metas, data }, 0);
    let b = vm::run_asset(&w, &ix, 0);
    pbt::set_phase(0);
    if let Ok(x) = &a {
        c.label(format!("{name} performed"));
        match &b {
            Err(e) => c.fail(format!("{doc}: {name} is rejected ({}) although the instruction asked for is accepted", fail_text(e))),
            Ok(y) => {
                if let Some(e) = differ(x, y) {
                    c.fail(format!("{doc}: {name} does not have the effect asked for: {e}"));
                }
            }
        }
    }
}

fn strings(d: &[u8]) -> Vec<V> {
    let (mut v, mut o) = (vec![], 0);
    while o < d.len() {
        let n = d[o] as usize;
        v.push(V::S(d[o + 1..o + 1 + n].to_vec()));
        o += 1 + n;
    }
    v
}
fn bytes(d: &[u8]) -> V {
    V::L(d.iter().map(|b| V::N(*b as u64)).collect())
}
fn key(d: &[u8]) -> V {
    V::K(Pubkey::try_from(d).unwrap())
}
/// The values of complete content in the current format, for the types the description has.
fn content(x: &ExtM) -> Option<V> {
    let d = &x.data[..];
    if readable(x.ty, d) != Some(true) {
        return None;
    }
    let pairs = |a: &str, b: &str| V::F(vec![f("values", V::L(strings(d).chunks(2).map(|p| V::F(vec![f(a, p[0].clone()), f(b, p[1].clone())])).collect()))]);
    Some(match x.ty {
        ATTRIBUTES => pairs("name", "value"),
        LINKS => pairs("name", "uri"),
        BLOB => V::F(vec![f("content_type", V::S(d[1..1 + d[0] as usize].to_vec())), f("data", bytes(&d[1 + d[0] as usize..]))]),
        BUCKET => V::F(vec![f("data", bytes(d))]),
        CREATORS => V::F(vec![f("values", V::L(creators(d).into_iter().map(|(k, v, n)| V::F(vec![f("address", V::K(k)), f("verified", V::B(v)), f("share", V::N(n as u64))])).collect()))]),
        METADATA => {
            let t = strings(d);
            if t.len() != 4 {
                return None;
            }
            V::F(["symbol", "description", "uri", "image_uri"].iter().zip(t).map(|(n, v)| f(n, v)).collect())
        }
        GROUPING => {
            if d.len() != 48 {
                return None;
            }
            V::F(vec![f("size", V::N(u64at(d, 0))), f("max_size", V::N(u64at(d, 8))), f("delegate", key(&d[16..]))])
        }
        MANAGER => V::F(vec![f("delegate", V::F(vec![f("address", key(&d[..32])), f("roles", V::N(d[32] as u64))]))]),
        PROXY => V::F(vec![f("program", key(&d[..32])), f("seeds", bytes(&d[32..64])), f("bump", V::N(d[64] as u64)), f("authority", key(&d[65..]))]),
        _ => return None,
    })
}

/// Accounts decoded by the description.
pub fn accounts(s: &mut Source, c: &mut Case) {
    let d = match docs() {
        Ok(d) => d,
        Err(e) => return c.fail(e),
    };
    if s.chance(1, 20) {
        return errors(s, c, d);
    }
    let kn = Knobs { perturb: 5, exts: [0, 4, 3, 4, 4, 4, 4, 2, 4, 3, 1, 3], standards: [5, 4, 2, 4], delegate: 60, grouped: 55, locked: 30, forged: 0, junk: 0, ..Knobs::default() };
    let mut w = gen_world(s, &kn);
    vm::set_stack_height(1);
    for _ in 0..s.us(3) {
        s.begin();
        let g = gen_ix(s, &w, &kn);
        s.end();
        if let Some((ix, _)) = g {
            pbt::set_phase(1);
            let r = vm::run_asset(&w, &ix, 0);
            pbt::set_phase(0);
            if let Ok(n) = r {
                w = n;
            }
        }
    }
    let p = &d.codama["program"];
    let Some(node) = p["accounts"].as_array().and_then(|a| a.first()) else { return c.fail("asset-program.codama: no account is described") };
    for (k, a) in &w.accts {
        if a.owner != PROGRAM {
            continue;
        }
        let Ok(mine) = AssetM::parse(&a.data) else { continue };
        c.evals += 1;
        c.nontrivial.push(pbt::hash_bytes(&a.data));
        c.log(|| format!("{}: {:?}", name_of(k), mine));
        let deleg = mine.delegate.unwrap_or_default();
        let want = V::F(vec![
            f("discriminator", e(["Uninitialized", "Asset"][(mine.disc == 1) as usize])),
            f("state", e(["Unlocked", "Locked"][mine.state as usize])),
            f("standard", e(STANDARD[mine.standard as usize])),
            f("mutable", V::B(mine.mutable)),
            f("owner", V::K(mine.owner)),
            f("group", V::K(mine.group.unwrap_or_default())),
            f("authority", V::K(mine.authority)),
            f("delegate", V::F(vec![f("address", V::K(deleg.0)), f("roles", V::N(if mine.delegate.is_some() { deleg.1 as u64 } else { a.data[132] as u64 }))])),
            f("name", bytes(&mine.name)),
        ]);
        let mut b = &a.data[..];
        match decode(d, &node["data"], &mut b) {
            Ok(got) if same(&got, &want) && a.data.len() - b.len() == ASSET_LEN => {}
            r => return c.fail(format!("asset-program.codama: {} decodes to {r:?} ({} bytes) instead of {want:?}", name_of(k), a.data.len() - b.len())),
        }
        let mut o = ASSET_LEN;
        for x in &mine.exts {
            let next = pad8(o + EXT_LEN + x.length);
            let want = V::F(vec![f("kind", V::N(x.ty as u64)), f("length", V::N(x.length as u64)), f("boundary", V::N(next as u64)), f("padding", V::N(0))]);
            let t = named(p, "definedTypes", "extensionHeader");
            match t.ok_or("not described".to_string()).and_then(|t| decode(d, &t["type"], &mut &a.data[o..o + EXT_LEN])) {
                Ok(got) if same(&got, &want) => {}
                r => return c.fail(format!("asset-program.codama: an extension header decodes to {r:?} instead of {want:?}")),
            }
            o = next;
            if x.data.len() != x.length {
                continue;
            }
            let Some(want) = content(x) else { continue };
            c.label(format!("extension {}", TYPES[x.ty as usize]));
            let t = named(p, "definedTypes", TYPES[x.ty as usize]);
            let mut b = &x.data[..];
            match t.ok_or("not described".to_string()).and_then(|t| decode(d, &t["type"], &mut b)) {
                Ok(got) if same(&got, &want) && b.is_empty() => {}
                r => return c.fail(format!("asset-program.codama: {} content {} decodes to {r:?}, {} bytes left, instead of {want:?}", TYPES[x.ty as usize], short(&x.data), b.len())),
            }
        }
    }
}
/// Equal, a fixed-size string counting as its bytes.
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::F(x), V::F(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == q.0 && same(&p.1, &q.1)),
        (V::L(x), V::L(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (V::S(x), V::L(_)) | (V::Y(x), V::L(_)) => same(&bytes(x), b),
        _ => a == b,
    }
}

/// Error codes.
fn errors(s: &mut Source, c: &mut Case, d: &Docs) {
    let n = s.draw(40) as u32;
    let which = s.us(3);
    c.evals += 1;
    c.nontrivial.push(n as u64 * 3 + which as u64);
    c.label("error code");
    let program = if which == 2 {
        num_traits::FromPrimitive::from_u32(n).map(|e: nifty_bridge::errors::BridgeError| (norm(&format!("{e:?}")), format!("{e}")))
    } else {
        num_traits::FromPrimitive::from_u32(n).map(|e: asset_program::error::AssetError| (norm(&format!("{e:?}")), format!("{e}")))
    };
    let (doc, l, msg) = match which {
        0 => ("asset-program.codama", &d.codama["program"]["errors"], "message"),
        1 => ("asset_program", &d.asset["errors"], "msg"),
        _ => ("bridge_program", &d.bridge["errors"], "msg"),
    };
    let none = vec![];
    let got: Vec<(String, String)> = l.as_array().unwrap_or(&none).iter().filter(|x| x["code"] == n).map(|x| (norm(x["name"].as_str().unwrap_or("")), x[msg].as_str().unwrap_or("").to_string())).collect();
    // the client's messages carry the name in front
    let ok = match (&got[..], &program) {
        ([], None) => true,
        ([g], Some(p)) => g.0 == p.0 && (p.1 == g.1 || p.1.ends_with(&format!(": {}", g.1))),
        _ => false,
    };
    if !ok {
        c.fail(format!("{doc}: error code {n} is {got:?} instead of {program:?}"));
    }
}

/// Name and message of a code of the proxy program's description.
pub fn proxy_error(n: u32) -> Option<(String, String)> {
    let e = docs().ok()?.proxy["errors"].as_array()?.iter().find(|e| e["code"].as_u64() == Some(n as u64))?;
    Some((e["name"].as_str()?.to_string(), e["msg"].as_str()?.to_string()))
}
