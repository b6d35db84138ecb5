//! C25, C26: the JavaScript clients. They are bundled from /repo's sources with a stand-in for the umi framework
//! (js/stubs) and run in a node process per worker that answers requests of the generators here.

use crate::client::{expressible, known_address, BRIDGE};
use crate::gen::*;
use crate::glue::*;
use crate::hist::*;
use crate::mint::{extensions, plain, reference, size, sys, world, Ref};
use crate::model::*;
use crate::proxy::{differ, proxy_id};
use pbt::{Case, Source};
use serde_json::{json, Map, Value as J};
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use vm::{Ix, Meta, World, SYSTEM};

const ESBUILD: &str = "/opt/veriftools/node/node_modules/.bin/esbuild";

fn here(x: &str) -> String {
    format!("{}/../../js/{x}", env!("CARGO_MANIFEST_DIR"))
}
fn bundle() -> &'static str {
    static B: OnceLock<String> = OnceLock::new();
    B.get_or_init(|| {
        let out = std::env::current_exe().unwrap().with_file_name(format!("js-{}.cjs", std::process::id())).to_str().unwrap().to_string();
        let repo = std::env::var("VP_JS_REPO").unwrap_or_else(|_| "/repo".into());
        let mut c = Command::new(ESBUILD);
        c.env("NODE_PATH", here("stubs")).arg(here("server.js")).args(["--bundle", "--platform=node", "--format=cjs", "--target=node20", "--log-level=error"]).arg(format!("--outfile={out}"));
        for x in ["asset", "bridge", "proxy"] {
            c.arg(format!("--alias:@nifty-oss/{x}={repo}/clients/js/{x}/src/index.ts"));
        }
        match c.output() {
            Ok(o) if o.status.success() => out,
            r => {
                eprintln!("the JavaScript clients cannot be bundled: {r:?}");
                std::process::exit(2);
            }
        }
    })
}
pub fn cleanup() {
    if let Ok(e) = std::env::current_exe() {
        let _ = std::fs::remove_file(e.with_file_name(format!("js-{}.cjs", std::process::id())));
    }
}

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
thread_local!(static NODE: RefCell<Option<Node>> = const { RefCell::new(None) });
/// Milliseconds to wait for an answer; shorter once one did not come.
static WAIT: AtomicU64 = AtomicU64::new(30_000);

fn spawn() -> Node {
    let mut child = Command::new("node").arg("--max-old-space-size=512").arg(bundle()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| {
        eprintln!("node does not start: {e}");
        std::process::exit(2)
    });
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Node { child, to, from }
}
fn ask(q: &J) -> Result<J, String> {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let node = n.get_or_insert_with(spawn);
        let mut line = q.to_string();
        line.push('\n');
        let mut r = node.to.write_all(line.as_bytes()).and_then(|_| node.to.flush()).map_err(|e| e.to_string()).map(|_| String::new());
        if r.is_ok() {
            let mut p = libc::pollfd { fd: node.from.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let ready = unsafe { libc::poll(&mut p, 1, WAIT.load(Ordering::Relaxed) as i32) };
            let mut l = String::new();
            r = if ready == 0 {
                WAIT.store(3_000, Ordering::Relaxed);
                Err("no answer".into())
            } else {
                match node.from.read_line(&mut l) {
                    Ok(k) if k > 0 => Ok(l),
                    _ => Err("the process ended".into()),
                }
            };
        }
        match r {
            Ok(l) => {
                let j: J = serde_json::from_str(&l).map_err(|e| e.to_string())?;
                if let Some(e) = j["err"].as_str() {
                    return Err(e.to_string());
                }
                if let Some(f) = j["missing"].as_str() {
                    return Err(format!("there is no function {f}"));
                }
                Ok(j["ok"].clone())
            }
            Err(e) => {
                *n = None;
                Err(e)
            }
        }
    })
}

// ---- values

fn key(b: &[u8]) -> Pubkey {
    Pubkey::try_from(b).unwrap()
}
fn big(n: u64) -> J {
    json!({ "$n": n.to_string() })
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(t: &str) -> Vec<u8> {
    (0..t.len() / 2).map(|i| u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}
fn nullable(k: &[u8]) -> J {
    if k.iter().all(|b| *b == 0) {
        J::Null
    } else {
        json!(key(k).to_string())
    }
}
fn roles_list(mask: u8) -> J {
    if mask == 0 {
        return json!([0]);
    }
    json!((0..3).filter(|i| mask >> i & 1 == 1).map(|i| i + 1).collect::<Vec<_>>())
}
/// Text as JavaScript has it; umi drops null characters, and the platform a leading byte order mark.
fn js_text(b: &[u8]) -> Option<String> {
    let t = std::str::from_utf8(b).ok()?;
    (!t.contains('\0') && !t.starts_with('\u{feff}')).then(|| t.to_string())
}
fn texts(d: &[u8]) -> Option<Vec<String>> {
    let (mut v, mut o) = (vec![], 0);
    while o < d.len() {
        let n = d[o] as usize;
        v.push(js_text(d.get(o + 1..o + 1 + n)?)?);
        o += 1 + n;
    }
    Some(v)
}
fn cons(c: &Cons) -> J {
    const ACC: [&str; 3] = ["Asset", "Authority", "Recipient"];
    let keys = |v: &[Pubkey]| v.iter().map(|k| k.to_string()).collect::<Vec<_>>();
    match c {
        Cons::And(v) => json!({"type": "And", "constraints": v.iter().map(cons).collect::<Vec<_>>()}),
        Cons::Or(v) => json!({"type": "Or", "constraints": v.iter().map(cons).collect::<Vec<_>>()}),
        Cons::Not(x, _) => json!({"type": "Not", "constraint": cons(x)}),
        Cons::OwnedBy(a, k) => json!({"type": "OwnedBy", "account": ACC[*a as usize], "owners": keys(k)}),
        Cons::Match(a, k) => json!({"type": "PubkeyMatch", "account": ACC[*a as usize], "pubkeys": keys(k)}),
        Cons::Empty(_) => json!({"type": "Empty"}),
    }
}
/// The same through the functions that make constraints.
fn cons_made(c: &Cons) -> J {
    const ACC: [&str; 3] = ["Asset", "Authority", "Recipient"];
    let f = |f: &str, a: Vec<J>| json!({"$f": {"f": f, "a": a}});
    let keys = |v: &[Pubkey]| json!(v.iter().map(|k| k.to_string()).collect::<Vec<_>>());
    match c {
        Cons::And(v) => f("and", vec![v.iter().map(cons_made).collect()]),
        Cons::Or(v) => f("or", vec![v.iter().map(cons_made).collect()]),
        Cons::Not(x, _) => f("not", vec![cons_made(x)]),
        Cons::OwnedBy(a, k) => f("ownedBy", vec![json!(ACC[*a as usize]), keys(k)]),
        Cons::Match(a, k) => f("pubkeyMatch", vec![json!(ACC[*a as usize]), keys(k)]),
        Cons::Empty(_) => f("empty", vec![]),
    }
}
fn props(d: &[u8]) -> Option<Vec<J>> {
    let (mut v, mut o) = (vec![], 0);
    while o < d.len() {
        let n = d[o] as usize;
        let name = js_text(&d[o + 1..o + 1 + n])?;
        o += 1 + n;
        match d[o] {
            0 => {
                let n = d[o + 1] as usize;
                v.push(json!({"name": name, "type": 0, "value": js_text(&d[o + 2..o + 2 + n])?}));
                o += 2 + n;
            }
            1 => {
                v.push(json!({"name": name, "type": 1, "value": big(u64at(d, o + 1))}));
                o += 9;
            }
            _ => {
                v.push(json!({"name": name, "type": 2, "value": d[o + 1] == 1}));
                o += 2;
            }
        }
    }
    Some(v)
}
/// Complete canonical content as the client's value; None when there is no such value.
/// Old forms (metadata without image, groups without delegate) have one, too.
fn value(ty: u32, d: &[u8]) -> Option<J> {
    if readable(ty, d) != Some(true) {
        return None;
    }
    let pairs = |b: &str| -> Option<J> { Some(json!({"values": texts(d)?.chunks(2).map(|p| json!({"name": p[0], b: p[1]})).collect::<Vec<_>>()})) };
    let mut v = match ty {
        ATTRIBUTES => pairs("value")?,
        LINKS => pairs("uri")?,
        BLOB => json!({"contentType": js_text(&d[1..1 + d[0] as usize])?, "data": d[1 + d[0] as usize..]}),
        BUCKET => json!({ "data": d }),
        CREATORS => {
            if d.chunks(34).any(|c| c[32] > 1) {
                return None;
            }
            json!({"values": creators(d).into_iter().map(|(k, v, n)| json!({"address": k.to_string(), "verified": v, "share": n})).collect::<Vec<_>>()})
        }
        METADATA => {
            let t = texts(d)?;
            json!({"symbol": t[0], "description": t[1], "uri": t[2], "imageUri": t.get(3).cloned().unwrap_or_default()})
        }
        GROUPING => json!({"size": big(u64at(d, 0)), "maxSize": big(u64at(d, 8)), "delegate": if d.len() == 48 { nullable(&d[16..]) } else { J::Null }}),
        ROYALTIES => json!({"basisPoints": big(u64at(d, 0)), "constraint": cons(&Cons::parse(&d[8..])?.0)}),
        MANAGER => {
            if d[32] > 7 {
                return None;
            }
            json!({"delegate": {"address": nullable(&d[..32]), "roles": roles_list(d[32])}})
        }
        PROXY => json!({"program": key(&d[..32]).to_string(), "seeds": d[32..64], "bump": d[64], "authority": nullable(&d[65..])}),
        PROPERTIES => json!({ "values": props(d)? }),
        _ => return None,
    };
    v["type"] = json!(ty);
    Some(v)
}
fn legacy(ty: u32, d: &[u8]) -> bool {
    ty == GROUPING && d.len() == 16 || ty == METADATA && texts(d).map_or(false, |t| t.len() == 3)
}
/// The value made by the client's function for the type; None when the function cannot express it.
fn made(s: &mut Source, ty: u32, d: &[u8]) -> Option<J> {
    let v = value(ty, d)?;
    let bytes = |s: &mut Source, b: &[u8]| if s.bool() { json!(b) } else { json!({"$x": hex(b)}) };
    let (f, a): (&str, Vec<J>) = match ty {
        ATTRIBUTES => ("attributes", vec![v["values"].clone()]),
        LINKS => ("links", vec![v["values"].clone()]),
        BLOB => ("blob", vec![v["contentType"].clone(), bytes(s, &d[1 + d[0] as usize..])]),
        BUCKET => ("bucket", vec![bytes(s, d)]),
        CREATORS => {
            if d.chunks(34).any(|c| c[32] != 0) {
                return None;
            }
            ("creators", vec![creators(d).into_iter().map(|(k, _, n)| json!({"address": k.to_string(), "share": n})).collect()])
        }
        METADATA => {
            let mut m = v.as_object().unwrap().clone();
            m.remove("type");
            m.retain(|_, x| x != "" || s.bool());
            ("metadata", if m.is_empty() && s.bool() { vec![] } else { vec![J::Object(m)] })
        }
        GROUPING => {
            if u64at(d, 0) != 0 || d.len() != 48 {
                return None;
            }
            let max = u64at(d, 8);
            let max = if max < 1 << 50 && s.bool() { json!(max) } else { big(max) };
            ("grouping", if v["delegate"].is_null() && s.bool() { vec![max] } else { vec![max, v["delegate"].clone()] })
        }
        ROYALTIES => {
            let (n, c) = (u64at(d, 0), Cons::parse(&d[8..])?.0);
            let n = if n < 1 << 50 && s.bool() { json!(n) } else { big(n) };
            ("royalties", if matches!(c, Cons::Empty(_)) && s.bool() { vec![n] } else { vec![n, cons_made(&c)] })
        }
        MANAGER => {
            let r = v["delegate"]["roles"].clone();
            let r = if r.as_array()?.len() == 1 && s.bool() { r[0].clone() } else { r };
            ("manager", vec![v["delegate"]["address"].clone(), r])
        }
        PROPERTIES => (
            "properties",
            vec![v["values"]
                .as_array()?
                .iter()
                .map(|p| {
                    let mut p = p.clone();
                    p.as_object_mut().unwrap().remove("type");
                    if let Some(n) = p["value"]["$n"].as_str().and_then(|n| n.parse::<u64>().ok()).filter(|n| *n < 1 << 50) {
                        if s.bool() {
                            p["value"] = json!(n);
                        }
                    }
                    p
                })
                .collect()],
        ),
        _ => return None,
    };
    Some(json!({"$f": {"f": f, "a": a}}))
}

// ---- instructions

struct Built {
    size: u64,
    signers: Vec<Pubkey>,
    ixs: Vec<(Pubkey, Ix)>,
}
fn pk(j: &J) -> Result<Pubkey, String> {
    Pubkey::from_str(j.as_str().unwrap_or("")).map_err(|e| format!("{e}: {j}"))
}
fn built(j: &J) -> Result<(Vec<Built>, bool), String> {
    let none = vec![];
    let v = j["transactions"]
        .as_array()
        .unwrap_or(&none)
        .iter()
        .map(|t| {
            let ixs = t["instructions"]
                .as_array()
                .unwrap_or(&none)
                .iter()
                .map(|i| {
                    let metas = i["keys"].as_array().unwrap_or(&none).iter().map(|k| Ok(m(pk(&k[0])?, k[1] == true, k[2] == true))).collect::<Result<Vec<_>, String>>()?;
                    Ok((pk(&i["program"])?, Ix { metas, data: unhex(i["data"].as_str().unwrap_or("")) }))
                })
                .collect::<Result<Vec<_>, String>>()?;
            let signers = t["signers"].as_array().unwrap_or(&none).iter().map(pk).collect::<Result<Vec<_>, String>>()?;
            Ok(Built { size: t["size"].as_u64().unwrap_or(0), signers, ixs })
        })
        .collect::<Result<Vec<_>, String>>()?;
    Ok((v, j["together"] == true))
}
fn camel(n: &str) -> String {
    let mut up = false;
    n.chars()
        .filter_map(|c| {
            if c == '_' {
                up = true;
                return None;
            }
            let r = if up { c.to_ascii_uppercase() } else { c };
            up = false;
            Some(r)
        })
        .collect()
}
fn lower(n: &str) -> String {
    n[..1].to_lowercase() + &n[1..]
}
fn say(v: &[Meta]) -> String {
    v.iter().map(|x| format!("{}{}{}", name_of(&x.key), if x.signer { "!" } else { "" }, if x.writable { "*" } else { "" })).collect::<Vec<_>>().join(" ")
}
fn differs(name: &str, got: (&Pubkey, &Ix), want: (&Pubkey, &[Meta], &[u8])) -> Option<String> {
    if got.0 != want.0 {
        return Some(format!("{name} addresses {} instead of {}", got.0, want.0));
    }
    if got.1.data != want.2 {
        return Some(format!("{name} encodes {} instead of {}", short(&got.1.data), short(want.2)));
    }
    if got.1.metas != want.1 {
        return Some(format!("{name} names [{}] instead of [{}]", say(&got.1.metas), say(want.1)));
    }
    None
}
type Slot = (Option<Pubkey>, bool);
fn account(s: &mut Source, k: &Pubkey, signer: bool) -> J {
    if signer {
        json!({"$s": k.to_string()})
    } else if s.chance(1, 5) {
        json!({"$p": k.to_string()})
    } else {
        json!(k.to_string())
    }
}
/// An optional argument in one of the forms the clients take.
fn option(s: &mut Source, v: Option<J>) -> Option<J> {
    match v {
        Some(v) => Some(if s.bool() { v } else { json!({ "$o": v }) }),
        None => match s.us(3) {
            0 => None,
            1 => Some(J::Null),
            _ => Some(json!({"$0": 1})),
        },
    }
}
/// A typed extension argument, given as a value or through its function.
fn typed(s: &mut Source, e: &ExtIn) -> Option<J> {
    let d = e.data.as_ref()?;
    if e.length as usize != d.len() || legacy(e.ty as u32, d) {
        return None;
    }
    if s.bool() {
        if let Some(x) = made(s, e.ty as u32, d) {
            return Some(x);
        }
    }
    value(e.ty as u32, d)
}
/// Accounts that may be left out, with what they become.
fn defaulted(op: u8, name: &str) -> bool {
    matches!(
        (ASSET_TABLE[op as usize].0, name),
        ("Approve", "owner") | ("Create", "authority" | "owner") | ("Group" | "Ungroup" | "Handover" | "Update" | "Resize", "authority") | ("Remove", "authority" | "recipient") | ("Lock" | "Unlock" | "Revoke" | "Transfer", "signer")
    )
}
fn proxied(name: &str) -> bool {
    !matches!(name, "Allocate" | "Create" | "Write" | "Close")
}
fn rights(table: &[(&str, &str)], slots: &[Slot], placeholder: Pubkey) -> Vec<Meta> {
    table
        .iter()
        .zip(slots)
        .map(|((_, f), (key, flag))| match key {
            None => m(placeholder, false, false),
            Some(k) => m(*k, f.contains('s') || (f.contains('?') && *flag), f.contains('w')),
        })
        .collect()
}
fn put(i: &mut Map<String, J>, k: &str, v: Option<J>) {
    if let Some(v) = v {
        i.insert(k.into(), v);
    }
}
fn one(c: &mut Case, name: &str, q: J, program: &Pubkey, want: &[Meta], data: &[u8], fee: &Pubkey) {
    c.label(name.to_string());
    let mut h = pbt::hash_bytes(data) ^ pbt::hash_bytes(name.as_bytes());
    for x in want {
        h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ (x.signer as u64) << 1 ^ (x.writable as u64));
    }
    c.nontrivial.push(h);
    c.log(|| format!("{name} [{}] data {} from {q}", say(want), short(data)));
    let (t, _) = match ask(&q).and_then(|j| built(&j)) {
        Ok(x) => x,
        Err(e) => return c.fail(format!("{name}: {e}")),
    };
    let [Built { ixs, signers, .. }] = &t[..] else { return c.fail(format!("{name} makes {} transactions", t.len())) };
    let [(p, ix)] = &ixs[..] else { return c.fail(format!("{name} makes {} instructions", ixs.len())) };
    if let Some(e) = differs(name, (p, ix), (program, want, data)) {
        return c.fail(e);
    }
    for x in want {
        if x.signer && !signers.contains(&x.key) {
            return c.fail(format!("{name}: {} is not among the signers", name_of(&x.key)));
        }
    }
    if let Some(x) = signers.iter().find(|k| *k != fee && !want.iter().any(|x| x.signer && x.key == **k)) {
        c.fail(format!("{name}: the signature of {} is asked for", name_of(x)));
    }
}

pub fn instructions(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    match s.us(10) {
        0 => return bridge(s, c),
        1 => return proxy_create(s, c),
        _ => {}
    }
    let kn = Knobs { perturb: 0, forged: 0, empty: 20, junk: 0, exts: [0, 3, 3, 4, 3, 3, 4, 4, 3, 3, 4, 2], ops: [4, 4, 9, 4, 9, 4, 4, 4, 4, 4, 12, 4, 0, 4, 4, 4, 4, 5], locked: 10, ..Knobs::default() };
    let w = gen_world(s, &kn);
    let Some((op, mut metas)) = gen_op(s, &w, &kn) else { return };
    let (name, table) = ASSET_TABLE[op.disc() as usize];
    if !expressible(&op) || metas.len() != table.len() {
        return;
    }
    if s.chance(1, 6) {
        for x in metas.iter_mut() {
            if s.chance(1, 2) {
                x.key = any_key(s);
            }
        }
    }
    let ks = keys();
    let mut slots: Vec<Slot> = table.iter().zip(&metas).map(|((_, f), x)| (if f.contains('o') && x.key == PROGRAM { None } else { Some(x.key) }, x.signer)).collect();
    let fee = *s.pick(&ks.wallet);
    let mut identity = *s.pick(&ks.wallet);
    let mut chosen = false;
    let mut i = Map::new();
    for (n, (name, f)) in table.iter().enumerate() {
        let Some(k) = slots[n].0 else { continue };
        if defaulted(op.disc(), name) && s.chance(1, 3) && (!chosen || identity == k) {
            (identity, chosen) = (k, true);
            // the identity signs, but for the accounts that are named only
            slots[n].1 = true;
            continue;
        }
        if *name == "payer" && op.disc() == 17 && s.chance(1, 4) {
            slots[n] = (Some(fee), true);
            continue;
        }
        let signer = f.contains('s') || f.contains('?') && slots[n].1;
        i.insert(camel(name), account(s, &k, signer));
    }
    // the system program is added when somebody pays
    let at = |n: &str| table.iter().position(|x| x.0 == n);
    if let (Some(p), Some(y)) = (at("payer"), at("system_program")) {
        if slots[p].0.is_some() && (slots[y].0.is_none() || slots[y].0 == Some(SYSTEM) && s.chance(1, 3)) {
            slots[y].0 = Some(SYSTEM);
            i.remove("systemProgram");
        }
    }
    match &op {
        Op::Create { name, standard, mutable, exts } => {
            i.insert("name".into(), json!(name));
            if *standard != 0 || s.bool() {
                i.insert("standard".into(), json!(standard));
            }
            if !*mutable || s.bool() {
                i.insert("mutable".into(), json!(mutable));
            }
            if let Some(v) = exts {
                let Some(v) = v.iter().map(|e| typed(s, e)).collect::<Option<Vec<_>>>() else { return };
                i.insert("extensions".into(), json!(v));
            }
        }
        Op::Approve(r) | Op::Revoke(r) => {
            let v = match (r, s.bool()) {
                (Roles::All, false) => json!({"__kind": "All"}),
                (Roles::All, true) => json!({"$f": {"f": "delegateInput", "a": ["All"]}}),
                (Roles::Some(v), false) => json!({"__kind": "Some", "roles": v}),
                (Roles::Some(v), true) => json!({"$f": {"f": "delegateInput", "a": ["Some", {"roles": v}]}}),
            };
            i.insert("delegateInput".into(), v);
        }
        Op::Allocate(e) => {
            let Some(v) = typed(s, e) else { return };
            i.insert("extension".into(), v);
        }
        Op::Update { name, mutable, ext } => {
            let (n, mu) = (option(s, name.clone().map(|x| json!(x))), option(s, mutable.map(|x| json!(x))));
            put(&mut i, "name", n);
            put(&mut i, "mutable", mu);
            if let Some(e) = ext {
                let Some(v) = typed(s, e) else { return };
                i.insert("extension".into(), v);
            }
        }
        Op::Remove(t) => {
            i.insert("extensionType".into(), json!(t));
        }
        Op::Resize(None) => {
            i.insert("strategy".into(), if s.bool() { json!({"__kind": "Trim"}) } else { json!({"$f": {"f": "strategy", "a": ["Trim"]}}) });
        }
        Op::Resize(Some(n)) => {
            i.insert("strategy".into(), if s.bool() { json!({"__kind": "Extend", "value": n}) } else { json!({"$f": {"f": "strategy", "a": ["Extend", {"value": n}]}}) });
        }
        _ => {}
    }
    let via = if proxied(name) && s.chance(1, 4) { Some(if s.bool() { proxy_id() } else { any_key(s) }) } else { None };
    if let Some(p) = via {
        i.insert("proxy".into(), json!(p.to_string()));
    }
    let program = via.unwrap_or(PROGRAM);
    // a missing account is the address of the asset program, through a proxy too: the proxy forwards it
    let mut want = rights(table, &slots, PROGRAM);
    if via.is_some() {
        want.push(m(PROGRAM, false, false));
    }
    let q = json!({"c": "asset", "f": lower(name), "a": [{"$c": 1}, i], "build": true, "identity": identity.to_string(), "payer": fee.to_string(), "plugins": s.bool()});
    let label = if via.is_some() { format!("{} through a proxy", lower(name)) } else { lower(name) };
    one(c, &label, q, &program, &want, &op.encode(), &fee);
}

fn pda(seeds: &[&[u8]], p: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, p).0
}
const AUTH: Pubkey = solana_program::pubkey!("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg");
fn bridge(s: &mut Source, c: &mut Case) {
    let ks = keys();
    let which = s.us(2);
    let (name, table) = BRIDGE_TABLE[which];
    let coll = s.bool();
    let data = if which == 0 { vec![0] } else { vec![1, coll as u8] };
    let (fee, identity) = (*s.pick(&ks.wallet), *s.pick(&ks.wallet));
    let std = if s.bool() { None } else { Some(s.draw(6) as u8) };
    let programmable = std == Some(4);
    let (meta, token, ata) = (known_address("token_metadata_program"), known_address("spl_token_program"), known_address("spl_ata_program"));
    let mut i = Map::new();
    let mut slots: Vec<Slot> = vec![];
    let mut has: std::collections::HashMap<&str, Pubkey> = Default::default();
    // what is derived from an account comes after it
    let (mint, owner) = (any_key(s), any_key(s));
    has.insert("mint", mint);
    has.insert("owner", owner);
    for (n, f) in table {
        let given = match *n {
            "mint" | "owner" => true,
            _ => s.chance(1, 3),
        };
        let k = match *n {
            "mint" => mint,
            "owner" => owner,
            _ => any_key(s),
        };
        let flag = s.bool();
        if given {
            has.insert(n, k);
            let signer = f.contains('s') || f.contains('?') && flag;
            i.insert(camel(n), account(s, &k, signer));
            slots.push((Some(k), flag));
            continue;
        }
        let ata_of = |o: &Pubkey| pda(&[o.as_ref(), token.as_ref(), mint.as_ref()], &ata);
        let record = |t: &Pubkey| pda(&[b"metadata", meta.as_ref(), mint.as_ref(), b"token_record", t.as_ref()], &meta);
        let k = match *n {
            "asset" => Some(pda(&[b"asset", mint.as_ref()], &BRIDGE)),
            "vault" => Some(pda(&[b"vault", mint.as_ref()], &BRIDGE)),
            "token" => Some(ata_of(&owner)),
            "metadata" => Some(pda(&[b"metadata", meta.as_ref(), mint.as_ref()], &meta)),
            "master_edition" => Some(pda(&[b"metadata", meta.as_ref(), mint.as_ref(), b"edition"], &meta)),
            "vault_token" => Some(ata_of(&has["vault"])),
            "token_record" => programmable.then(|| record(&has["token"])),
            "vault_token_record" => programmable.then(|| record(&has["vault_token"])),
            "authorization_rules_program" => programmable.then_some(AUTH),
            "payer" => Some(fee),
            "update_authority" => Some(identity),
            "authorization_rules" | "group_asset" | "collection" => None,
            x => Some(known_address(x)),
        };
        if let Some(k) = k {
            has.insert(n, k);
        }
        slots.push((k, true));
    }
    if which == 0 {
        put(&mut i, "tokenStandard", std.map(|x| json!(x)));
    } else {
        i.insert("isCollection".into(), json!(coll));
    }
    let want = rights(table, &slots, BRIDGE);
    let q = json!({"c": "bridge", "f": lower(name), "a": [{"$c": 1}, i], "build": true, "identity": identity.to_string(), "payer": fee.to_string(), "plugins": s.bool()});
    one(c, &format!("bridge {}", lower(name)), q, &BRIDGE, &want, &data, &fee);
}
fn proxy_create(s: &mut Source, c: &mut Case) {
    let ks = keys();
    let table = [("asset", "w"), ("stub", "s"), ("owner", ""), ("authority", "s"), ("payer", "osw"), ("system_program", "o"), ("nifty_asset_program", "")];
    let (fee, identity) = (*s.pick(&ks.wallet), *s.pick(&ks.wallet));
    let (stub, pays) = (any_key(s), s.bool());
    let name = gen_name(s);
    let mut data = vec![0];
    data.extend_from_slice(&(name.len() as u32).to_le_bytes());
    data.extend_from_slice(name.as_bytes());
    let mut i = Map::new();
    i.insert("name".into(), json!(name));
    let mut slots: Vec<Slot> = vec![];
    for (n, f) in table {
        let given = match n {
            "stub" | "owner" => true,
            "payer" => pays,
            _ => s.bool(),
        };
        if given {
            let k = if n == "stub" { stub } else { any_key(s) };
            i.insert(camel(n), account(s, &k, f.contains('s')));
            slots.push((Some(k), true));
            continue;
        }
        slots.push((
            match n {
                "asset" => Some(pda(&[stub.as_ref()], &proxy_id())),
                "authority" => Some(identity),
                "system_program" => pays.then_some(SYSTEM),
                "nifty_asset_program" => Some(PROGRAM),
                _ => None,
            },
            true,
        ));
    }
    let want = rights(&table, &slots, proxy_id());
    let q = json!({"c": "proxy", "f": "create", "a": [{"$c": 1}, i], "build": true, "identity": identity.to_string(), "payer": fee.to_string(), "plugins": s.bool()});
    one(c, "proxy create", q, &proxy_id(), &want, &data, &fee);
}

fn serializer(ty: u32) -> J {
    let k = keys().wallet[0].to_string();
    json!({"c": "asset", "f": "getExtensionSerializerFromType", "a": [ty], "identity": k, "payer": k})
}

/// The parts that make up instructions, extensions and accounts, to bytes and back, wherever they stand.
fn pieces(s: &mut Source, c: &mut Case) {
    let some = |v: Option<J>| match v {
        None => json!({"__option": "None"}),
        Some(v) => json!({"__option": "Some", "value": v}),
    };
    let text = |t: &str| [&[t.len() as u8], t.as_bytes()].concat();
    let mut client = "asset";
    let (f, v, d): (&str, J, Vec<u8>) = match s.us(18) {
        0 => {
            let (ty, n) = (s.range(1, 11) as u8, (s.u64_any() as u32));
            let data = if s.bool() { Some({ let n = s.us(40); s.blob(n) }) } else { None };
            let mut d = vec![ty];
            d.extend(n.to_le_bytes());
            match &data {
                None => d.push(0),
                Some(x) => {
                    d.push(1);
                    d.extend((x.len() as u32).to_le_bytes());
                    d.extend(x);
                }
            }
            ("getExtensionInputSerializer", json!({"extensionType": ty, "length": n, "data": some(data.map(|x| json!({"$x": hex(&x)})))}), d)
        }
        1 => match s.bool() {
            true => ("getStrategySerializer", json!({"__kind": "Trim"}), vec![0]),
            false => {
                let n = (s.u64_any() as u32) as u16;
                ("getStrategySerializer", json!({"__kind": "Extend", "value": n}), [&[1][..], &n.to_le_bytes()].concat())
            }
        },
        2 => match s.bool() {
            true => ("getDelegateInputSerializer", json!({"__kind": "All"}), vec![0]),
            false => {
                let r: Vec<u8> = (0..s.us(5)).map(|_| s.draw(4) as u8).collect();
                ("getDelegateInputSerializer", json!({"__kind": "Some", "roles": r}), [&[1][..], &(r.len() as u32).to_le_bytes(), &r].concat())
            }
        },
        3 => {
            let x: [u32; 4] = std::array::from_fn(|_| s.u64_any() as u32);
            ("getExtensionHeaderSerializer", json!({"kind": x[0], "length": x[1], "boundary": x[2], "padding": x[3]}), x.iter().flat_map(|n| n.to_le_bytes()).collect())
        }
        4 => {
            let (f, n) = *s.pick(&[("getExtensionTypeSerializer", 12), ("getStandardSerializer", 4), ("getStateSerializer", 2), ("getDiscriminatorSerializer", 2), ("getTypeSerializer", 3), ("getDelegateRoleSerializer", 4)]);
            let n = s.draw(n) as u8;
            (f, json!(n), vec![n])
        }
        5 => {
            let (k, r) = (any_key(s), s.draw(8) as u8);
            ("getDelegateSerializer", json!({"address": nullable(k.as_ref()), "roles": roles_list(r)}), [k.as_ref(), &[r]].concat())
        }
        6 => {
            let (k, v, n) = (any_key(s), s.bool(), (s.u64_any() as u32) as u8);
            ("getCreatorSerializer", json!({"address": k.to_string(), "verified": v, "share": n}), [k.as_ref(), &[v as u8, n]].concat())
        }
        7 => {
            let (a, b) = (crate::gen::text(s), crate::gen::text(s));
            ("getTraitSerializer", json!({"name": a, "value": b}), [text(&a), text(&b)].concat())
        }
        8 => {
            let (a, b) = (crate::gen::text(s), crate::gen::text(s));
            ("getLinkSerializer", json!({"name": a, "uri": b}), [text(&a), text(&b)].concat())
        }
        9 => {
            let k = if s.chance(1, 3) { Pubkey::default() } else { any_key(s) };
            ("getNullablePublicKeySerializer", nullable(k.as_ref()), k.to_bytes().to_vec())
        }
        10 => {
            let r = s.draw(8) as u8;
            ("getDelegateRolesSerializer", roles_list(r), vec![r])
        }
        11 => {
            let n = s.draw(6) as u32;
            ("getOperatorTypeSerializer", json!(n), n.to_le_bytes().to_vec())
        }
        12 => {
            let n = s.draw(3);
            ("getAccountSerializer", json!(["Asset", "Authority", "Recipient"][n as usize]), n.to_le_bytes().to_vec())
        }
        13 => {
            let x: [u32; 2] = std::array::from_fn(|_| s.u64_any() as u32);
            ("getConstraintHeaderSerializer", json!({"type": x[0], "size": x[1]}), x.iter().flat_map(|n| n.to_le_bytes()).collect())
        }
        14 => {
            let n = crate::gen::text(s);
            let mut d = text(&n);
            let ty = s.draw(3);
            d.push(ty as u8);
            let f = if s.bool() { "getPropertySerializer" } else { ["getTextSerializer", "getNumberSerializer", "getBooleanSerializer"][ty as usize] };
            match ty {
                0 => d.extend(text(&crate::gen::text(s))),
                1 => d.extend(s.u64_any().to_le_bytes()),
                _ => d.push(s.bool() as u8),
            }
            let Some(mut v) = props(&d) else { return };
            (f, v.remove(0), d)
        }
        15 => {
            let w = s.bool();
            client = "bridge";
            match s.us(3) {
                0 => ("getBridgeInstructionDataSerializer", json!({"discriminator": 0}), vec![0]),
                1 => ("getCreateInstructionDataSerializer", json!({"discriminator": 1, "isCollection": w}), vec![1, w as u8]),
                _ => ("getStateSerializer", json!(w as u8), vec![w as u8]),
            }
        }
        16 => {
            let n = gen_name(s);
            client = "proxy";
            ("getCreateInstructionDataSerializer", json!({"discriminator": 0, "name": n}), [&[0], &(n.len() as u32).to_le_bytes()[..], n.as_bytes()].concat())
        }
        _ => ("getCloseInstructionDataSerializer", json!({"discriminator": 0}), vec![0]),
    };
    c.evals += 1;
    c.label(format!("{client} {f}"));
    c.nontrivial.push(pbt::hash_bytes(&d) ^ pbt::hash_bytes(f.as_bytes()));
    c.log(|| format!("{client} {f} {v} {}", short(&d)));
    let me = keys().wallet[0].to_string();
    let go = |then: J| ask(&json!({"c": client, "f": f, "a": [], "then": [then], "identity": me, "payer": me}));
    let n = s.us(9);
    let pre = s.blob(n);
    let mut all = [&pre[..], &d].concat();
    if s.bool() {
        let n = s.range(1, 5);
        all.extend(s.blob(n));
    }
    let w = go(json!(["serialize", v]));
    if w != Ok(json!({"$x": hex(&d)})) {
        return c.fail(format!("{client} {f}: {v} is written as {w:?} instead of {}", hex(&d)));
    }
    let r = if pre.is_empty() { go(json!(["deserialize", {"$x": hex(&all)}])) } else { go(json!(["deserialize", {"$x": hex(&all)}, pre.len()])) };
    if r != Ok(json!([v, pre.len() + d.len()])) {
        c.fail(format!("{client} {f}: {} at {} is read as {r:?} instead of {v}", hex(&all), pre.len()));
    }
}

/// Extension values to bytes and back.
pub fn values(s: &mut Source, c: &mut Case) {
    if s.chance(1, 3) {
        return pieces(s, c);
    }
    let ty = s.range(1, 11) as u32;
    let synth = s.bool();
    let d = gen_content(s, ty, &Ctx { key: keys().asset[0], cur: None, junk: 0, synth });
    let Some(v) = value(ty, &d) else { return };
    if legacy(ty, &d) {
        return;
    }
    c.evals += 1;
    c.label(format!("extension {ty}"));
    c.nontrivial.push(pbt::hash_bytes(&d) ^ ty as u64);
    let by = made(s, ty, &d).filter(|_| s.bool());
    let arg = by.clone().unwrap_or_else(|| v.clone());
    c.log(|| format!("extension {ty} {} from {arg}", short(&d)));
    let mut q = serializer(ty);
    q["then"] = json!([["serialize", arg]]);
    match ask(&q) {
        Ok(x) if x["$x"].as_str() == Some(&hex(&d)) => {}
        Ok(x) => return c.fail(format!("extension {ty}: {arg} is written as {x} instead of {}", hex(&d))),
        Err(e) => return c.fail(format!("extension {ty}: {arg} is not written: {e}")),
    }
    if ty == ROYALTIES {
        // the constraint on its own, and behind something else
        let q = |then: J| {
            let mut q = serializer(ty);
            q["f"] = json!("getConstraintSerializer");
            q["a"] = json!([]);
            q["then"] = json!([then]);
            ask(&q)
        };
        let (a, b, w) = (q(json!(["deserialize", {"$x": hex(&d[8..])}])), q(json!(["deserialize", {"$x": hex(&d)}, 8])), q(json!(["serialize", v["constraint"]])));
        if a != Ok(json!([v["constraint"], d.len() - 8])) || b != Ok(json!([v["constraint"], d.len()])) || w != Ok(json!({"$x": hex(&d[8..])})) {
            return c.fail(format!("constraint {}: read as {a:?} and {b:?} and written as {w:?} instead of {}", hex(&d[8..]), v["constraint"]));
        }
    }
    let mut q = serializer(ty);
    let n = if s.bool() { 0 } else { s.us(9) };
    let pre = s.blob(n);
    let all = hex(&[&pre[..], &d].concat());
    q["then"] = if n == 0 && s.bool() { json!([["deserialize", {"$x": all}]]) } else { json!([["deserialize", {"$x": all}, n]]) };
    let mut plain = v;
    plain.as_object_mut().unwrap().remove("type");
    match ask(&q) {
        Ok(x) if x[0] == plain && x[1].as_u64() == Some((n + d.len()) as u64) => {}
        Ok(x) => c.fail(format!("extension {ty}: {} is read as {x} instead of {plain}", hex(&d))),
        Err(e) => c.fail(format!("extension {ty}: {} is not read: {e}", hex(&d))),
    }
}

/// Runs transactions; Err: where it was refused.
fn perform(c: &mut Case, w: &World, t: &[Built]) -> Result<Result<World, String>, String> {
    let mut w = w.clone();
    vm::set_stack_height(1);
    let _ = &c;
    for (n, t) in t.iter().enumerate() {
        for (i, (p, ix)) in t.ixs.iter().enumerate() {
            if *p != PROGRAM {
                return Err(format!("instruction {i} of transaction {n} addresses {p}"));
            }
            for x in &ix.metas {
                if x.signer && !t.signers.contains(&x.key) {
                    return Err(format!("transaction {n} lacks the signature of {}", name_of(&x.key)));
                }
            }
            pbt::set_phase(1);
            let r = vm::run_asset(&w, ix, 0);
            pbt::set_phase(0);
            match r {
                Ok(x) => w = x,
                Err(f) => return Ok(Err(format!("instruction {i} of transaction {n}: {}", fail_text(&f)))),
            }
        }
    }
    Ok(Ok(w))
}
/// What stands between extensions does not matter.
fn tidy(mut w: World) -> World {
    for (_, a) in w.accts.iter_mut() {
        if a.owner == PROGRAM {
            if let Ok(mut x) = AssetM::parse(&a.data) {
                // what a buffer says of its creators' verification has no meaning: a further write clears it, giving
                // everything at once keeps it, and creating an asset sets it anew
                for e in x.exts.iter_mut().filter(|e| x.disc == 0 && e.ty == CREATORS) {
                    for c in e.data.chunks_mut(34).filter(|c| c.len() == 34) {
                        c[32] = 0;
                    }
                }
                a.data = x.encode();
            }
        }
    }
    w
}
fn compare_runs(c: &mut Case, what: &str, want: Ref, got: Result<World, String>) {
    match (want, got) {
        (Ref::Done(x) | Ref::Open(x), Ok(y)) => {
            c.label(format!("{what}: done"));
            if let Some(e) = differ(&tidy(x), &tidy(y)) {
                c.fail(format!("{what} does not have the result described: {e}"));
            }
        }
        (Ref::Done(_), Err(e)) => c.fail(format!("{what} is refused: {e}")),
        (Ref::Refused(e), Ok(_)) => c.fail(format!("{what} succeeds although what it describes is not valid: {e}")),
        (Ref::Refused(e), Err(_)) => c.label(format!("{what} refused: {e}")),
        _ => c.label(format!("{what}: left open")),
    }
}

/// The helpers that make several transactions.
pub fn helpers(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    let ks = keys();
    let mut w = world();
    let asset = *s.pick(&ks.asset);
    let payer = *s.pick(&ks.wallet);
    let who = m(payer, true, true);
    let a = m(asset, true, true);
    let which = s.weighted(&[5, 2, 2, 5]);
    let mut i = Map::new();
    i.insert("asset".into(), json!({"$s": asset.to_string()}));
    // an input without payer is paid for by the context's where a helper says so
    let implied = which == 2 && s.chance(1, 3);
    if !implied {
        i.insert("payer".into(), json!({"$s": payer.to_string()}));
    }
    // somebody else may pay the fees; transactions are then longer by a signature
    let fee = if !implied && s.chance(1, 4) { *s.pick(&ks.wallet) } else { payer };
    let mut identity = *s.pick(&ks.wallet);
    let (what, want): (&str, Ref) = match which {
        0 => {
            let (owner, name, mutable) = (*s.pick(&ks.wallet), gen_name(s), s.bool());
            let exts = extensions(s, asset, 6_000);
            let Some(v) = exts.iter().map(|(t, d)| typed(s, &ExtIn::full(*t, d.clone()))).collect::<Option<Vec<_>>>() else { return };
            let mut standard = s.weighted(&[6, 2, 2, 1]) as u8;
            if exts.iter().any(|e| e.0 == MANAGER) && s.chance(7, 8) {
                standard = 1;
            }
            let authority = *s.pick(&ks.wallet);
            let signed = s.bool();
            identity = authority;
            let mut list: Vec<Ix> = vec![];
            for (t, d) in &exts {
                list.extend(plain(a, who, *t, d));
            }
            list.push(Ix { metas: vec![a, m(authority, signed, false), m(owner, false, false), m(PROGRAM, false, false), m(PROGRAM, false, false), who, sys()], data: Op::Create { name: name.clone(), standard, mutable, exts: None }.encode() });
            i.insert("name".into(), json!(name));
            i.insert("owner".into(), json!(owner.to_string()));
            i.insert("standard".into(), json!(standard));
            i.insert("mutable".into(), json!(mutable));
            if !(signed && s.bool()) {
                i.insert("authority".into(), account(s, &authority, signed));
            }
            if !v.is_empty() || s.bool() {
                i.insert("extensions".into(), json!(v));
            }
            c.log(|| format!("mint {:?}", exts.iter().map(|e| (e.0, e.1.len())).collect::<Vec<_>>()));
            ("mint", reference(&w, &list, 1))
        }
        1 => {
            let exts = extensions(s, asset, 6_000);
            let Some((t, d)) = exts.first() else { return };
            let Some(v) = typed(s, &ExtIn::full(*t, d.clone())) else { return };
            i.insert("extension".into(), v);
            c.log(|| format!("initialize {t} {}", d.len()));
            // data is checked when written in parts, and on creation otherwise
            let bad = matches!(on_create(*t, d, None), Content::Bad(_));
            let want = if bad {
                match reference(&w, &[crate::mint::whole(a, who, *t, d)], 1) {
                    Ref::Done(x) => Ref::Open(x),
                    _ => return,
                }
            } else {
                reference(&w, &plain(a, who, *t, d), 1)
            };
            ("initialize", want)
        }
        2 => {
            let n = size(s, 6_000);
            let d = s.blob(n);
            let chunk = if s.bool() { None } else { Some(s.range(1 + d.len() / 40, 900)) };
            let have = s.us(2) == 0;
            let len = if have { d.len() } else { d.len() + s.us(40) };
            let some = len.min(30) * s.us(2);
            let first = Ix { metas: vec![a, who, sys()], data: Op::Allocate(ExtIn { ty: BUCKET as u8, length: len as u32, data: Some(s.blob(some)) }).encode() };
            pbt::set_phase(1);
            let r = vm::run_asset(&w, &first, 0);
            pbt::set_phase(0);
            match r {
                Ok(x) => w = x,
                Err(_) => return,
            }
            i.insert("data".into(), json!({"$x": hex(&d)}));
            put(&mut i, "chunkSize", chunk.map(|x| json!(x)));
            let mut list = vec![];
            for (n, x) in d.chunks(5000).enumerate() {
                list.push(Ix { metas: vec![a, who, sys()], data: Op::Write { overwrite: n == 0, bytes: x.to_vec() }.encode() });
            }
            c.log(|| format!("write {} bytes in chunks of {chunk:?}, {len} allocated", d.len()));
            ("write", reference(&w, &list, 1))
        }
        _ => {
            // an existing asset with an extension to change or add
            let authority = *s.pick(&ks.wallet);
            identity = authority;
            let mut list: Vec<Ix> = vec![];
            for (t, d) in extensions(s, asset, 3_000) {
                list.extend(plain(a, who, t, &d));
            }
            list.push(Ix { metas: vec![a, m(authority, true, false), m(authority, false, false), m(PROGRAM, false, false), m(PROGRAM, false, false), who, sys()], data: Op::Create { name: "x".into(), standard: 0, mutable: s.chance(9, 10), exts: None }.encode() });
            match reference(&w, &list, 1) {
                Ref::Done(x) => w = x,
                _ => return,
            }
            let exts = extensions(s, asset, 6_000);
            let Some((t, d)) = exts.first().cloned() else { return };
            let Some(v) = typed(s, &ExtIn::full(t, d.clone())) else { return };
            let chunk = if s.bool() { None } else { Some(s.range(1 + d.len() / 40, 900)) };
            let (name, mutable) = (if s.bool() { None } else { Some(gen_name(s)) }, if s.bool() { None } else { Some(s.bool()) });
            let via = if s.chance(1, 4) { Some(proxy_id()) } else { None };
            i.insert("asset".into(), json!(asset.to_string()));
            i.insert("extension".into(), v);
            put(&mut i, "chunkSize", chunk.map(|x| json!(x)));
            let (n, mu) = (option(s, name.clone().map(|x| json!(x))), option(s, mutable.map(|x| json!(x))));
            put(&mut i, "name", n);
            put(&mut i, "mutable", mu);
            if s.bool() {
                i.insert("authority".into(), json!({"$s": authority.to_string()}));
            }
            put(&mut i, "proxy", via.map(|p| json!(p.to_string())));
            c.log(|| format!("updateWithBuffer {t} {} in chunks of {chunk:?}", d.len()));
            if via.is_some() {
                return through(s, c, i, &d, t, chunk, name, mutable, asset, authority, payer, fee);
            }
            // a buffer takes a group that starts empty only, an update ignores the size
            let strict = t == GROUPING && u64at(&d, 0) != 0;
            let up = Ix { metas: vec![m(asset, false, true), m(authority, true, false), m(PROGRAM, false, false), m(PROGRAM, false, false), who, sys()], data: Op::Update { name, mutable, ext: Some(ExtIn::full(t, d)) }.encode() };
            let want = match reference(&w, &[up], 1) {
                Ref::Done(x) if strict => Ref::Open(x),
                x => x,
            };
            ("updateWithBuffer", want)
        }
    };
    let fresh = *ks.asset.iter().find(|k| **k != asset).unwrap();
    let q = json!({"c": "asset", "f": what, "a": [{"$c": 1}, i], "build": true, "identity": identity.to_string(), "payer": fee.to_string(), "generated": [fresh.to_string()], "plugins": s.bool()});
    let (t, together) = match ask(&q).and_then(|j| built(&j)) {
        Ok(x) => x,
        Err(e) => return c.fail(format!("{what}: {e}")),
    };
    let mut h = 0;
    let alone = t.len() == 1;
    for (n, t) in t.iter().enumerate() {
        for (_, ix) in &t.ixs {
            h = pbt::mix(h ^ pbt::hash_bytes(&ix.data));
        }
        // an update that is not split fits whoever pays
        let whole = what == "updateWithBuffer" && alone;
        if t.size > 1232 && (whole || i.get("chunkSize").map_or(true, |x| x.as_u64() <= Some(800))) {
            return c.fail(format!("{what}: transaction {n} needs {} bytes", t.size));
        }
    }
    c.nontrivial.push(h);
    c.label(format!("{what} in {} transactions", match t.len() { 0 | 1 => "1", 2..=4 => "2-4", _ => "5 or more" }));
    if together && t.len() > 1 {
        return c.fail(format!("{what}: the {} transactions, which depend on each other, are sent together", t.len()));
    }
    match perform(c, &w, &t) {
        Err(e) => c.fail(format!("{what}: {e}")),
        Ok(r) => compare_runs(c, what, want, r),
    }
}

/// An update with a buffer through a proxy: the buffer belongs to the asset program, the update goes to the proxy.
#[allow(clippy::too_many_arguments)]
fn through(s: &mut Source, c: &mut Case, i: Map<String, J>, d: &[u8], ty: u32, chunk: Option<usize>, name: Option<String>, mutable: Option<bool>, asset: Pubkey, authority: Pubkey, payer: Pubkey, fee: Pubkey) {
    let ks = keys();
    let buffer = *ks.asset.iter().find(|k| **k != asset).unwrap();
    let q = json!({"c": "asset", "f": "updateWithBuffer", "a": [{"$c": 1}, i], "build": true, "identity": authority.to_string(), "payer": fee.to_string(), "generated": [buffer.to_string()], "plugins": s.bool()});
    let (t, _) = match ask(&q).and_then(|j| built(&j)) {
        Ok(x) => x,
        Err(e) => return c.fail(format!("updateWithBuffer: {e}")),
    };
    let p = proxy_id();
    let none = m(PROGRAM, false, false);
    let who = m(payer, true, true);
    let b = m(buffer, true, true);
    // data within the chunk size may need a buffer too, when the transaction would become too large
    let some = t.iter().map(|t| t.ixs.len()).sum::<usize>();
    let chunked = some > 1 || chunk.is_some_and(|n| d.len() > n);
    if let Some(x) = t.iter().find(|t| t.size > 1232 && (!chunked || chunk.is_none() || chunk <= Some(800))) {
        return c.fail(format!("updateWithBuffer through a proxy: a transaction needs {} bytes", x.size));
    }
    let got: Vec<&(Pubkey, Ix)> = t.iter().flat_map(|t| &t.ixs).collect();
    // without a size given, all writes but the last are as long as the first
    let chunk = chunk.unwrap_or_else(|| got.get(1).map_or(1, |g| g.1.data.len().saturating_sub(6).max(1)));
    let mut h = 0;
    for (_, ix) in &got {
        h = pbt::mix(h ^ pbt::hash_bytes(&ix.data));
    }
    c.nontrivial.push(h);
    c.label(format!("updateWithBuffer through a proxy, {}", if chunked { "in chunks" } else { "at once" }));
    let mut list: Vec<(Pubkey, Vec<Meta>, Vec<u8>)> = vec![];
    if chunked {
        list.push((PROGRAM, vec![b, who, sys()], Op::Allocate(ExtIn { ty: ty as u8, length: d.len() as u32, data: None }).encode()));
        for (n, x) in d.chunks(chunk).enumerate() {
            list.push((PROGRAM, vec![b, who, sys()], Op::Write { overwrite: n == 0, bytes: x.to_vec() }.encode()));
        }
    }
    let ext = (!chunked).then(|| ExtIn::full(ty, d.to_vec()));
    let at = if chunked { m(buffer, false, true) } else { none };
    list.push((p, vec![m(asset, false, true), m(authority, true, false), at, none, who, sys(), m(PROGRAM, false, false)], Op::Update { name, mutable, ext }.encode()));
    if chunked {
        list.push((PROGRAM, vec![b, m(payer, false, true)], Op::Close.encode()));
    }
    if got.len() != list.len() {
        return c.fail(format!("updateWithBuffer through a proxy makes {} instructions instead of {}", got.len(), list.len()));
    }
    for (n, (g, w)) in got.iter().zip(&list).enumerate() {
        if let Some(e) = differs(&format!("updateWithBuffer through a proxy, instruction {n},"), (&g.0, &g.1), (&w.0, &w.1, &w.2)) {
            return c.fail(e);
        }
    }
}

// ---- reading

fn decode(k: &Pubkey, d: &[u8]) -> Result<J, String> {
    let me = keys().wallet[0].to_string();
    ask(&json!({"c": "asset", "f": "deserializeAsset", "a": [{"publicKey": k.to_string(), "owner": PROGRAM.to_string(), "data": {"$x": hex(d)}, "executable": false}], "identity": me, "payer": me}))
}
fn trim(n: &[u8; 35]) -> Option<String> {
    let end = n.iter().position(|c| *c == 0).unwrap_or(35);
    n[end..].iter().all(|c| *c == 0).then(|| js_text(&n[..end])).flatten()
}
fn header(k: &Pubkey, a: &AssetM) -> J {
    json!({
        "publicKey": k.to_string(), "discriminator": a.disc, "state": a.state, "standard": a.standard, "mutable": a.mutable, "owner": a.owner.to_string(),
        "group": a.group.map(|g| g.to_string()), "authority": a.authority.to_string(), "name": trim(&a.name),
        "delegate": a.delegate.map(|(k, r)| json!({"address": k.to_string(), "roles": roles_list(r & 7)})),
    })
}
/// None when the account holds something the client has no value for.
fn expected(k: &Pubkey, a: &AssetM) -> Option<J> {
    let mut v = header(k, a);
    if v["name"].is_null() || a.delegate.map_or(false, |d| d.1 > 7) {
        return None;
    }
    v["extensions"] = a.exts.iter().filter(|e| e.ty >= 1 && e.ty <= MAX_TYPE).map(|e| if e.length == e.data.len() { value(e.ty, &e.data) } else { None }).collect::<Option<Vec<J>>>()?.into();
    Some(v)
}
fn judge(c: &mut Case, k: &Pubkey, d: &[u8], want: &J) {
    match decode(k, d) {
        Err(e) => c.fail(format!("{}: the account does not decode: {e}; it holds {want}", name_of(k))),
        Ok(mut got) => {
            got.as_object_mut().map(|o| o.remove("header"));
            if got != *want {
                c.fail(format!("{} decodes to {got} instead of {want}", name_of(k)));
            }
        }
    }
}
/// Accounts of the asset program: decoding, queries, fetching.
pub fn accounts(s: &mut Source, c: &mut Case) {
    let kn = Knobs { perturb: 5, exts: [0, 4, 3, 4, 4, 4, 4, 4, 4, 3, 4, 3], standards: [5, 4, 2, 4], delegate: 60, grouped: 55, locked: 30, forged: 0, junk: 0, spare: 40, ..Knobs::default() };
    let mut w = gen_world(s, &kn);
    vm::set_stack_height(1);
    for _ in 0..s.us(3) {
        s.begin();
        let g = gen_ix(s, &w, &kn);
        s.end();
        if let Some((ix, _)) = g {
            pbt::set_phase(1);
            let r = vm::run_asset(&w, &ix, 0);
            pbt::set_phase(0);
            if let Ok(n) = r {
                w = n;
            }
        }
    }
    let all: Vec<(Pubkey, Vec<u8>, AssetM)> = w.accts.iter().filter(|x| x.1.owner == PROGRAM).filter_map(|(k, a)| Some((*k, a.data.clone(), AssetM::parse(&a.data).ok()?))).collect();
    for (k, data, a) in &all {
        if a.disc != 1 {
            c.evals += 1;
            c.label("a buffer");
            if let Ok(x) = decode(k, data) {
                return c.fail(format!("{}: an account that is no asset decodes to {x}", name_of(k)));
            }
            continue;
        }
        let Some(want) = expected(k, a) else { continue };
        c.evals += 1;
        c.nontrivial.push(pbt::hash_bytes(data));
        for e in &a.exts {
            c.label(format!("extension {}{}", e.ty, if legacy(e.ty, &e.data) { ", old form" } else { "" }));
        }
        c.log(|| format!("{}: {a:?}", name_of(k)));
        judge(c, k, data, &want);
        if c.failed() {
            return;
        }
        // an extension of a type this client does not know, in front
        if s.chance(1, 6) {
            let mut b = a.clone();
            let n = s.us(20);
            let x = ExtM::full(MAX_TYPE + 1 + s.draw(300) as u32, s.blob(n));
            let spare = b.len - b.end();
            b.exts.insert(s.us(b.exts.len() + 1), x);
            b.len = b.end() + spare;
            c.label("unknown type");
            judge(c, k, &b.encode(), &want);
        }
        let mut d = data.clone();
        match s.us(4) {
            0 => {
                let n = if s.bool() { s.us(ASSET_LEN) } else { ASSET_LEN - 1 - s.us(4) };
                d.truncate(n);
            }
            1 => d[0] = if s.bool() { 0 } else { 2 + s.draw(254) as u8 },
            2 => d[1] = 2 + s.draw(254) as u8,
            _ => d[2] = 4 + s.draw(252) as u8,
        }
        if let Ok(x) = decode(k, &d) {
            return c.fail(format!("{} bytes starting {:?} decode to {x}", d.len(), &d[..d.len().min(4)]));
        }
    }
    if all.is_empty() || c.failed() {
        return;
    }
    let me = keys().wallet[0].to_string();
    let rpc: Map<String, J> = w.accts.iter().map(|(k, a)| (k.to_string(), json!({"owner": a.owner.to_string(), "data": hex(&a.data)}))).collect();
    if s.bool() {
        // a query by one or two fields finds the accounts that have them
        let (_, _, model) = &all[s.us(all.len())];
        let mut then = vec![];
        let mut keep: Vec<bool> = vec![true; all.len()];
        let mut names = vec![];
        for _ in 0..s.range(1, 2) {
            let mut hit = |f: &dyn Fn(&AssetM) -> bool| keep.iter_mut().zip(&all).for_each(|(k, x)| *k &= f(&x.2));
            let (n, v) = match s.us(10) {
                0 => {
                    hit(&|x| x.disc == model.disc);
                    ("discriminator", json!(model.disc))
                }
                1 => {
                    hit(&|x| x.state == model.state);
                    ("state", json!(model.state))
                }
                2 => {
                    hit(&|x| x.standard == model.standard);
                    ("standard", json!(model.standard))
                }
                3 => {
                    hit(&|x| x.mutable == model.mutable);
                    ("mutable", json!(model.mutable))
                }
                4 => {
                    hit(&|x| x.owner == model.owner);
                    ("owner", json!(model.owner.to_string()))
                }
                5 => {
                    hit(&|x| x.group == model.group);
                    ("group", json!(model.group.map(|k| k.to_string())))
                }
                6 => {
                    hit(&|x| x.authority == model.authority);
                    ("authority", json!(model.authority.to_string()))
                }
                7 => {
                    let d = |x: &AssetM| x.delegate.map(|d| d.0);
                    hit(&|x| d(x) == d(model));
                    ("delegate", json!(d(model).map(|k| k.to_string())))
                }
                8 => {
                    let Some((_, r)) = model.delegate.filter(|d| d.1 < 8) else { return };
                    // what an account without delegate has there is nobody's business
                    if all.iter().any(|x| x.2.delegate.is_none() && x.1[132] == r) {
                        return;
                    }
                    hit(&|x| x.delegate.map(|d| d.1) == Some(r));
                    ("roles", roles_list(r))
                }
                _ => {
                    let Some(n) = trim(&model.name) else { return };
                    hit(&|x| x.name == model.name);
                    ("name", json!(n))
                }
            };
            then.push(json!(["whereField", n, v]));
            names.push(n);
        }
        then.push(json!(["get"]));
        c.evals += 1;
        c.label("query");
        let mut want: Vec<String> = all.iter().zip(&keep).filter(|x| *x.1).map(|x| x.0 .0.to_string()).collect();
        let q = json!({"c": "asset", "f": "getAssetGpaBuilder", "a": [{"$c": 1}], "then": then, "identity": me, "payer": me, "accounts": rpc});
        match ask(&q) {
            Err(e) => c.fail(format!("query by {names:?}: {e}")),
            Ok(x) => {
                // others of the program may be found, too, if they are no accounts this check reads
                let mut got: Vec<String> = x.as_array().map_or(vec![], |v| v.iter().filter_map(|a| a["publicKey"].as_str().map(String::from)).collect());
                got.retain(|k| all.iter().any(|x| x.0.to_string() == *k));
                got.sort();
                want.sort();
                if got != want {
                    c.fail(format!("query by {names:?} finds {got:?} instead of {want:?}"));
                }
            }
        }
        return;
    }
    // fetching several, some of them missing
    let missing = Pubkey::new_from_array([77; 32]);
    let mut list: Vec<Pubkey> = vec![];
    let mut want = vec![];
    for (k, _, a) in &all {
        if a.disc == 1 && s.bool() {
            let Some(v) = expected(k, a) else { continue };
            list.push(*k);
            want.push(v);
        }
    }
    let gone = s.bool();
    let n = s.us(list.len() + 1);
    if gone {
        list.insert(n, missing);
    }
    let safe = s.bool();
    c.evals += 1;
    c.label("fetch");
    let names: Vec<String> = list.iter().map(|k| k.to_string()).collect();
    let single = list.len() == 1 && s.bool();
    let f = match (safe, single) {
        (true, true) => "safeFetchAsset",
        (true, false) => "safeFetchAllAsset",
        (false, true) => "fetchAsset",
        (false, false) => "fetchAllAsset",
    };
    let r = ask(&json!({"c": "asset", "f": f, "a": [{"$c": 1}, if single { json!(names[0]) } else { json!(names) }], "identity": me, "payer": me, "accounts": rpc}));
    match r {
        Err(e) if safe || !gone => c.fail(format!("{f}: {e}")),
        Err(_) => {}
        Ok(_) if gone && !safe => c.fail(format!("{f} succeeds for an account that does not exist")),
        Ok(x) => {
            let mut got = if single { if x.is_null() { vec![] } else { vec![x] } } else { x.as_array().cloned().unwrap_or_default() };
            for g in got.iter_mut() {
                g.as_object_mut().map(|o| o.remove("header"));
            }
            if got != want {
                c.fail(format!("{f} gives {got:?} instead of {want:?}"));
            }
        }
    }
}

/// Vaults, derived addresses, error codes, lookups in decoded assets.
pub fn others(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    let me = keys().wallet[0].to_string();
    let req = |client: &str, f: &str, a: J| ask(&json!({"c": client, "f": f, "a": a, "identity": me, "payer": me}));
    match s.us(4) {
        0 => {
            let n = s.draw(40) as u32;
            let which = s.us(3);
            c.nontrivial.push(n as u64 * 3 + which as u64);
            c.label("error code");
            let (client, name) = [("asset", "Asset"), ("bridge", "Bridge"), ("proxy", "Proxy")][which];
            let program = match which {
                0 => num_traits::FromPrimitive::from_u32(n).map(|e: asset_program::error::AssetError| (format!("{e:?}"), format!("{e}"))),
                1 => num_traits::FromPrimitive::from_u32(n).map(|e: nifty_bridge::errors::BridgeError| (format!("{e:?}"), format!("{e}"))),
                _ => crate::published::proxy_error(n),
            };
            let p = json!({"name": client, "publicKey": me});
            let got = req(client, &format!("get{name}ErrorFromCode"), json!([n, p]));
            let ok = match (&got, &program) {
                (Ok(J::Null), None) => true,
                (Ok(x), Some(p)) => x["name"] == p.0.as_str() && x["code"].as_u64() == Some(n as u64) && x["message"].as_str().map_or(false, |m| m.starts_with(&p.1)),
                _ => false,
            };
            if !ok {
                return c.fail(format!("{client}: error code {n} is {got:?} instead of {program:?}"));
            }
            if let Some((nm, _)) = program {
                let got = req(client, &format!("get{name}ErrorFromName"), json!([nm, p]));
                if got.as_ref().map(|x| x["code"].as_u64() == Some(n as u64)) != Ok(true) {
                    c.fail(format!("{client}: error {nm} is {got:?} instead of code {n}"));
                }
            }
        }
        1 => {
            let k = any_key(s);
            c.nontrivial.push(pbt::hash_bytes(k.as_ref()));
            c.label("derived address");
            let (client, f, name, seeds, p): (&str, &str, &str, Vec<&[u8]>, Pubkey) = match s.us(3) {
                0 => ("bridge", "findVaultPda", "mint", vec![b"vault", k.as_ref()], BRIDGE),
                1 => ("bridge", "findBridgeAssetPda", "mint", vec![b"asset", k.as_ref()], BRIDGE),
                _ => ("proxy", "findProxiedAssetPda", "stub", vec![k.as_ref()], proxy_id()),
            };
            let want = Pubkey::find_program_address(&seeds, &p);
            match req(client, f, json!([{"$c": 1}, {name: k.to_string()}])) {
                Ok(x) if x == json!([want.0.to_string(), want.1]) => {}
                r => c.fail(format!("{f} of {k} is {r:?} instead of {want:?}")),
            }
        }
        2 => {
            let (st, bump, mint, ab) = (s.draw(2) as u8, s.draw(256) as u8, any_key(s), s.draw(256) as u8);
            let mut d = vec![1, st, bump];
            d.extend_from_slice(mint.as_ref());
            d.push(ab);
            c.nontrivial.push(pbt::hash_bytes(&d));
            c.label("vault");
            let read = |d: &[u8]| req("bridge", "deserializeVault", json!([{"publicKey": me, "owner": BRIDGE.to_string(), "data": {"$x": hex(d)}}]));
            let want = json!({"publicKey": me, "discriminator": 1, "state": st, "bump": bump, "mint": mint.to_string(), "assetBump": ab});
            match read(&d) {
                Ok(mut x) => {
                    x.as_object_mut().map(|o| o.remove("header"));
                    if x != want {
                        return c.fail(format!("vault {d:?} decodes to {x} instead of {want}"));
                    }
                }
                Err(e) => return c.fail(format!("vault {d:?}: {e}")),
            }
            // by address, by what it is derived from, by its fields
            let at = pda(&[b"vault", mint.as_ref()], &BRIDGE).to_string();
            let (other, there) = (any_key(s), s.bool());
            let mut rpc = Map::new();
            let mut o = vec![1, 1 - st, bump.wrapping_add(1)];
            o.extend_from_slice(other.as_ref());
            o.push(ab.wrapping_add(1));
            let far = Pubkey::new_from_array([78; 32]).to_string();
            rpc.insert(far.clone(), json!({"owner": BRIDGE.to_string(), "data": hex(&o)}));
            if there {
                rpc.insert(at.clone(), json!({"owner": BRIDGE.to_string(), "data": hex(&d)}));
            }
            let go = |f: &str, a: J, then: J| ask(&json!({"c": "bridge", "f": f, "a": a, "then": then, "identity": me, "payer": me, "accounts": rpc}));
            let mut full = want.clone();
            full["publicKey"] = json!(at);
            let by = s.us(3);
            let safe = s.bool();
            let got = match by {
                0 => go(if safe { "safeFetchVault" } else { "fetchVault" }, json!([{"$c": 1}, at]), json!([])),
                1 => go(if safe { "safeFetchVaultFromSeeds" } else { "fetchVaultFromSeeds" }, json!([{"$c": 1}, {"mint": mint.to_string()}]), json!([])),
                _ => go(if safe { "safeFetchAllVault" } else { "fetchAllVault" }, json!([{"$c": 1}, [at]]), json!([])).map(|x| x[0].clone()),
            };
            let strip = |mut x: J| {
                x.as_object_mut().map(|o| o.remove("header"));
                x
            };
            match got.map(strip) {
                Ok(x) if there && x == full => {}
                Ok(J::Null) if !there && safe => {}
                Err(_) if !there && !safe => {}
                r => return c.fail(format!("fetching ({by}) the vault of {mint}, which {}, gives {r:?}", if there { "exists" } else { "does not exist" })),
            }
            let (f, v, hits) = match s.us(5) {
                0 => ("discriminator", json!(1), true),
                1 => ("state", json!(st), false),
                2 => ("bump", json!(bump), false),
                3 => ("mint", json!(mint.to_string()), other == mint),
                _ => ("assetBump", json!(ab), false),
            };
            let mut keys: Vec<&String> = if there { vec![&at] } else { vec![] };
            if hits {
                keys.push(&far);
            }
            keys.sort();
            match go("getVaultGpaBuilder", json!([{"$c": 1}]), json!([["whereField", f, v], ["getDeserialized"]])) {
                Ok(J::Array(x)) => {
                    let mut k: Vec<&str> = x.iter().filter_map(|x| x["publicKey"].as_str()).collect();
                    k.sort();
                    if k != keys || x.iter().any(|x| x["publicKey"] == at.as_str() && strip(x.clone()) != full) {
                        return c.fail(format!("vaults with {f} {v}: {x:?} instead of {keys:?}"));
                    }
                }
                r => return c.fail(format!("vaults with {f} {v}: {r:?}")),
            }
            let n = s.us(d.len());
            match s.us(3) {
                0 => d.truncate(n),
                1 => d[0] = 2 + s.draw(254) as u8,
                _ => d[1] = 2 + s.draw(254) as u8,
            }
            if let Ok(x) = read(&d) {
                c.fail(format!("{d:?} decodes to {x}"));
            }
        }
        _ => {
            // lookups by type, and of properties by name and type
            let n = s.range(0, 4);
            let mut exts = vec![];
            for _ in 0..n {
                let ty = if s.chance(1, 3) { PROPERTIES } else { s.range(1, 11) as u32 };
                let d = gen_content(s, ty, &Ctx { key: keys().asset[0], cur: None, junk: 0, synth: false });
                if let (Some(v), false) = (value(ty, &d), legacy(ty, &d)) {
                    exts.push(v);
                }
            }
            let asset = json!({ "extensions": exts });
            c.nontrivial.push(pbt::hash_bytes(asset.to_string().as_bytes()));
            c.label("lookup");
            let ty = s.range(1, 11) as u32;
            let want = exts.iter().find(|e| e["type"] == ty).cloned().unwrap_or(J::Null);
            match req("asset", "getExtension", json!([asset, ty])) {
                Ok(x) if x == want => {}
                r => return c.fail(format!("getExtension {ty} of {asset} is {r:?} instead of {want}")),
            }
            let first = exts.iter().find(|e| e["type"] == PROPERTIES);
            let none = vec![];
            let list = first.and_then(|f| f["values"].as_array()).unwrap_or(&none);
            let name = if !list.is_empty() && s.chance(7, 8) { list[s.us(list.len())]["name"].clone() } else { json!(text(s)) };
            let name = match near(name.as_str().unwrap_or("")) {
                v if !v.is_empty() && s.chance(1, 3) => json!(s.pick(&v)),
                _ => name,
            };
            let t = s.us(3);
            let want = list.iter().find(|p| p["name"] == name && p["type"] == t).cloned().unwrap_or(J::Null);
            match req("asset", "getProperty", json!([asset, name, t])) {
                Ok(x) if x == want => {}
                r => c.fail(format!("getProperty {name} {t} of {asset} is {r:?} instead of {want}")),
            }
        }
    }
}
