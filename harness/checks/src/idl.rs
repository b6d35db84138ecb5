//! C22: interface descriptions compressed by the library are embedded in generated program binaries
//! and read back.

use pbt::{Case, Source};
use serde_json::{json, Map, Value};
use solana_include_idl::parse::{parse_idl_from_program_binary, IdlType};
use std::io::Read;
use std::path::PathBuf;

thread_local! {
    static DIR: Scratch = Scratch::new();
}

/// A folder per thread, in memory where possible.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let base = if std::fs::metadata("/dev/shm").map_or(false, |m| m.is_dir()) { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("vp-idl-{}-{:?}", std::process::id(), std::thread::current().id()).replace(['(', ')'], ""));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for f in ["in.json", "out.zip"] {
            let _ = std::fs::remove_file(self.0.join(f));
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}

fn text(s: &mut Source) -> String {
    let n = *s.pick(&[0usize, 1, 3, 9, 30]);
    (0..n)
        .map(|_| match s.us(8) {
            0 => *s.pick(&['\u{0}', '\n', '"', '\\', '\u{7f}', '\u{1f}', '/', ' ']),
            1 => *s.pick(&['é', '\u{fffd}', '\u{10ffff}', '漢', '\u{2028}']),
            _ => (b'a' + s.draw(26) as u8) as char,
        })
        .collect()
}

fn value(s: &mut Source, depth: usize) -> Value {
    s.begin();
    let v = match s.us(if depth == 0 { 6 } else { 9 }) {
        0 => Value::Null,
        1 => Value::Bool(s.bool()),
        2 => json!(s.u64_any()),
        3 => json!(s.u64_any() as i64),
        4 => json!(s.draw(1000) as f64 / 8.0),
        5 => Value::String(text(s)),
        6 => Value::Array((0..s.us(4)).map(|_| value(s, depth - 1)).collect()),
        _ => {
            let n = s.us(5);
            Value::Object(
                (0..n)
                    .map(|_| {
                        let k = if s.bool() { s.pick(&["name", "instructions", "accounts", "kind", "program", "type", ""]).to_string() } else { text(s) };
                        (k, value(s, depth - 1))
                    })
                    .collect::<Map<_, _>>(),
            )
        }
    };
    s.end();
    v
}

/// A description as JSON text, in various spellings.
fn description(s: &mut Source) -> (String, Value) {
    let mut v = value(s, 4);
    match s.us(60) {
        0 => {
            // long, hardly compressible
            let n = 1 + s.us(40_000);
            let mut z = s.draw(1 << 32);
            let junk: String = (0..n)
                .map(|_| {
                    z = pbt::mix(z + 1);
                    format!("{:08x}", z as u32)
                })
                .collect();
            v = json!({ "name": junk, "rest": v });
        }
        1 => {
            // long, well compressible
            let n = 1 + s.us(200_000);
            v = json!({ "docs": "ab".repeat(n), "rest": v });
        }
        _ => {}
    }
    let t = match s.us(3) {
        0 => serde_json::to_string(&v).unwrap(),
        1 => serde_json::to_string_pretty(&v).unwrap(),
        _ => format!("{}{}{}", *s.pick(&["", " ", "\n\n", "\t"]), serde_json::to_string(&v).unwrap(), *s.pick(&["", "\n", "\r\n", "  \n"])),
    };
    (t, v)
}

/// The library's compression of `t`, through files as a build script uses it.
fn compress(t: &str, stale: &[u8]) -> Result<Vec<u8>, String> {
    DIR.with(|d| {
        let (i, o) = (d.0.join("in.json"), d.0.join("out.zip"));
        std::fs::write(&i, t).map_err(|e| e.to_string())?;
        if stale.is_empty() {
            let _ = std::fs::remove_file(&o);
        } else {
            std::fs::write(&o, stale).map_err(|e| e.to_string())?;
        }
        pbt::guard(|| solana_include_idl::compress_idl(&i, &o)).map_err(|e| format!("panic: {e}"))?;
        std::fs::read(&o).map_err(|e| format!("no output: {e}"))
    })
}

struct Sec {
    name: String,
    /// the contents, or for `Some(k)` a reference to blob k
    refer: Option<usize>,
    data: Vec<u8>,
    at: usize,
}

fn p64(x: u64, v: &mut Vec<u8>) {
    v.extend_from_slice(&x.to_le_bytes())
}

fn junk(s: &mut Source, n: usize) -> Vec<u8> {
    let mut z = s.draw(1 << 16);
    (0..n)
        .map(|_| {
            z = pbt::mix(z + 1);
            z as u8
        })
        .collect()
}

/// A 64-bit little-endian ELF image whose sections refer to blobs the way the program linker lays them out:
/// the location in the upper half of the first eight bytes, then the size.
/// `bend` may change a reference (location, size) before it is stored.
fn image(s: &mut Source, named: Vec<(String, usize)>, blobs: &[Vec<u8>], bend: &mut dyn FnMut(usize, u32, u64) -> (u32, u64)) -> Vec<u8> {
    let mut secs: Vec<Sec> = named.into_iter().map(|(name, k)| Sec { name, refer: Some(k), data: vec![0; 16], at: 0 }).collect();
    for n in [".text", ".rodata", ".data", ".bss", ".idl", ".idl.types", ".idl.dat", ".idl.data.old", "x.idl.type", "idl.data", ".IDL.DATA", ""] {
        if s.chance(1, 4) {
            let n_ = s.us(40);
            secs.push(Sec { name: n.into(), refer: None, data: junk(s, n_), at: 0 });
        }
    }
    for i in (1..secs.len()).rev() {
        let j = s.us(i + 1);
        secs.swap(i, j);
    }
    let strpos = s.us(secs.len() + 1);
    secs.insert(strpos, Sec { name: ".shstrtab".into(), refer: None, data: vec![], at: 0 });
    // the name table, optionally with shared tails
    let mut tab = vec![0u8];
    let mut names = vec![];
    for x in &secs {
        let mut want = x.name.clone().into_bytes();
        want.push(0);
        let p = match tab.windows(want.len()).position(|w| w == want) {
            Some(p) if s.bool() || want.len() == 1 => p,
            _ => {
                tab.extend(&want);
                tab.len() - want.len()
            }
        };
        names.push(p as u32);
    }
    secs[strpos].data = tab;
    // layout: blobs and sections in any order, the header table before, between or after
    enum Item {
        Blob(usize),
        Section(usize),
        Table,
    }
    let mut order: Vec<Item> = (0..blobs.len()).map(Item::Blob).chain((0..secs.len()).map(Item::Section)).collect();
    order.push(Item::Table);
    for i in (1..order.len()).rev() {
        let j = s.us(i + 1);
        order.swap(i, j);
    }
    let n = secs.len() + 1;
    let mut out = vec![0u8; 64];
    let (mut blob_at, mut table) = (vec![0usize; blobs.len()], 0usize);
    for it in &order {
        let pad = match s.us(40) {
            0 => 60_000 + s.us(20_000),
            1 => 1_000 + s.us(2_000),
            2 if s.chance(1, 30) => 17 << 20,
            _ => s.us(20),
        };
        out.resize(out.len() + pad, 0);
        let q = out.len().div_ceil(8) * 8;
        match it {
            Item::Blob(k) => {
                blob_at[*k] = out.len();
                out.extend(&blobs[*k]);
            }
            Item::Section(k) => {
                if secs[*k].refer.is_some() {
                    out.resize(q, 0);
                }
                secs[*k].at = out.len();
                out.extend(&secs[*k].data);
            }
            Item::Table => {
                out.resize(q, 0);
                table = q;
                out.resize(q + 64 * n, 0);
            }
        }
    }
    for x in secs.iter() {
        if let Some(k) = x.refer {
            let (l, z) = bend(k, blob_at[k] as u32, blobs[k].len() as u64);
            // what the loader leaves in the lower half is not part of the address
            let low = if s.bool() { 0u32 } else { s.draw(1 << 32) as u32 };
            out[x.at..x.at + 4].copy_from_slice(&low.to_le_bytes());
            out[x.at + 4..x.at + 8].copy_from_slice(&l.to_le_bytes());
            out[x.at + 8..x.at + 16].copy_from_slice(&z.to_le_bytes());
        }
    }
    let mut h = vec![0x7f, b'E', b'L', b'F', 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    h.extend(3u16.to_le_bytes());
    h.extend((*s.pick(&[247u16, 263])).to_le_bytes());
    h.extend(1u32.to_le_bytes());
    p64(0, &mut h);
    p64(0, &mut h);
    p64(table as u64, &mut h);
    h.extend(0u32.to_le_bytes());
    for v in [64u16, 56, 0, 64, n as u16, strpos as u16 + 1] {
        h.extend(v.to_le_bytes());
    }
    out[..64].copy_from_slice(&h);
    for (i, x) in secs.iter().enumerate() {
        let mut e = names[i].to_le_bytes().to_vec();
        e.extend((if x.name == ".shstrtab" { 3u32 } else { 1 }).to_le_bytes());
        p64(3, &mut e);
        p64(x.at as u64, &mut e);
        p64(x.at as u64, &mut e);
        p64(x.data.len() as u64, &mut e);
        p64(0, &mut e);
        p64(1, &mut e);
        p64(0, &mut e);
        out[table + 64 * (i + 1)..table + 64 * (i + 2)].copy_from_slice(&e);
    }
    out
}

type Read_ = Result<Result<(IdlType, Value), String>, String>;

fn parse(b: &[u8]) -> Read_ {
    pbt::guard(|| parse_idl_from_program_binary(b).map_err(|e| e.to_string()))
}

fn kind(s: &mut Source) -> (IdlType, String) {
    let k = if s.bool() { IdlType::Anchor } else { IdlType::Codama };
    let t = k.as_str().to_string();
    (k, t)
}

fn expected(k: &IdlType) -> &'static str {
    match k {
        IdlType::Anchor => "anchor",
        IdlType::Codama => "codama",
    }
}

fn cut(t: &str) -> String {
    t.chars().take(300).collect()
}

pub fn roundtrip(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    let (t, v) = description(s);
    let stale = if s.bool() { vec![] } else { vec![7u8; s.us(400)] };
    c.log(|| format!("description of {} bytes: {}", t.len(), cut(&t)));
    let z = match compress(&t, &stale) {
        Ok(z) => z,
        Err(e) => return c.fail(format!("compressing: {e}")),
    };
    let mut back = vec![];
    if let Err(e) = flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut back) {
        return c.fail(format!("the compressed form cannot be expanded: {e}"));
    }
    if back != t.as_bytes() {
        return c.fail(format!("{} bytes were compressed, {} come back: {}", t.len(), back.len(), cut(&String::from_utf8_lossy(&back))));
    }
    let (k, name) = kind(s);
    if name != expected(&k) || format!("{k}") != name {
        return c.fail(format!("kind {k:?} is called {name}, {k}"));
    }
    let b = image(s, vec![(".idl.type".into(), 0), (".idl.data".into(), 1)], &[name.clone().into_bytes(), z.clone()], &mut |_, l, z| (l, z));
    c.log(|| format!("binary of {} bytes, kind {name}, {} compressed", b.len(), z.len()));
    c.nontrivial.push(pbt::hash_bytes(&b));
    c.label(format!("kind {name}"));
    c.label(match t.len() {
        0..=99 => "short description",
        100..=9_999 => "description up to 10 kB",
        _ => "description over 10 kB",
    });
    c.label(if b.len() > 1 << 24 { "binary over 16 MB" } else if b.len() > 1 << 16 { "binary over 64 kB" } else { "smaller binary" });
    match parse(&b) {
        Ok(Ok((kk, vv))) => {
            if kk.as_str() != expected(&k) {
                c.fail(format!("embedded as {k}, read as {kk}"));
            } else if vv != v {
                c.fail(format!("reads back as {}", cut(&vv.to_string())));
            }
        }
        Ok(Err(e)) => c.fail(format!("reported as an error: {e}")),
        Err(e) => c.fail(format!("panic: {e}")),
    }
}

pub fn damaged(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    let (t, v) = description(s);
    let Ok(z) = compress(&t, &[]) else { return c.fail("compressing fails") };
    let (_, mut name) = kind(s);
    let orig = name.clone();
    let mut secs = vec![(".idl.type".to_string(), 0usize), (".idl.data".to_string(), 1)];
    let mut blob = z.clone();
    // None: an error is due; Some: an error or exactly the original
    let mut may = false;
    let mut bend: Box<dyn FnMut(usize, u32, u64) -> (u32, u64)> = Box::new(|_, l, z| (l, z));
    let what = s.us(12);
    match what {
        0 => secs.retain(|x| x.0 != ".idl.type"),
        1 => secs.retain(|x| x.0 != ".idl.data"),
        2 => secs.clear(),
        3 => name = if s.bool() { text(s) + "?" } else { format!("{name}{}", *s.pick(&["s", " ", "\0"])) },
        4 => blob.truncate(s.us(z.len())),
        5 => {
            let i = s.us(z.len());
            blob[i] ^= 1 << s.us(8);
            may = true;
        }
        6 => blob = t.clone().into_bytes(), // not compressed
        7 => {
            // compressed, but no description
            let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
            let cut_ = match s.us(3) {
                0 => format!("{t}]"),
                1 => String::new(),
                _ => format!("{{\"name\": {t}"),
            };
            std::io::Write::write_all(&mut e, cut_.as_bytes()).unwrap();
            blob = e.finish().unwrap();
        }
        8 => {
            let (k, far) = (s.us(2), 1u32 << 30 | s.draw(1 << 30) as u32);
            bend = Box::new(move |j, l, z| if j == k { (far, z) } else { (l, z) });
        }
        9 => {
            let (k, far) = (s.us(2), if s.bool() { u64::MAX - s.draw(1 << 31) } else { (1u64 << 40) + s.draw(1 << 40) });
            bend = Box::new(move |j, l, z| if j == k { (l, far) } else { (l, z) });
        }
        _ => {}
    }
    let mut b = image(s, secs, &[name.clone().into_bytes(), blob], &mut bend);
    if what == 10 {
        b.truncate(s.us(b.len()));
        may = true;
    }
    if what == 11 {
        let n = s.us(b.len());
        b = if s.bool() { junk(s, n.min(4000)) } else { b.split_off(n.max(1)) };
    }
    let label = ["no kind section", "no data section", "neither section", "unknown kind", "data cut short", "one bit of the data flipped", "data not compressed", "data no description", "location outside the binary", "size outside the binary", "binary cut short", "no program binary"][what];
    c.label(label);
    c.log(|| format!("{label}: binary of {} bytes, kind {name:?}, description {}", b.len(), cut(&t)));
    c.nontrivial.push(pbt::hash_bytes(&b));
    match parse(&b) {
        Ok(Err(_)) => {}
        Ok(Ok((k, x))) => {
            if !may || k.as_str() != orig || x != v {
                c.fail(format!("{label}: read as {k} {}", cut(&x.to_string())));
            }
        }
        Err(e) => c.fail(format!("{label}: panic: {e}")),
    }
}

/// The asset program's own description, and the names of the kinds.
pub fn own(s: &mut Source, c: &mut Case) {
    c.evals += 1;
    let t = std::fs::read("/repo/idls/asset-program.codama.json").unwrap_or_default();
    let mut back = vec![];
    let r = flate2::read::ZlibDecoder::new(asset_program::IDL_BYTES).read_to_end(&mut back);
    if r.is_err() || back != t || asset_program::IDL_TYPE != b"codama" {
        return c.fail("the asset program embeds something else than idls/asset-program.codama.json as codama");
    }
    let (a, b) = (asset_program::IDL_TYPE.to_vec(), asset_program::IDL_BYTES.to_vec());
    let bin = image(s, vec![(".idl.type".into(), 0), (".idl.data".into(), 1)], &[a, b], &mut |_, l, z| (l, z));
    c.nontrivial.push(pbt::hash_bytes(&bin));
    c.label("the asset program's description");
    match parse(&bin) {
        Ok(Ok((k, v))) if k.as_str() == "codama" && serde_json::from_slice::<Value>(&t).ok() == Some(v.clone()) => {}
        Ok(r) => c.fail(format!("the asset program's description reads back as {:?}", r.map(|x| x.0))),
        Err(e) => c.fail(format!("the asset program's description: panic: {e}")),
    }
    let n: String = s.pick(&["anchor", "codama"]).chars().map(|x| if s_bit(&bin, x) { x.to_ascii_uppercase() } else { x }).collect();
    match n.parse::<IdlType>() {
        Ok(k) if k.as_str() == n.to_lowercase() => {}
        k => c.fail(format!("{n} is read as kind {k:?}")),
    }
}

fn s_bit(b: &[u8], x: char) -> bool {
    pbt::hash_bytes(b) >> (x as u32 % 60) & 1 == 1
}
