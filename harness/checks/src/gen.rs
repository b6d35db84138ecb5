//! Generators: worlds (wallets, foreign accounts, assets in every legal state) and instructions.

use crate::model::*;
use pbt::Source;
use solana_program::pubkey::Pubkey;
use std::sync::OnceLock;
use vm::{rent, Acct, Ix, Meta, World, SYSTEM};

pub const NW: usize = 6;
pub const NA: usize = 6;

pub struct Keys {
    pub wallet: [Pubkey; NW],
    /// wallet holding almost nothing
    pub poor: Pubkey,
    pub prog: [Pubkey; 2],
    /// accounts of foreign programs: (prog0, data) (prog0, empty) (prog1, data)
    pub foreign: [Pubkey; 3],
    pub asset: [Pubkey; NA],
    pub stub: [Pubkey; 2],
    pub pda: [Pubkey; 2],
    pub bump: [u8; 2],
}

pub fn k(tag: u8, i: u8) -> Pubkey {
    let mut b = [0u8; 32];
    let mut x = pbt::mix(tag as u64 * 1000 + i as u64 + 1);
    for c in b.chunks_mut(8) {
        c.copy_from_slice(&x.to_le_bytes());
        x = pbt::mix(x);
    }
    b[0] = tag;
    b[1] = i;
    Pubkey::new_from_array(b)
}

pub fn keys() -> &'static Keys {
    static K: OnceLock<Keys> = OnceLock::new();
    K.get_or_init(|| {
        // some differ in one byte only, some start or end with zeros
        let arr = |tag: u8| -> [Pubkey; 6] {
            core::array::from_fn(|i| {
                let mut b = k(tag, if i == 1 || i == 2 { 0 } else { i as u8 }).to_bytes();
                match i {
                    1 => b[31] ^= 1,
                    2 => b[0] ^= 128,
                    3 => b[..9].fill(0),
                    4 => b[24..].fill(0),
                    _ => {}
                }
                Pubkey::new_from_array(b)
            })
        };
        // the first one is the address of the reference proxy program
        let prog = [solana_program::pubkey!("Proxy11111111111111111111111111111111111111"), k(b'F', 1)];
        let stub = [k(b'S', 0), k(b'S', 1)];
        let p0 = Pubkey::find_program_address(&[stub[0].as_ref()], &prog[0]);
        let p1 = Pubkey::find_program_address(&[stub[1].as_ref()], &prog[0]);
        Keys {
            wallet: arr(b'W'),
            poor: k(b'Z', 0),
            prog,
            foreign: [k(b'X', 0), k(b'X', 1), k(b'X', 2)],
            asset: arr(b'A'),
            stub,
            pda: [p0.0, p1.0],
            bump: [p0.1, p1.1],
        }
    })
}

pub fn name_of(key: &Pubkey) -> String {
    let ks = keys();
    if *key == SYSTEM {
        return "SYS".into();
    }
    if *key == PROGRAM {
        return "NONE".into();
    }
    for (n, list) in [("W", &ks.wallet[..]), ("A", &ks.asset[..]), ("X", &ks.foreign[..]), ("P", &ks.pda[..]), ("F", &ks.prog[..]), ("S", &ks.stub[..])] {
        if let Some(i) = list.iter().position(|x| x == key) {
            return format!("{n}{i}");
        }
    }
    if *key == ks.poor {
        return "poor".into();
    }
    key.to_string()
}

pub fn asset_slots() -> Vec<Pubkey> {
    let ks = keys();
    ks.asset.iter().chain(ks.pda.iter()).copied().collect()
}

/// any key of the universe
pub fn any_key(s: &mut Source) -> Pubkey {
    let ks = keys();
    match s.weighted(&[10, 6, 3, 2, 1, 1, 1]) {
        0 => *s.pick(&ks.wallet),
        1 => *s.pick(&ks.asset),
        2 => *s.pick(&ks.foreign),
        3 => *s.pick(&ks.pda),
        4 => ks.poor,
        5 => SYSTEM,
        _ => PROGRAM,
    }
}
pub fn person(s: &mut Source) -> Pubkey {
    let ks = keys();
    match s.weighted(&[14, 2]) {
        0 => *s.pick(&ks.wallet),
        _ => *s.pick(&ks.foreign),
    }
}

/// Knobs of a profile
#[derive(Clone)]
pub struct Knobs {
    /// weights of the 18 instructions
    pub ops: [u32; 18],
    /// extension types initial assets and updates favour (weights by type)
    pub exts: [u32; 12],
    /// weights of the standards
    pub standards: [u32; 4],
    pub locked: u64,
    pub delegate: u64,
    pub grouped: u64,
    /// probability (of 100) of perturbing an instruction
    pub perturb: u64,
    pub steps: usize,
    /// probability (of 100) of starting from an empty world
    pub empty: u64,
    pub spare: u64,
    pub immutable: u64,
    /// probability (of 100) of a CPI call depth
    pub cpi: u64,
    /// probability of unreadable content
    pub junk: u64,
    pub buffers: u64,
    /// probability (of 100) of lookalike accounts of other programs, and of naming one
    pub forged: u64,
}

impl Default for Knobs {
    fn default() -> Self {
        Knobs {
            ops: [2, 3, 4, 5, 4, 4, 4, 6, 4, 3, 8, 4, 5, 4, 4, 3, 4, 3],
            exts: [0, 3, 3, 4, 2, 3, 4, 4, 2, 1, 4, 2],
            standards: [8, 3, 2, 3],
            locked: 15,
            delegate: 45,
            grouped: 40,
            perturb: 25,
            steps: 10,
            empty: 15,
            spare: 25,
            immutable: 12,
            cpi: 30,
            junk: 12,
            buffers: 25,
            forged: 4,
        }
    }
}

pub fn text(s: &mut Source) -> String {
    let n = match s.weighted(&[4, 10, 3, 1, 1]) {
        0 => 0,
        1 => s.range(1, 8),
        2 => s.range(9, 40),
        3 => s.range(250, 254),
        _ => 255,
    };
    let uni = s.chance(1, 8);
    let c = s.draw(26);
    let mut o = String::new();
    while o.len() < n {
        let ch = if uni && n - o.len() >= 3 && o.len() % 5 == 0 { '☂' } else { (b'a' + ((c as usize + o.len()) % 26) as u8) as char };
        o.push(ch);
    }
    match s.weighted(&[12, 1, 1, 1]) {
        0 => o,
        1 => o.to_ascii_uppercase(),
        3 => ends(s, &o),
        // white space around, a line end and symbols inside
        _ => o.char_indices().map(|(i, c)| if !c.is_ascii() { c } else if i == 0 || i + 1 == n { ' ' } else { ['.', c, '\n', c, '"', '0'][i % 6] }).collect(),
    }
}

/// A text of the same length that begins or ends (or both) with a character that handlers of texts like to treat specially.
pub fn ends(s: &mut Source, t: &str) -> String {
    const ODD: [char; 20] = ['/', ' ', '\t', '\n', '\r', '.', '"', '\'', '\\', '#', '?', '%', ',', '0', '-', '_', 'Z', '{', '\u{1}', '\u{7f}'];
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    let (c, w) = (ODD[s.us(ODD.len())], s.us(4));
    if n > 0 && w != 0 && v[n - 1].is_ascii() {
        v[n - 1] = c;
    }
    if n > 0 && w < 2 && v[0].is_ascii() {
        v[0] = c;
    }
    if n > 3 && w == 3 && v[n - 2].is_ascii() {
        v[n - 2] = c;
    }
    v.into_iter().collect()
}

/// Texts that resemble this one.
pub fn near(t: &str) -> Vec<String> {
    let mut v = vec![t.to_ascii_uppercase(), t.to_ascii_lowercase(), format!("{t} "), format!(" {t}"), format!("{t}x"), t.trim().to_string()];
    let mut c = t.chars();
    c.next_back();
    v.push(c.as_str().to_string());
    let mut c = t.chars();
    c.next();
    v.push(c.as_str().to_string());
    v.retain(|x| x != t);
    v
}

pub fn push_str(o: &mut Vec<u8>, t: &str) {
    o.push(t.len() as u8);
    o.extend_from_slice(t.as_bytes());
}

/// Keys that belong to nobody.
pub fn strangers(n: usize) -> Vec<Pubkey> {
    (0..n).map(|i| k(b'z', (i >> 8) as u8).to_bytes()).enumerate().map(|(i, mut b)| { b[31] = i as u8; Pubkey::new_from_array(b) }).collect()
}

/// Usually 0, else how many more entries a list gets, around where counters and sizes of fixed width end.
pub fn many(s: &mut Source, one_in: u64) -> usize {
    if !s.chance(1, one_in) {
        return 0;
    }
    let n = *s.pick(&[8usize, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]);
    n + s.us(3)
}
fn stuffed(s: &mut Source, v: &mut Vec<Pubkey>) {
    let n = many(s, 40);
    if n > 0 {
        let at = if s.chance(1, 4) { s.us(v.len() + 1) } else { 0 };
        v.splice(at..at, strangers(n));
    }
}

pub fn gen_cons(s: &mut Source, depth: usize) -> Cons {
    let kind = if depth == 0 { 2 + s.us(3) } else { s.weighted(&[3, 3, 3, 5, 5, 2]) };
    let ks = keys();
    let kind = if depth == 0 { [3, 4, 5][kind - 2] } else { [0, 1, 2, 3, 4, 5][kind] };
    match kind {
        0 | 2 => {
            let n = s.weighted(&[1, 3, 5, 3]);
            let mut v: Vec<Cons> = (0..n).map(|_| gen_cons(s, depth - 1)).collect();
            let more = many(s, 40);
            if more > 0 {
                // terms that do not matter, mostly before those that do
                let at = if s.chance(1, 4) { s.us(v.len() + 1) } else { 0 };
                let idle = Cons::Match(s.draw(2), vec![]);
                let idle = if kind == 0 { if s.bool() { Cons::Empty(true) } else { Cons::Not(Box::new(idle), true) } } else { idle };
                v.splice(at..at, vec![idle; more]);
            }
            if kind == 0 {
                Cons::And(v)
            } else {
                Cons::Or(v)
            }
        }
        1 => Cons::Not(Box::new(gen_cons(s, depth - 1)), true),
        3 => {
            let a = s.draw(3);
            let n = s.weighted(&[1, 5, 3, 1]);
            let owners = [SYSTEM, ks.prog[0], ks.prog[1], PROGRAM];
            let mut v = (0..n).map(|_| *s.pick(&owners)).collect();
            stuffed(s, &mut v);
            Cons::OwnedBy(a, v)
        }
        4 => {
            let a = s.draw(3);
            let n = s.weighted(&[1, 4, 4, 2, 1]);
            let mut v = (0..n).map(|_| if a == 0 && s.bool() { *s.pick(&asset_slots()) } else { person(s) }).collect();
            stuffed(s, &mut v);
            Cons::Match(a, v)
        }
        _ => Cons::Empty(true),
    }
}

fn shares(s: &mut Source, n: usize) -> Vec<u8> {
    // n shares adding up to 100
    let mut cuts: Vec<u64> = (0..n - 1).map(|_| s.draw(101)).collect();
    cuts.sort();
    let mut prev = 0;
    let mut v = vec![];
    for c in cuts {
        v.push((c - prev) as u8);
        prev = c;
    }
    v.push((100 - prev) as u8);
    v
}

pub fn gen_creators(s: &mut Source, cur: &[(Pubkey, bool, u8)]) -> Vec<u8> {
    let ks = keys();
    let mut who: Vec<Pubkey> = vec![];
    if !cur.is_empty() {
        // keep most of the present creators (sometimes dropping or reordering)
        for c in cur {
            if s.chance(if c.1 { 19 } else { 7 }, if c.1 { 20 } else { 10 }) {
                who.push(c.0);
            }
        }
        if who.len() > 1 && s.chance(1, 3) {
            who.reverse();
        }
    }
    let extra = s.range(if who.is_empty() { 1 } else { 0 }, 3);
    for _ in 0..extra {
        let x = *s.pick(&ks.wallet);
        // the same creator may be listed more than once
        if !who.contains(&x) || s.chance(1, 6) {
            if s.bool() {
                who.push(x);
            } else {
                who.insert(0, x);
            }
        }
    }
    if who.is_empty() {
        who.push(ks.wallet[0]);
    }
    if s.chance(1, 12) {
        // a long list
        let at = s.us(who.len() + 1);
        let n = if s.chance(1, 4) { s.range(13, 70) } else { s.range(1, 12) };
        who.splice(at..at, strangers(n));
    }
    let mut sh = shares(s, who.len());
    match s.weighted(&[12, 1, 1, 1]) {
        0 => {}
        1 => sh[0] = sh[0].wrapping_add(1),
        2 => {
            // adds up to 100 only modulo 256
            let need = 256usize;
            if who.len() >= 2 {
                let n = who.len();
                let mut rest = need + 100;
                for (i, x) in sh.iter_mut().enumerate() {
                    let v = if i + 1 == n { rest.min(255) } else { rest.min(200 + s.us(50)) };
                    *x = v as u8;
                    rest -= v;
                }
            } else {
                sh[0] = 99;
            }
        }
        _ => sh[0] = s.draw(256) as u8,
    }
    let mut o = vec![];
    for (i, w) in who.iter().enumerate() {
        o.extend_from_slice(w.as_ref());
        o.push(s.bool() as u8);
        o.push(sh[i]);
    }
    o
}

pub struct Ctx<'a> {
    /// address the extension is for
    pub key: Pubkey,
    /// current content, when replacing
    pub cur: Option<&'a [u8]>,
    pub junk: u64,
    /// content of an account that already exists (group sizes may be anything, creators verified)
    pub synth: bool,
}

pub fn gen_content(s: &mut Source, ty: u32, cx: &Ctx) -> Vec<u8> {
    let ks = keys();
    let mut o = vec![];
    match ty {
        ATTRIBUTES | LINKS => {
            let more = many(s, 80);
            for i in 0..more {
                push_str(&mut o, &format!("{i}"));
                push_str(&mut o, "");
            }
            for _ in 0..s.weighted(&[1, 4, 4, 2, 1]) {
                let (a, b) = (text(s), text(s));
                push_str(&mut o, &a);
                push_str(&mut o, &b);
            }
        }
        BLOB => {
            let t = text(s);
            push_str(&mut o, &t);
            let n = blob_len(s);
            let b = s.blob(n);
            o.extend(b);
        }
        CREATORS => {
            if cx.synth {
                let n = s.range(1, 4);
                let mut who: Vec<Pubkey> = vec![];
                for _ in 0..n {
                    let x = *s.pick(&ks.wallet);
                    if !who.contains(&x) || s.chance(1, 6) {
                        who.push(x);
                    }
                }
                if s.chance(1, 15) {
                    let n = s.range(8, 60);
                    who.splice(0..0, strangers(n));
                }
                let sh = shares(s, who.len());
                for (i, w) in who.iter().enumerate() {
                    // entries of the same creator share their status
                    let v = match who[..i].iter().position(|x| x == w) {
                        Some(j) => o[j * 34 + 32],
                        None => s.bool() as u8,
                    };
                    o.extend_from_slice(w.as_ref());
                    o.push(v);
                    o.push(sh[i]);
                }
            } else {
                let cur = cx.cur.map(creators).unwrap_or_default();
                o = gen_creators(s, &cur);
            }
        }
        METADATA => {
            let n = if s.chance(1, 4) { 3 } else { 4 };
            for _ in 0..n {
                let t = text(s);
                push_str(&mut o, &t);
            }
        }
        GROUPING => {
            let size = if cx.synth { 0 } else if s.chance(1, 6) { s.u64_any() } else { 0 };
            let max = match (s.weighted(&[4, 3, 2, 1]), cx.cur) {
                (0, _) => 0,
                (1, Some(c)) => Grp::read(c).size.wrapping_add(s.draw(3)).wrapping_sub(1),
                (1, None) => s.draw(4),
                (2, _) => s.draw(6),
                _ => s.u64_any(),
            };
            o.extend_from_slice(&size.to_le_bytes());
            o.extend_from_slice(&max.to_le_bytes());
            if !s.chance(1, 5) {
                let d = if s.chance(1, 3) { Pubkey::default() } else { *s.pick(&ks.wallet) };
                o.extend_from_slice(d.as_ref());
            }
        }
        ROYALTIES => {
            let bp = match s.weighted(&[6, 2, 1, 1]) {
                0 => s.draw(10001),
                1 => 10000,
                2 if !cx.synth => 10001,
                _ if !cx.synth => s.u64_any(),
                _ => 0,
            };
            o.extend_from_slice(&bp.to_le_bytes());
            let d = s.range(0, 3);
            o.extend(gen_cons(s, d).encode());
        }
        MANAGER => {
            o.extend_from_slice(s.pick(&ks.wallet).as_ref());
            o.push(s.draw(8) as u8);
        }
        PROXY => {
            let i = ks.pda.iter().position(|p| *p == cx.key).unwrap_or(0);
            let mut prog = ks.prog[0];
            let mut stub = ks.stub[i];
            let mut bump = ks.bump[i];
            if !cx.synth {
                match s.weighted(&[16, 1, 1, 1]) {
                    0 => {}
                    1 => prog = ks.prog[1],
                    2 => stub = ks.stub[1 - i],
                    _ => bump = bump.wrapping_sub(1),
                }
            }
            o.extend_from_slice(prog.as_ref());
            o.extend_from_slice(stub.as_ref());
            o.push(bump);
            let a = if s.chance(1, 4) { Pubkey::default() } else { *s.pick(&ks.wallet) };
            o.extend_from_slice(a.as_ref());
        }
        PROPERTIES => {
            for i in 0..many(s, 80) {
                push_str(&mut o, &format!("{i}"));
                o.extend([2, (i % 3 == 0) as u8]);
            }
            for _ in 0..s.weighted(&[1, 4, 4, 2, 1]) {
                let n = text(s);
                push_str(&mut o, &n);
                match s.us(3) {
                    0 => {
                        o.push(0);
                        let t = text(s);
                        push_str(&mut o, &t);
                    }
                    1 => {
                        o.push(1);
                        o.extend_from_slice(&s.u64_any().to_le_bytes());
                    }
                    _ => {
                        o.push(2);
                        o.push(s.bool() as u8);
                    }
                }
            }
        }
        _ => {
            let n = blob_len(s);
            o = s.blob(n);
        }
    }
    if !cx.synth && s.chance(cx.junk, 100) {
        match s.us(4) {
            0 => {
                let n = s.us(o.len() + 1);
                o.truncate(n);
            }
            1 => {
                if !o.is_empty() {
                    let i = s.us(o.len().min(80));
                    o[i] = s.draw(256) as u8;
                }
            }
            2 => {
                let n = s.range(1, 33);
                let b = s.blob(n);
                o.extend(b);
            }
            _ => {
                let n = s.us(120);
                o = s.blob(n);
            }
        }
    }
    o
}

fn blob_len(s: &mut Source) -> usize {
    match s.weighted(&[180, 360, 180, 60, 2, 1]) {
        0 => 0,
        1 => s.range(1, 24),
        2 => s.range(25, 300),
        3 => s.range(301, 2500),
        4 => s.range(8_000, 13_000),
        _ => s.range(64_000, 67_000),
    }
}

/// bit pattern of a mask, never 0 with high probability
fn mask(s: &mut Source) -> u8 {
    [7, 1, 2, 4, 3, 5, 6, 0][s.weighted(&[3, 3, 3, 3, 2, 2, 2, 1])]
}

pub fn pick_ext(s: &mut Source, kn: &Knobs) -> u32 {
    s.weighted(&kn.exts) as u32
}

/// A well-formed initialized asset at `key`.
pub fn synth_asset(s: &mut Source, kn: &Knobs, key: Pubkey, want_group: bool) -> AssetM {
    let ks = keys();
    let proxied = ks.pda.contains(&key) && s.chance(4, 5);
    let mut standard = if proxied { 3 } else { s.weighted(&kn.standards) as u8 };
    if standard == 3 && !proxied {
        standard = 0;
    }
    let mut tys: Vec<u32> = vec![];
    if want_group {
        tys.push(GROUPING);
    }
    if standard == 1 {
        tys.push(MANAGER);
    }
    if standard == 3 {
        tys.push(PROXY);
    }
    for _ in 0..if s.chance(1, 15) { s.range(5, 16) } else { s.weighted(&[2, 4, 4, 2, 1]) } {
        let t = pick_ext(s, kn);
        if t != MANAGER && t != PROXY && !tys.contains(&t) && t != 0 {
            let at = s.us(tys.len() + 1);
            tys.insert(at, t);
        }
    }
    let exts = tys
        .iter()
        .map(|t| ExtM::full(*t, gen_content(s, *t, &Ctx { key, cur: None, junk: 0, synth: true })))
        .collect::<Vec<_>>();
    let name = gen_name(s);
    let mut m = AssetM {
        disc: 1,
        state: s.chance(kn.locked, 100) as u8,
        standard,
        mutable: !s.chance(kn.immutable, 100),
        owner: person(s),
        group: None,
        authority: if s.chance(1, 6) { person(s) } else { ks.wallet[s.us(2)] },
        delegate: if s.chance(kn.delegate, 100) { Some((*s.pick(&ks.wallet), mask(s))) } else { None },
        name: name35(&name),
        exts,
        len: 0,
    };
    m.len = m.end();
    if s.chance(kn.spare, 100) {
        m.len += if s.chance(1, 40) { s.range(250, 70_000) } else { *s.pick(&[8, 16, 24, 40, 100, 7, 1, 15]) };
    }
    m
}

pub fn gen_name(s: &mut Source) -> String {
    match s.weighted(&[8, 1, 1, 1, 2]) {
        0 => ["", "a", "asset", "Nifty #1"][s.us(4)].to_string(),
        1 => "n".repeat(35),
        2 if s.chance(1, 6) => "l".repeat(s.range(41, 300)),
        2 => "m".repeat(s.range(34, 40)),
        3 => "é☂x".repeat(s.range(1, 9)),
        _ => {
            let n = s.range(1, 35);
            let c = s.us(26);
            let t: String = (0..n).map(|i| (b'a' + ((c + i) % 26) as u8) as char).collect();
            ends(s, &t)
        }
    }
}

pub fn synth_buffer(s: &mut Source, kn: &Knobs, key: Pubkey) -> AssetM {
    let mut exts: Vec<ExtM> = vec![];
    for _ in 0..if s.chance(1, 15) { s.range(4, 14) } else { s.range(1, 3) } {
        let t = pick_ext(s, kn);
        if t != 0 && !exts.iter().any(|e| e.ty == t) {
            exts.push(ExtM::full(t, gen_content(s, t, &Ctx { key, cur: None, junk: kn.junk / 2, synth: false })));
        }
    }
    let mut m = AssetM {
        disc: 0,
        state: 0,
        standard: 0,
        mutable: false,
        owner: Pubkey::default(),
        group: None,
        authority: Pubkey::default(),
        delegate: None,
        name: [0; 35],
        exts,
        len: 0,
    };
    if s.chance(1, 3) {
        if let Some(e) = m.exts.last_mut() {
            let n = s.us(e.length + 1);
            e.data.truncate(n);
        }
    }
    m.len = if m.complete() {
        m.end()
    } else {
        let e = m.exts.pop().unwrap();
        let l = m.end() + EXT_LEN + e.data.len();
        m.exts.push(e);
        l
    };
    m
}

fn put_asset(s: &mut Source, w: &mut World, key: Pubkey, m: &AssetM) {
    let mut d = m.encode();
    d.resize(m.len, 0);
    let mut surplus = *s.pick(&[0u64, 0, 0, 0, 1, 1000, 5_000_000, 890_880]);
    if s.chance(1, 30) {
        surplus = *s.pick(&[u32::MAX as u64, 5_000_000_000, 1 << 40, (1 << 53) + 1]);
    }
    let lamports = rent(d.len()) + surplus;
    w.put(key, Acct { lamports, owner: PROGRAM, data: d, executable: false });
}

pub fn gen_world(s: &mut Source, kn: &Knobs) -> World {
    let ks = keys();
    let mut w = World::default();
    for x in ks.wallet {
        w.put(x, Acct { lamports: 100_000_000_000, owner: SYSTEM, data: vec![], executable: false });
    }
    w.put(ks.poor, Acct { lamports: 900_000, owner: SYSTEM, data: vec![], executable: false });
    for p in ks.prog {
        w.put(p, Acct { lamports: 1_000_000_000, owner: k(b'L', 0), data: vec![1; 36], executable: true });
    }
    w.put(SYSTEM, Acct { lamports: 1, owner: k(b'L', 1), data: vec![7; 14], executable: true });
    w.put(PROGRAM, Acct { lamports: 1_000_000_000, owner: k(b'L', 0), data: vec![1; 36], executable: true });
    let fr = [(ks.prog[0], 12usize), (ks.prog[0], 0), (ks.prog[1], 5)];
    for (i, x) in ks.foreign.iter().enumerate() {
        w.put(*x, Acct { lamports: rent(fr[i].1) + 50_000_000, owner: fr[i].0, data: vec![9; fr[i].1], executable: false });
    }
    s.begin();
    if !s.chance(kn.empty, 100) {
        let mut ms: Vec<(Pubkey, AssetM)> = vec![];
        let groups = s.weighted(&[2, 4, 2]);
        for (i, key) in asset_slots().into_iter().enumerate() {
            s.begin();
            let present = if i < groups { true } else { s.chance(3, 5) };
            if present {
                if i >= groups && i < NA && s.chance(kn.buffers, 100) {
                    let b = synth_buffer(s, kn, key);
                    if !b.exts.is_empty() {
                        put_asset(s, &mut w, key, &b);
                    }
                } else {
                    let m = synth_asset(s, kn, key, i < groups);
                    ms.push((key, m));
                }
            }
            s.end();
        }
        // memberships
        let gk: Vec<Pubkey> = ms.iter().filter(|(_, m)| m.ext(GROUPING).is_some()).map(|(k, _)| *k).collect();
        for i in 0..ms.len() {
            if gk.is_empty() || !s.chance(kn.grouped, 100) {
                continue;
            }
            let g = *s.pick(&gk);
            if g == ms[i].0 {
                continue;
            }
            ms[i].1.group = Some(g);
            let j = ms.iter().position(|(k, _)| *k == g).unwrap();
            let d = &mut ms[j].1.ext_mut(GROUPING).unwrap().data;
            let n = u64at(d, 0) + 1;
            d[..8].copy_from_slice(&n.to_le_bytes());
        }
        for (_, m) in ms.iter_mut() {
            if let Some(e) = m.ext_mut(GROUPING) {
                if s.chance(1, 5) {
                    // members outside the generated world
                    let extra = *s.pick(&[1u64, 2, 250, 254, 255, 65534, u32::MAX as u64 - 1]);
                    let n = u64at(&e.data, 0) + extra;
                    e.data[..8].copy_from_slice(&n.to_le_bytes());
                }
                let (n, max) = (u64at(&e.data, 0), u64at(&e.data, 8));
                if max != 0 && max < n {
                    let v = n + s.draw(2);
                    e.data[8..16].copy_from_slice(&v.to_le_bytes());
                }
            }
        }
        for (key, m) in &ms {
            put_asset(s, &mut w, *key, m);
        }
        if s.chance(kn.forged, 100) {
            // accounts of other programs holding the bytes of an asset or a buffer
            let v = view(&w);
            let all: Vec<Pubkey> = v.assets.iter().chain(v.buffers.iter()).map(|x| x.0).collect();
            for x in [ks.foreign[0], ks.foreign[2]] {
                if !all.is_empty() {
                    let d = w.get(s.pick(&all)).data.clone();
                    let a = w.get_mut(&x);
                    a.lamports += rent(d.len());
                    a.data = d;
                }
            }
        }
    }
    s.end();
    w
}

/// Puts a lookalike account of another program where one of this program is expected.
pub fn forge(s: &mut Source, w: &World, ix: &mut Ix) {
    let ks = keys();
    let fake: Vec<Pubkey> = ks.foreign.iter().copied().filter(|k| w.get(k).data.len() >= ASSET_LEN).collect();
    let at: Vec<usize> = (0..ix.metas.len()).filter(|i| w.get(&ix.metas[*i].key).owner == PROGRAM || ix.metas[*i].key == PROGRAM).collect();
    if fake.is_empty() || at.is_empty() {
        return;
    }
    let i = *s.pick(&at);
    ix.metas[i].key = *s.pick(&fake);
    if s.bool() {
        ix.metas[i].writable = true;
    }
}

// ---------------------------------------------------------------------------------------------
// instructions

pub fn m(key: Pubkey, signer: bool, writable: bool) -> Meta {
    Meta { key, signer, writable }
}

pub struct View {
    pub assets: Vec<(Pubkey, AssetM)>,
    pub buffers: Vec<(Pubkey, AssetM)>,
    pub empty: Vec<Pubkey>,
}

pub fn view(w: &World) -> View {
    let mut v = View { assets: vec![], buffers: vec![], empty: vec![] };
    for key in asset_slots() {
        let a = w.get(&key);
        if a.owner == PROGRAM {
            if let Ok(x) = AssetM::parse(&a.data) {
                if x.disc == 1 {
                    v.assets.push((key, x));
                } else {
                    v.buffers.push((key, x));
                }
            }
        } else if a.lamports == 0 {
            v.empty.push(key);
        }
    }
    v
}

fn roles(s: &mut Source) -> Roles {
    if s.chance(1, 3) {
        return Roles::All;
    }
    let n = s.weighted(&[1, 6, 3, 1]) + many(s, 60);
    Roles::Some((0..n).map(|_| 1 + s.draw(3) as u8).collect())
}

/// someone to act on this asset: mostly a party with some standing
pub fn actor(s: &mut Source, w: &World, a: &AssetM, right: &[Pubkey]) -> Pubkey {
    let ks = keys();
    if !right.is_empty() && s.chance(13, 20) {
        return *s.pick(right);
    }
    let mut c = vec![a.owner, a.authority];
    if let Some(d) = a.delegate {
        c.push(d.0);
    }
    if let Some(d) = a.manager() {
        c.push(d.0);
    }
    if let Some(g) = a.grouping() {
        if let Some(d) = g.delegate {
            c.push(d);
        }
    }
    if let Some(cs) = a.creators() {
        for x in cs {
            c.push(x.0);
        }
    }
    if let Some(g) = a.group {
        if let Ok(gm) = AssetM::parse(&w.get(&g).data) {
            c.push(gm.authority);
            c.push(gm.owner);
            if let Some(d) = gm.grouping().and_then(|g| g.delegate) {
                c.push(d);
            }
        }
        c.push(g);
    }
    c.push(*s.pick(&ks.wallet));
    *s.pick(&c)
}

fn payer(s: &mut Source) -> Pubkey {
    let ks = keys();
    match s.weighted(&[18, 2, 1]) {
        0 => *s.pick(&ks.wallet),
        1 => ks.poor,
        _ => *s.pick(&ks.foreign),
    }
}

fn target<'a>(s: &mut Source, v: &'a [(Pubkey, AssetM)], good: impl Fn(&AssetM) -> bool) -> Option<&'a (Pubkey, AssetM)> {
    if v.is_empty() {
        return None;
    }
    let g: Vec<usize> = v.iter().enumerate().filter(|(_, x)| good(&x.1)).map(|(i, _)| i).collect();
    if !g.is_empty() && s.chance(4, 5) {
        let i = *s.pick(&g);
        Some(&v[i])
    } else {
        let i = s.us(v.len());
        Some(&v[i])
    }
}

fn with_role(a: &AssetM, role: u8) -> Vec<Pubkey> {
    let mut v = vec![a.owner];
    if let Some((k, r)) = a.delegate {
        if r & role != 0 {
            v.push(k);
        }
    }
    if let Some((k, r)) = a.manager() {
        if r & role != 0 {
            v.push(k);
        }
    }
    v
}

pub fn gen_extin(s: &mut Source, kn: &Knobs, key: Pubkey, ty: u32) -> ExtIn {
    let d = gen_content(s, ty, &Ctx { key, cur: None, junk: kn.junk, synth: false });
    ExtIn::full(ty, d)
}

/// Picks an instruction that makes sense in this world; None when the chosen one does not apply.
pub fn gen_op(s: &mut Source, w: &World, kn: &Knobs) -> Option<(Op, Vec<Meta>)> {
    let ks = keys();
    let v = view(w);
    let none = m(PROGRAM, false, false);
    let sys = m(SYSTEM, false, false);
    let op = s.weighted(&kn.ops);
    Some(match op {
        0 => {
            let (b, _) = if s.chance(5, 6) { target(s, &v.buffers, |_| true)? } else { target(s, &v.assets, |_| true)? };
            (Op::Close, vec![m(*b, true, true), m(person(s), false, true)])
        }
        1 => {
            let (key, a) = target(s, &v.assets, |a| a.grouping().map_or(true, |g| g.size == 0) && a.state == 0)?;
            let r = with_role(a, BURN);
            let who = actor(s, w, a, &r);
            let to = if s.chance(1, 3) { none } else { m(person(s), false, true) };
            let g = a.group.map_or(none, |g| m(g, false, true));
            (Op::Burn, vec![m(*key, a.standard == 3, true), m(who, true, true), to, g])
        }
        2 => {
            let from_buffer = !v.buffers.is_empty() && s.chance(1, 2);
            let (key, have): (Pubkey, Vec<u32>) = if from_buffer {
                let (k, b) = target(s, &v.buffers, |b| b.complete())?;
                (*k, b.exts.iter().map(|e| e.ty).collect())
            } else if s.chance(1, 15) {
                (target(s, &v.assets, |_| true)?.0, vec![])
            } else {
                if v.empty.is_empty() {
                    return None;
                }
                (*s.pick(&v.empty), vec![])
            };
            let pda = ks.pda.contains(&key);
            let mut standard = s.weighted(&kn.standards) as u8;
            if pda && s.chance(3, 4) {
                standard = 3;
            }
            if !pda && standard == 3 && !s.chance(1, 8) {
                standard = 0;
            }
            if have.contains(&MANAGER) && s.chance(7, 8) {
                standard = 1;
            }
            let mut exts: Vec<ExtIn> = vec![];
            let mut tys = have.clone();
            let mut want: Vec<u32> = vec![];
            if standard == 1 && s.chance(7, 8) {
                want.push(MANAGER);
            }
            if standard == 3 && s.chance(9, 10) {
                want.push(PROXY);
            }
            for _ in 0..if s.chance(1, 20) { s.range(4, 14) } else { s.weighted(&[3, 4, 3, 1]) } {
                let t = pick_ext(s, kn);
                if (t != MANAGER && t != PROXY) || s.chance(1, 8) {
                    want.push(t);
                }
            }
            for t in want {
                if tys.contains(&t) && !s.chance(1, 10) {
                    continue;
                }
                tys.push(t);
                exts.push(gen_extin(s, kn, key, t));
            }
            // declared length differing from the data
            if !exts.is_empty() && s.chance(1, 15) {
                let i = s.us(exts.len());
                let d = s.range(0, 9) as u32;
                exts[i].length = (exts[i].length + d).saturating_sub(4);
            }
            if !exts.is_empty() && s.chance(1, 30) {
                let i = s.us(exts.len());
                exts[i].data = None;
                if s.bool() {
                    exts[i].length = 0;
                }
            }
            let groups: Vec<&(Pubkey, AssetM)> = v.assets.iter().filter(|(_, a)| a.ext(GROUPING).is_some()).collect();
            let mut auth = ks.wallet[s.us(3)];
            let mut auth_sig = s.chance(1, 3);
            let (mut g, mut ga) = (none, none);
            if !groups.is_empty() && s.chance(kn.grouped, 100) {
                let i = s.us(groups.len());
                let (gk, gm) = groups[i];
                g = m(*gk, false, true);
                if s.chance(9, 10) {
                    auth = gm.authority;
                }
                let d = gm.grouping().unwrap().delegate;
                match (s.weighted(&[5, 4, 1]), d) {
                    (0, _) => auth_sig = true,
                    (1, Some(d)) => ga = m(d, true, false),
                    (1, None) => ga = m(gm.authority, true, false),
                    _ => ga = m(actor(s, w, gm, &[]), true, false),
                }
            }
            let (p, sy) = match s.weighted(&[8, 1, 1]) {
                0 => (m(payer(s), true, true), sys),
                1 => (none, none),
                _ => (m(payer(s), true, true), none),
            };
            let name = gen_name(s);
            let mutable = !s.chance(1, 5);
            let exts = if exts.is_empty() && s.bool() { None } else { Some(exts) };
            (
                Op::Create { name, standard, mutable, exts },
                vec![m(key, true, true), m(auth, auth_sig, false), m(person(s), false, false), g, ga, p, sy],
            )
        }
        3 => {
            let (key, a) = target(s, &v.assets, |a| a.state == 0)?;
            let who = actor(s, w, a, &[a.owner]);
            let d = match (s.us(3), a.delegate) {
                (0, Some(d)) => d.0,
                _ => person(s),
            };
            (Op::Approve(roles(s)), vec![m(*key, a.standard == 3, true), m(who, true, false), m(d, false, false)])
        }
        4 => {
            let (key, have): (Pubkey, Vec<u32>) = if !v.buffers.is_empty() && s.chance(3, 5) {
                let (k, b) = target(s, &v.buffers, |b| b.complete())?;
                (*k, b.exts.iter().map(|e| e.ty).collect())
            } else if s.chance(1, 15) {
                (target(s, &v.assets, |_| true)?.0, vec![])
            } else {
                if v.empty.is_empty() {
                    return None;
                }
                (*s.pick(&v.empty), vec![])
            };
            let mut t = pick_ext(s, kn);
            for _ in 0..3 {
                if have.contains(&t) && s.chance(4, 5) {
                    t = pick_ext(s, kn);
                }
            }
            if s.chance(1, 40) {
                t = 0;
            }
            let mut e = gen_extin(s, kn, key, t);
            match s.weighted(&[4, 2, 3, 1]) {
                0 => {}
                1 => e.data = None,
                2 => {
                    let d = e.data.as_mut().unwrap();
                    let n = s.us(d.len() + 1);
                    d.truncate(n);
                }
                _ => e.length = (e.length + s.draw(8) as u32).saturating_sub(3),
            }
            let (p, sy) = match s.weighted(&[10, 1, 1]) {
                0 => (m(payer(s), true, true), sys),
                1 => (none, none),
                _ => (m(payer(s), true, true), none),
            };
            (Op::Allocate(e), vec![m(key, true, true), p, sy])
        }
        5 | 8 => {
            let want = (op == 8) as u8;
            let (key, a) = target(s, &v.assets, |a| a.state == want)?;
            let r: Vec<Pubkey> = match a.delegate {
                Some((k, r)) => {
                    let mut v = vec![];
                    if r & LOCK != 0 {
                        v.push(k);
                    }
                    if let Some((k, r)) = a.manager() {
                        if r & LOCK != 0 {
                            v.push(k);
                        }
                    }
                    v
                }
                None => with_role(a, LOCK),
            };
            let who = actor(s, w, a, &r);
            (if op == 5 { Op::Lock } else { Op::Unlock }, vec![m(*key, a.standard == 3, true), m(who, true, false)])
        }
        6 => {
            let (key, a) = target(s, &v.assets, |a| a.delegate.is_some() && a.state == 0)?;
            let mut r = vec![a.owner];
            if let Some(d) = a.delegate {
                r.push(d.0);
            }
            let who = actor(s, w, a, &r);
            (Op::Revoke(roles(s)), vec![m(*key, a.standard == 3, true), m(who, true, false)])
        }
        7 => {
            let (key, a) = target(s, &v.assets, |a| a.state == 0)?;
            let r = with_role(a, TRANSFER);
            let who = actor(s, w, a, &r);
            let to = match s.weighted(&[12, 2, 1, 1]) {
                0 => person(s),
                1 => a.owner,
                2 => who,
                _ => any_key(s),
            };
            let g = if s.chance(1, 12) { none } else { a.group.map_or(none, |g| m(g, false, false)) };
            (Op::Transfer, vec![m(*key, a.standard == 3, true), m(who, true, false), m(to, false, false), g])
        }
        9 | 11 => {
            let (key, a) = target(s, &v.assets, |a| a.ext(CREATORS).is_some())?;
            let r: Vec<Pubkey> = a.creators().unwrap_or_default().iter().map(|c| c.0).collect();
            let who = actor(s, w, a, &r);
            (if op == 11 { Op::Verify } else { Op::Unverify }, vec![m(*key, a.standard == 3, true), m(who, true, false)])
        }
        10 => {
            let (key, a) = target(s, &v.assets, |a| a.mutable)?;
            let who = actor(s, w, a, &[a.authority]);
            let name = s.chance(1, 4).then(|| gen_name(s));
            let mutable = s.chance(1, 6).then(|| s.chance(1, 3));
            let mut buf = none;
            let mut ext = None;
            match s.weighted(&[7, 3, 2]) {
                0 => {
                    let ty = if !a.exts.is_empty() && s.chance(3, 5) {
                        let i = s.us(a.exts.len());
                        a.exts[i].ty
                    } else if s.chance(1, 40) {
                        0
                    } else {
                        pick_ext(s, kn)
                    };
                    let cur = a.ext(ty).map(|e| e.data.clone());
                    let mut d = gen_content(s, ty, &Ctx { key: *key, cur: cur.as_deref(), junk: kn.junk, synth: false });
                    if let Some(c) = &cur {
                        if s.chance(1, 6) {
                            d = c.clone();
                        } else if ty == BLOB && s.chance(1, 3) {
                            d.resize(c.len().max(1), 3);
                            d[0] = 0;
                        }
                    }
                    let mut e = ExtIn::full(ty, d);
                    if s.chance(1, 25) {
                        e.length = (e.length + s.draw(4) as u32).saturating_sub(2);
                    }
                    if s.chance(1, 25) {
                        e.data = None;
                        if s.bool() {
                            e.length = 0;
                        }
                    }
                    ext = Some(e);
                }
                1 => {
                    if let Some((k, _)) = target(s, &v.buffers, |b| b.complete()) {
                        buf = m(*k, false, s.chance(9, 10));
                        if s.chance(1, 20) {
                            ext = Some(ExtIn::full(BUCKET, vec![1]));
                        }
                    } else if s.chance(1, 10) {
                        buf = m(target(s, &v.assets, |_| true)?.0, false, true);
                    }
                }
                _ => {}
            }
            let (p, sy) = match s.weighted(&[12, 1, 1]) {
                0 => (m(payer(s), true, true), sys),
                1 => (none, none),
                _ => (m(payer(s), true, true), none),
            };
            (
                Op::Update { name, mutable, ext },
                vec![m(*key, a.standard == 3, true), m(who, true, false), buf, none, p, sy],
            )
        }
        12 => {
            let (key, b) = if s.chance(14, 15) {
                target(s, &v.buffers, |b| !b.complete())?
            } else {
                target(s, &v.assets, |_| true)?
            };
            let overwrite = s.chance(1, 4);
            let bytes = if let Some(e) = b.exts.last() {
                let left = if overwrite { e.length } else { e.length.saturating_sub(e.data.len()) };
                let full = gen_content(s, e.ty, &Ctx { key: *key, cur: None, junk: 0, synth: false });
                match s.weighted(&[5, 4, 1]) {
                    0 => s.blob(left.min(12_000)),
                    1 => {
                        let n = s.us(left.min(4000) + 1);
                        s.blob(n)
                    }
                    _ => {
                        let n = left.min(4000) + s.range(1, 9);
                        let mut b = full;
                        b.resize(n, 0);
                        b
                    }
                }
            } else {
                vec![1, 2, 3]
            };
            (Op::Write { overwrite, bytes }, vec![m(*key, true, true), m(payer(s), true, true), sys])
        }
        13 | 14 => {
            let ungroup = op == 14;
            let (key, a) = target(s, &v.assets, |a| a.group.is_some() == ungroup)?;
            let gk = match a.group {
                Some(g) if s.chance(5, 6) => g,
                _ => {
                    let ok: Vec<(Pubkey, AssetM)> = v.assets.iter().filter(|x| x.0 != *key).cloned().collect();
                    target(s, &ok, |g| g.ext(GROUPING).is_some() && g.authority == a.authority)?.0
                }
            };
            let gm = v.assets.iter().find(|x| x.0 == gk).map(|x| x.1.clone())?;
            let mut r = vec![gm.authority];
            if let Some(d) = gm.grouping().and_then(|g| g.delegate) {
                r.push(d);
            }
            let who = actor(s, w, &gm, &r);
            (
                if ungroup { Op::Ungroup } else { Op::Group },
                vec![m(*key, a.standard == 3, true), m(gk, false, true), m(who, true, false)],
            )
        }
        15 => {
            let (key, a) = target(s, &v.assets, |a| a.mutable)?;
            let who = actor(s, w, a, &[a.authority]);
            let to = person(s);
            (Op::Handover, vec![m(*key, a.standard == 3, true), m(who, true, false), m(to, true, false)])
        }
        16 => {
            let (key, a) = target(s, &v.assets, |a| a.mutable && !a.exts.is_empty())?;
            let who = actor(s, w, a, &[a.authority]);
            let t = if !a.exts.is_empty() && s.chance(7, 8) {
                let i = s.us(a.exts.len());
                a.exts[i].ty
            } else {
                s.draw(12) as u32
            };
            (Op::Remove(t as u8), vec![m(*key, a.standard == 3, true), m(who, true, false), none, m(person(s), false, true)])
        }
        _ => {
            let (key, a) = target(s, &v.assets, |a| a.mutable)?;
            let who = actor(s, w, a, &[a.authority]);
            let val = match s.weighted(&[5, 3, 1, 1]) {
                0 => None,
                1 => Some(s.draw(64) as u16),
                2 => Some(*s.pick(&[10239u16, 10240, 10241, u16::MAX])),
                _ => Some(s.draw(65536) as u16),
            };
            let sy = if s.chance(1, 10) { none } else { sys };
            (Op::Resize(val), vec![m(*key, a.standard == 3, true), m(who, true, false), m(payer(s), true, true), sy])
        }
    })
}

/// Breaks an instruction in one small way.
pub fn perturb(s: &mut Source, ix: &mut Ix) -> &'static str {
    let n = ix.metas.len();
    if n == 0 {
        return "";
    }
    match s.weighted(&[6, 5, 2, 2, 2, 1, 1, 2, 1]) {
        0 => {
            let sg: Vec<usize> = (0..n).filter(|i| ix.metas[*i].signer).collect();
            if !sg.is_empty() {
                let i = *s.pick(&sg);
                let key = ix.metas[i].key;
                for x in ix.metas.iter_mut() {
                    if x.key == key {
                        x.signer = false;
                    }
                }
            }
            "unsign"
        }
        1 => {
            let i = s.us(n);
            ix.metas[i].key = any_key(s);
            "swap-account"
        }
        2 => {
            let i = s.us(n);
            let key = ix.metas[i].key;
            for x in ix.metas.iter_mut() {
                if x.key == key {
                    x.writable = false;
                }
            }
            "readonly"
        }
        3 => {
            let (i, j) = (s.us(n), s.us(n));
            ix.metas[i].key = ix.metas[j].key;
            "duplicate"
        }
        4 => {
            let (i, j) = (s.us(n), s.us(n));
            ix.metas.swap(i, j);
            "reorder"
        }
        5 => {
            let k = s.us(n + 1);
            ix.metas.truncate(k);
            "fewer-accounts"
        }
        6 => {
            let key = any_key(s);
            ix.metas.push(m(key, s.bool(), s.bool()));
            "extra-account"
        }
        7 => {
            let i = s.us(n);
            ix.metas[i].signer = true;
            ix.metas[i].writable = true;
            "more-rights"
        }
        _ => {
            if !ix.data.is_empty() {
                match s.us(3) {
                    0 => {
                        let i = s.us(ix.data.len().min(64));
                        ix.data[i] = s.draw(256) as u8;
                    }
                    1 => {
                        let i = s.us(ix.data.len());
                        ix.data.truncate(i);
                    }
                    _ => {
                        let i = s.us(ix.data.len().min(64));
                        ix.data[i] ^= 1 << s.draw(8);
                    }
                }
            }
            "corrupt-data"
        }
    }
}

pub fn show(ix: &Ix, height: u64) -> String {
    let op = match Op::decode(&ix.data) {
        Some(o) => {
            let t = format!("{o:?}");
            if t.chars().count() > 260 {
                t.chars().take(260).collect::<String>() + ".."
            } else {
                t
            }
        }
        None => format!("bytes {}", short(&ix.data)),
    };
    let a: Vec<String> = ix
        .metas
        .iter()
        .map(|x| format!("{}{}{}", name_of(&x.key), if x.signer { "!" } else { "" }, if x.writable { "*" } else { "" }))
        .collect();
    format!("{op} [{}]{}", a.join(" "), if height > 1 { " via CPI" } else { "" })
}
