//! Checks on the types library: builders, readers, constraints, account queries (C14, C15, C16).

use crate::gen::*;
use crate::model::*;
use nifty_asset_types::constraints::*;
use nifty_asset_types::extensions as x;
use nifty_asset_types::extensions::{ExtensionBuilder, ExtensionData, ExtensionDataMut, ExtensionType};
use nifty_asset_types::podded::ZeroCopy;
use nifty_asset_types::state::{Asset, Delegate, DelegateRole, NullablePubkey};
use pbt::{guard, Case, Source};
use solana_program::pubkey::Pubkey;
use vm::SYSTEM;

/// Bytes at an eight-byte-aligned address, as account data always is.
pub struct Aligned {
    store: Vec<u64>,
    len: usize,
}
impl Aligned {
    pub fn new(b: &[u8]) -> Self {
        let mut a = Aligned { store: vec![0u64; b.len() / 8 + 1], len: b.len() };
        a.as_mut().copy_from_slice(b);
        a
    }
    pub fn as_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.store.as_mut_ptr() as *mut u8, self.len) }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.store.as_ptr() as *const u8, self.len) }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn hs(s: &str) -> String {
    hex(s.as_bytes())
}
fn okey(k: Option<Pubkey>) -> String {
    k.map_or("none".into(), |k| hex(k.as_ref()))
}
fn onk(k: Option<&NullablePubkey>) -> String {
    okey(k.map(|k| **k))
}

/// Reference rendering of an extension's values, from the bytes.
pub fn tokens_ref(ty: u32, d: &[u8]) -> Option<Vec<String>> {
    readable(ty, d)?;
    let mut o = 0;
    let st = |o: &mut usize| -> String {
        let n = d[*o] as usize;
        let r = hex(&d[*o + 1..*o + 1 + n]);
        *o += 1 + n;
        r
    };
    let mut t = vec![];
    match ty {
        ATTRIBUTES | LINKS => {
            while o < d.len() {
                t.push(st(&mut o));
            }
        }
        BLOB => {
            t.push(st(&mut o));
            t.push(hex(&d[o..]));
        }
        CREATORS => {
            for (k, v, sh) in creators(d) {
                t.push(format!("{} {v} {sh}", hex(k.as_ref())));
            }
        }
        METADATA => {
            for _ in 0..3 {
                t.push(st(&mut o));
            }
            t.push(if o < d.len() { st(&mut o) } else { String::new() });
        }
        GROUPING => {
            let g = Grp::read(d);
            t = vec![g.size.to_string(), if g.max == 0 { "none".into() } else { g.max.to_string() }, okey(g.delegate)];
        }
        ROYALTIES => {
            t.push(u64at(d, 0).to_string());
            let (_, n) = Cons::parse(&d[8..])?;
            t.push(hex(&d[8..8 + n]));
        }
        MANAGER => t = vec![okey(Some(Pubkey::new_from_array(d[..32].try_into().unwrap()))), d[32].to_string()],
        PROXY => {
            let a = Pubkey::new_from_array(d[65..97].try_into().unwrap());
            t = vec![hex(&d[..32]), hex(&d[32..64]), d[64].to_string(), okey((a != Pubkey::default()).then_some(a))];
        }
        PROPERTIES => {
            while o < d.len() {
                let n = st(&mut o);
                let v = match d[o] {
                    0 => {
                        o += 1;
                        format!("text {}", st(&mut o))
                    }
                    1 => {
                        o += 9;
                        format!("number {}", u64at(d, o - 8))
                    }
                    _ => {
                        o += 2;
                        format!("boolean {}", d[o - 1] != 0)
                    }
                };
                t.push(format!("{n} {v}"));
            }
        }
        _ => t.push(hex(d)),
    }
    Some(t)
}

fn props_tokens(it: &[x::Property]) -> Vec<String> {
    it.iter()
        .map(|p| {
            // the value itself goes through the typed accessors, see `typed`
            format!("{} {}", hs(p.name.as_str()), p.value.size())
        })
        .collect()
}

/// The library's rendering through its reader. Properties carry only name and size here.
pub fn tokens_lib(ty: u32, d: &[u8]) -> (Vec<String>, usize) {
    let mut t = vec![];
    let n;
    match ty {
        ATTRIBUTES => {
            let v = x::Attributes::from_bytes(d);
            for a in v.iter() {
                t.push(hs(a.name.as_str()));
                t.push(hs(a.value.as_str()));
            }
            n = v.length();
        }
        LINKS => {
            let v = x::Links::from_bytes(d);
            for a in v.iter() {
                t.push(hs(a.name.as_str()));
                t.push(hs(a.uri.as_str()));
            }
            n = v.length();
        }
        BLOB => {
            let v = x::Blob::from_bytes(d);
            t = vec![hs(v.content_type.as_str()), hex(v.data)];
            n = v.length();
        }
        CREATORS => {
            let v = x::Creators::from_bytes(d);
            for c in v.values {
                t.push(format!("{} {} {}", hex(c.address.as_ref()), bool::from(c.verified), c.share));
            }
            n = v.length();
        }
        METADATA => {
            let v = x::Metadata::from_bytes(d);
            t = vec![hs(v.symbol.as_str()), hs(v.description.as_str()), hs(v.uri.as_str()), hs(v.image_uri.as_str())];
            n = v.length();
        }
        GROUPING => {
            let v = x::Grouping::from_bytes(d);
            t = vec![v.size.to_string(), v.max_size.value().map_or("none".into(), |m| (**m).to_string()), onk(v.delegate.value())];
            n = v.length();
        }
        ROYALTIES => {
            let v = x::Royalties::from_bytes(d);
            t = vec![v.basis_points.to_string(), hex(&v.constraint.as_bytes())];
            n = v.length();
        }
        MANAGER => {
            let v = x::Manager::from_bytes(d);
            t = vec![hex((*v.delegate.address).as_ref()), v.delegate.roles.to_string()];
            n = v.length();
        }
        PROXY => {
            let v = x::Proxy::from_bytes(d);
            t = vec![hex(v.program.as_ref()), hex(v.seeds), v.bump.to_string(), onk(v.authority.value())];
            n = v.length();
        }
        PROPERTIES => {
            let v = x::Properties::from_bytes(d);
            t = props_tokens(&v);
            n = v.length();
        }
        _ => {
            let v = x::Bucket::from_bytes(d);
            t.push(hex(v.data));
            n = v.length();
        }
    }
    (t, n)
}

/// The same through the mutable view.
pub fn tokens_mut(ty: u32, d: &mut [u8]) -> Vec<String> {
    let mut t = vec![];
    match ty {
        ATTRIBUTES => {
            for a in x::AttributesMut::from_bytes_mut(d).iter() {
                t.push(hs(a.name.as_str()));
                t.push(hs(a.value.as_str()));
            }
        }
        LINKS => {
            for a in x::LinksMut::from_bytes_mut(d).iter() {
                t.push(hs(a.name.as_str()));
                t.push(hs(a.uri.as_str()));
            }
        }
        BLOB => {
            let v = x::BlobMut::from_bytes_mut(d);
            t = vec![hs(v.content_type.as_str()), hex(v.data)];
        }
        CREATORS => {
            for c in x::CreatorsMut::from_bytes_mut(d).creators.iter() {
                t.push(format!("{} {} {}", hex(c.address.as_ref()), bool::from(c.verified), c.share));
            }
        }
        METADATA => {
            let v = x::MetadataMut::from_bytes_mut(d);
            t = vec![hs(v.symbol.as_str()), hs(v.description.as_str()), hs(v.uri.as_str()), hs(v.image_uri.as_str())];
        }
        GROUPING => {
            let v = x::GroupingMut::from_bytes_mut(d);
            t = vec![v.size.to_string(), v.max_size.value().map_or("none".into(), |m| (**m).to_string()), onk(v.delegate.value())];
        }
        ROYALTIES => {
            let v = x::RoyaltiesMut::from_bytes_mut(d);
            t = vec![v.basis_points.to_string(), hex(&v.constraint.as_bytes())];
        }
        MANAGER => {
            let v = x::ManagerMut::from_bytes_mut(d);
            t = vec![hex((*v.delegate.address).as_ref()), v.delegate.roles.to_string()];
        }
        PROXY => {
            let v = x::ProxyMut::from_bytes_mut(d);
            t = vec![hex(v.program.as_ref()), hex(v.seeds), v.bump.to_string(), okey((*v.authority != Pubkey::default()).then_some(*v.authority))];
        }
        PROPERTIES => t = props_tokens(&x::PropertiesMut::from_bytes_mut(d)),
        _ => t.push(hex(x::BucketMut::from_bytes_mut(d).data)),
    }
    t
}

fn kinds(t: &[String]) -> Vec<String> {
    t.iter()
        .map(|s| {
            let p: Vec<&str> = s.split(' ').collect();
            let n = match p[1] {
                "number" => 9,
                "boolean" => 2,
                _ => 2 + p.get(2).map_or(0, |v| v.len() / 2),
            };
            format!("{} {n}", p[0])
        })
        .collect()
}

/// Compares the typed property accessors with the reference list.
fn typed(list: &[String], num: impl Fn(&str) -> Option<u64>, boolean: impl Fn(&str) -> Option<bool>, text: impl Fn(&str) -> Option<String>) -> Option<String> {
    let mut seen: Vec<&str> = vec![];
    for t in list {
        let mut p = t.split(' ');
        let (n, kind, v) = (p.next().unwrap(), p.next().unwrap(), p.next().unwrap_or(""));
        if seen.contains(&n) {
            continue;
        }
        seen.push(n);
        // several properties of one name: which of them is meant is not specified
        if list.iter().filter(|o| o.split(' ').next() == Some(n)).count() > 1 {
            continue;
        }
        let raw: Vec<u8> = (0..n.len() / 2).map(|i| u8::from_str_radix(&n[2 * i..2 * i + 2], 16).unwrap()).collect();
        let Ok(name) = String::from_utf8(raw) else { continue };
        let got = (num(&name), boolean(&name), text(&name));
        let want = match kind {
            "number" => (Some(v.parse::<u64>().unwrap()), None, None),
            "boolean" => (None, Some(v == "true"), None),
            _ => (None, None, Some(v.to_string())),
        };
        if got != want {
            return Some(format!("property {name:?}: typed lookups give {got:?}, expected {want:?}"));
        }
    }
    for name in seen.iter().take(4).filter_map(|n| String::from_utf8(unhex(n)).ok()) {
        for x in crate::gen::near(&name) {
            if !seen.contains(&&hs(&x)[..]) && (num(&x).is_some() || boolean(&x).is_some() || text(&x).is_some()) {
                return Some(format!("lookup of {x:?} finds something, stored is {name:?}"));
            }
        }
    }
    let absent = "\u{1}no such property\u{1}";
    if num(absent).is_some() || boolean(absent).is_some() || text(absent).is_some() {
        return Some("lookup of an absent property finds something".into());
    }
    None
}

/// All the ways of reading one extension's bytes agree with the reference; returns the difference.
pub fn read_agrees(ty: u32, d: &[u8], length: bool) -> Option<String> {
    guard(|| read_agrees_inner(ty, d, length)).unwrap_or_else(|m| Some(format!("reading extension type {ty} panics: {m}")))
}

fn read_agrees_inner(ty: u32, d: &[u8], length: bool) -> Option<String> {
    let want = tokens_ref(ty, d)?;
    if readable(ty, d) != Some(true) {
        return None;
    }
    let mut a = Aligned::new(d);
    let r = guard(|| tokens_lib(ty, a.get()));
    let (got, n) = match r {
        Ok(v) => v,
        Err(m) => return Some(format!("reading extension type {ty} panics: {m}")),
    };
    let w = if ty == PROPERTIES { kinds(&want) } else { want.clone() };
    if got != w {
        return Some(format!("extension type {ty} reads as {got:?}, stored is {w:?}"));
    }
    if length && n != d.len() {
        return Some(format!("extension type {ty} reports length {n}, it has {} bytes", d.len()));
    }
    match guard(|| tokens_mut(ty, a.as_mut())) {
        Ok(v) if v == w => {}
        Ok(v) => return Some(format!("mutable view of extension type {ty} reads as {v:?}, stored is {w:?}")),
        Err(m) => return Some(format!("mutable view of extension type {ty} panics: {m}")),
    }
    if a.get() != d {
        return Some(format!("reading extension type {ty} through the mutable view changes it"));
    }
    if ty == PROPERTIES {
        let p = x::Properties::from_bytes(a.get());
        if let Some(e) = typed(
            &want,
            |n| p.get::<x::Number>(n).map(|v| **v),
            |n| p.get::<x::Boolean>(n).map(|v| **v),
            |n| p.get::<x::Text>(n).map(|v| hs(v)),
        ) {
            return Some(e);
        }
        drop(p);
        let p = x::PropertiesMut::from_bytes_mut(a.as_mut());
        if let Some(e) = typed(
            &want,
            |n| p.get::<x::Number>(n).map(|v| **v),
            |n| p.get::<x::Boolean>(n).map(|v| **v),
            |n| p.get::<x::Text>(n).map(|v| hs(v)),
        ) {
            return Some(format!("mutable view: {e}"));
        }
    }
    if ty == CREATORS {
        let p = x::Creators::from_bytes(a.get());
        let all = creators(d);
        for (k, _, _) in &all {
            let first = all.iter().find(|c| c.0 == *k).unwrap();
            match p.get(k) {
                Some(c) if c.address == *k && bool::from(c.verified) == first.1 && c.share == first.2 => {}
                _ => return Some(format!("creator {k} is not found, or not as stored")),
            }
        }
        for (k, _, _) in all.iter().take(4) {
            for i in [0, 8, 23, 31] {
                let mut b = k.to_bytes();
                b[i] ^= 64;
                let x = solana_program::pubkey::Pubkey::new_from_array(b);
                if p.get(&x).is_some() && !all.iter().any(|c| c.0 == x) {
                    return Some(format!("creator {x}, which is absent, is found"));
                }
            }
        }
        if p.get(&crate::gen::k(b'?', 200)).is_some() {
            return Some("an absent creator is found".into());
        }
    }
    if ty == ATTRIBUTES {
        let p = x::Attributes::from_bytes(a.get());
        for i in 0..want.len() / 2 {
            let raw: Vec<u8> = unhex(&want[2 * i]);
            let Ok(name) = String::from_utf8(raw) else { continue };
            let first = (0..want.len() / 2).find(|j| want[2 * j] == want[2 * i]).unwrap();
            if p.get(&name).map(hs) != Some(want[2 * first + 1].clone()) {
                return Some(format!("attribute {name:?} is not found, or not as stored"));
            }
        }
        for i in 0..(want.len() / 2).min(4) {
            let Ok(name) = String::from_utf8(unhex(&want[2 * i])) else { continue };
            for x in crate::gen::near(&name) {
                if p.get(&x).is_some() && !want.iter().step_by(2).any(|n| *n == hs(&x)) {
                    return Some(format!("attribute {x:?}, which is absent, is found"));
                }
            }
        }
        if p.get("\u{1}no such attribute\u{1}").is_some() {
            return Some("an absent attribute is found".into());
        }
    }
    None
}

fn unhex(n: &str) -> Vec<u8> {
    (0..n.len() / 2).map(|i| u8::from_str_radix(&n[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn ty_of(t: u32) -> ExtensionType {
    use ExtensionType::*;
    [None, Attributes, Blob, Creators, Links, Metadata, Grouping, Royalties, Manager, Proxy, Properties, Bucket][t as usize]
}
fn num_of(t: ExtensionType) -> u32 {
    (0..12).find(|i| ty_of(*i) == t).unwrap()
}

/// Raw extension as laid out in an account: type number, offset of its data, length.
pub struct RawExt {
    pub ty: u32,
    pub at: usize,
    pub len: usize,
}

fn get_tokens(ty: u32, d: &[u8]) -> Option<Vec<String>> {
    macro_rules! g {
        ($t:ident, $n:expr) => {
            Asset::get::<x::$t>(d).map(|_| ())
        };
    }
    // presence through the typed lookup
    match ty {
        ATTRIBUTES => g!(Attributes, 1),
        BLOB => g!(Blob, 2),
        CREATORS => g!(Creators, 3),
        LINKS => g!(Links, 4),
        METADATA => g!(Metadata, 5),
        GROUPING => g!(Grouping, 6),
        ROYALTIES => g!(Royalties, 7),
        MANAGER => g!(Manager, 8),
        PROXY => g!(Proxy, 9),
        PROPERTIES => g!(Properties, 10),
        _ => g!(Bucket, 11),
    }
    .map(|_| vec![])
}

/// Tokens of the extension found by the typed lookup on the whole account (`how`: 0 account,
/// 1 account mutably, 2 extension slice, 3 extension slice mutably).
fn lookup(ty: u32, d: &mut [u8], how: usize) -> Option<Vec<String>> {
    macro_rules! go {
        ($t:ident, $m:ident, $v:ident, $r:expr, $w:ident, $rm:expr) => {
            match how {
                0 => Asset::get::<x::$t>(d).map(|$v| $r),
                2 => x::Extension::get::<x::$t>(&d[ASSET_LEN..]).map(|$v| $r),
                1 => Asset::get_mut::<x::$m>(d).map(|$w| $rm),
                _ => x::Extension::get_mut::<x::$m>(&mut d[ASSET_LEN..]).map(|$w| $rm),
            }
        };
    }
    match ty {
        ATTRIBUTES => go!(
            Attributes, AttributesMut, v,
            v.iter().flat_map(|a| [hs(&a.name), hs(&a.value)]).collect::<Vec<_>>(),
            w, w.iter().flat_map(|a| [hs(&a.name), hs(&a.value)]).collect::<Vec<_>>()
        ),
        LINKS => go!(
            Links, LinksMut, v,
            v.iter().flat_map(|a| [hs(&a.name), hs(&a.uri)]).collect::<Vec<_>>(),
            w, w.iter().flat_map(|a| [hs(&a.name), hs(&a.uri)]).collect::<Vec<_>>()
        ),
        BLOB => go!(Blob, BlobMut, v, vec![hs(&v.content_type), hex(v.data)], w, vec![hs(&w.content_type), hex(w.data)]),
        CREATORS => go!(
            Creators, CreatorsMut, v,
            v.values.iter().map(|c| format!("{} {} {}", hex(c.address.as_ref()), bool::from(c.verified), c.share)).collect::<Vec<_>>(),
            w, w.creators.iter().map(|c| format!("{} {} {}", hex(c.address.as_ref()), bool::from(c.verified), c.share)).collect::<Vec<_>>()
        ),
        METADATA => go!(
            Metadata, MetadataMut, v,
            vec![hs(&v.symbol), hs(&v.description), hs(&v.uri), hs(&v.image_uri)],
            w, vec![hs(&w.symbol), hs(&w.description), hs(&w.uri), hs(&w.image_uri)]
        ),
        GROUPING => go!(
            Grouping, GroupingMut, v,
            vec![v.size.to_string(), v.max_size.value().map_or("none".into(), |m| (**m).to_string()), onk(v.delegate.value())],
            w, vec![w.size.to_string(), w.max_size.value().map_or("none".into(), |m| (**m).to_string()), onk(w.delegate.value())]
        ),
        ROYALTIES => go!(
            Royalties, RoyaltiesMut, v,
            vec![v.basis_points.to_string(), hex(&v.constraint.as_bytes())],
            w, vec![w.basis_points.to_string(), hex(&w.constraint.as_bytes())]
        ),
        MANAGER => go!(
            Manager, ManagerMut, v,
            vec![hex((*v.delegate.address).as_ref()), v.delegate.roles.to_string()],
            w, vec![hex((*w.delegate.address).as_ref()), w.delegate.roles.to_string()]
        ),
        PROXY => go!(
            Proxy, ProxyMut, v,
            vec![hex(v.program.as_ref()), hex(v.seeds), v.bump.to_string(), onk(v.authority.value())],
            w, vec![hex(w.program.as_ref()), hex(w.seeds), w.bump.to_string(), okey((*w.authority != Pubkey::default()).then_some(*w.authority))]
        ),
        PROPERTIES => go!(Properties, PropertiesMut, v, props_tokens(&v), w, props_tokens(&w)),
        _ => go!(Bucket, BucketMut, v, vec![hex(v.data)], w, vec![hex(w.data)]),
    }
}

/// Every account query against the list of extensions really there.
pub fn queries_agree(d: &[u8], exts: &[RawExt]) -> Option<String> {
    let known: Vec<&RawExt> = exts.iter().filter(|e| e.ty <= MAX_TYPE).collect();
    let all_known = known.len() == exts.len();
    let mut a = Aligned::new(d);
    let r = guard(|| {
        let list: Vec<u32> = Asset::get_extensions(a.get()).into_iter().map(num_of).collect();
        let want: Vec<u32> = known.iter().map(|e| e.ty).collect();
        if list != want {
            return Some(format!("enumeration gives types {list:?}, stored are {want:?}"));
        }
        for ty in 1..=MAX_TYPE {
            let e = known.iter().find(|e| e.ty == ty);
            if Asset::contains(ty_of(ty), a.get()) != e.is_some() {
                return Some(format!("presence test for type {ty} is wrong"));
            }
            let g = Asset::get_extension(ty_of(ty), a.get()).map(|(h, at)| (u32::from(h.extension_type()), at, h.length() as usize, h.boundary() as usize));
            let w = e.map(|e| (ty, e.at, e.len, pad8(e.at + e.len)));
            if g != w {
                return Some(format!("header lookup for type {ty} gives {g:?}, stored is {w:?}"));
            }
            let want = match e {
                None => None,
                Some(e) => {
                    let b = &d[e.at..e.at + e.len];
                    if readable(ty, b) != Some(true) {
                        continue;
                    }
                    tokens_ref(ty, b).map(|t| if ty == PROPERTIES { kinds(&t) } else { t })
                }
            };
            if get_tokens(ty, a.get()).is_some() != want.is_some() {
                return Some(format!("typed lookup for type {ty}: presence is wrong"));
            }
            for how in 0..4 {
                let got = lookup(ty, a.as_mut(), how);
                if got != want {
                    return Some(format!("lookup {how} for type {ty} gives {got:?}, stored is {want:?}"));
                }
            }
        }
        if all_known {
            let f = Asset::first_extension(a.get()).map(|(h, at)| (u32::from(h.extension_type()), at));
            let l = Asset::last_extension(a.get()).map(|(h, at)| (u32::from(h.extension_type()), at));
            if f != exts.first().map(|e| (e.ty, e.at)) || l != exts.last().map(|e| (e.ty, e.at)) {
                return Some(format!("first/last extension {f:?}/{l:?} do not match those stored"));
            }
        }
        None
    });
    match r {
        Ok(None) => {}
        Ok(e) => return e,
        Err(m) => return Some(format!("reading a well-formed account panics: {m}")),
    }
    if a.get() != d {
        return Some("reading an account through mutable views changes it".into());
    }
    None
}

fn name_str(n: &[u8; 35]) -> Option<&str> {
    let end = n.iter().position(|b| *b == 0).unwrap_or(35);
    std::str::from_utf8(&n[..end]).ok()
}

pub fn header_agrees(d: &[u8], m: &AssetM) -> Option<String> {
    guard(|| header_agrees_inner(d, m)).unwrap_or_else(|e| Some(format!("reading the header panics: {e}")))
}

fn header_agrees_inner(d: &[u8], m: &AssetM) -> Option<String> {
    let a = Aligned::new(d);
    let h = match guard(|| *Asset::load(&a.get()[..ASSET_LEN])) {
        Ok(h) => h,
        Err(e) => return Some(format!("loading the header panics: {e}")),
    };
    let mut bad = vec![];
    if h.discriminator as u8 != m.disc {
        bad.push("discriminator");
    }
    if h.state as u8 != m.state {
        bad.push("state");
    }
    if h.standard as u8 != m.standard {
        bad.push("standard");
    }
    if bool::from(h.mutable) != m.mutable {
        bad.push("mutable");
    }
    if h.owner != m.owner {
        bad.push("owner");
    }
    if h.group.value().map(|k| **k) != m.group {
        bad.push("group");
    }
    if h.authority != m.authority {
        bad.push("authority");
    }
    if h.delegate.value().map(|d| (*d.address, d.roles)) != m.delegate {
        bad.push("delegate");
    }
    if let Some(n) = name_str(&m.name) {
        if &*h.name != n {
            bad.push("name");
        }
    }
    if let (Some(v), Some((_, r))) = (h.delegate.value(), m.delegate) {
        let dec: Vec<u8> = Delegate::decode_roles(v.roles).into_iter().map(|r| r as u8).collect();
        let mut want: Vec<u8> = (1..=3u8).filter(|i| r & (1 << (i - 1)) != 0).collect();
        if r == 0 {
            want.push(0);
        }
        if r < 8 && dec != want {
            bad.push("decoded roles");
        }
        for (role, bit) in [(DelegateRole::Transfer, 1), (DelegateRole::Lock, 2), (DelegateRole::Burn, 4)] {
            if v.is_active(role) != (r & bit != 0) {
                bad.push("active role");
            }
            let (mut on, mut off) = (*v, *v);
            on.enable(role);
            off.disable(role);
            if on.roles != r | bit || off.roles != r & !bit || *on.address != *v.address {
                bad.push("enabling or disabling a role");
            }
        }
        if r < 8 && v.has_active_roles() != (r != 0) {
            bad.push("has active roles");
        }
    }
    if bad.is_empty() {
        None
    } else {
        Some(format!("header reads back wrong: {}", bad.join(", ")))
    }
}

/// The program's own reader against the reference decoding of an asset account.
pub fn reader_agrees(d: &[u8], m: &AssetM) -> Option<String> {
    if let Some(e) = header_agrees(d, m) {
        return Some(e);
    }
    let mut at = ASSET_LEN;
    let mut raw = vec![];
    for e in &m.exts {
        raw.push(RawExt { ty: e.ty, at: at + EXT_LEN, len: e.length });
        at = pad8(at + EXT_LEN + e.length);
    }
    queries_agree(d, &raw)
}

// ---------------------------------------------------------------------------------------------
// C16

pub fn c16(s: &mut Source, c: &mut Case) {
    let ks = keys();
    let mut m = AssetM {
        disc: 1,
        state: s.draw(2) as u8,
        standard: s.draw(4) as u8,
        mutable: s.bool(),
        owner: any_key(s),
        group: s.bool().then(|| *s.pick(&ks.wallet)),
        authority: any_key(s),
        delegate: if s.bool() { Some((*s.pick(&ks.wallet), s.draw(8) as u8)) } else { None },
        name: name35(&gen_name(s)),
        exts: vec![],
        len: 0,
    };
    if m.owner == Pubkey::default() {
        m.owner = ks.wallet[0];
    }
    let kn = Knobs { exts: [0, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3], ..Knobs::default() };
    let mut unknown = 0;
    let mut dup = 0;
    for _ in 0..if s.chance(1, 12) { s.range(7, 16) } else { s.weighted(&[1, 2, 3, 3, 3, 2, 1]) } {
        s.begin();
        let (ty, data) = if s.chance(1, 5) {
            unknown += 1;
            let t = *s.pick(&[12u32, 13, 100, 255, 256, 65536 + 1, 0x0100_0000, 0x8000_0003, u32::MAX]);
            let n = s.range(0, 60);
            (t, s.blob(n))
        } else {
            let t = pick_ext(s, &kn);
            (t, gen_content(s, t, &Ctx { key: ks.pda[0], cur: None, junk: 0, synth: true }))
        };
        if m.exts.iter().any(|e| e.ty == ty) {
            dup += 1;
        }
        m.exts.push(ExtM::full(ty, data));
        s.end();
    }
    m.len = m.end();
    let spare = if s.chance(1, 2) { *s.pick(&[1usize, 7, 8, 15, 16, 17, 24, 31, 32, 48, 100]) } else { 0 };
    m.len += spare;
    let mut d = m.encode();
    d.resize(m.len, 0);
    c.evals += 1;
    c.log(|| format!("account of {} bytes, types {:?}, spare {spare}", d.len(), m.exts.iter().map(|e| (e.ty, e.length)).collect::<Vec<_>>()));
    c.label(format!("{} extensions", m.exts.len()));
    if unknown > 0 {
        c.label("with unknown types");
    }
    if dup > 0 {
        c.label("with a repeated type");
    }
    if spare > 0 {
        c.label("with spare space");
    }
    let legacy = m.exts.iter().any(|e| {
        (e.ty == GROUPING && e.length == 16)
            || (e.ty == METADATA && {
                let mut o = 0;
                for _ in 0..3 {
                    o += 1 + e.data[o] as usize;
                }
                o == e.length
            })
    });
    if legacy {
        c.label("with a legacy encoding");
    }
    if m.exts.len() >= 2 || unknown > 0 || legacy || spare > 0 {
        c.nontrivial.push(pbt::hash_bytes(&d));
    }
    pbt::set_phase(2);
    if let Some(e) = reader_agrees(&d, &m) {
        c.fail(e);
    } else {
        for e in &m.exts {
            if e.ty <= MAX_TYPE {
                if let Some(x) = read_agrees(e.ty, &e.data, false) {
                    c.fail(x);
                    break;
                }
            }
        }
    }
    // writing a header field through the mutable view changes exactly that field
    if !c.failed() {
        if let Some(e) = header_edit(s, &d, &m) {
            c.fail(e);
        }
    }
    pbt::set_phase(0);
}

fn header_edit(s: &mut Source, d: &[u8], m: &AssetM) -> Option<String> {
    use nifty_asset_types::podded::pod::PodOption;
    let ks = keys();
    let mut a = Aligned::new(d);
    let mut w = m.clone();
    let who = *s.pick(&ks.wallet);
    let which = s.us(7);
    let name = gen_name(s);
    let r = guard(|| {
        let h = Asset::load_mut(&mut a.as_mut()[..ASSET_LEN]);
        match which {
            0 => {
                h.owner = who;
                w.owner = who;
            }
            1 => {
                h.authority = who;
                w.authority = who;
            }
            2 => {
                h.group = PodOption::new(NullablePubkey::new(who));
                w.group = Some(who);
            }
            3 => {
                h.delegate.value_mut().map(|d| d.disable(DelegateRole::Lock));
                w.delegate = w.delegate.map(|(k, r)| (k, r & !LOCK));
            }
            4 => {
                h.mutable = (!m.mutable).into();
                w.mutable = !m.mutable;
            }
            5 => {
                h.name = name.as_str().into();
                w.name = name35(&name);
            }
            _ => {
                h.group = PodOption::new(NullablePubkey::new(Pubkey::default()));
                w.group = None;
            }
        }
    });
    if let Err(e) = r {
        return Some(format!("editing the header panics: {e}"));
    }
    let mut want = w.encode();
    want.resize(w.len, 0);
    (a.get() != &want[..]).then(|| format!("editing header field {which} changes something else"))
}

// ---------------------------------------------------------------------------------------------
// C14

fn long_text(s: &mut Source) -> String {
    let n = match s.weighted(&[3, 6, 2, 2]) {
        0 => 0,
        1 => s.range(1, 12),
        2 => s.range(13, 254),
        _ => 255,
    };
    let uni = s.chance(1, 4);
    let c = s.draw(90) as u8;
    let mut o = String::new();
    while o.len() < n {
        let left = n - o.len();
        if uni && left >= 4 && o.len() % 7 == 0 {
            o.push('🦀');
        } else if uni && left >= 2 && o.len() % 3 == 0 {
            o.push('é');
        } else {
            o.push(((c.wrapping_add(o.len() as u8)) % 128) as char);
        }
    }
    o
}

fn blob_of(s: &mut Source) -> Vec<u8> {
    let n = match s.weighted(&[2, 5, 2, 1]) {
        0 => 0,
        1 => s.range(1, 40),
        2 => s.range(41, 600),
        _ => s.range(601, 12000),
    };
    s.blob(n)
}

/// used twice on the same builder, so that a second set has something to overwrite
macro_rules! start {
    ($s:expr, $b:ident) => {
        match $s.us(3) {
            0 => x::$b::default(),
            1 => x::$b::with_capacity($s.us(300)),
            _ => {
                let n = $s.us(200);
                x::$b::with_buffer($s.blob(n))
            }
        }
    };
}

fn build_cons(c: &Cons) -> Box<dyn ConstraintBuilder> {
    let acc = |a: &u64| [Account::Asset, Account::Authority, Account::Recipient][*a as usize];
    match c {
        Cons::And(v) => {
            let mut b = AndBuilder::default();
            for c in v {
                b.add(&mut *build_cons(c));
            }
            Box::new(b)
        }
        Cons::Or(v) => {
            let mut b = OrBuilder::default();
            for c in v {
                b.add(&mut *build_cons(c));
            }
            Box::new(b)
        }
        Cons::Not(c, _) => {
            let mut b = NotBuilder::default();
            b.set(&mut *build_cons(c));
            Box::new(b)
        }
        Cons::OwnedBy(a, k) => {
            let mut b = OwnedByBuilder::default();
            b.set(acc(a), k);
            Box::new(b)
        }
        Cons::Match(a, k) => {
            let mut b = PubkeyMatchBuilder::default();
            b.set(acc(a), k);
            Box::new(b)
        }
        Cons::Empty(_) => Box::<EmptyBuilder>::default(),
    }
}

/// Builds one extension with its builder. Returns (expected tokens, bytes, built tokens, built length).
fn build_one(s: &mut Source, ty: u32) -> (Vec<String>, Vec<u8>, Vec<String>, usize) {
    let mut want = vec![];
    let bytes;
    let seen: Vec<u8>;
    // when true the builder is given another value first, which has to leave no trace
    let twice = s.chance(1, 3);
    macro_rules! finish {
        ($b:ident) => {{
            seen = $b.to_vec();
            let n = ExtensionBuilder::build(&$b).length();
            bytes = ExtensionBuilder::data(&mut $b);
            n
        }};
    }
    let n = match ty {
        ATTRIBUTES => {
            let mut b = start!(s, AttributesBuilder);
            for _ in 0..list_len(s) {
                let (n, v) = (long_text(s), long_text(s));
                b.add(&n, &v);
                want.extend([hs(&n), hs(&v)]);
            }
            finish!(b)
        }
        LINKS => {
            let mut b = start!(s, LinksBuilder);
            for _ in 0..list_len(s) {
                let (n, v) = (long_text(s), long_text(s));
                b.add(&n, &v);
                want.extend([hs(&n), hs(&v)]);
            }
            finish!(b)
        }
        BLOB => {
            let mut b = start!(s, BlobBuilder);
            if twice {
                b.set_data(&long_text(s), &blob_of(s));
            }
            let (t, d) = (long_text(s), blob_of(s));
            b.set_data(&t, &d);
            want = vec![hs(&t), hex(&d)];
            finish!(b)
        }
        CREATORS => {
            let mut b = start!(s, CreatorsBuilder);
            let n = if s.chance(1, 12) { s.range(250, 270) } else { list_len(s) };
            for _ in 0..n {
                let (k, v, sh) = (any_key(s), s.bool(), s.draw(256) as u8);
                b.add(&k, v, sh);
                want.push(format!("{} {v} {sh}", hex(k.as_ref())));
            }
            finish!(b)
        }
        METADATA => {
            let mut b = start!(s, MetadataBuilder);
            for last in [!twice, true] {
                let v: Vec<Option<String>> = (0..4).map(|_| s.chance(3, 4).then(|| long_text(s))).collect();
                b.set(v[0].as_deref(), v[1].as_deref(), v[2].as_deref(), v[3].as_deref());
                want = v.iter().map(|t| t.as_deref().map(hs).unwrap_or_default()).collect();
                if last {
                    break;
                }
            }
            finish!(b)
        }
        GROUPING => {
            let mut b = if s.bool() {
                x::GroupingBuilder::default()
            } else {
                let n = s.us(80);
                x::GroupingBuilder::with_buffer(s.blob(n))
            };
            for last in [!twice, true] {
                let m = s.bool().then(|| s.u64_any());
                let d = s.bool().then(|| any_key(s));
                b.set(m, d.as_ref());
                want = vec![
                    "0".into(),
                    m.filter(|m| *m != 0).map_or("none".into(), |m| m.to_string()),
                    okey(d.filter(|k| *k != Pubkey::default())),
                ];
                if last {
                    break;
                }
            }
            finish!(b)
        }
        ROYALTIES => {
            let mut b = start!(s, RoyaltiesBuilder);
            if twice {
                b.set(s.u64_any(), &mut *build_cons(&gen_cons(s, 2)));
            }
            let bp = s.u64_any();
            let depth = s.range(0, 3);
            let k = gen_cons(s, depth);
            b.set(bp, &mut *build_cons(&k));
            want = vec![bp.to_string(), hex(&k.encode())];
            finish!(b)
        }
        MANAGER => {
            let mut b = start!(s, ManagerBuilder);
            for last in [!twice, true] {
                let (k, r) = (any_key(s), s.draw(256) as u8);
                b.set(&Delegate { address: NullablePubkey::new(k), roles: r });
                want = vec![hex(k.as_ref()), r.to_string()];
                if last {
                    break;
                }
            }
            finish!(b)
        }
        PROXY => {
            let mut b = start!(s, ProxyBuilder);
            for last in [!twice, true] {
                let (p, seed, bump) = (any_key(s), any_key(s).to_bytes(), s.draw(256) as u8);
                let a = s.bool().then(|| any_key(s));
                b.set(&p, &seed, bump, a.as_ref());
                want = vec![hex(p.as_ref()), hex(&seed), bump.to_string(), okey(a.filter(|k| *k != Pubkey::default()))];
                if last {
                    break;
                }
            }
            finish!(b)
        }
        PROPERTIES => {
            let mut b = start!(s, PropertiesBuilder);
            for _ in 0..list_len(s) {
                let n = long_text(s);
                let old = s.chance(1, 4);
                #[allow(deprecated)]
                match s.us(3) {
                    0 => {
                        let v = long_text(s);
                        if old {
                            b.add_text(&n, &v);
                        } else if s.bool() {
                            b.add(&n, v.clone());
                        } else {
                            b.add(&n, v.as_str());
                        }
                        want.push(format!("{} text {}", hs(&n), hs(&v)));
                    }
                    1 => {
                        let v = s.u64_any();
                        if old {
                            b.add_number(&n, v);
                        } else {
                            b.add(&n, v);
                        }
                        want.push(format!("{} number {v}", hs(&n)));
                    }
                    _ => {
                        let v = s.bool();
                        if old {
                            b.add_boolean(&n, v);
                        } else {
                            b.add(&n, v);
                        }
                        want.push(format!("{} boolean {v}", hs(&n)));
                    }
                }
            }
            finish!(b)
        }
        _ => {
            let mut b = start!(s, BucketBuilder);
            if twice {
                b.set_data(&blob_of(s));
            }
            let d = blob_of(s);
            b.set_data(&d);
            want = vec![hex(&d)];
            finish!(b)
        }
    };
    let same = seen == bytes;
    let got = if same { vec![] } else { vec!["the builder's bytes differ from the data it hands out".to_string()] };
    (want, bytes, got, n)
}

fn list_len(s: &mut Source) -> usize {
    let n = many(s, 60);
    if n > 0 {
        return n;
    }
    match s.weighted(&[1, 8, 3]) {
        0 => 0,
        1 => s.range(1, 5),
        _ => s.range(6, 40),
    }
}

/// Edits one value through the mutable view; the expectation is computed on the reference bytes.
fn edit_one(s: &mut Source, ty: u32, d: &[u8]) -> Option<String> {
    let mut a = Aligned::new(d);
    let mut want = d.to_vec();
    let fill = 1 + s.draw(100) as u8;
    // offsets of the prefixed strings
    let strs = || -> Vec<(usize, usize)> {
        let mut v = vec![];
        let mut o = 0;
        while o < d.len() {
            v.push((o + 1, d[o] as usize));
            o += 1 + d[o] as usize;
        }
        v
    };
    let pick = s.draw(1 << 20) as usize;
    let newkey = *s.pick(&keys().wallet);
    let r = guard(|| match ty {
        LINKS => {
            let v = strs();
            if v.is_empty() {
                return;
            }
            let i = pick % v.len();
            let (o, n) = v[i];
            let t = ((fill % 26 + b'a') as char).to_string().repeat(n);
            want[o..o + n].copy_from_slice(t.as_bytes());
            let mut l = x::LinksMut::from_bytes_mut(a.as_mut());
            let e = &mut l.values[i / 2];
            if i % 2 == 0 {
                e.name.copy_from_str(&t);
            } else {
                e.uri.copy_from_str(&t);
            }
        }
        METADATA => {
            let v = strs();
            let i = pick % v.len();
            let (o, n) = v[i];
            let t = ((fill % 26 + b'a') as char).to_string().repeat(n);
            want[o..o + n].copy_from_slice(t.as_bytes());
            let mut m = x::MetadataMut::from_bytes_mut(a.as_mut());
            match i {
                0 => m.symbol.copy_from_str(&t),
                1 => m.description.copy_from_str(&t),
                2 => m.uri.copy_from_str(&t),
                _ => m.image_uri.copy_from_str(&t),
            }
        }
        BLOB => {
            let n = 1 + d[0] as usize;
            let b = x::BlobMut::from_bytes_mut(a.as_mut());
            if n < d.len() {
                let i = pick % (d.len() - n);
                want[n + i] ^= fill;
                b.data[i] ^= fill;
            }
        }
        CREATORS => {
            if d.is_empty() {
                return;
            }
            let i = pick % (d.len() / 34);
            let k = Pubkey::new_from_array(d[i * 34..i * 34 + 32].try_into().unwrap());
            let first = (0..d.len() / 34).find(|j| d[j * 34..j * 34 + 32] == *k.as_ref()).unwrap();
            want[first * 34 + 32] ^= 1;
            want[first * 34 + 33] ^= fill;
            let mut m = x::CreatorsMut::from_bytes_mut(a.as_mut());
            let c = m.get(&k).expect("creator present");
            c.verified = (!bool::from(c.verified)).into();
            c.share ^= fill;
        }
        GROUPING => {
            let m = x::GroupingMut::from_bytes_mut(a.as_mut());
            if fill % 2 == 0 {
                *m.size = pick as u64 + 7;
                want[..8].copy_from_slice(&(pick as u64 + 7).to_le_bytes());
            } else {
                *m.delegate = nifty_asset_types::podded::pod::PodOption::new(NullablePubkey::new(newkey));
                want[16..48].copy_from_slice(newkey.as_ref());
            }
        }
        ROYALTIES => {
            *x::RoyaltiesMut::from_bytes_mut(a.as_mut()).basis_points = pick as u64;
            want[..8].copy_from_slice(&(pick as u64).to_le_bytes());
        }
        MANAGER => {
            let m = x::ManagerMut::from_bytes_mut(a.as_mut());
            m.delegate.roles = fill;
            want[32] = fill;
        }
        PROXY => {
            let m = x::ProxyMut::from_bytes_mut(a.as_mut());
            match pick % 4 {
                0 => {
                    *m.authority = newkey;
                    want[65..97].copy_from_slice(newkey.as_ref());
                }
                1 => {
                    *m.bump ^= fill;
                    want[64] ^= fill;
                }
                2 => {
                    m.seeds[pick % 32] ^= fill;
                    want[32 + pick % 32] ^= fill;
                }
                _ => {
                    *m.program = newkey;
                    want[..32].copy_from_slice(newkey.as_ref());
                }
            }
        }
        BUCKET => {
            let m = x::BucketMut::from_bytes_mut(a.as_mut());
            if !d.is_empty() {
                m.data[pick % d.len()] ^= fill;
                want[pick % d.len()] ^= fill;
            }
        }
        PROPERTIES => {
            // removing by name takes exactly the properties of that name out of the view
            let t = tokens_ref(PROPERTIES, d).unwrap();
            if t.is_empty() {
                return;
            }
            let n = t[pick % t.len()].split(' ').next().unwrap().to_string();
            let name = String::from_utf8(unhex(&n)).unwrap();
            let mut m = x::PropertiesMut::from_bytes_mut(a.as_mut());
            m.remove(&name);
            let left = props_tokens(&m);
            let exp: Vec<String> = kinds(&t).into_iter().filter(|p| p.split(' ').next() != Some(&n)).collect();
            assert_eq!(left, exp, "properties left after removing {name:?}");
        }
        _ => {}
    });
    if let Err(e) = r {
        return Some(format!("editing extension type {ty} through the mutable view: {e}"));
    }
    (a.get() != &want[..]).then(|| format!("editing one value of extension type {ty} through the mutable view changes something else: {} expected {}", short(a.get()), short(&want)))
}

pub fn c14(s: &mut Source, c: &mut Case) {
    let ty = 1 + s.draw(11) as u32;
    c.label(format!("type {ty}"));
    c.evals += 1;
    // generation happens inside the guard because the builders are the code under test
    pbt::set_phase(2);
    let r = guard(|| build_one(s, ty));
    let (want, bytes, extra, n) = match r {
        Ok(v) => v,
        Err(m) => {
            pbt::set_phase(0);
            return c.fail(format!("building extension type {ty} panics: {m}"));
        }
    };
    c.log(|| format!("type {ty}: values {:?} -> {}", want.iter().map(|t| t.chars().take(40).collect::<String>()).collect::<Vec<_>>(), short(&bytes)));
    if bytes.len() > 8 {
        c.nontrivial.push(pbt::hash_bytes(&bytes) ^ ty as u64);
    }
    if let Some(e) = extra.first() {
        c.fail(format!("extension type {ty}: {e}"));
    } else if n != bytes.len() {
        c.fail(format!("extension type {ty}: the built value reports length {n}, {} bytes were built", bytes.len()));
    } else {
        match tokens_ref(ty, &bytes) {
            None => c.fail(format!("extension type {ty}: built bytes are unreadable")),
            Some(t) if t != want => c.fail(format!("extension type {ty}: values given {want:?}, bytes built hold {t:?}")),
            _ => {
                if let Some(e) = read_agrees(ty, &bytes, true) {
                    c.fail(e);
                } else if let Some(e) = edit_one(s, ty, &bytes) {
                    c.fail(e);
                }
            }
        }
    }
    pbt::set_phase(0);
}

// ---------------------------------------------------------------------------------------------
// C15

struct T(Pubkey, Pubkey, bool);
impl Target for T {
    fn key(&self) -> &Pubkey {
        &self.0
    }
    fn owner(&self) -> &Pubkey {
        &self.1
    }
    fn is_empty(&self) -> bool {
        self.2
    }
}

fn consults(c: &Cons) -> bool {
    match c {
        Cons::And(v) | Cons::Or(v) => v.iter().any(consults),
        Cons::Not(c, _) => consults(c),
        Cons::OwnedBy(a, _) | Cons::Match(a, _) => *a == 2,
        Cons::Empty(_) => false,
    }
}

/// value when the recipient is unknown (None: depends on it)
fn kleene(c: &Cons, t: &[(Pubkey, Pubkey, bool); 3]) -> Option<bool> {
    match c {
        Cons::And(v) => {
            let r: Vec<_> = v.iter().map(|c| kleene(c, t)).collect();
            if r.contains(&Some(false)) {
                Some(false)
            } else if r.contains(&None) {
                None
            } else {
                Some(true)
            }
        }
        Cons::Or(v) => {
            let r: Vec<_> = v.iter().map(|c| kleene(c, t)).collect();
            if r.contains(&Some(true)) {
                Some(true)
            } else if r.contains(&None) {
                None
            } else {
                Some(false)
            }
        }
        Cons::Not(c, _) => kleene(c, t).map(|b| !b),
        _ => {
            if consults(c) {
                None
            } else {
                Some(c.eval(t))
            }
        }
    }
}

pub fn c15(s: &mut Source, c: &mut Case) {
    let depth = s.range(0, 4);
    let mut k = gen_cons(s, depth);
    let ks = keys();
    if s.chance(1, 1500) {
        // more than a length of two bytes can tell
        let n = 2047 + s.us(3);
        let mut v = strangers(n);
        let one = person(s);
        let more = *s.pick(&[one, SYSTEM, ks.prog[0]]);
        v.push(more);
        let big = if s.bool() { Cons::Match(s.draw(3), v) } else { Cons::OwnedBy(s.draw(3), v) };
        k = match s.us(4) {
            0 => big,
            1 => Cons::Not(Box::new(big), true),
            2 => Cons::And(vec![big, k]),
            _ => Cons::Or(vec![big, k]),
        };
    }
    let enc = k.encode();
    c.log(|| format!("{k:?}"));
    c.evals += 1;
    let owners = [SYSTEM, ks.prog[0], ks.prog[1], PROGRAM];
    let mut ctxs = vec![];
    for _ in 0..4 {
        let mut t = [(Pubkey::default(), Pubkey::default(), false); 3];
        for (i, x) in t.iter_mut().enumerate() {
            let key = if i == 0 { *s.pick(&asset_slots()) } else { person(s) };
            *x = (key, *s.pick(&owners), s.chance(1, 3));
        }
        ctxs.push((t, !s.chance(1, 4)));
    }
    pbt::set_phase(2);
    let r = guard(|| {
        let built = build_cons(&k).build();
        if built != enc {
            return Some(format!("builder gives {} expected {}", short(&built), short(&enc)));
        }
        let mut padded = enc.clone();
        // what follows a constraint is none of its business
        padded.extend_from_slice(&[0xAB; 24]);
        let a = Aligned::new(&padded);
        let con = Constraint::from_bytes(a.get());
        if con.size() != enc.len() {
            return Some(format!("size {} but it has {} bytes", con.size(), enc.len()));
        }
        let back = con.as_bytes();
        if back != enc {
            return Some(format!("serialises to {} but was read from {}", short(&back), short(&enc)));
        }
        for (t, with) in &ctxs {
            let (x, y, z) = (T(t[0].0, t[0].1, t[0].2), T(t[1].0, t[1].1, t[1].2), T(t[2].0, t[2].1, t[2].2));
            let ctx = Context { asset: &x, authority: &y, recipient: if *with { Some(&z as &dyn Target) } else { None } };
            let got = con.assert(&ctx).ok().map(|a| a == Assertion::Pass);
            let ok = if *with || !consults(&k) {
                got == Some(k.eval(t))
            } else {
                match kleene(&k, t) {
                    None => got.is_none(),
                    Some(v) => got.is_none() || got == Some(v),
                }
            };
            if !ok {
                return Some(format!("evaluates to {got:?} (None: error) with recipient given: {with}, accounts {t:?}, formula value {}", k.eval(t)));
            }
        }
        None
    });
    pbt::set_phase(0);
    match r {
        Ok(None) => {}
        Ok(Some(e)) => c.fail(format!("{k:?}: {e}")),
        Err(m) => c.fail(format!("{k:?}: panics: {m}")),
    }
    let n = ctxs.iter().filter(|(t, w)| *w && k.eval(t)).count();
    c.label(format!("{n} of {} contexts with a recipient satisfy it", ctxs.iter().filter(|x| x.1).count()));
    c.label(match &k {
        Cons::And(_) => "and",
        Cons::Or(_) => "or",
        Cons::Not(..) => "not",
        Cons::OwnedBy(..) => "owned by",
        Cons::Match(..) => "match",
        _ => "empty",
    });
    if !matches!(k, Cons::Empty(_)) {
        c.nontrivial.push(pbt::hash_bytes(&enc) ^ pbt::hash_bytes(format!("{:?}", ctxs).as_bytes()));
    }
}
