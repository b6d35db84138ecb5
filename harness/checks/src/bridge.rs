//! C21: the bridge program, loaded and run with nested calls into the asset program, the system
//! program and a stand-in for the token metadata program.
//! Oracle: a statement of what the bridge has to do, plus conservation: exactly one of token and
//! asset is outside the vault.

use crate::gen::*;
use crate::hist::fail_text;
use crate::model::*;
use crate::proxy::{callees, differ, Want};
use pbt::{Case, Source};
use solana_program::{pubkey, pubkey::Pubkey};
use std::sync::OnceLock;
use vm::dynprog::Dyn;
use vm::{rent, Acct, Ix, Meta, World, SYSTEM};

const BRIDGE: Pubkey = pubkey!("BridgezKrNugsZwTcyAMYba643Z93RzC2yN1Y24LwAkm");
const TOKEN: Pubkey = pubkey!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
const TOKEN22: Pubkey = pubkey!("TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb");
const MPL: Pubkey = pubkey!("metaqbxxUerdq28cj1RbAWkYQm3ybzjb6a8bt518x1s");
const ATA: Pubkey = pubkey!("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL");
const SYSVAR_IX: Pubkey = pubkey!("Sysvar1nstructions1111111111111111111111111");
const RULES: Pubkey = pubkey!("auth9SigNpDKz4sJJ1DfCTuZrZNSAgh9sFD3rboVmgg");

const NM: usize = 3;
/// token holders: three wallets and the vault
const NH: usize = 4;

struct Bk {
    mint: [Pubkey; NM],
    vault: [(Pubkey, u8); NM],
    asset: [(Pubkey, u8); NM],
    meta: [Pubkey; NM],
    edition: [Pubkey; NM],
    ata: [[Pubkey; NH]; NM],
    record: [[Pubkey; NH]; NM],
    rules: Pubkey,
}

fn bk() -> &'static Bk {
    static B: OnceLock<Bk> = OnceLock::new();
    B.get_or_init(|| {
        let mint: [Pubkey; NM] = core::array::from_fn(|i| k(b'M', i as u8));
        let pda = |seeds: &[&[u8]], p: &Pubkey| Pubkey::find_program_address(seeds, p);
        let vault = mint.map(|x| pda(&[b"vault", x.as_ref()], &BRIDGE));
        let holder = |i: usize, h: usize| if h < 3 { keys().wallet[h] } else { vault[i].0 };
        let ata: [[Pubkey; NH]; NM] = core::array::from_fn(|i| core::array::from_fn(|h| pda(&[holder(i, h).as_ref(), TOKEN.as_ref(), mint[i].as_ref()], &ATA).0));
        Bk {
            mint,
            vault,
            asset: mint.map(|x| pda(&[b"asset", x.as_ref()], &BRIDGE)),
            meta: mint.map(|x| pda(&[b"metadata", MPL.as_ref(), x.as_ref()], &MPL).0),
            edition: mint.map(|x| pda(&[b"metadata", MPL.as_ref(), x.as_ref(), b"edition"], &MPL).0),
            record: core::array::from_fn(|i| core::array::from_fn(|h| pda(&[b"metadata", MPL.as_ref(), mint[i].as_ref(), b"token_record", ata[i][h].as_ref()], &MPL).0)),
            ata,
            rules: k(b'R', 0),
        }
    })
}

fn holder(i: usize, h: usize) -> Pubkey {
    if h < 3 {
        keys().wallet[h]
    } else {
        bk().vault[i].0
    }
}

fn nm(key: &Pubkey) -> String {
    let b = bk();
    for i in 0..NM {
        for (n, x) in [("mint", b.mint[i]), ("vault", b.vault[i].0), ("asset", b.asset[i].0), ("meta", b.meta[i]), ("edition", b.edition[i])] {
            if x == *key {
                return format!("{n}{i}");
            }
        }
        for h in 0..NH {
            if b.ata[i][h] == *key {
                return format!("token{i}/{h}");
            }
            if b.record[i][h] == *key {
                return format!("record{i}/{h}");
            }
        }
    }
    for (n, x) in [("BRIDGE", BRIDGE), ("TOKEN", TOKEN), ("TOKEN22", TOKEN22), ("MPL", MPL), ("ATA", ATA), ("SYSVAR", SYSVAR_IX), ("RULES", RULES), ("ruleset", b.rules)] {
        if x == *key {
            return n.into();
        }
    }
    name_of(key)
}

fn show_b(ix: &Ix) -> String {
    let v: Vec<String> = ix.metas.iter().map(|x| format!("{}{}{}", nm(&x.key), if x.signer { "!" } else { "" }, if x.writable { "*" } else { "" })).collect();
    format!("{:?} [{}]", &ix.data[..ix.data.len().min(12)], v.join(" "))
}

fn program() -> Dyn {
    static D: OnceLock<Dyn> = OnceLock::new();
    *D.get_or_init(|| Dyn::load("libdyn_bridge.so"))
}

// ---------------------------------------------------------------------------------------------
// token metadata accounts

#[derive(Clone, Debug)]
struct Md {
    key: u8,
    authority: Pubkey,
    mint: Pubkey,
    name: String,
    symbol: String,
    uri: String,
    fee: u16,
    creators: Option<Vec<(Pubkey, bool, u8)>>,
    standard: Option<u8>,
    collection: Option<(bool, Pubkey)>,
    details: Option<u64>,
    config: Option<Option<Pubkey>>,
    uses: bool,
}

impl Md {
    fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.key];
        let st = |o: &mut Vec<u8>, t: &str| {
            o.extend_from_slice(&(t.len() as u32).to_le_bytes());
            o.extend_from_slice(t.as_bytes());
        };
        o.extend_from_slice(self.authority.as_ref());
        o.extend_from_slice(self.mint.as_ref());
        st(&mut o, &self.name);
        st(&mut o, &self.symbol);
        st(&mut o, &self.uri);
        o.extend_from_slice(&self.fee.to_le_bytes());
        match &self.creators {
            None => o.push(0),
            Some(v) => {
                o.push(1);
                o.extend_from_slice(&(v.len() as u32).to_le_bytes());
                for c in v {
                    o.extend_from_slice(c.0.as_ref());
                    o.push(c.1 as u8);
                    o.push(c.2);
                }
            }
        }
        o.extend_from_slice(&[0, 1, 1, 254]);
        match self.standard {
            None => o.push(0),
            Some(s) => o.extend_from_slice(&[1, s]),
        }
        match self.collection {
            None => o.push(0),
            Some((v, key)) => {
                o.extend_from_slice(&[1, v as u8]);
                o.extend_from_slice(key.as_ref());
            }
        }
        if self.uses {
            o.extend_from_slice(&[1, 0]);
            o.extend_from_slice(&[1, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 0, 0, 0]);
        } else {
            o.push(0);
        }
        match self.details {
            None => o.push(0),
            Some(n) => {
                o.extend_from_slice(&[1, 0]);
                o.extend_from_slice(&n.to_le_bytes());
            }
        }
        match self.config {
            None => o.push(0),
            Some(None) => o.extend_from_slice(&[1, 0, 0]),
            Some(Some(key)) => {
                o.extend_from_slice(&[1, 0, 1]);
                o.extend_from_slice(key.as_ref());
            }
        }
        o
    }
    fn decode(mut b: &[u8]) -> Option<Md> {
        fn take<'a>(b: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
            if n > b.len() {
                return None;
            }
            let (x, y) = b.split_at(n);
            *b = y;
            Some(x)
        }
        fn u8_(b: &mut &[u8]) -> Option<u8> {
            Some(take(b, 1)?[0])
        }
        fn flag(b: &mut &[u8]) -> Option<bool> {
            match u8_(b)? {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            }
        }
        fn key(b: &mut &[u8]) -> Option<Pubkey> {
            Some(Pubkey::new_from_array(take(b, 32)?.try_into().unwrap()))
        }
        fn st(b: &mut &[u8]) -> Option<String> {
            let n = u32at(take(b, 4)?, 0) as usize;
            String::from_utf8(take(b, n)?.to_vec()).ok()
        }
        let b = &mut b;
        let k = u8_(b)?;
        let (authority, mint) = (key(b)?, key(b)?);
        let (name, symbol, uri) = (st(b)?, st(b)?, st(b)?);
        let f = take(b, 2)?;
        let fee = u16::from_le_bytes([f[0], f[1]]);
        let creators = if flag(b)? {
            let n = u32at(take(b, 4)?, 0);
            let mut v = vec![];
            for _ in 0..n {
                v.push((key(b)?, flag(b)?, u8_(b)?));
            }
            Some(v)
        } else {
            None
        };
        flag(b)?;
        flag(b)?;
        if flag(b)? {
            u8_(b)?;
        }
        let standard = if flag(b)? { Some(u8_(b)?) } else { None };
        let collection = if flag(b)? { Some((flag(b)?, key(b)?)) } else { None };
        let uses = flag(b)?;
        if uses {
            take(b, 17)?;
        }
        let details = if flag(b)? {
            if u8_(b)? != 0 {
                return None;
            }
            Some(u64at(take(b, 8)?, 0))
        } else {
            None
        };
        let config = if flag(b)? {
            if u8_(b)? != 0 {
                return None;
            }
            Some(if flag(b)? { Some(key(b)?) } else { None })
        } else {
            None
        };
        Some(Md { key: k, authority, mint, name, symbol, uri, fee, creators, standard, collection, details, config, uses })
    }
}

// ---------------------------------------------------------------------------------------------
// stand-in for the token metadata program: TransferV1 of one token

fn token_data(mint: &Pubkey, owner: &Pubkey, n: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&n.to_le_bytes());
    d[108] = 1;
    d
}

fn mpl(w: &World, ix: &Ix) -> Result<World, String> {
    let b = bk();
    let e = |c: bool, t: &str| if c { Ok(()) } else { Err(format!("token metadata: {t}")) };
    let m = &ix.metas;
    e(ix.data.len() == 11 && ix.data[0] == 49 && ix.data[1] == 0 && ix.data[10] == 0, "unknown instruction")?;
    let amount = u64at(&ix.data, 2);
    e(m.len() >= 17, "accounts")?;
    e(amount == 1, "amount")?;
    let i = b.mint.iter().position(|x| *x == m[4].key).ok_or("token metadata: mint")?;
    e(m[5].key == b.meta[i] && m[5].writable && w.get(&b.meta[i]).owner == MPL, "metadata")?;
    let md = Md::decode(&w.get(&b.meta[i]).data).ok_or("token metadata: metadata")?;
    e(md.mint == m[4].key, "metadata mint")?;
    e(m[6].key == b.edition[i], "edition")?;
    e(m[9].signer && m[9].key == m[1].key, "authority")?;
    e(m[10].signer && m[10].writable, "payer")?;
    e(m[11].key == SYSTEM && m[12].key == SYSVAR_IX && m[13].key == TOKEN && m[14].key == ATA, "programs")?;
    let src = w.get(&m[0].key).clone();
    e(src.owner == TOKEN && src.data.len() == 165 && m[0].writable && m[2].writable, "token account")?;
    e(src.data[..32] == *m[4].key.as_ref() && src.data[32..64] == *m[1].key.as_ref() && u64at(&src.data, 64) >= 1, "token")?;
    let h = (0..NH).find(|h| holder(i, *h) == m[3].key).ok_or("token metadata: destination owner")?;
    e(b.ata[i][h] == m[2].key, "destination token")?;
    let mut n = w.clone();
    let mut pay = |n: &mut World, x: u64| -> Result<(), String> {
        let a = n.get_mut(&m[10].key);
        if a.owner != SYSTEM || a.lamports < x {
            return Err("token metadata: funds".into());
        }
        a.lamports -= x;
        Ok(())
    };
    if n.get(&m[2].key).lamports == 0 {
        pay(&mut n, rent(165))?;
        n.put(m[2].key, Acct { lamports: rent(165), owner: TOKEN, data: token_data(&m[4].key, &m[3].key, 0), executable: false });
    }
    if md.standard == Some(4) {
        let sh = (0..NH).find(|h| b.ata[i][*h] == m[0].key).ok_or("token metadata: source")?;
        e(m[7].key == b.record[i][sh] && m[7].writable && n.get(&m[7].key).owner == MPL, "token record")?;
        e(m[8].key == b.record[i][h] && m[8].writable, "destination token record")?;
        if let Some(Some(r)) = md.config {
            e(m[15].key == RULES && m[16].key == r, "rules")?;
        }
        if n.get(&m[8].key).lamports == 0 {
            pay(&mut n, rent(80))?;
            n.put(m[8].key, Acct { lamports: rent(80), owner: MPL, data: vec![11; 80], executable: false });
        }
    }
    let (s, d) = (&m[0].key, &m[2].key);
    let x = u64at(&n.get(s).data, 64) - 1;
    n.get_mut(s).data[64..72].copy_from_slice(&x.to_le_bytes());
    let x = u64at(&n.get(d).data, 64) + 1;
    n.get_mut(d).data[64..72].copy_from_slice(&x.to_le_bytes());
    Ok(n)
}

// ---------------------------------------------------------------------------------------------
// oracle

struct P<'a> {
    metas: &'a [Meta],
    pda: Vec<Pubkey>,
}

impl P<'_> {
    fn call(&self, w: &World, to: &Pubkey, metas: Vec<Meta>, data: Vec<u8>) -> Result<World, &'static str> {
        if !self.metas.iter().any(|m| m.key == *to) {
            return Err("program not among the accounts");
        }
        for x in &metas {
            let c = self.metas.iter().find(|c| c.key == x.key).ok_or("account not among the accounts")?;
            if x.writable && !c.writable {
                return Err("account not writable");
            }
            if x.signer && !c.signer && !self.pda.contains(&x.key) {
                return Err("missing signature");
            }
        }
        let ix = Ix { metas, data };
        let ix = Ix { metas: ix.merged(), data: ix.data };
        if *to == MPL {
            return mpl(w, &ix).map_err(|_| "refused by the token metadata program");
        }
        vm::set_stack_height(2);
        let r = vm::run(w, &ix, &PROGRAM, &|p| unsafe { asset_program::entrypoint::entrypoint(p) }, 0, false);
        vm::set_stack_height(1);
        r.map_err(|_| "refused by the asset program")
    }
}

fn want(w: &World, ix: &Ix) -> Want {
    let metas = ix.merged();
    let r = match ix.data.as_slice() {
        [0] => want_bridge(w, &metas),
        [1, f @ (0 | 1)] => want_create(w, &metas, *f == 1),
        _ => Err("undecodable instruction"),
    };
    // programs in the wrong positions: whether that works is not specified
    let placed = match ix.data.first() {
        Some(0) => metas.len() >= 20 && metas[11].key == PROGRAM && metas[12].key == MPL && metas[10].key != metas[1].key,
        _ => metas.len() >= 9 && metas[8].key == PROGRAM,
    };
    match r {
        Ok(w) if placed => Want::Done(w),
        Ok(w) => Want::Either(w),
        Err(e) => Want::Refused(e),
    }
}

fn ensure(c: bool, e: &'static str) -> Result<(), &'static str> {
    if c {
        Ok(())
    } else {
        Err(e)
    }
}

/// vault and asset addresses of any mint
fn derived(tag: &[u8], mint: &Pubkey) -> (Pubkey, u8) {
    let b = bk();
    match b.mint.iter().position(|x| x == mint) {
        Some(i) if tag == b"vault" => b.vault[i],
        Some(i) => b.asset[i],
        None => Pubkey::find_program_address(&[tag, mint.as_ref()], &BRIDGE),
    }
}

fn want_create(w: &World, m_: &[Meta], is_collection: bool) -> Result<World, &'static str> {
    ensure(m_.len() >= 9, "missing accounts")?;
    let none = m(PROGRAM, false, false);
    let (asset, vault, mint, meta, auth, coll, payer) = (m_[0], m_[1], m_[2], m_[3], m_[4], m_[5], m_[6]);
    let system = m_[7];
    ensure([TOKEN, TOKEN22].contains(&w.get(&mint.key).owner), "not a mint of a token program")?;
    ensure(w.get(&meta.key).owner == MPL, "not a metadata account")?;
    let md = Md::decode(&w.get(&meta.key).data).ok_or("unreadable metadata")?;
    ensure(matches!(md.standard, Some(0 | 4)), "not a non-fungible token")?;
    ensure(md.mint == mint.key, "metadata of another mint")?;
    ensure(md.authority == auth.key, "not the update authority")?;
    match md.collection {
        Some((true, key)) => {
            ensure(coll.key != BRIDGE, "collection missing")?;
            ensure(derived(b"asset", &key).0 == coll.key, "wrong collection asset")?;
            let a = w.get(&coll.key);
            ensure(a.owner == PROGRAM && a.data.first() == Some(&1), "collection not bridged")?;
        }
        _ => ensure(auth.signer, "update authority has to sign")?,
    }
    let (vk, vb) = derived(b"vault", &mint.key);
    ensure(vk == vault.key, "wrong vault")?;
    let v = w.get(&vk);
    ensure(v.data.is_empty(), "already bridged")?;
    ensure(payer.signer && payer.writable && vault.writable, "payer has to sign")?;
    ensure(m_.iter().any(|x| x.key == SYSTEM), "system program missing")?;
    ensure(v.lamports == 0 && v.owner == SYSTEM, "vault address in use")?;
    let need = rent(36);
    let pa = w.get(&payer.key);
    ensure(pa.owner == SYSTEM && pa.data.is_empty() && pa.lamports >= need, "payer cannot pay")?;
    let (ak, ab) = derived(b"asset", &mint.key);
    ensure(ak == asset.key, "wrong asset")?;
    let mut n = w.clone();
    n.get_mut(&payer.key).lamports -= need;
    let mut d = vec![1, 0, vb];
    d.extend_from_slice(mint.key.as_ref());
    d.push(ab);
    n.put(vk, Acct { lamports: need, owner: BRIDGE, data: d, executable: false });
    // the asset
    let p = P { metas: m_, pda: vec![ak] };
    let mut exts = vec![];
    let mut o = vec![];
    for t in [&md.symbol[..], "", &md.uri[..], ""] {
        push_str(&mut o, t);
    }
    exts.push((METADATA, o));
    if let Some(cs) = &md.creators {
        let mut o = vec![];
        for c in cs {
            o.extend_from_slice(c.0.as_ref());
            o.push(c.1 as u8);
            o.push(c.2);
        }
        exts.push((CREATORS, o));
    }
    if is_collection || md.details.is_some() {
        exts.push((GROUPING, vec![0; 48]));
        if md.standard == Some(4) {
            let mut o = (md.fee as u64).to_le_bytes().to_vec();
            o.extend(Cons::Empty(true).encode());
            exts.push((ROYALTIES, o));
        }
    }
    let (ps, sy) = (m(payer.key, true, true), m(system.key, false, false));
    for (t, d) in exts {
        n = p.call(&n, &PROGRAM, vec![m(ak, true, true), ps, sy], Op::Allocate(ExtIn::full(t, d)).encode())?;
    }
    let op = Op::Create { name: md.name, standard: 0, mutable: true, exts: None };
    p.call(&n, &PROGRAM, vec![m(ak, true, true), m(auth.key, false, false), m(vk, false, false), none, none, ps, sy], op.encode())
}

fn want_bridge(w: &World, m_: &[Meta]) -> Result<World, &'static str> {
    ensure(m_.len() >= 20, "missing accounts")?;
    let (asset, vault, owner, mint, meta) = (m_[0], m_[1], m_[2], m_[4], m_[5]);
    ensure(owner.signer, "owner has to sign")?;
    ensure([TOKEN, TOKEN22].contains(&w.get(&mint.key).owner), "not a mint of a token program")?;
    ensure(w.get(&asset.key).owner == PROGRAM, "not an asset")?;
    let v = w.get(&vault.key);
    ensure(v.owner == BRIDGE && v.data.len() == 36 && v.data[0] == 1, "not a vault")?;
    ensure(derived(b"vault", &mint.key).0 == vault.key, "wrong vault")?;
    ensure(derived(b"asset", &mint.key).0 == asset.key, "wrong asset")?;
    let md = Md::decode(&w.get(&meta.key).data).ok_or("unreadable metadata")?;
    ensure(matches!(md.standard, Some(0 | 4)), "not a non-fungible token")?;
    ensure(md.mint == mint.key, "metadata of another mint")?;
    ensure(vault.writable, "vault not writable")?;
    let idle = v.data[1] == 0;
    let mut n = w.clone();
    n.get_mut(&vault.key).data[1] = idle as u8;
    let p = P { metas: m_, pda: vec![vault.key] };
    let opt = |i: usize, wr: bool| if m_[i].key == BRIDGE { m(MPL, false, false) } else { m(m_[i].key, false, wr) };
    let (st, dt, sr, dr) = if idle { (3, 8, 7, 9) } else { (8, 3, 9, 7) };
    let (s, d) = if idle { (owner.key, vault.key) } else { (vault.key, owner.key) };
    let t = vec![
        m(m_[st].key, false, true),
        m(s, false, false),
        m(m_[dt].key, false, true),
        m(d, false, false),
        m(mint.key, false, false),
        m(meta.key, false, true),
        m(m_[6].key, false, false),
        opt(sr, true),
        opt(dr, true),
        m(s, true, false),
        m(m_[10].key, true, true),
        m(m_[13].key, false, false),
        m(m_[14].key, false, false),
        m(m_[15].key, false, false),
        m(m_[16].key, false, false),
        opt(17, false),
        opt(18, false),
    ];
    n = p.call(&n, &MPL, t, vec![49, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0])?;
    let g = if m_[19].key == BRIDGE { m(PROGRAM, false, false) } else { m(m_[19].key, false, false) };
    p.call(&n, &PROGRAM, vec![m(asset.key, false, true), m(d, true, false), m(s, false, false), g], vec![7])
}

// ---------------------------------------------------------------------------------------------
// generation

fn gen_md(s: &mut Source, i: usize) -> Md {
    let b = bk();
    let ks = keys();
    let pad = s.bool();
    let st = |s: &mut Source, max: usize| {
        let n = if s.chance(1, 6) { max } else { s.us(max.min(12) + 1) };
        let mut t: String = (0..n).map(|j| (b'a' + (j % 26) as u8) as char).collect();
        if s.chance(1, 4) {
            t = ends(s, &t);
        }
        if pad {
            while t.len() < max {
                t.push('\0');
            }
        }
        t
    };
    let (name, symbol, uri) = (st(s, 32), st(s, 10), st(s, 200));
    let creators = if s.chance(1, 3) {
        None
    } else {
        let n = s.range(1, 5);
        let mut left = 100u64;
        Some(
            (0..n)
                .map(|j| {
                    let x = if j + 1 == n { left } else { s.draw(left + 1) };
                    left -= x;
                    (ks.wallet[(j + s.us(2)) % NW], s.bool(), x as u8)
                })
                .collect(),
        )
    };
    let standard = match s.weighted(&[8, 7, 1, 1, 1, 1, 1]) {
        0 => Some(0),
        1 => Some(4),
        2 => Some(1),
        3 => Some(2),
        4 => Some(3),
        5 => Some(5),
        _ => None,
    };
    Md {
        key: 4,
        authority: if s.chance(1, 5) { *s.pick(&ks.wallet) } else { ks.wallet[3 + i] },
        mint: if s.chance(1, 20) { *s.pick(&b.mint) } else { b.mint[i] },
        name,
        symbol,
        uri,
        fee: *s.pick(&[0u16, 1, 500, 10000, 10001, u16::MAX]),
        creators,
        standard,
        collection: match s.weighted(&[3, 4, 2]) {
            0 => None,
            1 => Some((true, b.mint[s.us(NM)])),
            _ => Some((false, b.mint[s.us(NM)])),
        },
        details: s.chance(1, 4).then(|| s.draw(100)),
        config: match s.weighted(&[4, 1, 1]) {
            0 => None,
            1 => Some(None),
            _ => Some(Some(b.rules)),
        },
        uses: s.chance(1, 8),
    }
}

/// (vault active, asset) of a mint that has crossed already
fn gen_bridge_world(s: &mut Source) -> World {
    let b = bk();
    let ks = keys();
    let mut w = World::default();
    for x in ks.wallet {
        w.put(x, Acct { lamports: 100_000_000_000, owner: SYSTEM, data: vec![], executable: false });
    }
    w.put(ks.poor, Acct { lamports: 900_000, owner: SYSTEM, data: vec![], executable: false });
    for p in [BRIDGE, TOKEN, TOKEN22, MPL, ATA, RULES, SYSTEM, PROGRAM, ks.prog[1]] {
        w.put(p, Acct { lamports: 1_000_000, owner: k(b'L', 0), data: vec![], executable: true });
    }
    for p in [SYSVAR_IX, b.rules] {
        w.put(p, Acct { lamports: 1_000_000, owner: k(b'L', 2), data: vec![1; 8], executable: false });
    }
    for x in ks.foreign {
        w.put(x, Acct { lamports: 50_000_000, owner: ks.prog[1], data: vec![9; 12], executable: false });
    }
    for i in 0..NM {
        s.begin();
        let md = gen_md(s, i);
        let mut d = md.encode();
        if s.chance(1, 30) {
            let n = s.us(d.len());
            d.truncate(n);
        } else if s.bool() {
            d.resize(d.len().max(679), 0);
        }
        let mo = if s.chance(1, 25) { ks.prog[1] } else { MPL };
        w.put(b.meta[i], Acct { lamports: rent(d.len()), owner: mo, data: d, executable: false });
        w.put(b.edition[i], Acct { lamports: rent(82), owner: MPL, data: vec![6; 82], executable: false });
        let mint_owner = *s.pick(&[TOKEN, TOKEN, TOKEN, TOKEN, TOKEN, TOKEN, TOKEN22, ks.prog[1]]);
        w.put(b.mint[i], Acct { lamports: rent(82), owner: mint_owner, data: vec![3; 82], executable: false });
        let state = s.weighted(&[3, 2, 3]);
        let h = if state == 2 { 3 } else { s.us(3) };
        w.put(b.ata[i][h], Acct { lamports: rent(165), owner: TOKEN, data: token_data(&b.mint[i], &holder(i, h), 1), executable: false });
        w.put(b.record[i][h], Acct { lamports: rent(80), owner: MPL, data: vec![11; 80], executable: false });
        if s.chance(1, 2) {
            let o = s.us(NH);
            if o != h {
                w.put(b.ata[i][o], Acct { lamports: rent(165), owner: TOKEN, data: token_data(&b.mint[i], &holder(i, o), 0), executable: false });
                w.put(b.record[i][o], Acct { lamports: rent(80), owner: MPL, data: vec![11; 80], executable: false });
            }
        }
        if state > 0 {
            let mut d = vec![1, (state == 2) as u8, b.vault[i].1];
            d.extend_from_slice(b.mint[i].as_ref());
            d.push(b.asset[i].1);
            w.put(b.vault[i].0, Acct { lamports: rent(36), owner: BRIDGE, data: d, executable: false });
            let kn = Knobs { standards: [1, 0, 0, 0], exts: [0, 1, 1, 2, 1, 4, 3, 4, 0, 0, 1, 0], locked: if state == 2 { 10 } else { 0 }, delegate: if state == 2 { 30 } else { 0 }, ..Knobs::default() };
            let mut a = synth_asset(s, &kn, b.asset[i].0, false);
            a.owner = if state == 2 { ks.wallet[s.us(3)] } else { b.vault[i].0 };
            a.authority = md.authority;
            let mut e = a.encode();
            e.resize(a.len, 0);
            w.put(b.asset[i].0, Acct { lamports: rent(e.len()), owner: PROGRAM, data: e, executable: false });
        } else if s.chance(1, 25) {
            // somebody sent lamports to the addresses to come
            w.put(*s.pick(&[b.vault[i].0, b.asset[i].0]), Acct { lamports: 1_000_000, owner: SYSTEM, data: vec![], executable: false });
        }
        s.end();
    }
    // some assets belong to another bridged asset that is a group
    for i in 0..NM {
        let j = s.us(NM);
        if i != j && s.chance(1, 3) {
            let g = AssetM::parse(&w.get(&b.asset[j].0).data).ok();
            let a = AssetM::parse(&w.get(&b.asset[i].0).data).ok();
            if let (Some(mut g), Some(mut a)) = (g, a) {
                if let Some(e) = g.ext_mut(GROUPING) {
                    let x = u64at(&e.data, 0) + 1;
                    e.data[..8].copy_from_slice(&x.to_le_bytes());
                    e.data[8..16].copy_from_slice(&0u64.to_le_bytes());
                    a.group = Some(b.asset[j].0);
                    for (key, x) in [(b.asset[j].0, g), (b.asset[i].0, a)] {
                        let mut d = x.encode();
                        d.resize(x.len, 0);
                        w.get_mut(&key).data = d;
                    }
                }
            }
        }
    }
    w
}

enum Act {
    Bridge(Ix),
    Asset(Ix),
    Token(Ix),
}

fn gen_act(s: &mut Source, w: &World) -> Option<Act> {
    let b = bk();
    let ks = keys();
    let i = s.us(NM);
    let none = m(BRIDGE, false, false);
    let asset = AssetM::parse(&w.get(&b.asset[i].0).data).ok().filter(|_| w.get(&b.asset[i].0).owner == PROGRAM);
    let created = !w.get(&b.vault[i].0).data.is_empty();
    let md = Md::decode(&w.get(&b.meta[i]).data);
    let what = if created { s.weighted(&[14, 1, 3, 3]) } else { s.weighted(&[1, 14, 0, 3]) };
    let mut ix = match what {
        0 => {
            let active = w.get(&b.vault[i].0).data.get(1) == Some(&1);
            let h = if s.chance(1, 6) {
                s.us(3)
            } else if active {
                asset.as_ref().and_then(|a| (0..3).find(|h| ks.wallet[*h] == a.owner)).unwrap_or(0)
            } else {
                (0..3).find(|h| w.get(&b.ata[i][*h]).data.get(64) == Some(&1)).unwrap_or(0)
            };
            let pnft = md.as_ref().map_or(false, |x| x.standard == Some(4));
            let rec = pnft != s.chance(1, 20);
            let rules = md.as_ref().map_or(false, |x| matches!(x.config, Some(Some(_)))) != s.chance(1, 20);
            let g = match asset.as_ref().and_then(|a| a.group) {
                Some(g) if !s.chance(1, 10) => m(g, false, false),
                _ if s.chance(1, 20) => m(b.asset[s.us(NM)].0, false, false),
                _ => none,
            };
            let p = if s.chance(1, 3) { ks.wallet[h] } else { *s.pick(&ks.wallet) };
            Ix {
                metas: vec![
                    m(b.asset[i].0, false, true),
                    m(b.vault[i].0, false, true),
                    m(ks.wallet[h], true, false),
                    m(b.ata[i][h], false, true),
                    m(b.mint[i], false, false),
                    m(b.meta[i], false, true),
                    m(b.edition[i], false, false),
                    if rec { m(b.record[i][h], false, true) } else { none },
                    m(b.ata[i][3], false, true),
                    if rec { m(b.record[i][3], false, true) } else { none },
                    m(p, true, true),
                    m(PROGRAM, false, false),
                    m(MPL, false, false),
                    m(SYSTEM, false, false),
                    m(SYSVAR_IX, false, false),
                    m(TOKEN, false, false),
                    m(ATA, false, false),
                    if rules { m(RULES, false, false) } else { none },
                    if rules { m(b.rules, false, false) } else { none },
                    g,
                ],
                data: vec![0],
            }
        }
        1 => {
            let md = md?;
            let c = match md.collection {
                Some((v, key)) if v != s.chance(1, 10) => b.mint.iter().position(|x| *x == key).map_or(none, |j| m(b.asset[j].0, false, false)),
                _ if s.chance(1, 8) => m(b.asset[s.us(NM)].0, false, false),
                _ => none,
            };
            let must = !matches!(md.collection, Some((true, _)));
            Ix {
                metas: vec![
                    m(b.asset[i].0, false, true),
                    m(b.vault[i].0, false, true),
                    m(b.mint[i], false, false),
                    m(b.meta[i], false, false),
                    m(md.authority, must != s.chance(1, 8), false),
                    c,
                    m(*s.pick(&ks.wallet), true, true),
                    m(SYSTEM, false, false),
                    m(PROGRAM, false, false),
                ],
                data: vec![1, s.chance(1, 3) as u8],
            }
        }
        2 => {
            // the asset moves on its own, between wallets
            let a = asset?;
            if !ks.wallet.contains(&a.owner) {
                return None;
            }
            let to = ks.wallet[s.us(3)];
            let g = a.group.map_or(m(PROGRAM, false, false), |g| m(g, false, false));
            let (metas, data) = match s.us(4) {
                0 => (vec![m(b.asset[i].0, false, true), m(a.owner, true, false)], vec![5]),
                1 => (vec![m(b.asset[i].0, false, true), m(a.owner, true, false)], vec![8]),
                _ => (vec![m(b.asset[i].0, false, true), m(a.owner, true, false), m(to, false, false), g], vec![7]),
            };
            return Some(Act::Asset(Ix { metas, data }));
        }
        _ => {
            // the token moves on its own, between wallets
            let h = (0..3).find(|h| w.get(&b.ata[i][*h]).data.get(64) == Some(&1))?;
            let t = s.us(3);
            let metas = vec![
                m(b.ata[i][h], false, true),
                m(ks.wallet[h], false, false),
                m(b.ata[i][t], false, true),
                m(ks.wallet[t], false, false),
                m(b.mint[i], false, false),
                m(b.meta[i], false, true),
                m(b.edition[i], false, false),
                m(b.record[i][h], false, true),
                m(b.record[i][t], false, true),
                m(ks.wallet[h], true, false),
                m(ks.wallet[5], true, true),
                m(SYSTEM, false, false),
                m(SYSVAR_IX, false, false),
                m(TOKEN, false, false),
                m(ATA, false, false),
                m(RULES, false, false),
                m(b.rules, false, false),
            ];
            return Some(Act::Token(Ix { metas, data: vec![49, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0] }));
        }
    };
    if s.chance(30, 100) {
        let n = ix.metas.len();
        match s.weighted(&[8, 4, 3, 2, 1, 1]) {
            0 => {
                // another account of the same kind, or any other
                let p = s.us(n);
                let j = s.us(NM);
                let h = s.us(NH);
                let all = [b.asset[j].0, b.vault[j].0, b.mint[j], b.meta[j], b.edition[j], b.ata[j][h], b.record[j][h], ks.wallet[s.us(6)], BRIDGE, PROGRAM, ks.poor, ks.foreign[0]];
                let same = |key: &Pubkey| -> Pubkey {
                    for q in 0..NM {
                        for (x, y) in [(b.asset[q].0, b.asset[j].0), (b.vault[q].0, b.vault[j].0), (b.mint[q], b.mint[j]), (b.meta[q], b.meta[j]), (b.edition[q], b.edition[j])] {
                            if x == *key {
                                return y;
                            }
                        }
                        if b.ata[q].contains(key) {
                            return b.ata[j][h];
                        }
                        if b.record[q].contains(key) {
                            return b.record[j][h];
                        }
                    }
                    ks.wallet[h]
                };
                let to = if s.bool() { same(&ix.metas[p].key) } else { *s.pick(&all) };
                ix.metas[p].key = to;
            }
            1 => {
                let p: Vec<usize> = (0..n).filter(|p| ix.metas[*p].signer).collect();
                if !p.is_empty() {
                    let p = *s.pick(&p);
                    ix.metas[p].signer = false;
                }
            }
            2 => {
                let p = s.us(n);
                ix.metas[p].writable ^= true;
            }
            3 => {
                let (p, q) = (s.us(n), s.us(n));
                let t = ix.metas[p].key;
                ix.metas[p].key = ix.metas[q].key;
                ix.metas[q].key = t;
            }
            4 => ix.metas.truncate(s.us(n)),
            _ => {
                let j = s.us(2);
                if j == 0 {
                    ix.data.push(s.draw(3) as u8);
                } else {
                    ix.data = vec![s.draw(4) as u8];
                }
            }
        }
    }
    for x in ix.metas.iter_mut() {
        if !ks.wallet.contains(&x.key) && x.key != ks.poor {
            x.signer = false;
        }
    }
    Some(Act::Bridge(ix))
}

/// exactly one of token and asset is outside the vault
fn conserved(w: &World) -> Option<String> {
    let b = bk();
    for i in 0..NM {
        let v = w.get(&b.vault[i].0);
        let total: u64 = (0..NH).map(|h| w.get(&b.ata[i][h])).filter(|a| a.data.len() == 165).map(|a| u64at(&a.data, 64)).sum();
        if total != 1 {
            return Some(format!("{total} tokens of mint {i}"));
        }
        if v.data.is_empty() {
            continue;
        }
        let active = v.data[1] == 1;
        let held = w.get(&b.ata[i][3]).data.get(64) == Some(&1);
        let Ok(a) = AssetM::parse(&w.get(&b.asset[i].0).data) else { return Some(format!("mint {i}: no asset for an existing vault")) };
        let inside = a.owner == b.vault[i].0;
        if held == inside {
            return Some(format!("mint {i}: token {} the vault and asset {} the vault", if held { "in" } else { "outside" }, if inside { "in" } else { "outside" }));
        }
        if active != held {
            return Some(format!("mint {i}: vault says {} while the token is {}", if active { "active" } else { "idle" }, if held { "in it" } else { "outside" }));
        }
    }
    None
}

pub fn c21(s: &mut Source, c: &mut Case) {
    callees();
    thread_local!(static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if !DONE.with(|d| d.replace(true)) {
        vm::cpi::register(MPL, std::rc::Rc::new(|w, ix| mpl(w, ix)));
    }
    let b = bk();
    let mut w = gen_bridge_world(s);
    if c.tracing {
        for i in 0..NM {
            let md = Md::decode(&w.get(&b.meta[i]).data);
            let v = w.get(&b.vault[i].0).data.get(1).copied();
            let t: Vec<usize> = (0..NH).filter(|h| w.get(&b.ata[i][*h]).data.get(64) == Some(&1)).collect();
            let a = AssetM::parse(&w.get(&b.asset[i].0).data).ok();
            c.log(|| {
                format!(
                    "mint{i}: metadata {:?} vault {v:?} token at {t:?} asset {:?}",
                    md.map(|x| (x.standard, name_of(&x.authority), x.collection.map(|y| (y.0, nm(&y.1))), x.details, x.creators.map(|v| v.len()))),
                    a.map(|a| (nm(&a.owner), a.state, a.group.map(|g| nm(&g)), a.exts.iter().map(|e| e.ty).collect::<Vec<_>>()))
                )
            });
        }
    }
    for _ in 0..s.range(1, 8) {
        s.begin();
        let g = gen_act(s, &w);
        s.end();
        vm::set_stack_height(1);
        let ix = match g {
            None => continue,
            Some(Act::Asset(ix)) => {
                if let Ok(n) = vm::run_asset(&w, &ix, 0) {
                    c.log(|| format!("asset {}", show_b(&ix)));
                    w = n;
                }
                continue;
            }
            Some(Act::Token(ix)) => {
                if let Ok(n) = mpl(&w, &ix) {
                    c.log(|| format!("token {}", show_b(&ix)));
                    w = n;
                }
                continue;
            }
            Some(Act::Bridge(ix)) => ix,
        };
        let got = program().exec(&w, &ix, &BRIDGE, true);
        c.evals += 1;
        let wanted = want(&w, &ix);
        let name = match ix.data.first() {
            Some(0) => "Bridge",
            Some(1) => "Create",
            _ => "?",
        };
        c.log(|| {
            format!(
                "{name} {} => {}",
                show_b(&ix),
                match (&wanted, &got) {
                    (Want::Refused(x), Err(_)) => format!("rejected ({x})"),
                    (_, Err(f)) => format!("rejected ({})", fail_text(f)),
                    (_, Ok(_)) => "ok".into(),
                }
            )
        });
        c.label(match &wanted {
            Want::Refused(x) => format!("{name}: refused: {x}"),
            _ => format!("{name}: performed"),
        });
        if !matches!(wanted, Want::Refused("missing accounts" | "undecodable instruction")) {
            let mut h = pbt::hash_bytes(&ix.data);
            for x in &ix.metas {
                h = pbt::mix(h ^ pbt::hash_bytes(x.key.as_ref()) ^ x.signer as u64 ^ pbt::hash_bytes(&w.get(&x.key).data));
            }
            c.nontrivial.push(h);
        }
        match (wanted, got) {
            (Want::Refused(_), Err(_)) | (Want::Either(_), Err(_)) => {}
            (Want::Refused(e), Ok(_)) => return c.fail(format!("{name} {}: accepted but it has to be refused: {e}", show_b(&ix))),
            (Want::Done(_), Err(f)) => return c.fail(format!("{name} {}: refused ({}) but it has to succeed", show_b(&ix), fail_text(&f))),
            (Want::Done(e) | Want::Either(e), Ok(n)) => {
                if let Some(d) = differ(&e, &n) {
                    return c.fail(format!("{name} {}: {d}", show_b(&ix)));
                }
                if let Some(d) = conserved(&n) {
                    return c.fail(format!("{name} {}: {d}", show_b(&ix)));
                }
                w = n;
            }
        }
    }
}
