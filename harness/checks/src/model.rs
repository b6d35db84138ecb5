//! Reference model of the asset program: an independent statement of what each instruction does,
//! over a parsed (decoded) view of the accounts.  It shares no code with the program.

use solana_program::pubkey::Pubkey;
use vm::{rent, settle, Acct, Ix, Meta, World, MAX_GROW, SYSTEM};

pub const ASSET_LEN: usize = 168;
pub const EXT_LEN: usize = 16;
pub const PROGRAM: Pubkey = asset_program::ID;

pub const NONE: u32 = 0;
pub const ATTRIBUTES: u32 = 1;
pub const BLOB: u32 = 2;
pub const CREATORS: u32 = 3;
pub const LINKS: u32 = 4;
pub const METADATA: u32 = 5;
pub const GROUPING: u32 = 6;
pub const ROYALTIES: u32 = 7;
pub const MANAGER: u32 = 8;
pub const PROXY: u32 = 9;
pub const PROPERTIES: u32 = 10;
pub const BUCKET: u32 = 11;
pub const MAX_TYPE: u32 = 11;

pub const TRANSFER: u8 = 1;
pub const LOCK: u8 = 2;
pub const BURN: u8 = 4;

pub const OP_NAMES: [&str; 18] = [
    "Close", "Burn", "Create", "Approve", "Allocate", "Lock", "Revoke", "Transfer", "Unlock", "Unverify",
    "Update", "Verify", "Write", "Group", "Ungroup", "Handover", "Remove", "Resize",
];

pub fn pad8(n: usize) -> usize {
    (n + 7) & !7
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExtM {
    pub ty: u32,
    /// declared length
    pub length: usize,
    /// bytes present (shorter than `length` only for an extension still being written)
    pub data: Vec<u8>,
}

impl ExtM {
    pub fn full(ty: u32, data: Vec<u8>) -> Self {
        ExtM { ty, length: data.len(), data }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct AssetM {
    pub disc: u8,
    pub state: u8,
    pub standard: u8,
    pub mutable: bool,
    pub owner: Pubkey,
    pub group: Option<Pubkey>,
    pub authority: Pubkey,
    pub delegate: Option<(Pubkey, u8)>,
    pub name: [u8; 35],
    pub exts: Vec<ExtM>,
    /// account length
    pub len: usize,
}

fn key(b: &[u8]) -> Pubkey {
    Pubkey::new_from_array(b[..32].try_into().unwrap())
}
fn opt(k: Pubkey) -> Option<Pubkey> {
    if k == Pubkey::default() {
        None
    } else {
        Some(k)
    }
}
pub fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}

impl AssetM {
    pub fn ext(&self, ty: u32) -> Option<&ExtM> {
        self.exts.iter().find(|e| e.ty == ty)
    }
    pub fn ext_mut(&mut self, ty: u32) -> Option<&mut ExtM> {
        self.exts.iter_mut().find(|e| e.ty == ty)
    }
    /// offset just after the last extension
    pub fn end(&self) -> usize {
        let mut o = ASSET_LEN;
        for e in &self.exts {
            o = pad8(o + EXT_LEN + e.length);
        }
        o
    }
    pub fn complete(&self) -> bool {
        self.exts.iter().all(|e| e.data.len() == e.length)
    }
    pub fn manager(&self) -> Option<(Pubkey, u8)> {
        self.ext(MANAGER).filter(|e| e.data.len() >= 33).map(|e| (key(&e.data), e.data[32]))
    }
    pub fn grouping(&self) -> Option<Grp> {
        self.ext(GROUPING).map(|e| Grp::read(&e.data))
    }
    pub fn creators(&self) -> Option<Vec<(Pubkey, bool, u8)>> {
        self.ext(CREATORS).map(|e| creators(&e.data))
    }

    /// Decodes an account; Err describes why it is not a well-formed asset/buffer account.
    pub fn parse(d: &[u8]) -> Result<AssetM, String> {
        if d.len() < ASSET_LEN {
            return Err(format!("account of {} bytes is shorter than an asset header", d.len()));
        }
        if d[0] > 1 || d[1] > 1 || d[2] > 3 {
            return Err(format!("header bytes out of range: {:?}", &d[..4]));
        }
        let mut exts: Vec<ExtM> = vec![];
        let mut o = ASSET_LEN;
        while o + EXT_LEN <= d.len() {
            let ty = u32at(d, o);
            let length = u32at(d, o + 4) as usize;
            let boundary = u32at(d, o + 8) as usize;
            if ty == 0 {
                break;
            }
            if ty > MAX_TYPE {
                return Err(format!("unknown extension type {ty} at {o}"));
            }
            if boundary != pad8(o + EXT_LEN + length) {
                return Err(format!(
                    "extension type {ty} at {o}, length {length}: boundary {boundary}, expected {}",
                    pad8(o + EXT_LEN + length)
                ));
            }
            if exts.iter().any(|e| e.ty == ty) {
                return Err(format!("extension type {ty} appears twice"));
            }
            let start = o + EXT_LEN;
            let end = (start + length).min(d.len());
            exts.push(ExtM { ty, length, data: d[start..end].to_vec() });
            if boundary > d.len() {
                if d[0] == 1 {
                    return Err(format!("extension type {ty} at {o} runs past the account ({boundary} > {})", d.len()));
                }
                break;
            }
            o = boundary;
        }
        let deleg = opt(key(&d[100..132])).map(|k| (k, d[132]));
        Ok(AssetM {
            disc: d[0],
            state: d[1],
            standard: d[2],
            mutable: d[3] != 0,
            owner: key(&d[4..36]),
            group: opt(key(&d[36..68])),
            authority: key(&d[68..100]),
            delegate: deleg,
            name: d[133..168].try_into().unwrap(),
            exts,
            len: d.len(),
        })
    }

    /// Reference encoder (used to build initial states).
    pub fn encode(&self) -> Vec<u8> {
        let mut d = vec![0u8; ASSET_LEN];
        d[0] = self.disc;
        d[1] = self.state;
        d[2] = self.standard;
        d[3] = self.mutable as u8;
        d[4..36].copy_from_slice(self.owner.as_ref());
        d[36..68].copy_from_slice(self.group.unwrap_or_default().as_ref());
        d[68..100].copy_from_slice(self.authority.as_ref());
        if let Some((k, r)) = self.delegate {
            d[100..132].copy_from_slice(k.as_ref());
            d[132] = r;
        }
        d[133..168].copy_from_slice(&self.name);
        for e in &self.exts {
            let o = d.len();
            let b = pad8(o + EXT_LEN + e.length);
            d.extend_from_slice(&e.ty.to_le_bytes());
            d.extend_from_slice(&(e.length as u32).to_le_bytes());
            d.extend_from_slice(&(b as u32).to_le_bytes());
            d.extend_from_slice(&0u32.to_le_bytes());
            d.extend_from_slice(&e.data);
            if e.data.len() == e.length {
                d.resize(b, 0);
            }
        }
        if d.len() < self.len {
            d.resize(self.len, 0);
        }
        d
    }
}

pub struct Grp {
    pub size: u64,
    pub max: u64,
    pub delegate: Option<Pubkey>,
}
impl Grp {
    pub fn read(d: &[u8]) -> Grp {
        Grp {
            size: u64at(d, 0),
            max: u64at(d, 8),
            delegate: if d.len() >= 48 { opt(key(&d[16..48])) } else { None },
        }
    }
}

pub fn creators(d: &[u8]) -> Vec<(Pubkey, bool, u8)> {
    d.chunks_exact(34).map(|c| (key(c), c[32] != 0, c[33])).collect()
}

// ---------------------------------------------------------------------------------------------
// extension content rules

fn u8str(b: &[u8]) -> Option<usize> {
    let n = *b.first()? as usize;
    if 1 + n <= b.len() {
        Some(1 + n)
    } else {
        None
    }
}

/// Some(exact): readable; exact=false when trailing bytes are left over
pub fn readable(ty: u32, d: &[u8]) -> Option<bool> {
    match ty {
        ATTRIBUTES | LINKS => {
            let mut o = 0;
            while o < d.len() {
                o += u8str(&d[o..])?;
                o += u8str(&d[o..])?;
            }
            Some(true)
        }
        BLOB => u8str(d).map(|_| true),
        CREATORS => (d.len() % 34 == 0).then_some(true),
        METADATA => {
            let mut o = 0;
            for _ in 0..3 {
                o += u8str(&d[o..])?;
            }
            if o < d.len() {
                o += u8str(&d[o..])?;
            }
            Some(o == d.len())
        }
        GROUPING => {
            if d.len() < 16 || d.len() > 48 {
                None
            } else {
                Some(d.len() == 16 || d.len() == 48)
            }
        }
        ROYALTIES => {
            if d.len() < 8 {
                return None;
            }
            let (c, n) = Cons::parse(&d[8..])?;
            Some(n + 8 == d.len() && c.exact())
        }
        MANAGER => (d.len() >= 33).then_some(d.len() == 33),
        PROXY => (d.len() == 97).then_some(true),
        PROPERTIES => {
            let mut o = 0;
            let mut exact = true;
            while o < d.len() {
                o += u8str(&d[o..])?;
                match d.get(o)? {
                    0 => o += 1 + u8str(&d[o + 1..])?,
                    1 => o += 9,
                    2 => {
                        if *d.get(o + 1)? > 1 {
                            exact = false;
                        }
                        o += 2
                    }
                    _ => return None,
                }
                if o > d.len() {
                    return None;
                }
            }
            Some(exact)
        }
        _ => Some(true),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cons {
    And(Vec<Cons>),
    Or(Vec<Cons>),
    Not(Box<Cons>, bool),
    OwnedBy(u64, Vec<Pubkey>),
    Match(u64, Vec<Pubkey>),
    Empty(bool),
}

impl Cons {
    pub fn parse(b: &[u8]) -> Option<(Cons, usize)> {
        if b.len() < 8 {
            return None;
        }
        let ty = u32at(b, 0);
        let n = u32at(b, 4) as usize;
        if n > b.len() - 8 {
            return None;
        }
        let body = &b[8..8 + n];
        let list = |body: &[u8]| -> Option<Vec<Cons>> {
            let mut v = vec![];
            let mut o = 0;
            while o < body.len() {
                let (c, k) = Cons::parse(&body[o..])?;
                o += k;
                v.push(c);
            }
            Some(v)
        };
        let keys = |body: &[u8]| -> Option<(u64, Vec<Pubkey>)> {
            if body.len() < 8 || (body.len() - 8) % 32 != 0 {
                return None;
            }
            let acc = u64at(body, 0);
            if acc > 2 {
                return None;
            }
            Some((acc, body[8..].chunks_exact(32).map(key).collect()))
        };
        let c = match ty {
            0 => Cons::And(list(body)?),
            1 => {
                let (c, k) = Cons::parse(body)?;
                Cons::Not(Box::new(c), k == n)
            }
            2 => Cons::Or(list(body)?),
            3 => {
                let (a, k) = keys(body)?;
                Cons::OwnedBy(a, k)
            }
            4 => {
                let (a, k) = keys(body)?;
                Cons::Match(a, k)
            }
            5 => Cons::Empty(n == 0),
            _ => return None,
        };
        Some((c, 8 + n))
    }
    pub fn exact(&self) -> bool {
        match self {
            Cons::And(v) | Cons::Or(v) => v.iter().all(|c| c.exact()),
            Cons::Not(c, e) => *e && c.exact(),
            Cons::Empty(e) => *e,
            _ => true,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let (ty, body): (u32, Vec<u8>) = match self {
            Cons::And(v) => (0, v.iter().flat_map(|c| c.encode()).collect()),
            Cons::Not(c, _) => (1, c.encode()),
            Cons::Or(v) => (2, v.iter().flat_map(|c| c.encode()).collect()),
            Cons::OwnedBy(a, k) | Cons::Match(a, k) => {
                let mut b = a.to_le_bytes().to_vec();
                for x in k {
                    b.extend_from_slice(x.as_ref());
                }
                (if matches!(self, Cons::OwnedBy(..)) { 3 } else { 4 }, b)
            }
            Cons::Empty(_) => (5, vec![]),
        };
        let mut o = ty.to_le_bytes().to_vec();
        o.extend_from_slice(&(body.len() as u32).to_le_bytes());
        o.extend(body);
        o
    }
    /// `t`: (key, owner, empty) of asset, authority (signer), recipient
    pub fn eval(&self, t: &[(Pubkey, Pubkey, bool); 3]) -> bool {
        match self {
            Cons::And(v) => v.iter().all(|c| c.eval(t)),
            Cons::Or(v) => v.iter().any(|c| c.eval(t)),
            Cons::Not(c, _) => !c.eval(t),
            Cons::OwnedBy(a, k) => {
                let x = &t[*a as usize];
                k.contains(&x.1) && !x.2
            }
            Cons::Match(a, k) => k.contains(&t[*a as usize].0),
            Cons::Empty(_) => true,
        }
    }
}

/// three-valued verdict for content whose acceptance the specification leaves open
#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Ok(Vec<u8>),
    Open(Vec<u8>),
    Bad(&'static str),
}

/// What an extension becomes when first attached (authority None: still in a buffer).
pub fn on_create(ty: u32, d: &[u8], authority: Option<&Pubkey>) -> Content {
    let exact = match readable(ty, d) {
        Some(e) => e,
        None => return Content::Bad("unreadable extension data"),
    };
    let mut out = d.to_vec();
    match ty {
        CREATORS => {
            let cs = creators(d);
            if cs.iter().map(|c| c.2 as u32).sum::<u32>() != 100 {
                return Content::Bad("creator shares do not add up to 100");
            }
            for (i, c) in cs.iter().enumerate() {
                out[i * 34 + 32] = (authority == Some(&c.0)) as u8;
            }
        }
        GROUPING => {
            if Grp::read(d).size != 0 {
                return Content::Bad("group does not start empty");
            }
        }
        ROYALTIES => {
            if u64at(d, 0) > 10000 {
                return Content::Bad("royalty above 100%");
            }
        }
        _ => {}
    }
    if exact {
        Content::Ok(out)
    } else {
        Content::Open(out)
    }
}

/// What an existing extension becomes when its content is replaced.
pub fn on_update(ty: u32, cur: &[u8], d: &[u8], authority: &Pubkey) -> Content {
    let exact = match readable(ty, d) {
        Some(e) => e,
        None => return Content::Bad("unreadable extension data"),
    };
    let mut out = d.to_vec();
    match ty {
        CREATORS => {
            let old = creators(cur);
            let new = creators(d);
            if new.iter().map(|c| c.2 as u32).sum::<u32>() != 100 {
                return Content::Bad("creator shares do not add up to 100");
            }
            let mut ver = vec![];
            for (i, c) in new.iter().enumerate() {
                let v = match old.iter().find(|o| o.0 == c.0) {
                    Some(o) => o.1,
                    None => c.0 == *authority,
                };
                out[i * 34 + 32] = v as u8;
                ver.push(v);
            }
            for o in old.iter().filter(|o| o.1) {
                match new.iter().position(|c| c.0 == o.0) {
                    None => return Content::Bad("verified creator removed"),
                    Some(i) => {
                        if !ver[i] {
                            return Content::Bad("verified creator unverified");
                        }
                    }
                }
            }
        }
        GROUPING => {
            let size = Grp::read(cur).size;
            let g = Grp::read(d);
            out[..8].copy_from_slice(&size.to_le_bytes());
            if g.max != 0 && g.max < size {
                return Content::Bad("maximum below the current group size");
            }
        }
        ROYALTIES => {
            if u64at(d, 0) > 10000 {
                return Content::Bad("royalty above 100%");
            }
        }
        PROXY => {
            if cur[..65] != d[..65] {
                return Content::Bad("proxy derivation changed");
            }
        }
        _ => {}
    }
    if exact {
        Content::Ok(out)
    } else {
        Content::Open(out)
    }
}

// ---------------------------------------------------------------------------------------------
// instruction wire format

#[derive(Clone, Debug, PartialEq)]
pub struct ExtIn {
    pub ty: u8,
    pub length: u32,
    pub data: Option<Vec<u8>>,
}
impl ExtIn {
    pub fn full(ty: u32, data: Vec<u8>) -> Self {
        ExtIn { ty: ty as u8, length: data.len() as u32, data: Some(data) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Roles {
    All,
    Some(Vec<u8>),
}
impl Roles {
    pub fn mask(&self) -> u8 {
        match self {
            Roles::All => 7,
            Roles::Some(v) => v.iter().fold(0, |m, r| m | if *r == 0 { 0 } else { 1 << (r - 1) }),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Close,
    Burn,
    Create { name: String, standard: u8, mutable: bool, exts: Option<Vec<ExtIn>> },
    Approve(Roles),
    Allocate(ExtIn),
    Lock,
    Revoke(Roles),
    Transfer,
    Unlock,
    Unverify,
    Update { name: Option<String>, mutable: Option<bool>, ext: Option<ExtIn> },
    Verify,
    Write { overwrite: bool, bytes: Vec<u8> },
    Group,
    Ungroup,
    Handover,
    Remove(u8),
    Resize(Option<u16>),
}

impl Op {
    pub fn disc(&self) -> u8 {
        match self {
            Op::Close => 0,
            Op::Burn => 1,
            Op::Create { .. } => 2,
            Op::Approve(_) => 3,
            Op::Allocate(_) => 4,
            Op::Lock => 5,
            Op::Revoke(_) => 6,
            Op::Transfer => 7,
            Op::Unlock => 8,
            Op::Unverify => 9,
            Op::Update { .. } => 10,
            Op::Verify => 11,
            Op::Write { .. } => 12,
            Op::Group => 13,
            Op::Ungroup => 14,
            Op::Handover => 15,
            Op::Remove(_) => 16,
            Op::Resize(_) => 17,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        fn bytes(o: &mut Vec<u8>, b: &[u8]) {
            o.extend_from_slice(&(b.len() as u32).to_le_bytes());
            o.extend_from_slice(b);
        }
        fn ext(o: &mut Vec<u8>, e: &ExtIn) {
            o.push(e.ty);
            o.extend_from_slice(&e.length.to_le_bytes());
            match &e.data {
                None => o.push(0),
                Some(d) => {
                    o.push(1);
                    bytes(o, d)
                }
            }
        }
        fn roles(o: &mut Vec<u8>, r: &Roles) {
            match r {
                Roles::All => o.push(0),
                Roles::Some(v) => {
                    o.push(1);
                    bytes(o, v)
                }
            }
        }
        let mut o = vec![self.disc()];
        match self {
            Op::Create { name, standard, mutable, exts } => {
                bytes(&mut o, name.as_bytes());
                o.push(*standard);
                o.push(*mutable as u8);
                match exts {
                    None => o.push(0),
                    Some(v) => {
                        o.push(1);
                        o.extend_from_slice(&(v.len() as u32).to_le_bytes());
                        for e in v {
                            ext(&mut o, e);
                        }
                    }
                }
            }
            Op::Approve(r) | Op::Revoke(r) => roles(&mut o, r),
            Op::Allocate(e) => ext(&mut o, e),
            Op::Update { name, mutable, ext: e } => {
                match name {
                    None => o.push(0),
                    Some(n) => {
                        o.push(1);
                        bytes(&mut o, n.as_bytes());
                    }
                }
                match mutable {
                    None => o.push(0),
                    Some(m) => {
                        o.push(1);
                        o.push(*m as u8);
                    }
                }
                match e {
                    None => o.push(0),
                    Some(e) => {
                        o.push(1);
                        ext(&mut o, e);
                    }
                }
            }
            Op::Write { overwrite, bytes: b } => {
                o.push(*overwrite as u8);
                bytes(&mut o, b);
            }
            Op::Remove(t) => o.push(*t),
            Op::Resize(None) => o.push(0),
            Op::Resize(Some(v)) => {
                o.push(1);
                o.extend_from_slice(&v.to_le_bytes());
            }
            _ => {}
        }
        o
    }

    /// Strict decoder: every byte has to be consumed and every tag has to be valid.
    pub fn decode(b: &[u8]) -> Option<Op> {
        struct R<'a>(&'a [u8]);
        impl<'a> R<'a> {
            fn take(&mut self, n: usize) -> Option<&'a [u8]> {
                if n > self.0.len() {
                    return None;
                }
                let (a, b) = self.0.split_at(n);
                self.0 = b;
                Some(a)
            }
            fn u8(&mut self) -> Option<u8> {
                Some(self.take(1)?[0])
            }
            fn u32(&mut self) -> Option<u32> {
                Some(u32at(self.take(4)?, 0))
            }
            fn bool(&mut self) -> Option<bool> {
                match self.u8()? {
                    0 => Some(false),
                    1 => Some(true),
                    _ => None,
                }
            }
            fn bytes(&mut self) -> Option<Vec<u8>> {
                let n = self.u32()? as usize;
                Some(self.take(n)?.to_vec())
            }
            fn string(&mut self) -> Option<String> {
                String::from_utf8(self.bytes()?).ok()
            }
            fn ext(&mut self) -> Option<ExtIn> {
                let ty = self.u8()?;
                if ty as u32 > MAX_TYPE {
                    return None;
                }
                let length = self.u32()?;
                let data = if self.bool()? { Some(self.bytes()?) } else { None };
                Some(ExtIn { ty, length, data })
            }
            fn roles(&mut self) -> Option<Roles> {
                if self.bool()? {
                    let v = self.bytes()?;
                    if v.iter().any(|r| *r > 3) {
                        return None;
                    }
                    Some(Roles::Some(v))
                } else {
                    Some(Roles::All)
                }
            }
        }
        let mut r = R(b);
        let op = match r.u8()? {
            0 => Op::Close,
            1 => Op::Burn,
            2 => {
                let name = r.string()?;
                let standard = r.u8()?;
                if standard > 3 {
                    return None;
                }
                let mutable = r.bool()?;
                let exts = if r.bool()? {
                    let n = r.u32()?;
                    let mut v = vec![];
                    for _ in 0..n {
                        v.push(r.ext()?);
                    }
                    Some(v)
                } else {
                    None
                };
                Op::Create { name, standard, mutable, exts }
            }
            3 => Op::Approve(r.roles()?),
            4 => Op::Allocate(r.ext()?),
            5 => Op::Lock,
            6 => Op::Revoke(r.roles()?),
            7 => Op::Transfer,
            8 => Op::Unlock,
            9 => Op::Unverify,
            10 => {
                let name = if r.bool()? { Some(r.string()?) } else { None };
                let mutable = if r.bool()? { Some(r.bool()?) } else { None };
                let ext = if r.bool()? { Some(r.ext()?) } else { None };
                Op::Update { name, mutable, ext }
            }
            11 => Op::Verify,
            12 => {
                let overwrite = r.bool()?;
                Op::Write { overwrite, bytes: r.bytes()? }
            }
            13 => Op::Group,
            14 => Op::Ungroup,
            15 => Op::Handover,
            16 => {
                let t = r.u8()?;
                if t as u32 > MAX_TYPE {
                    return None;
                }
                Op::Remove(t)
            }
            17 => {
                if r.bool()? {
                    let v = r.take(2)?;
                    Op::Resize(Some(u16::from_le_bytes([v[0], v[1]])))
                } else {
                    Op::Resize(None)
                }
            }
            _ => return None,
        };
        if r.0.is_empty() {
            Some(op)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// the step function

/// (required accounts, positions that are optional)
pub fn account_shape(disc: u8) -> (usize, &'static [usize]) {
    match disc {
        0 => (2, &[]),
        1 => (4, &[2, 3]),
        2 => (7, &[3, 4, 5, 6]),
        3 => (3, &[]),
        4 => (3, &[1, 2]),
        5 | 6 | 8 | 9 | 11 => (2, &[]),
        7 => (4, &[3]),
        10 => (6, &[2, 3, 4, 5]),
        12 => (3, &[]),
        13..=15 => (3, &[]),
        16 => (4, &[2]),
        _ => (4, &[3]),
    }
}

/// A world in the making: decoded asset accounts next to raw ones.
#[derive(Clone)]
pub struct W {
    pub w: World,
}

#[derive(Clone, Debug)]
pub enum Expect {
    /// has to succeed with exactly this outcome
    Ok(Out),
    /// has to be rejected, for this reason
    Err(&'static str),
    /// may be rejected; if it is accepted the outcome has to be this
    Open(Out),
}

#[derive(Clone, Debug)]
pub struct Out {
    pub world: World,
    /// accounts whose extension order is not specified
    pub unordered: Vec<Pubkey>,
    /// update buffers: the account may keep its original bytes instead
    pub buffer: Option<(Pubkey, Vec<u8>)>,
}

struct S<'a> {
    pre: &'a World,
    w: World,
    metas: Vec<Meta>,
    open: bool,
    unordered: Vec<Pubkey>,
    buffer: Option<(Pubkey, Vec<u8>)>,
}

type R<T> = Result<T, &'static str>;

fn ensure(c: bool, e: &'static str) -> R<()> {
    if c {
        Ok(())
    } else {
        Err(e)
    }
}

impl S<'_> {
    fn m(&self, i: usize) -> Meta {
        self.metas[i]
    }
    fn opt(&self, i: usize) -> Option<Meta> {
        let m = self.metas[i];
        if m.key == PROGRAM {
            None
        } else {
            Some(m)
        }
    }
    fn asset(&self, k: &Pubkey) -> R<AssetM> {
        let a = self.w.get(k);
        ensure(a.owner == PROGRAM, "not owned by the program")?;
        ensure(a.data.len() >= ASSET_LEN && a.data[0] == 1, "not an initialized asset")?;
        AssetM::parse(&a.data).map_err(|_| "malformed account")
    }
    fn buffer(&self, k: &Pubkey) -> R<AssetM> {
        let a = self.w.get(k);
        ensure(a.owner == PROGRAM, "not owned by the program")?;
        ensure(a.data.len() >= ASSET_LEN && a.data[0] == 0, "not an uninitialized buffer")?;
        AssetM::parse(&a.data).map_err(|_| "malformed account")
    }
    fn put(&mut self, k: &Pubkey, m: &AssetM) {
        let mut d = m.encode();
        d.resize(m.len, 0);
        self.w.get_mut(k).data = d;
    }
    /// moves lamports so that the account is exactly funded, as the program's resize does
    fn fund(&mut self, k: &Pubkey, old: usize, new: usize, payer: Option<Meta>, system: Option<Meta>) -> R<()> {
        if old > new {
            let p = payer.ok_or("payer required for a refund")?;
            let delta = self.w.get(k).lamports.saturating_sub(rent(new));
            self.w.get_mut(&p.key).lamports += delta;
            self.w.get_mut(k).lamports -= delta;
        } else {
            ensure(new - old <= MAX_GROW, "grows by more than a transaction allows")?;
            let delta = rent(new).saturating_sub(self.w.get(k).lamports);
            if delta > 0 {
                let p = payer.ok_or("payer required")?;
                let s = system.ok_or("system program required")?;
                ensure(p.signer, "payer must sign")?;
                ensure(s.key == SYSTEM, "wrong system program")?;
                self.sys_transfer(&p, k, delta)?;
            }
        }
        Ok(())
    }
    fn sys_debit(&mut self, p: &Meta, n: u64) -> R<()> {
        let a = self.w.get(&p.key);
        ensure(p.signer && p.writable, "funder must be a writable signer")?;
        ensure(a.owner == SYSTEM && a.data.is_empty(), "funder is not a wallet")?;
        ensure(a.lamports >= n, "insufficient lamports")?;
        self.w.get_mut(&p.key).lamports -= n;
        Ok(())
    }
    fn sys_transfer(&mut self, p: &Meta, to: &Pubkey, n: u64) -> R<()> {
        self.sys_debit(p, n)?;
        self.w.get_mut(to).lamports += n;
        Ok(())
    }
    fn create_account(&mut self, asset: &Meta, space: usize, payer: Option<Meta>, system: Option<Meta>) -> R<()> {
        let p = payer.ok_or("payer required")?;
        ensure(p.signer, "payer must sign")?;
        let s = system.ok_or("system program required")?;
        ensure(s.key == SYSTEM, "wrong system program")?;
        let a = self.w.get(&asset.key);
        ensure(a.lamports == 0 && a.owner == SYSTEM && a.data.is_empty(), "account already in use")?;
        ensure(space <= MAX_GROW, "too large for one transaction")?;
        ensure(asset.signer && asset.writable, "new account must be a writable signer")?;
        self.sys_debit(&p, rent(space))?;
        let a = self.w.get_mut(&asset.key);
        a.lamports = rent(space);
        a.owner = PROGRAM;
        a.data = vec![0; space];
        Ok(())
    }
    fn content(&mut self, c: Content) -> R<Vec<u8>> {
        match c {
            Content::Ok(d) => Ok(d),
            Content::Open(d) => {
                self.open = true;
                Ok(d)
            }
            Content::Bad(e) => Err(e),
        }
    }
    fn close(&mut self, k: &Pubkey, to: &Pubkey) -> R<()> {
        ensure(k != to, "account refunded into itself")?;
        let n = self.w.get(k).lamports;
        self.w.get_mut(to).lamports += n;
        *self.w.get_mut(k) = Acct::default();
        Ok(())
    }

    fn allocate(&mut self, asset: &Meta, payer: Option<Meta>, system: Option<Meta>, e: &ExtIn) -> R<()> {
        ensure(asset.signer, "asset must sign")?;
        ensure(e.ty != 0, "no extension type")?;
        let data: &[u8] = e.data.as_deref().unwrap_or(&[]);
        ensure(data.len() <= e.length as usize, "more data than the declared length")?;
        let fresh = self.w.get(&asset.key).data.is_empty();
        if fresh {
            let full = pad8(ASSET_LEN + EXT_LEN + e.length as usize);
            let len = if data.len() == e.length as usize { full } else { ASSET_LEN + EXT_LEN + data.len() };
            self.create_account(asset, len, payer, system)?;
            let mut m = AssetM::parse(&self.w.get(&asset.key).data).map_err(|_| "malformed account")?;
            m.exts = vec![ExtM { ty: e.ty as u32, length: e.length as usize, data: data.to_vec() }];
            m.len = len;
            self.put(&asset.key, &m);
            return Ok(());
        }
        let mut m = self.buffer(&asset.key)?;
        ensure(m.ext(e.ty as u32).is_none(), "extension already present")?;
        ensure(m.complete(), "previous extension incomplete")?;
        let start = m.end();
        let complete = data.len() == e.length as usize;
        let len = if complete {
            pad8(start + EXT_LEN + e.length as usize)
        } else {
            start + EXT_LEN + data.len()
        };
        let old = m.len;
        m.exts.push(ExtM { ty: e.ty as u32, length: e.length as usize, data: data.to_vec() });
        if len > old || (!complete && len < old) {
            self.fund(&asset.key, old, len, payer, system)?;
            m.len = len;
        }
        self.put(&asset.key, &m);
        Ok(())
    }

    fn group(&mut self, asset: &Meta, group: &Meta, authority: &Meta) -> R<()> {
        ensure(authority.signer, "authority must sign")?;
        let mut a = self.asset(&asset.key)?;
        let mut g = self.asset(&group.key)?;
        ensure(asset.key != group.key, "an asset cannot be its own group")?;
        ensure(a.group.is_none(), "already in a group")?;
        ensure(g.authority == a.authority, "authority mismatch")?;
        let grp = g.grouping().ok_or("not a group")?;
        ensure(
            authority.key == g.authority || grp.delegate == Some(authority.key),
            "neither the group authority nor its delegate",
        )?;
        ensure(grp.max == 0 || grp.size < grp.max, "group is full")?;
        a.group = Some(group.key);
        g.ext_mut(GROUPING).unwrap().data[..8].copy_from_slice(&(grp.size + 1).to_le_bytes());
        self.put(&asset.key, &a);
        self.put(&group.key, &g);
        Ok(())
    }

    fn royalties(&self, a: &AssetM, asset: &Meta, signer: &Meta, recipient: &Meta, height: u64) -> R<bool> {
        let Some(e) = a.ext(ROYALTIES) else { return Ok(false) };
        let (s, r, x) = (self.pre.get(&signer.key), self.pre.get(&recipient.key), self.pre.get(&asset.key));
        let wallet = height <= 1 && s.owner == SYSTEM && r.owner == SYSTEM;
        if !wallet {
            let (c, _) = Cons::parse(&e.data[8..]).ok_or("unreadable constraint")?;
            let t = [
                (asset.key, x.owner, x.data.is_empty()),
                (signer.key, s.owner, s.data.is_empty()),
                (recipient.key, r.owner, r.data.is_empty()),
            ];
            ensure(c.eval(&t), "royalty constraint not met")?;
        }
        Ok(true)
    }

    fn holds(d: Option<(Pubkey, u8)>, who: &Pubkey, role: u8) -> bool {
        matches!(d, Some((k, r)) if k == *who && r & role != 0)
    }

    fn step(&mut self, op: &Op, height: u64) -> R<()> {
        // a proxied asset takes part only with the signature of its program
        if let Some(m) = self.metas.first() {
            let a = self.w.get(&m.key);
            if a.owner == PROGRAM && a.data.len() > 2 && a.data[2] == 3 {
                ensure(m.signer, "proxied asset must sign")?;
            }
        }
        let locked = self.metas.iter().any(|m| {
            let a = self.w.get(&m.key);
            a.owner == PROGRAM && a.data.len() > 1 && a.data[0] == 1 && a.data[1] == 1
        });
        if locked && matches!(op, Op::Approve(_) | Op::Burn | Op::Lock | Op::Revoke(_) | Op::Transfer) {
            return Err("a locked asset takes part");
        }
        let (need, _) = account_shape(op.disc());
        ensure(self.metas.len() >= need, "not enough accounts")?;

        match op {
            Op::Close => {
                let (b, to) = (self.m(0), self.m(1));
                ensure(b.signer, "buffer must sign")?;
                let a = self.w.get(&b.key);
                ensure(a.owner == PROGRAM, "not owned by the program")?;
                ensure(a.data.first().map_or(true, |d| *d == 0), "already initialized")?;
                self.close(&b.key, &to.key)
            }
            Op::Burn => {
                let (asset, signer) = (self.m(0), self.m(1));
                ensure(signer.signer, "signer must sign")?;
                let a = self.asset(&asset.key)?;
                ensure(
                    a.owner == signer.key
                        || Self::holds(a.delegate, &signer.key, BURN)
                        || Self::holds(a.manager(), &signer.key, BURN),
                    "neither owner nor burn delegate",
                )?;
                if let Some(g) = a.group {
                    let gm = self.opt(3).ok_or("group account required")?;
                    ensure(gm.key == g, "wrong group account")?;
                    let mut ga = self.asset(&g)?;
                    let grp = ga.grouping().ok_or("not a group")?;
                    ensure(grp.size > 0, "group size underflow")?;
                    ga.ext_mut(GROUPING).unwrap().data[..8].copy_from_slice(&(grp.size - 1).to_le_bytes());
                    self.put(&g, &ga);
                }
                if let Some(grp) = a.grouping() {
                    ensure(grp.size == 0, "group not empty")?;
                }
                let to = self.opt(2).unwrap_or(signer);
                self.close(&asset.key, &to.key)
            }
            Op::Create { name, standard, mutable, exts } => {
                let (asset, authority, owner) = (self.m(0), self.m(1), self.m(2));
                let (group, gauth, payer, system) = (self.opt(3), self.opt(4), self.opt(5), self.opt(6));
                ensure(asset.signer, "asset must sign")?;
                if self.w.get(&asset.key).data.is_empty() {
                    let space = ASSET_LEN
                        + exts
                            .iter()
                            .flatten()
                            .map(|e| pad8(EXT_LEN + e.length as usize))
                            .sum::<usize>();
                    self.create_account(&asset, space, payer, system)?;
                } else {
                    self.buffer(&asset.key)?;
                }
                let before = self.buffer(&asset.key)?.exts.len();
                for e in exts.iter().flatten() {
                    self.allocate(&asset, payer, system, e)?;
                }
                if exts.as_ref().map_or(0, |v| v.len()) > 1 {
                    self.unordered.push(asset.key);
                }
                let _ = before;
                let mut m = self.buffer(&asset.key)?;
                ensure(m.complete(), "incomplete extension")?;
                ensure(m.end() <= m.len, "incomplete extension")?;
                for i in 0..m.exts.len() {
                    let c = on_create(m.exts[i].ty, &m.exts[i].data, Some(&authority.key));
                    m.exts[i].data = self.content(c)?;
                }
                m.disc = 1;
                m.state = 0;
                m.standard = *standard;
                m.mutable = *mutable;
                m.owner = owner.key;
                m.authority = authority.key;
                m.name = name35(name);
                ensure((*standard == 1) == m.ext(MANAGER).is_some(), "managed standard and manager extension disagree")?;
                ensure((*standard == 3) == m.ext(PROXY).is_some(), "proxied standard and proxy extension disagree")?;
                if let Some(p) = m.ext(PROXY) {
                    let k = Pubkey::create_program_address(&[&p.data[32..64], &p.data[64..65]], &key(&p.data))
                        .map_err(|_| "invalid proxy derivation")?;
                    ensure(k == asset.key, "asset address is not the proxy derivation")?;
                }
                self.put(&asset.key, &m);
                if let Some(g) = group {
                    self.group(&asset, &g, &gauth.unwrap_or(authority))?;
                }
                Ok(())
            }
            Op::Approve(r) => {
                let (asset, owner, delegate) = (self.m(0), self.m(1), self.m(2));
                let mut a = self.asset(&asset.key)?;
                ensure(a.owner == owner.key && owner.signer, "owner must sign")?;
                let keep = match a.delegate {
                    Some((k, old)) if k == delegate.key => old,
                    _ => 0,
                };
                if opt(delegate.key).is_none() {
                    // approving the null address leaves no delegate; whether it is an error is open
                    self.open = true;
                }
                a.delegate = opt(delegate.key).map(|k| (k, keep | r.mask()));
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Allocate(e) => {
                let (asset, payer, system) = (self.m(0), self.opt(1), self.opt(2));
                self.allocate(&asset, payer, system, e)
            }
            Op::Lock | Op::Unlock => {
                let (asset, signer) = (self.m(0), self.m(1));
                ensure(signer.signer, "signer must sign")?;
                let mut a = self.asset(&asset.key)?;
                let ok = match a.delegate {
                    Some(_) => {
                        Self::holds(a.delegate, &signer.key, LOCK) || Self::holds(a.manager(), &signer.key, LOCK)
                    }
                    None => a.owner == signer.key || Self::holds(a.manager(), &signer.key, LOCK),
                };
                ensure(ok, "not allowed to lock")?;
                a.state = matches!(op, Op::Lock) as u8;
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Revoke(r) => {
                let (asset, signer) = (self.m(0), self.m(1));
                ensure(signer.signer, "signer must sign")?;
                let mut a = self.asset(&asset.key)?;
                ensure(
                    a.owner == signer.key || a.delegate.map(|d| d.0) == Some(signer.key),
                    "neither owner nor delegate",
                )?;
                a.delegate = match r {
                    Roles::All => None,
                    Roles::Some(_) => {
                        a.delegate.map(|(k, old)| (k, old & !r.mask())).filter(|(_, left)| *left != 0)
                    }
                };
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Transfer => {
                let (asset, signer, to, group) = (self.m(0), self.m(1), self.m(2), self.opt(3));
                ensure(signer.signer, "signer must sign")?;
                let mut a = self.asset(&asset.key)?;
                let checked = self.royalties(&a, &asset, &signer, &to, height)?;
                ensure(a.standard != 2, "soulbound")?;
                ensure(
                    a.owner == signer.key
                        || Self::holds(a.delegate, &signer.key, TRANSFER)
                        || Self::holds(a.manager(), &signer.key, TRANSFER),
                    "neither owner nor transfer delegate",
                )?;
                if a.owner == to.key {
                    return Ok(());
                }
                if let (Some(g), false) = (a.group, checked) {
                    let gm = group.ok_or("group account required")?;
                    ensure(gm.key == g, "wrong group account")?;
                    let ga = self.asset(&g)?;
                    self.royalties(&ga, &asset, &signer, &to, height)?;
                }
                a.owner = to.key;
                a.delegate = None;
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Verify | Op::Unverify => {
                let (asset, creator) = (self.m(0), self.m(1));
                ensure(creator.signer, "creator must sign")?;
                let mut a = self.asset(&asset.key)?;
                let e = a.ext_mut(CREATORS).ok_or("no creators")?;
                let mut found = false;
                for c in e.data.chunks_exact_mut(34) {
                    if key(c) == creator.key {
                        c[32] = matches!(op, Op::Verify) as u8;
                        found = true;
                    }
                }
                ensure(found, "not a creator")?;
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Update { name, mutable, ext } => {
                let (asset, authority) = (self.m(0), self.m(1));
                let (buffer, payer, system) = (self.opt(2), self.opt(4), self.opt(5));
                ensure(authority.signer, "authority must sign")?;
                let mut a = self.asset(&asset.key)?;
                ensure(a.authority == authority.key, "not the authority")?;
                ensure(a.mutable, "immutable")?;
                if let Some(n) = name {
                    a.name = name35(n);
                }
                if let Some(m) = mutable {
                    a.mutable = *m;
                }
                ensure(!(ext.is_some() && buffer.is_some()), "both arguments and buffer")?;
                let new: Option<(u32, Vec<u8>)> = if let Some(b) = buffer {
                    ensure(b.key != asset.key, "asset is its own buffer")?;
                    let bm = self.buffer(&b.key)?;
                    let e = bm.exts.first().ok_or("empty buffer")?;
                    ensure(e.data.len() == e.length, "incomplete buffer")?;
                    ensure(bm.len >= pad8(ASSET_LEN + EXT_LEN + e.length), "incomplete buffer")?;
                    Some((e.ty, e.data.clone()))
                } else if let Some(e) = ext {
                    let d = e.data.clone().unwrap_or_default();
                    ensure(d.len() == e.length as usize, "length mismatch")?;
                    Some((e.ty as u32, d))
                } else {
                    None
                };
                if let Some((ty, d)) = new {
                    ensure(ty != 0, "no extension type")?;
                    let cur = a.exts.iter().position(|e| e.ty == ty);
                    let c = match cur {
                        Some(i) => on_update(ty, &a.exts[i].data, &d, &authority.key),
                        None => {
                            ensure(ty != MANAGER && ty != PROXY, "manager and proxy are set at creation only")?;
                            on_create(ty, &d, Some(&authority.key))
                        }
                    };
                    let d = self.content(c)?;
                    if let Some(b) = buffer {
                        // the buffer may be left as it was, or carry the validated content
                        let orig = self.w.get(&b.key).data.clone();
                        let mut bm = self.buffer(&b.key)?;
                        bm.exts[0].data = d.clone();
                        self.put(&b.key, &bm);
                        self.buffer = Some((b.key, orig));
                    }
                    let old_len = a.len;
                    match cur {
                        Some(i) => {
                            let resized = a.exts[i].length != d.len();
                            let old_end = a.end();
                            a.exts[i] = ExtM::full(ty, d);
                            let end = a.end();
                            if resized && end != old_end {
                                self.fund(&asset.key, old_len, end, payer, system)?;
                                a.len = end;
                            }
                        }
                        None => {
                            a.exts.push(ExtM::full(ty, d));
                            let end = a.end();
                            self.fund(&asset.key, old_len, end, payer, system)?;
                            a.len = end;
                        }
                    }
                }
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Write { overwrite, bytes } => {
                let (asset, payer, system) = (self.m(0), self.m(1), self.m(2));
                ensure(system.key == SYSTEM, "wrong system program")?;
                ensure(payer.signer, "payer must sign")?;
                ensure(asset.signer, "asset must sign")?;
                let mut m = self.buffer(&asset.key)?;
                let start = {
                    let mut t = m.clone();
                    t.exts.pop().ok_or("nothing allocated")?;
                    t.end() + EXT_LEN
                };
                let e = m.exts.last_mut().unwrap();
                if e.data.len() == e.length {
                    // the extension is complete: rewriting it is not promised
                    self.open = true;
                }
                if *overwrite {
                    e.data = bytes.clone();
                } else {
                    e.data.extend_from_slice(bytes);
                }
                ensure(e.data.len() <= e.length, "more data than the declared length")?;
                let old = m.len;
                let len = if e.data.len() == e.length { pad8(start + e.length) } else { start + e.data.len() };
                if e.data.len() == e.length {
                    let c = on_create(e.ty, &e.data.clone(), None);
                    let d = self.content(c)?;
                    m.exts.last_mut().unwrap().data = d;
                }
                self.fund(&asset.key, old, len, Some(payer), Some(system))?;
                m.len = len;
                self.put(&asset.key, &m);
                Ok(())
            }
            Op::Group => {
                let (a, g, s) = (self.m(0), self.m(1), self.m(2));
                self.group(&a, &g, &s)
            }
            Op::Ungroup => {
                let (asset, group, authority) = (self.m(0), self.m(1), self.m(2));
                ensure(authority.signer, "authority must sign")?;
                ensure(asset.key != group.key, "an asset cannot be its own group")?;
                let mut a = self.asset(&asset.key)?;
                let mut g = self.asset(&group.key)?;
                ensure(a.group == Some(group.key), "not in this group")?;
                let grp = g.grouping().ok_or("not a group")?;
                ensure(
                    authority.key == g.authority || grp.delegate == Some(authority.key),
                    "neither the group authority nor its delegate",
                )?;
                a.group = None;
                g.ext_mut(GROUPING).unwrap().data[..8].copy_from_slice(&grp.size.wrapping_sub(1).to_le_bytes());
                self.put(&asset.key, &a);
                self.put(&group.key, &g);
                Ok(())
            }
            Op::Handover => {
                let (asset, old, new) = (self.m(0), self.m(1), self.m(2));
                ensure(old.signer && new.signer, "both authorities must sign")?;
                let mut a = self.asset(&asset.key)?;
                ensure(a.authority == old.key, "not the authority")?;
                ensure(a.mutable, "immutable")?;
                a.authority = new.key;
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Remove(t) => {
                let (asset, authority, to) = (self.m(0), self.m(1), self.m(3));
                ensure(authority.signer, "authority must sign")?;
                let mut a = self.asset(&asset.key)?;
                ensure(a.authority == authority.key, "not the authority")?;
                ensure(a.mutable, "immutable")?;
                let t = *t as u32;
                let i = a.exts.iter().position(|e| e.ty == t && t != 0).ok_or("no such extension")?;
                ensure(t != MANAGER && t != PROXY, "manager and proxy cannot be removed")?;
                if t == GROUPING {
                    ensure(a.grouping().unwrap().size == 0, "group not empty")?;
                }
                let old = a.len;
                let end = a.end();
                a.exts.remove(i);
                a.len = old - (end - a.end());
                self.fund(&asset.key, old, a.len, Some(to), None)?;
                self.put(&asset.key, &a);
                Ok(())
            }
            Op::Resize(v) => {
                let (asset, authority, payer, system) = (self.m(0), self.m(1), self.m(2), self.opt(3));
                ensure(authority.signer, "authority must sign")?;
                let mut a = self.asset(&asset.key)?;
                ensure(a.authority == authority.key, "not the authority")?;
                ensure(a.mutable, "immutable")?;
                let old = a.len;
                a.len = match v {
                    None => a.end(),
                    Some(n) => old + *n as usize,
                };
                self.fund(&asset.key, old, a.len, Some(payer), system)?;
                self.put(&asset.key, &a);
                Ok(())
            }
        }
    }
}

pub fn name35(s: &str) -> [u8; 35] {
    let mut n = [0u8; 35];
    let k = s.len().min(35);
    n[..k].copy_from_slice(&s.as_bytes()[..k]);
    n
}

/// The reference semantics of one instruction.
pub fn expect(w: &World, ix: &Ix, height: u64) -> Expect {
    let Some(op) = Op::decode(&ix.data) else { return Expect::Err("malformed instruction data") };
    let merged = ix.merged();
    let metas: Vec<Meta> = merged.iter().take(7).copied().collect();
    let mut s = S { pre: w, w: w.clone(), metas, open: false, unordered: vec![], buffer: None };
    if let Err(e) = s.step(&op, height) {
        return Expect::Err(e);
    }
    // the validator's own rules (read-only accounts, rent, growth)
    let mut post = vec![];
    let mut seen: Vec<Pubkey> = vec![];
    for m in &merged {
        if !seen.contains(&m.key) {
            seen.push(m.key);
            post.push((m.key, s.w.get(&m.key).clone()));
        }
    }
    let buffer_open = s.buffer.as_ref().map_or(false, |(k, orig)| {
        s.w.get(k).data != *orig && !merged.iter().any(|m| m.key == *k && m.writable)
    });
    if buffer_open {
        // whether a read-only buffer works depends on the program rewriting it in place
        if let Some((k, orig)) = &s.buffer {
            for p in post.iter_mut() {
                if p.0 == *k {
                    p.1.data = orig.clone();
                }
            }
        }
        s.open = true;
    }
    // data comparison inside settle is on canonical re-encodings: compare decoded accounts instead
    for (k, a) in post.iter_mut() {
        let old = w.get(k);
        if a.owner == PROGRAM && old.owner == PROGRAM && a.data.len() == old.data.len() && a.data != old.data {
            if let (Ok(x), Ok(y)) = (AssetM::parse(&a.data), AssetM::parse(&old.data)) {
                if x == y {
                    a.data = old.data.clone();
                }
            }
        }
    }
    match settle(w, post, &merged, &PROGRAM, true) {
        Err(_) => Expect::Err("violates the runtime's account rules"),
        Ok(world) => {
            let out = Out { world, unordered: s.unordered, buffer: s.buffer };
            if s.open {
                Expect::Open(out)
            } else {
                Expect::Ok(out)
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// comparison

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Aspect {
    /// accepted what has to be rejected
    Accepted,
    /// rejected what has to succeed
    Rejected,
    Owner,
    Delegate,
    Locked,
    Authority,
    Group,
    Mutable,
    Name,
    Standard,
    Init,
    Layout,
    ExtSet,
    ExtContent(u32),
    GroupSize,
    Verified,
    Lamports,
    Len,
    /// an account that should not change did, or ownership by program is off
    Other,
}

#[derive(Clone, Debug)]
pub struct Mismatch {
    pub aspect: Aspect,
    pub what: String,
}

/// Differences between what the program left behind and what it should have.
pub fn compare(exp: &Out, got: &World, name: &dyn Fn(&Pubkey) -> String) -> Vec<Mismatch> {
    let mut out: Vec<Mismatch> = vec![];
    let mut keys: Vec<&Pubkey> = exp.world.accts.keys().collect();
    for k in got.accts.keys() {
        if !exp.world.accts.contains_key(k) {
            keys.push(k);
        }
    }
    for k in keys {
        let (e, g) = (exp.world.get(k), got.get(k));
        if e == g {
            continue;
        }
        let n = name(k);
        let mut add = |aspect, what: String| out.push(Mismatch { aspect, what: format!("{n}: {what}") });
        if e.lamports != g.lamports {
            add(Aspect::Lamports, format!("lamports {} expected {}", g.lamports, e.lamports));
        }
        if e.owner != g.owner {
            add(Aspect::Other, format!("owned by {} expected {}", name(&g.owner), name(&e.owner)));
            if e.owner == PROGRAM || g.owner == PROGRAM {
                add(Aspect::Init, "account existence differs".into());
            }
            continue;
        }
        if e.data == g.data {
            continue;
        }
        if e.owner != PROGRAM || e.data.len() < ASSET_LEN {
            add(Aspect::Other, "data differs".into());
            continue;
        }
        if e.data.len() != g.data.len() {
            add(Aspect::Len, format!("length {} expected {}", g.data.len(), e.data.len()));
        }
        let em = match AssetM::parse(&e.data) {
            Ok(m) => m,
            Err(x) => {
                add(Aspect::Layout, format!("model produced a malformed account: {x}"));
                continue;
            }
        };
        let gm = match AssetM::parse(&g.data) {
            Ok(m) => m,
            Err(x) => {
                add(Aspect::Layout, format!("malformed account: {x}"));
                continue;
            }
        };
        if em == gm {
            continue;
        }
        if let Some((bk, orig)) = &exp.buffer {
            if bk == k {
                if let Ok(om) = AssetM::parse(orig) {
                    if om == gm {
                        continue;
                    }
                }
            }
        }
        if em.disc != gm.disc {
            add(Aspect::Init, format!("discriminator {} expected {}", gm.disc, em.disc));
        }
        if em.state != gm.state {
            add(Aspect::Locked, format!("state {} expected {}", gm.state, em.state));
        }
        if em.standard != gm.standard {
            add(Aspect::Standard, format!("standard {} expected {}", gm.standard, em.standard));
        }
        if em.mutable != gm.mutable {
            add(Aspect::Mutable, format!("mutable {} expected {}", gm.mutable, em.mutable));
        }
        if em.owner != gm.owner {
            add(Aspect::Owner, format!("asset owner {} expected {}", name(&gm.owner), name(&em.owner)));
        }
        if em.group != gm.group {
            add(Aspect::Group, format!("group {:?} expected {:?}", gm.group.map(|k| name(&k)), em.group.map(|k| name(&k))));
        }
        if em.authority != gm.authority {
            add(Aspect::Authority, format!("authority {} expected {}", name(&gm.authority), name(&em.authority)));
        }
        if em.delegate != gm.delegate {
            let f = |d: Option<(Pubkey, u8)>| d.map(|(k, r)| format!("{}/{:03b}", name(&k), r));
            add(Aspect::Delegate, format!("delegate {:?} expected {:?}", f(gm.delegate), f(em.delegate)));
        }
        if em.name != gm.name {
            add(Aspect::Name, format!("name {:?} expected {:?}", gm.name, em.name));
        }
        let mut ee = em.exts.clone();
        let mut ge = gm.exts.clone();
        if exp.unordered.contains(k) {
            ee.sort_by_key(|e| e.ty);
            ge.sort_by_key(|e| e.ty);
        }
        let tys = |v: &Vec<ExtM>| v.iter().map(|e| (e.ty, e.length)).collect::<Vec<_>>();
        if tys(&ee) != tys(&ge) {
            add(Aspect::ExtSet, format!("extensions (type,length) {:?} expected {:?}", tys(&ge), tys(&ee)));
        }
        for e in &ee {
            if let Some(g) = ge.iter().find(|g| g.ty == e.ty) {
                if g.data != e.data {
                    add(
                        Aspect::ExtContent(e.ty),
                        format!("content of extension type {} is {:?} expected {:?}", e.ty, short(&g.data), short(&e.data)),
                    );
                    if e.ty == GROUPING && g.data.len() >= 8 && e.data.len() >= 8 && g.data[..8] != e.data[..8] {
                        add(Aspect::GroupSize, format!("group size {} expected {}", u64at(&g.data, 0), u64at(&e.data, 0)));
                    }
                    if e.ty == CREATORS {
                        let f = |d: &[u8]| creators(d).iter().map(|c| (c.0, c.1)).collect::<Vec<_>>();
                        if f(&g.data) != f(&e.data) {
                            add(Aspect::Verified, "creator verification differs".into());
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn short(b: &[u8]) -> String {
    let h: String = b.iter().take(96).map(|x| format!("{x:02x}")).collect();
    if b.len() > 96 {
        format!("{h}..({} bytes)", b.len())
    } else {
        h
    }
}
