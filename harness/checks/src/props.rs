//! One entry per property: what is generated, which differences from the reference model break it,
//! and which situations count as exercising it.

use crate::gen::*;
use crate::hist::*;
use crate::model::*;
use pbt::{Meta, Part};
use vm::World;

const CLOSE: u8 = 0;
const BURN_: u8 = 1;
const CREATE: u8 = 2;
const APPROVE: u8 = 3;
const ALLOCATE: u8 = 4;
const LOCK_: u8 = 5;
const REVOKE: u8 = 6;
const TRANSFER_: u8 = 7;
const UNLOCK: u8 = 8;
const UNVERIFY: u8 = 9;
const UPDATE: u8 = 10;
const VERIFY: u8 = 11;
const WRITE: u8 = 12;
const GROUP: u8 = 13;
const UNGROUP: u8 = 14;
const HANDOVER: u8 = 15;
const REMOVE: u8 = 16;
const RESIZE: u8 = 17;

pub type Built = (Vec<Part<'static>>, Meta<'static>);

pub const RUNTIME: &str = "the mini runtime (account serialisation, system program transfers and account creation, rent, signer and writable rules) stands in for the Solana validator";
pub const MODEL: &str = "the reference model in checks/src/model.rs states the intended behaviour; differences it marks as open (for example non-canonical but readable contents) are not judged";

fn verdict(m: &Mismatch) -> bool {
    matches!(m.aspect, Aspect::Accepted | Aspect::Rejected)
}
fn accepted(m: &Mismatch) -> bool {
    m.aspect == Aspect::Accepted
}
fn rejected(m: &Mismatch) -> bool {
    m.aspect == Aspect::Rejected
}
fn because(s: &Step, m: &Mismatch, why: &[&str]) -> bool {
    accepted(m) && why.contains(&s.reason())
}
/// the extension type an instruction brings along
fn brings(s: &Step, ty: u32) -> bool {
    let has = |e: &ExtIn| e.ty as u32 == ty;
    match s.op {
        Some(Op::Create { exts, .. }) => {
            exts.iter().flatten().any(has) || s.subject().map_or(false, |b| b.ext(ty).is_some())
        }
        Some(Op::Allocate(e)) => has(e),
        Some(Op::Write { .. }) => s.subject().and_then(|b| b.exts.last().map(|e| e.ty == ty)).unwrap_or(false),
        Some(Op::Update { ext, .. }) => {
            ext.as_ref().map_or(false, has)
                || s.ix.metas.get(2).map_or(false, |m| {
                    AssetM::parse(&s.pre.get(&m.key).data).map_or(false, |b| b.disc == 0 && b.exts.first().map_or(false, |e| e.ty == ty))
                })
        }
        Some(Op::Remove(t)) => *t as u32 == ty,
        _ => false,
    }
}
fn signer_is_owner(s: &Step) -> bool {
    match (s.subject(), s.ix.metas.get(1)) {
        (Some(a), Some(m)) => a.owner == m.key,
        _ => false,
    }
}
fn group_of(s: &Step) -> Option<AssetM> {
    let g = s.subject()?.group?;
    AssetM::parse(&s.pre.get(&g).data).ok()
}

/// Size changes equal membership changes, counted over the whole world.
fn group_sizes(s: &Step, next: &World) -> Option<String> {
    let read = |w: &World| -> Vec<(solana_program::pubkey::Pubkey, AssetM)> {
        w.accts
            .iter()
            .filter(|(_, a)| a.owner == PROGRAM && a.data.len() >= ASSET_LEN && a.data[0] == 1)
            .filter_map(|(k, a)| AssetM::parse(&a.data).ok().map(|x| (*k, x)))
            .collect()
    };
    let (before, after) = (read(s.pre), read(next));
    for (k, a) in &after {
        let count = |v: &Vec<(solana_program::pubkey::Pubkey, AssetM)>| v.iter().filter(|x| x.1.group == Some(*k)).count() as u64;
        if let Some(g) = a.grouping() {
            let old = before.iter().find(|x| x.0 == *k).and_then(|x| x.1.grouping());
            let (s0, m0) = old.as_ref().map_or((0, 0), |o| (o.size, count(&before)));
            if g.size.wrapping_sub(s0) != count(&after).wrapping_sub(m0) {
                return Some(format!("{}: recorded group size went from {s0} to {} while its members went from {m0} to {}", name_of(k), g.size, count(&after)));
            }
            if g.max != 0 && g.size > g.max && old.map_or(true, |o| o.max == 0 || o.size <= o.max) {
                return Some(format!("{}: size {} above the maximum {}", name_of(k), g.size, g.max));
            }
        }
    }
    None
}

/// The program's own reader agrees with the reference decoding of every account it produced.
fn reread(s: &Step, next: &World) -> Option<String> {
    for m in &s.ix.metas {
        let a = next.get(&m.key);
        if a.owner != PROGRAM || a.data.len() < ASSET_LEN || a.data[0] != 1 || s.pre.get(&m.key) == a {
            continue;
        }
        if let Ok(x) = AssetM::parse(&a.data) {
            if let Some(e) = crate::types::reader_agrees(&a.data, &x) {
                return Some(format!("{}: {e}", name_of(&m.key)));
            }
        }
    }
    None
}

fn profile(id: &str) -> Option<(Profile, u64, &'static str)> {
    let d = Knobs::default();
    let any: fn(&Step) -> bool = |_| true;
    Some(match id {
        "ALL" => (Profile { knobs: d, concern: |_, _| true, undue: |_| true, relevant: any, after: None }, 100_000, ""),
        "C01" => (
            Profile {
                knobs: Knobs { ops: [0, 1, 2, 5, 1, 2, 3, 24, 2, 1, 2, 1, 1, 2, 2, 1, 1, 1], exts: [0, 2, 1, 1, 1, 1, 5, 8, 4, 1, 1, 1], standards: [6, 5, 1, 4], delegate: 60, grouped: 50, ..d },
                concern: |s, m| s.is(&[TRANSFER_]) || (m.aspect == Aspect::Owner && !s.is(&[CREATE])),
                undue: |a| a == Aspect::Owner,
                relevant: |s| s.is(&[TRANSFER_]),
                after: None,
            },
            500_000,
            "a step is non-trivial when it is a transfer; distinct by instruction, accounts, rights, balances and contents of the accounts named",
        ),
        "C02" => (
            Profile {
                knobs: Knobs { ops: [1, 4, 2, 5, 1, 10, 5, 6, 10, 1, 3, 1, 1, 2, 2, 1, 1, 1], standards: [6, 6, 2, 3], locked: 45, delegate: 50, ..d },
                concern: |s, m| s.is(&[LOCK_, UNLOCK]) || m.aspect == Aspect::Locked || because(s, m, &["a locked asset takes part"]),
                undue: |a| a == Aspect::Locked,
                relevant: |s| s.is(&[LOCK_, UNLOCK]) || s.reason() == "a locked asset takes part" || s.subject().map_or(false, |a| a.state == 1),
                after: None,
            },
            500_000,
            "a step is non-trivial when it locks or unlocks, or when a locked asset takes part",
        ),
        "C03" => (
            Profile {
                knobs: Knobs { ops: [0, 4, 1, 12, 1, 5, 10, 8, 5, 1, 2, 1, 1, 1, 1, 1, 1, 1], standards: [8, 6, 1, 2], delegate: 80, locked: 12, ..d },
                concern: |s, m| {
                    s.is(&[APPROVE, REVOKE])
                        || m.aspect == Aspect::Delegate
                        || (verdict(m) && s.is(&[TRANSFER_, BURN_, LOCK_, UNLOCK]) && (!signer_is_owner(s) || s.subject().map_or(false, |a| a.delegate.is_some())))
                },
                undue: |a| a == Aspect::Delegate,
                relevant: |s| s.is(&[APPROVE, REVOKE]) || (s.is(&[TRANSFER_, BURN_, LOCK_, UNLOCK]) && s.subject().map_or(false, |a| a.delegate.is_some())),
                after: None,
            },
            500_000,
            "a step is non-trivial when it approves or revokes, or transfers, burns, locks or unlocks an asset with a delegate",
        ),
        "C04" => (
            Profile {
                knobs: Knobs { ops: [9, 16, 3, 3, 4, 2, 2, 2, 2, 1, 3, 1, 3, 4, 3, 1, 1, 1], exts: [0, 2, 2, 1, 1, 1, 6, 2, 4, 1, 2, 1], standards: [6, 5, 2, 3], grouped: 55, buffers: 40, steps: 8, ..d },
                concern: |s, m| s.is(&[BURN_, CLOSE]) || (m.aspect == Aspect::Init && !s.is(&[CREATE])),
                undue: |a| a == Aspect::Init,
                relevant: |s| s.is(&[BURN_, CLOSE]),
                after: None,
            },
            500_000,
            "a step is non-trivial when it burns or closes an account",
        ),
        "C05" => (
            Profile {
                knobs: Knobs { ops: [0, 1, 2, 1, 2, 1, 1, 2, 1, 1, 14, 1, 2, 1, 1, 8, 6, 5], immutable: 25, ..d },
                concern: |s, m| {
                    (s.is(&[UPDATE, HANDOVER, REMOVE, RESIZE]) && m.aspect != Aspect::Lamports)
                        || (matches!(m.aspect, Aspect::Name | Aspect::Mutable | Aspect::Authority) && !s.is(&[CREATE]))
                        || (matches!(m.aspect, Aspect::ExtSet | Aspect::ExtContent(_) | Aspect::Len | Aspect::Layout) && !s.is(&[CREATE, ALLOCATE, WRITE, BURN_, CLOSE]))
                },
                undue: |a| matches!(a, Aspect::Name | Aspect::Mutable | Aspect::Authority | Aspect::ExtSet | Aspect::Len),
                relevant: |s| s.is(&[UPDATE, HANDOVER, REMOVE, RESIZE]),
                after: None,
            },
            400_000,
            "a step is non-trivial when it updates, hands over, removes an extension or resizes",
        ),
        "C06" => (
            Profile {
                knobs: Knobs { ops: [0, 1, 4, 1, 4, 1, 1, 1, 1, 2, 20, 2, 4, 2, 2, 1, 9, 7], exts: [0, 4, 5, 4, 4, 4, 3, 4, 2, 1, 4, 4], spare: 35, immutable: 3, perturb: 8, locked: 5, steps: 12, ..d },
                concern: |s, m| {
                    matches!(m.aspect, Aspect::Layout | Aspect::ExtSet | Aspect::ExtContent(_) | Aspect::Len | Aspect::Init)
                        || (rejected(m) && s.is(&[UPDATE, REMOVE, RESIZE, CREATE, ALLOCATE, WRITE]))
                        || (s.is(&[UPDATE, REMOVE, RESIZE]) && !verdict(m))
                        || because(s, m, &[
                            "unreadable extension data", "length mismatch", "incomplete buffer", "extension already present", "incomplete extension",
                            "previous extension incomplete", "more data than the declared length", "no such extension", "no extension type", "empty buffer",
                        ])
                },
                undue: |_| false,
                relevant: |s| s.is(&[UPDATE, REMOVE, RESIZE, CREATE, ALLOCATE, WRITE]) && s.accepted(),
                after: Some(reread),
            },
            300_000,
            "a step is non-trivial when it is an accepted update, removal, resize, creation, allocation or write",
        ),
        "C07" => (
            Profile {
                knobs: Knobs { ops: [0, 1, 5, 1, 3, 1, 1, 2, 1, 8, 14, 10, 2, 1, 1, 2, 3, 1], exts: [0, 1, 1, 18, 1, 1, 1, 1, 1, 1, 1, 1], immutable: 5, ..d },
                concern: |s, m| {
                    s.is(&[VERIFY, UNVERIFY])
                        || matches!(m.aspect, Aspect::Verified | Aspect::ExtContent(CREATORS))
                        || because(s, m, &["creator shares do not add up to 100", "verified creator removed", "verified creator unverified"])
                        || (verdict(m) && brings(s, CREATORS))
                },
                undue: |_| false,
                relevant: |s| s.is(&[VERIFY, UNVERIFY]) || brings(s, CREATORS),
                after: None,
            },
            400_000,
            "a step is non-trivial when it verifies or unverifies, or brings or edits a creator list",
        ),
        "C08" => (
            Profile {
                knobs: Knobs { ops: [0, 7, 7, 1, 2, 1, 1, 2, 1, 1, 7, 1, 1, 12, 10, 3, 3, 1], exts: [0, 1, 1, 1, 1, 1, 16, 1, 1, 1, 1, 1], standards: [8, 3, 2, 2], grouped: 65, locked: 6, immutable: 4, ..d },
                concern: |s, m| {
                    s.is(&[GROUP, UNGROUP])
                        || matches!(m.aspect, Aspect::Group | Aspect::GroupSize | Aspect::ExtContent(GROUPING))
                        || because(s, m, &[
                            "an asset cannot be its own group", "already in a group", "authority mismatch", "not a group", "neither the group authority nor its delegate",
                            "group is full", "group account required", "wrong group account", "group size underflow", "group not empty", "not in this group",
                            "group does not start empty", "maximum below the current group size",
                        ])
                        || (verdict(m) && brings(s, GROUPING))
                        || (verdict(m) && s.is(&[CREATE]) && s.ix.metas.get(3).map_or(false, |g| g.key != PROGRAM))
                        || (verdict(m) && s.is(&[BURN_]) && s.subject().map_or(false, |a| a.group.is_some() || a.ext(GROUPING).is_some()))
                },
                undue: |a| matches!(a, Aspect::Group | Aspect::GroupSize),
                relevant: |s| {
                    s.is(&[GROUP, UNGROUP])
                        || brings(s, GROUPING)
                        || (s.is(&[CREATE]) && s.ix.metas.get(3).map_or(false, |g| g.key != PROGRAM))
                        || (s.is(&[BURN_]) && s.subject().map_or(false, |a| a.group.is_some() || a.ext(GROUPING).is_some()))
                },
                after: Some(group_sizes),
            },
            400_000,
            "a step is non-trivial when it groups, ungroups, creates into a group, burns a member or a group, or brings, edits or removes a grouping",
        ),
        "C09" => (
            Profile {
                knobs: Knobs { ops: [0, 1, 3, 3, 2, 1, 1, 24, 1, 1, 6, 1, 2, 2, 2, 1, 2, 1], exts: [0, 1, 1, 1, 1, 1, 5, 20, 2, 1, 1, 1], standards: [8, 4, 1, 3], cpi: 50, locked: 3, perturb: 12, grouped: 60, ..d },
                concern: |s, m| {
                    (s.is(&[TRANSFER_]) && verdict(m))
                        || because(s, m, &["royalty above 100%", "royalty constraint not met"])
                        || (verdict(m) && brings(s, ROYALTIES))
                },
                undue: |_| false,
                relevant: |s| {
                    brings(s, ROYALTIES)
                        || (s.is(&[TRANSFER_]) && (s.subject().map_or(false, |a| a.ext(ROYALTIES).is_some()) || group_of(s).map_or(false, |a| a.ext(ROYALTIES).is_some())))
                },
                after: None,
            },
            450_000,
            "a step is non-trivial when it transfers an asset that carries royalties itself or through its group, or brings or edits royalties",
        ),
        "C10" => (
            Profile {
                knobs: Knobs { ops: [0, 3, 12, 3, 3, 3, 2, 8, 3, 2, 10, 2, 2, 2, 2, 2, 6, 2], exts: [0, 1, 1, 1, 1, 1, 2, 1, 6, 6, 1, 1], standards: [3, 5, 5, 5], ..d },
                concern: |s, m| {
                    matches!(m.aspect, Aspect::Standard | Aspect::ExtContent(MANAGER) | Aspect::ExtContent(PROXY))
                        || because(s, m, &[
                            "proxied asset must sign", "soulbound", "managed standard and manager extension disagree", "proxied standard and proxy extension disagree",
                            "invalid proxy derivation", "asset address is not the proxy derivation", "manager and proxy are set at creation only",
                            "manager and proxy cannot be removed", "proxy derivation changed",
                        ])
                        || (verdict(m) && (brings(s, MANAGER) || brings(s, PROXY)))
                        || (rejected(m) && s.subject().map_or(false, |a| a.disc == 1 && a.standard != 0))
                        || (rejected(m) && matches!(s.op, Some(Op::Create { standard, .. }) if *standard != 0))
                        || (m.aspect == Aspect::ExtSet && s.subject().map_or(false, |a| a.ext(MANAGER).is_some() || a.ext(PROXY).is_some()))
                },
                undue: |a| a == Aspect::Standard,
                relevant: |s| {
                    s.subject().map_or(false, |a| a.disc == 1 && a.standard != 0)
                        || matches!(s.op, Some(Op::Create { standard, .. }) if *standard != 0)
                        || brings(s, MANAGER)
                        || brings(s, PROXY)
                },
                after: None,
            },
            450_000,
            "a step is non-trivial when its subject is (or is created as) a managed, proxied or soulbound asset, or when it brings a manager or proxy data",
        ),
        "C11" => (
            Profile {
                knobs: Knobs { ops: [3, 1, 10, 1, 14, 1, 1, 1, 1, 1, 10, 1, 18, 1, 1, 1, 2, 1], buffers: 70, immutable: 3, perturb: 14, empty: 30, steps: 14, ..d },
                concern: |s, m| {
                    s.is(&[ALLOCATE, WRITE])
                        || (s.is(&[CREATE]) && s.subject().is_some())
                        || (s.is(&[UPDATE]) && s.ix.metas.get(2).map_or(false, |b| b.key != PROGRAM))
                        || because(s, m, &["incomplete extension", "previous extension incomplete", "more data than the declared length", "incomplete buffer", "empty buffer"])
                },
                undue: |_| false,
                relevant: |s| {
                    s.is(&[ALLOCATE, WRITE])
                        || (s.is(&[CREATE]) && s.subject().is_some())
                        || (s.is(&[UPDATE]) && s.ix.metas.get(2).map_or(false, |b| b.key != PROGRAM))
                },
                after: None,
            },
            200_000,
            "a step is non-trivial when it allocates, writes, creates from a buffer or updates from a buffer",
        ),
        "C12" => (
            Profile {
                knobs: Knobs { ops: [3, 4, 8, 1, 6, 1, 1, 1, 1, 1, 12, 1, 7, 1, 1, 1, 6, 9], spare: 40, immutable: 3, locked: 3, perturb: 15, ..d },
                concern: |s, m| {
                    matches!(m.aspect, Aspect::Lamports | Aspect::Len)
                        || because(s, m, &[
                            "payer required for a refund", "payer required", "system program required", "payer must sign", "wrong system program",
                            "funder must be a writable signer", "funder is not a wallet", "insufficient lamports", "account already in use", "new account must be a writable signer",
                        ])
                        || (rejected(m) && s.is(&[CREATE, ALLOCATE, WRITE, UPDATE, REMOVE, RESIZE, BURN_, CLOSE]))
                },
                undue: |_| false,
                relevant: |s| s.is(&[CREATE, ALLOCATE, WRITE, UPDATE, REMOVE, RESIZE, BURN_, CLOSE]),
                after: Some(|s, next| {
                    let total = |w: &World| w.accts.values().map(|a| a.lamports as u128).sum::<u128>();
                    (total(s.pre) != total(next)).then(|| format!("total balance went from {} to {}", total(s.pre), total(next)))
                }),
            },
            350_000,
            "a step is non-trivial when it is an instruction that can move lamports or resize an account",
        ),
        "C13" => (
            Profile {
                knobs: Knobs { perturb: 70, junk: 25, forged: 25, steps: 6, ..d },
                concern: |s, m| !rejected(m) || s.ix.metas.len() > 6,
                undue: |_| true,
                relevant: |s| matches!(s.expect, Expect::Err(_)),
                after: None,
            },
            700_000,
            "a step is non-trivial when the instruction has to be rejected",
        ),
        "C23" => (
            Profile {
                knobs: Knobs { ops: [1, 1, 30, 1, 8, 1, 1, 1, 1, 1, 1, 1, 6, 1, 1, 1, 1, 1], empty: 40, junk: 18, buffers: 40, perturb: 18, steps: 6, ..d },
                concern: |s, m| s.is(&[CREATE]) || m.aspect == Aspect::Init,
                undue: |_| false,
                relevant: |s| s.is(&[CREATE]),
                after: None,
            },
            500_000,
            "a step is non-trivial when it is a creation",
        ),
        _ => return None,
    })
}

const JS: &str = "the JavaScript clients run on a stand-in for the umi framework (js/stubs): addresses, serializers, transaction builder and account queries of its published interface; the framework itself is not installed here";

pub fn build(id: &str, thorough: bool) -> Option<Built> {
    let x = if thorough { 120 } else { 6 };
    let mut parts: Vec<Part<'static>> = vec![];
    let mut rule = "";
    let mut assumptions: &'static [&'static str] = &[];
    if let Some((p, n, r)) = profile(id) {
        parts.push(Part { name: "history", f: Box::new(move |s, c| history(&p, s, c)), cases: n * x });
        rule = r;
        assumptions = &[RUNTIME, MODEL];
    }
    match id {
        "C14" => {
            parts.push(Part { name: "round-trip", f: Box::new(crate::types::c14), cases: 350_000 * x });
            rule = "a case is non-trivial when the extension built has more than 8 bytes; distinct by type and bytes";
        }
        "C15" => {
            parts.push(Part { name: "formula", f: Box::new(crate::types::c15), cases: 800_000 * x });
            rule = "a case is non-trivial when the constraint is not just empty; distinct by constraint and evaluation contexts";
        }
        "C16" => {
            parts.push(Part { name: "accounts", f: Box::new(crate::types::c16), cases: 300_000 * x });
            rule = "a case is non-trivial when the account has at least two extensions, an unknown type, a legacy encoding or spare space; distinct by account bytes";
        }
        "C17" => {
            parts.push(Part { name: "instructions", f: Box::new(crate::client::c17), cases: 300_000 * x });
            rule = "every instruction built is non-trivial; distinct by instruction, style, accounts, rights and arguments";
            assumptions = &[RUNTIME, "the accounts and rights an instruction needs are those the programs document (programs/*/src/instruction.rs), restated in tools/glue.py", "the asset program is taken as given: the client's instruction is compared with the same instruction written by hand"];
        }
        "C18" => {
            parts.push(Part { name: "mint", f: Box::new(crate::mint::mint), cases: 180_000 * x });
            parts.push(Part { name: "macros", f: Box::new(crate::mint::macros), cases: 180_000 * x });
            parts.push(Part { name: "json", f: Box::new(crate::mint::json), cases: 180_000 * x });
            rule = "every helper call is non-trivial; distinct by the data transmitted";
            assumptions = &[RUNTIME, MODEL];
        }
        "C19" => {
            parts.push(Part { name: "assets", f: Box::new(crate::decode::c19), cases: 150_000 * x });
            parts.push(Part { name: "others", f: Box::new(crate::decode::others), cases: 5_000 * x });
            rule = "every account decoded is non-trivial; distinct by its bytes";
            assumptions = &[RUNTIME, "the stored form of accounts is the reference decoding in checks/src/model.rs, cross-checked with the program's own reader"];
        }
        "C20" => {
            parts.push(Part { name: "proxy", f: Box::new(crate::proxy::c20), cases: 90_000 * x });
            rule = "a step is non-trivial when it reaches the proxy's handling of an existing proxied asset (or a creation), or goes straight to the asset program for one; distinct by instruction and contents";
            assumptions = &[RUNTIME, "the asset program itself is taken as given (its own properties judge it): this check judges what the proxy adds"];
        }
        "C21" => {
            parts.push(Part { name: "bridge", f: Box::new(crate::bridge::c21), cases: 75_000 * x });
            rule = "a step is non-trivial when the instruction decodes and has enough accounts; distinct by instruction and contents of the accounts named";
            assumptions = &[RUNTIME, "the asset program is taken as given (its own properties judge it)", "the token and token metadata programs are a stand-in that moves one token with its owner's signature and checks the derived addresses", "nobody sends the asset or the token to the vault other than through the bridge"];
        }
        "C22" => {
            parts.push(Part { name: "round-trip", f: Box::new(crate::idl::roundtrip), cases: 25_000 * x });
            parts.push(Part { name: "damaged", f: Box::new(crate::idl::damaged), cases: 15_000 * x });
            parts.push(Part { name: "own", f: Box::new(crate::idl::own), cases: 200 * x });
            rule = "every binary parsed is non-trivial; distinct by its bytes";
            assumptions = &["the binaries are generated: 64-bit little-endian ELF images whose .idl.* sections hold a location and a size the way the Solana linker lays out a static byte slice; no Solana linker is available here"];
        }
        "C24" => {
            parts.push(Part { name: "instructions", f: Box::new(crate::published::instructions), cases: 400_000 * x });
            parts.push(Part { name: "accounts", f: Box::new(crate::published::accounts), cases: 100_000 * x });
            rule = "every instruction encoded, account decoded and error code looked up is non-trivial; distinct by description and contents";
            assumptions = &[RUNTIME, "the two types the descriptions leave to hand-written code (nullable addresses, role sets) are read as 32 bytes and one byte"];
        }
        "C25" => {
            parts.push(Part { name: "instructions", f: Box::new(crate::js::instructions), cases: 20_000 * x });
            parts.push(Part { name: "values", f: Box::new(crate::js::values), cases: 20_000 * x });
            parts.push(Part { name: "helpers", f: Box::new(crate::js::helpers), cases: 5_000 * x });
            rule = "every instruction and extension value built, and every transaction list of a helper, is non-trivial; distinct by contents";
            assumptions = &[RUNTIME, JS];
        }
        "C26" => {
            parts.push(Part { name: "accounts", f: Box::new(crate::js::accounts), cases: 10_000 * x });
            parts.push(Part { name: "others", f: Box::new(crate::js::others), cases: 10_000 * x });
            rule = "every account decoded, error code and derived address looked up is non-trivial; distinct by contents";
            assumptions = &[RUNTIME, JS];
        }
        _ => {}
    }
    if parts.is_empty() {
        return None;
    }
    // development aid: a fraction of the cases
    if let Some(n) = std::env::var("VP_PERMILLE").ok().and_then(|v| v.parse::<u64>().ok()) {
        parts.iter_mut().for_each(|p| p.cases = p.cases * n / 1000);
    }
    Some((parts, Meta { rule, assumptions }))
}
