//! Written by tools/glue.py: do not edit.

use crate::model::Op;
use crate::client::*;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey};

pub const ASSET_TABLE: &[(&str, &[(&str, &str)])] = &[
    ("Close", &[("buffer", "ws"), ("recipient", "w")]),
    ("Burn", &[("asset", "w"), ("signer", "ws"), ("recipient", "ow"), ("group", "ow")]),
    ("Create", &[("asset", "ws"), ("authority", "?"), ("owner", ""), ("group", "ow"), ("group_authority", "os"), ("payer", "osw"), ("system_program", "o")]),
    ("Approve", &[("asset", "w"), ("owner", "s"), ("delegate", "")]),
    ("Allocate", &[("asset", "ws"), ("payer", "osw"), ("system_program", "o")]),
    ("Lock", &[("asset", "w"), ("signer", "s")]),
    ("Revoke", &[("asset", "w"), ("signer", "s")]),
    ("Transfer", &[("asset", "w"), ("signer", "s"), ("recipient", ""), ("group", "o")]),
    ("Unlock", &[("asset", "w"), ("signer", "s")]),
    ("Unverify", &[("asset", "w"), ("creator", "s")]),
    ("Update", &[("asset", "w"), ("authority", "s"), ("buffer", "ow"), ("group", "o"), ("payer", "osw"), ("system_program", "o")]),
    ("Verify", &[("asset", "w"), ("creator", "s")]),
    ("Write", &[("asset", "ws"), ("payer", "sw"), ("system_program", "")]),
    ("Group", &[("asset", "w"), ("group", "w"), ("authority", "s")]),
    ("Ungroup", &[("asset", "w"), ("group", "w"), ("authority", "s")]),
    ("Handover", &[("asset", "w"), ("authority", "s"), ("new_authority", "s")]),
    ("Remove", &[("asset", "w"), ("authority", "s"), ("group", "o"), ("recipient", "w")]),
    ("Resize", &[("asset", "w"), ("authority", "s"), ("payer", "?w"), ("system_program", "o")]),
];
pub const BRIDGE_TABLE: &[(&str, &[(&str, &str)])] = &[
    ("Bridge", &[("asset", "w"), ("vault", "w"), ("owner", "s"), ("token", "w"), ("mint", ""), ("metadata", "w"), ("master_edition", ""), ("token_record", "ow"), ("vault_token", "w"), ("vault_token_record", "ow"), ("payer", "sw"), ("nifty_asset_program", ""), ("token_metadata_program", ""), ("system_program", ""), ("sysvar_instructions", ""), ("spl_token_program", ""), ("spl_ata_program", ""), ("authorization_rules_program", "o"), ("authorization_rules", "o"), ("group_asset", "o")]),
    ("Create", &[("asset", "w"), ("vault", "w"), ("mint", ""), ("metadata", ""), ("update_authority", "?"), ("collection", "o"), ("payer", "sw"), ("system_program", ""), ("nifty_asset_program", "")]),
];

#[allow(unused_variables)]
pub fn asset_direct(op: &Op, a: &[(Option<Pubkey>, bool)], rem: &[solana_program::instruction::AccountMeta]) -> solana_program::instruction::Instruction {
    match op {
        Op::Close => {
            let x = nifty_asset::instructions::Close { buffer: a[0].0.unwrap(), recipient: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Burn => {
            let x = nifty_asset::instructions::Burn { asset: a[0].0.unwrap(), signer: a[1].0.unwrap(), recipient: a[2].0, group: a[3].0 };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Create { name, standard, mutable, exts } => {
            let x = nifty_asset::instructions::Create { asset: a[0].0.unwrap(), authority: (a[1].0.unwrap(), a[1].1), owner: a[2].0.unwrap(), group: a[3].0, group_authority: a[4].0, payer: a[5].0, system_program: a[6].0 };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) }, rem) }
        }
        Op::Approve(r) => {
            let x = nifty_asset::instructions::Approve { asset: a[0].0.unwrap(), owner: a[1].0.unwrap(), delegate: a[2].0.unwrap() };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::ApproveInstructionArgs { delegate_input: roles_of(r) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::ApproveInstructionArgs { delegate_input: roles_of(r) }, rem) }
        }
        Op::Allocate(e) => {
            let x = nifty_asset::instructions::Allocate { asset: a[0].0.unwrap(), payer: a[1].0, system_program: a[2].0 };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::AllocateInstructionArgs { extension: ext_of(e) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::AllocateInstructionArgs { extension: ext_of(e) }, rem) }
        }
        Op::Lock => {
            let x = nifty_asset::instructions::Lock { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Revoke(r) => {
            let x = nifty_asset::instructions::Revoke { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::RevokeInstructionArgs { delegate_input: roles_of(r) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::RevokeInstructionArgs { delegate_input: roles_of(r) }, rem) }
        }
        Op::Transfer => {
            let x = nifty_asset::instructions::Transfer { asset: a[0].0.unwrap(), signer: a[1].0.unwrap(), recipient: a[2].0.unwrap(), group: a[3].0 };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Unlock => {
            let x = nifty_asset::instructions::Unlock { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Unverify => {
            let x = nifty_asset::instructions::Unverify { asset: a[0].0.unwrap(), creator: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Update { name, mutable, ext } => {
            let x = nifty_asset::instructions::Update { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), buffer: a[2].0, group: a[3].0, payer: a[4].0, system_program: a[5].0 };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) }, rem) }
        }
        Op::Verify => {
            let x = nifty_asset::instructions::Verify { asset: a[0].0.unwrap(), creator: a[1].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Write { overwrite, bytes } => {
            let x = nifty_asset::instructions::Write { asset: a[0].0.unwrap(), payer: a[1].0.unwrap(), system_program: a[2].0.unwrap() };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() }, rem) }
        }
        Op::Group => {
            let x = nifty_asset::instructions::Group { asset: a[0].0.unwrap(), group: a[1].0.unwrap(), authority: a[2].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Ungroup => {
            let x = nifty_asset::instructions::Ungroup { asset: a[0].0.unwrap(), group: a[1].0.unwrap(), authority: a[2].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Handover => {
            let x = nifty_asset::instructions::Handover { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), new_authority: a[2].0.unwrap() };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        Op::Remove(t) => {
            let x = nifty_asset::instructions::Remove { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), group: a[2].0, recipient: a[3].0.unwrap() };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::RemoveInstructionArgs { extension_type: type_of(*t) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::RemoveInstructionArgs { extension_type: type_of(*t) }, rem) }
        }
        Op::Resize(v) => {
            let x = nifty_asset::instructions::Resize { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), payer: (a[2].0.unwrap(), a[2].1), system_program: a[3].0 };
            if rem.is_empty() { x.instruction(nifty_asset::instructions::ResizeInstructionArgs { strategy: strategy_of(*v) }) } else { x.instruction_with_remaining_accounts(nifty_asset::instructions::ResizeInstructionArgs { strategy: strategy_of(*v) }, rem) }
        }
    }
}

#[allow(unused_variables)]
pub fn asset_builder(op: &Op, a: &[(Option<Pubkey>, bool)], rem: &[solana_program::instruction::AccountMeta], skip: bool, rev: bool) -> solana_program::instruction::Instruction {
    match op {
        Op::Close => {
            let mut b = nifty_asset::instructions::CloseBuilder::new();
            if rev {
                b.recipient(a[1].0.unwrap());
                b.buffer(a[0].0.unwrap());
            } else {
                b.buffer(a[0].0.unwrap());
                b.recipient(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Burn => {
            let mut b = nifty_asset::instructions::BurnBuilder::new();
            if rev {
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[2].0.is_some() || !skip { b.recipient(a[2].0); }
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.recipient(a[2].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Create { name, standard, mutable, exts } => {
            let mut b = nifty_asset::instructions::CreateBuilder::new();
            if rev {
                if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) { b.extensions(v); }
                if !(skip && *mutable) { b.mutable(*mutable); }
                if !(skip && *standard == 0) { b.standard(standard_of(*standard)); }
                b.name(name.clone());
                if a[6].0.is_some() || !skip { b.system_program(a[6].0); }
                if a[5].0.is_some() || !skip { b.payer(a[5].0); }
                if a[4].0.is_some() || !skip { b.group_authority(a[4].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                b.owner(a[2].0.unwrap());
                b.authority(a[1].0.unwrap(), a[1].1);
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap(), a[1].1);
                b.owner(a[2].0.unwrap());
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[4].0.is_some() || !skip { b.group_authority(a[4].0); }
                if a[5].0.is_some() || !skip { b.payer(a[5].0); }
                if a[6].0.is_some() || !skip { b.system_program(a[6].0); }
                b.name(name.clone());
                if !(skip && *standard == 0) { b.standard(standard_of(*standard)); }
                if !(skip && *mutable) { b.mutable(*mutable); }
                if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) { b.extensions(v); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Approve(r) => {
            let mut b = nifty_asset::instructions::ApproveBuilder::new();
            if rev {
                b.delegate_input(roles_of(r));
                b.delegate(a[2].0.unwrap());
                b.owner(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.owner(a[1].0.unwrap());
                b.delegate(a[2].0.unwrap());
                b.delegate_input(roles_of(r));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Allocate(e) => {
            let mut b = nifty_asset::instructions::AllocateBuilder::new();
            if rev {
                b.extension(ext_of(e));
                if a[2].0.is_some() || !skip { b.system_program(a[2].0); }
                if a[1].0.is_some() || !skip { b.payer(a[1].0); }
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                if a[1].0.is_some() || !skip { b.payer(a[1].0); }
                if a[2].0.is_some() || !skip { b.system_program(a[2].0); }
                b.extension(ext_of(e));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Lock => {
            let mut b = nifty_asset::instructions::LockBuilder::new();
            if rev {
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Revoke(r) => {
            let mut b = nifty_asset::instructions::RevokeBuilder::new();
            if rev {
                b.delegate_input(roles_of(r));
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.delegate_input(roles_of(r));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Transfer => {
            let mut b = nifty_asset::instructions::TransferBuilder::new();
            if rev {
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                b.recipient(a[2].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.recipient(a[2].0.unwrap());
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Unlock => {
            let mut b = nifty_asset::instructions::UnlockBuilder::new();
            if rev {
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Unverify => {
            let mut b = nifty_asset::instructions::UnverifyBuilder::new();
            if rev {
                b.creator(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.creator(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Update { name, mutable, ext } => {
            let mut b = nifty_asset::instructions::UpdateBuilder::new();
            if rev {
                if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
                if let Some(v) = *mutable { b.mutable(v); }
                if let Some(v) = name.clone() { b.name(v); }
                if a[5].0.is_some() || !skip { b.system_program(a[5].0); }
                if a[4].0.is_some() || !skip { b.payer(a[4].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[2].0.is_some() || !skip { b.buffer(a[2].0); }
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.buffer(a[2].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[4].0.is_some() || !skip { b.payer(a[4].0); }
                if a[5].0.is_some() || !skip { b.system_program(a[5].0); }
                if let Some(v) = name.clone() { b.name(v); }
                if let Some(v) = *mutable { b.mutable(v); }
                if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Verify => {
            let mut b = nifty_asset::instructions::VerifyBuilder::new();
            if rev {
                b.creator(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.creator(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Write { overwrite, bytes } => {
            let mut b = nifty_asset::instructions::WriteBuilder::new();
            if rev {
                b.bytes(bytes.clone());
                b.overwrite(*overwrite);
                if !(skip && a[2].0 == Some(Pubkey::default())) { b.system_program(a[2].0.unwrap()); }
                b.payer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.payer(a[1].0.unwrap());
                if !(skip && a[2].0 == Some(Pubkey::default())) { b.system_program(a[2].0.unwrap()); }
                b.overwrite(*overwrite);
                b.bytes(bytes.clone());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Group => {
            let mut b = nifty_asset::instructions::GroupBuilder::new();
            if rev {
                b.authority(a[2].0.unwrap());
                b.group(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.group(a[1].0.unwrap());
                b.authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Ungroup => {
            let mut b = nifty_asset::instructions::UngroupBuilder::new();
            if rev {
                b.authority(a[2].0.unwrap());
                b.group(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.group(a[1].0.unwrap());
                b.authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Handover => {
            let mut b = nifty_asset::instructions::HandoverBuilder::new();
            if rev {
                b.new_authority(a[2].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.new_authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Remove(t) => {
            let mut b = nifty_asset::instructions::RemoveBuilder::new();
            if rev {
                b.extension_type(type_of(*t));
                b.recipient(a[3].0.unwrap());
                if a[2].0.is_some() || !skip { b.group(a[2].0); }
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.group(a[2].0); }
                b.recipient(a[3].0.unwrap());
                b.extension_type(type_of(*t));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        Op::Resize(v) => {
            let mut b = nifty_asset::instructions::ResizeBuilder::new();
            if rev {
                b.strategy(strategy_of(*v));
                if a[3].0.is_some() || !skip { b.system_program(a[3].0); }
                b.payer(a[2].0.unwrap(), a[2].1);
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.payer(a[2].0.unwrap(), a[2].1);
                if a[3].0.is_some() || !skip { b.system_program(a[3].0); }
                b.strategy(strategy_of(*v));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
    }
}

#[allow(unused_variables)]
pub fn asset_cpi<'a, 'b>(op: &Op, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]]) -> ProgramResult {
    match op {
        Op::Close => {
            let x = nifty_asset::instructions::CloseCpi::new(program, nifty_asset::instructions::CloseCpiAccounts { buffer: a[0].0.unwrap(), recipient: a[1].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Burn => {
            let x = nifty_asset::instructions::BurnCpi::new(program, nifty_asset::instructions::BurnCpiAccounts { asset: a[0].0.unwrap(), signer: a[1].0.unwrap(), recipient: a[2].0, group: a[3].0 });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Create { name, standard, mutable, exts } => {
            let x = nifty_asset::instructions::CreateCpi::new(program, nifty_asset::instructions::CreateCpiAccounts { asset: a[0].0.unwrap(), authority: (a[1].0.unwrap(), a[1].1), owner: a[2].0.unwrap(), group: a[3].0, group_authority: a[4].0, payer: a[5].0, system_program: a[6].0 }, nifty_asset::instructions::CreateInstructionArgs { name: name.clone(), standard: standard_of(*standard), mutable: *mutable, extensions: exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Approve(r) => {
            let x = nifty_asset::instructions::ApproveCpi::new(program, nifty_asset::instructions::ApproveCpiAccounts { asset: a[0].0.unwrap(), owner: a[1].0.unwrap(), delegate: a[2].0.unwrap() }, nifty_asset::instructions::ApproveInstructionArgs { delegate_input: roles_of(r) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Allocate(e) => {
            let x = nifty_asset::instructions::AllocateCpi::new(program, nifty_asset::instructions::AllocateCpiAccounts { asset: a[0].0.unwrap(), payer: a[1].0, system_program: a[2].0 }, nifty_asset::instructions::AllocateInstructionArgs { extension: ext_of(e) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Lock => {
            let x = nifty_asset::instructions::LockCpi::new(program, nifty_asset::instructions::LockCpiAccounts { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Revoke(r) => {
            let x = nifty_asset::instructions::RevokeCpi::new(program, nifty_asset::instructions::RevokeCpiAccounts { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() }, nifty_asset::instructions::RevokeInstructionArgs { delegate_input: roles_of(r) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Transfer => {
            let x = nifty_asset::instructions::TransferCpi::new(program, nifty_asset::instructions::TransferCpiAccounts { asset: a[0].0.unwrap(), signer: a[1].0.unwrap(), recipient: a[2].0.unwrap(), group: a[3].0 });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Unlock => {
            let x = nifty_asset::instructions::UnlockCpi::new(program, nifty_asset::instructions::UnlockCpiAccounts { asset: a[0].0.unwrap(), signer: a[1].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Unverify => {
            let x = nifty_asset::instructions::UnverifyCpi::new(program, nifty_asset::instructions::UnverifyCpiAccounts { asset: a[0].0.unwrap(), creator: a[1].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Update { name, mutable, ext } => {
            let x = nifty_asset::instructions::UpdateCpi::new(program, nifty_asset::instructions::UpdateCpiAccounts { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), buffer: a[2].0, group: a[3].0, payer: a[4].0, system_program: a[5].0 }, nifty_asset::instructions::UpdateInstructionArgs { name: name.clone(), mutable: *mutable, extension: ext.as_ref().map(ext_of) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Verify => {
            let x = nifty_asset::instructions::VerifyCpi::new(program, nifty_asset::instructions::VerifyCpiAccounts { asset: a[0].0.unwrap(), creator: a[1].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Write { overwrite, bytes } => {
            let x = nifty_asset::instructions::WriteCpi::new(program, nifty_asset::instructions::WriteCpiAccounts { asset: a[0].0.unwrap(), payer: a[1].0.unwrap(), system_program: a[2].0.unwrap() }, nifty_asset::instructions::WriteInstructionArgs { overwrite: *overwrite, bytes: bytes.clone() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Group => {
            let x = nifty_asset::instructions::GroupCpi::new(program, nifty_asset::instructions::GroupCpiAccounts { asset: a[0].0.unwrap(), group: a[1].0.unwrap(), authority: a[2].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Ungroup => {
            let x = nifty_asset::instructions::UngroupCpi::new(program, nifty_asset::instructions::UngroupCpiAccounts { asset: a[0].0.unwrap(), group: a[1].0.unwrap(), authority: a[2].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Handover => {
            let x = nifty_asset::instructions::HandoverCpi::new(program, nifty_asset::instructions::HandoverCpiAccounts { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), new_authority: a[2].0.unwrap() });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Remove(t) => {
            let x = nifty_asset::instructions::RemoveCpi::new(program, nifty_asset::instructions::RemoveCpiAccounts { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), group: a[2].0, recipient: a[3].0.unwrap() }, nifty_asset::instructions::RemoveInstructionArgs { extension_type: type_of(*t) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        Op::Resize(v) => {
            let x = nifty_asset::instructions::ResizeCpi::new(program, nifty_asset::instructions::ResizeCpiAccounts { asset: a[0].0.unwrap(), authority: a[1].0.unwrap(), payer: (a[2].0.unwrap(), a[2].1), system_program: a[3].0 }, nifty_asset::instructions::ResizeInstructionArgs { strategy: strategy_of(*v) });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
    }
}

#[allow(unused_variables)]
pub fn asset_cpi_builder<'a, 'b>(op: &Op, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]], skip: bool, rev: bool) -> ProgramResult {
    match op {
        Op::Close => {
            let mut b = nifty_asset::instructions::CloseCpiBuilder::new(program);
            if rev {
                b.recipient(a[1].0.unwrap());
                b.buffer(a[0].0.unwrap());
            } else {
                b.buffer(a[0].0.unwrap());
                b.recipient(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Burn => {
            let mut b = nifty_asset::instructions::BurnCpiBuilder::new(program);
            if rev {
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[2].0.is_some() || !skip { b.recipient(a[2].0); }
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.recipient(a[2].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Create { name, standard, mutable, exts } => {
            let mut b = nifty_asset::instructions::CreateCpiBuilder::new(program);
            if rev {
                if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) { b.extensions(v); }
                if !(skip && *mutable) { b.mutable(*mutable); }
                if !(skip && *standard == 0) { b.standard(standard_of(*standard)); }
                b.name(name.clone());
                if a[6].0.is_some() || !skip { b.system_program(a[6].0); }
                if a[5].0.is_some() || !skip { b.payer(a[5].0); }
                if a[4].0.is_some() || !skip { b.group_authority(a[4].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                b.owner(a[2].0.unwrap());
                b.authority(a[1].0.unwrap(), a[1].1);
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap(), a[1].1);
                b.owner(a[2].0.unwrap());
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[4].0.is_some() || !skip { b.group_authority(a[4].0); }
                if a[5].0.is_some() || !skip { b.payer(a[5].0); }
                if a[6].0.is_some() || !skip { b.system_program(a[6].0); }
                b.name(name.clone());
                if !(skip && *standard == 0) { b.standard(standard_of(*standard)); }
                if !(skip && *mutable) { b.mutable(*mutable); }
                if let Some(v) = exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>()) { b.extensions(v); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Approve(r) => {
            let mut b = nifty_asset::instructions::ApproveCpiBuilder::new(program);
            if rev {
                b.delegate_input(roles_of(r));
                b.delegate(a[2].0.unwrap());
                b.owner(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.owner(a[1].0.unwrap());
                b.delegate(a[2].0.unwrap());
                b.delegate_input(roles_of(r));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Allocate(e) => {
            let mut b = nifty_asset::instructions::AllocateCpiBuilder::new(program);
            if rev {
                b.extension(ext_of(e));
                if a[2].0.is_some() || !skip { b.system_program(a[2].0); }
                if a[1].0.is_some() || !skip { b.payer(a[1].0); }
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                if a[1].0.is_some() || !skip { b.payer(a[1].0); }
                if a[2].0.is_some() || !skip { b.system_program(a[2].0); }
                b.extension(ext_of(e));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Lock => {
            let mut b = nifty_asset::instructions::LockCpiBuilder::new(program);
            if rev {
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Revoke(r) => {
            let mut b = nifty_asset::instructions::RevokeCpiBuilder::new(program);
            if rev {
                b.delegate_input(roles_of(r));
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.delegate_input(roles_of(r));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Transfer => {
            let mut b = nifty_asset::instructions::TransferCpiBuilder::new(program);
            if rev {
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                b.recipient(a[2].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
                b.recipient(a[2].0.unwrap());
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Unlock => {
            let mut b = nifty_asset::instructions::UnlockCpiBuilder::new(program);
            if rev {
                b.signer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.signer(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Unverify => {
            let mut b = nifty_asset::instructions::UnverifyCpiBuilder::new(program);
            if rev {
                b.creator(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.creator(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Update { name, mutable, ext } => {
            let mut b = nifty_asset::instructions::UpdateCpiBuilder::new(program);
            if rev {
                if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
                if let Some(v) = *mutable { b.mutable(v); }
                if let Some(v) = name.clone() { b.name(v); }
                if a[5].0.is_some() || !skip { b.system_program(a[5].0); }
                if a[4].0.is_some() || !skip { b.payer(a[4].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[2].0.is_some() || !skip { b.buffer(a[2].0); }
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.buffer(a[2].0); }
                if a[3].0.is_some() || !skip { b.group(a[3].0); }
                if a[4].0.is_some() || !skip { b.payer(a[4].0); }
                if a[5].0.is_some() || !skip { b.system_program(a[5].0); }
                if let Some(v) = name.clone() { b.name(v); }
                if let Some(v) = *mutable { b.mutable(v); }
                if let Some(v) = ext.as_ref().map(ext_of) { b.extension(v); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Verify => {
            let mut b = nifty_asset::instructions::VerifyCpiBuilder::new(program);
            if rev {
                b.creator(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.creator(a[1].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Write { overwrite, bytes } => {
            let mut b = nifty_asset::instructions::WriteCpiBuilder::new(program);
            if rev {
                b.bytes(bytes.clone());
                b.overwrite(*overwrite);
                b.system_program(a[2].0.unwrap());
                b.payer(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.payer(a[1].0.unwrap());
                b.system_program(a[2].0.unwrap());
                b.overwrite(*overwrite);
                b.bytes(bytes.clone());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Group => {
            let mut b = nifty_asset::instructions::GroupCpiBuilder::new(program);
            if rev {
                b.authority(a[2].0.unwrap());
                b.group(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.group(a[1].0.unwrap());
                b.authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Ungroup => {
            let mut b = nifty_asset::instructions::UngroupCpiBuilder::new(program);
            if rev {
                b.authority(a[2].0.unwrap());
                b.group(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.group(a[1].0.unwrap());
                b.authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Handover => {
            let mut b = nifty_asset::instructions::HandoverCpiBuilder::new(program);
            if rev {
                b.new_authority(a[2].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.new_authority(a[2].0.unwrap());
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Remove(t) => {
            let mut b = nifty_asset::instructions::RemoveCpiBuilder::new(program);
            if rev {
                b.extension_type(type_of(*t));
                b.recipient(a[3].0.unwrap());
                if a[2].0.is_some() || !skip { b.group(a[2].0); }
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                if a[2].0.is_some() || !skip { b.group(a[2].0); }
                b.recipient(a[3].0.unwrap());
                b.extension_type(type_of(*t));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        Op::Resize(v) => {
            let mut b = nifty_asset::instructions::ResizeCpiBuilder::new(program);
            if rev {
                b.strategy(strategy_of(*v));
                if a[3].0.is_some() || !skip { b.system_program(a[3].0); }
                b.payer(a[2].0.unwrap(), a[2].1);
                b.authority(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.authority(a[1].0.unwrap());
                b.payer(a[2].0.unwrap(), a[2].1);
                if a[3].0.is_some() || !skip { b.system_program(a[3].0); }
                b.strategy(strategy_of(*v));
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
    }
}

#[allow(unused_variables)]
pub fn bridge_direct(op: &BridgeOp, a: &[(Option<Pubkey>, bool)], rem: &[solana_program::instruction::AccountMeta]) -> solana_program::instruction::Instruction {
    match op {
        BridgeOp::Bridge => {
            let x = nifty_bridge::instructions::Bridge { asset: a[0].0.unwrap(), vault: a[1].0.unwrap(), owner: a[2].0.unwrap(), token: a[3].0.unwrap(), mint: a[4].0.unwrap(), metadata: a[5].0.unwrap(), master_edition: a[6].0.unwrap(), token_record: a[7].0, vault_token: a[8].0.unwrap(), vault_token_record: a[9].0, payer: a[10].0.unwrap(), nifty_asset_program: a[11].0.unwrap(), token_metadata_program: a[12].0.unwrap(), system_program: a[13].0.unwrap(), sysvar_instructions: a[14].0.unwrap(), spl_token_program: a[15].0.unwrap(), spl_ata_program: a[16].0.unwrap(), authorization_rules_program: a[17].0, authorization_rules: a[18].0, group_asset: a[19].0 };
            if rem.is_empty() { x.instruction() } else { x.instruction_with_remaining_accounts(rem) }
        }
        BridgeOp::Create(c) => {
            let x = nifty_bridge::instructions::Create { asset: a[0].0.unwrap(), vault: a[1].0.unwrap(), mint: a[2].0.unwrap(), metadata: a[3].0.unwrap(), update_authority: (a[4].0.unwrap(), a[4].1), collection: a[5].0, payer: a[6].0.unwrap(), system_program: a[7].0.unwrap(), nifty_asset_program: a[8].0.unwrap() };
            if rem.is_empty() { x.instruction(nifty_bridge::instructions::CreateInstructionArgs { is_collection: *c }) } else { x.instruction_with_remaining_accounts(nifty_bridge::instructions::CreateInstructionArgs { is_collection: *c }, rem) }
        }
    }
}

#[allow(unused_variables)]
pub fn bridge_builder(op: &BridgeOp, a: &[(Option<Pubkey>, bool)], rem: &[solana_program::instruction::AccountMeta], skip: bool, rev: bool) -> solana_program::instruction::Instruction {
    match op {
        BridgeOp::Bridge => {
            let mut b = nifty_bridge::instructions::BridgeBuilder::new();
            if rev {
                if a[19].0.is_some() || !skip { b.group_asset(a[19].0); }
                if a[18].0.is_some() || !skip { b.authorization_rules(a[18].0); }
                if a[17].0.is_some() || !skip { b.authorization_rules_program(a[17].0); }
                if !(skip && well_known("spl_ata_program", a[16].0)) { b.spl_ata_program(a[16].0.unwrap()); }
                if !(skip && well_known("spl_token_program", a[15].0)) { b.spl_token_program(a[15].0.unwrap()); }
                if !(skip && well_known("sysvar_instructions", a[14].0)) { b.sysvar_instructions(a[14].0.unwrap()); }
                if !(skip && well_known("system_program", a[13].0)) { b.system_program(a[13].0.unwrap()); }
                if !(skip && well_known("token_metadata_program", a[12].0)) { b.token_metadata_program(a[12].0.unwrap()); }
                if !(skip && well_known("nifty_asset_program", a[11].0)) { b.nifty_asset_program(a[11].0.unwrap()); }
                b.payer(a[10].0.unwrap());
                if a[9].0.is_some() || !skip { b.vault_token_record(a[9].0); }
                b.vault_token(a[8].0.unwrap());
                if a[7].0.is_some() || !skip { b.token_record(a[7].0); }
                b.master_edition(a[6].0.unwrap());
                b.metadata(a[5].0.unwrap());
                b.mint(a[4].0.unwrap());
                b.token(a[3].0.unwrap());
                b.owner(a[2].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.owner(a[2].0.unwrap());
                b.token(a[3].0.unwrap());
                b.mint(a[4].0.unwrap());
                b.metadata(a[5].0.unwrap());
                b.master_edition(a[6].0.unwrap());
                if a[7].0.is_some() || !skip { b.token_record(a[7].0); }
                b.vault_token(a[8].0.unwrap());
                if a[9].0.is_some() || !skip { b.vault_token_record(a[9].0); }
                b.payer(a[10].0.unwrap());
                if !(skip && well_known("nifty_asset_program", a[11].0)) { b.nifty_asset_program(a[11].0.unwrap()); }
                if !(skip && well_known("token_metadata_program", a[12].0)) { b.token_metadata_program(a[12].0.unwrap()); }
                if !(skip && well_known("system_program", a[13].0)) { b.system_program(a[13].0.unwrap()); }
                if !(skip && well_known("sysvar_instructions", a[14].0)) { b.sysvar_instructions(a[14].0.unwrap()); }
                if !(skip && well_known("spl_token_program", a[15].0)) { b.spl_token_program(a[15].0.unwrap()); }
                if !(skip && well_known("spl_ata_program", a[16].0)) { b.spl_ata_program(a[16].0.unwrap()); }
                if a[17].0.is_some() || !skip { b.authorization_rules_program(a[17].0); }
                if a[18].0.is_some() || !skip { b.authorization_rules(a[18].0); }
                if a[19].0.is_some() || !skip { b.group_asset(a[19].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
        BridgeOp::Create(c) => {
            let mut b = nifty_bridge::instructions::CreateBuilder::new();
            if rev {
                b.is_collection(*c);
                if !(skip && well_known("nifty_asset_program", a[8].0)) { b.nifty_asset_program(a[8].0.unwrap()); }
                if !(skip && well_known("system_program", a[7].0)) { b.system_program(a[7].0.unwrap()); }
                b.payer(a[6].0.unwrap());
                if a[5].0.is_some() || !skip { b.collection(a[5].0); }
                b.update_authority(a[4].0.unwrap(), a[4].1);
                b.metadata(a[3].0.unwrap());
                b.mint(a[2].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.mint(a[2].0.unwrap());
                b.metadata(a[3].0.unwrap());
                b.update_authority(a[4].0.unwrap(), a[4].1);
                if a[5].0.is_some() || !skip { b.collection(a[5].0); }
                b.payer(a[6].0.unwrap());
                if !(skip && well_known("system_program", a[7].0)) { b.system_program(a[7].0.unwrap()); }
                if !(skip && well_known("nifty_asset_program", a[8].0)) { b.nifty_asset_program(a[8].0.unwrap()); }
                b.is_collection(*c);
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }
            }
            let x = b.instruction();
            assert!(b.instruction() == x, "a second instruction of the builder differs");
            x
        }
    }
}

#[allow(unused_variables)]
pub fn bridge_cpi<'a, 'b>(op: &BridgeOp, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]]) -> ProgramResult {
    match op {
        BridgeOp::Bridge => {
            let x = nifty_bridge::instructions::BridgeCpi::new(program, nifty_bridge::instructions::BridgeCpiAccounts { asset: a[0].0.unwrap(), vault: a[1].0.unwrap(), owner: a[2].0.unwrap(), token: a[3].0.unwrap(), mint: a[4].0.unwrap(), metadata: a[5].0.unwrap(), master_edition: a[6].0.unwrap(), token_record: a[7].0, vault_token: a[8].0.unwrap(), vault_token_record: a[9].0, payer: a[10].0.unwrap(), nifty_asset_program: a[11].0.unwrap(), token_metadata_program: a[12].0.unwrap(), system_program: a[13].0.unwrap(), sysvar_instructions: a[14].0.unwrap(), spl_token_program: a[15].0.unwrap(), spl_ata_program: a[16].0.unwrap(), authorization_rules_program: a[17].0, authorization_rules: a[18].0, group_asset: a[19].0 });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
        BridgeOp::Create(c) => {
            let x = nifty_bridge::instructions::CreateCpi::new(program, nifty_bridge::instructions::CreateCpiAccounts { asset: a[0].0.unwrap(), vault: a[1].0.unwrap(), mint: a[2].0.unwrap(), metadata: a[3].0.unwrap(), update_authority: (a[4].0.unwrap(), a[4].1), collection: a[5].0, payer: a[6].0.unwrap(), system_program: a[7].0.unwrap(), nifty_asset_program: a[8].0.unwrap() }, nifty_bridge::instructions::CreateInstructionArgs { is_collection: *c });
            match (seeds.is_empty(), rem.is_empty()) {
                (true, true) => x.invoke(),
                (true, false) => x.invoke_with_remaining_accounts(rem),
                (false, true) => x.invoke_signed(seeds),
                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),
            }
        }
    }
}

#[allow(unused_variables)]
pub fn bridge_cpi_builder<'a, 'b>(op: &BridgeOp, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]], skip: bool, rev: bool) -> ProgramResult {
    match op {
        BridgeOp::Bridge => {
            let mut b = nifty_bridge::instructions::BridgeCpiBuilder::new(program);
            if rev {
                if a[19].0.is_some() || !skip { b.group_asset(a[19].0); }
                if a[18].0.is_some() || !skip { b.authorization_rules(a[18].0); }
                if a[17].0.is_some() || !skip { b.authorization_rules_program(a[17].0); }
                b.spl_ata_program(a[16].0.unwrap());
                b.spl_token_program(a[15].0.unwrap());
                b.sysvar_instructions(a[14].0.unwrap());
                b.system_program(a[13].0.unwrap());
                b.token_metadata_program(a[12].0.unwrap());
                b.nifty_asset_program(a[11].0.unwrap());
                b.payer(a[10].0.unwrap());
                if a[9].0.is_some() || !skip { b.vault_token_record(a[9].0); }
                b.vault_token(a[8].0.unwrap());
                if a[7].0.is_some() || !skip { b.token_record(a[7].0); }
                b.master_edition(a[6].0.unwrap());
                b.metadata(a[5].0.unwrap());
                b.mint(a[4].0.unwrap());
                b.token(a[3].0.unwrap());
                b.owner(a[2].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.owner(a[2].0.unwrap());
                b.token(a[3].0.unwrap());
                b.mint(a[4].0.unwrap());
                b.metadata(a[5].0.unwrap());
                b.master_edition(a[6].0.unwrap());
                if a[7].0.is_some() || !skip { b.token_record(a[7].0); }
                b.vault_token(a[8].0.unwrap());
                if a[9].0.is_some() || !skip { b.vault_token_record(a[9].0); }
                b.payer(a[10].0.unwrap());
                b.nifty_asset_program(a[11].0.unwrap());
                b.token_metadata_program(a[12].0.unwrap());
                b.system_program(a[13].0.unwrap());
                b.sysvar_instructions(a[14].0.unwrap());
                b.spl_token_program(a[15].0.unwrap());
                b.spl_ata_program(a[16].0.unwrap());
                if a[17].0.is_some() || !skip { b.authorization_rules_program(a[17].0); }
                if a[18].0.is_some() || !skip { b.authorization_rules(a[18].0); }
                if a[19].0.is_some() || !skip { b.group_asset(a[19].0); }
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
        BridgeOp::Create(c) => {
            let mut b = nifty_bridge::instructions::CreateCpiBuilder::new(program);
            if rev {
                b.is_collection(*c);
                b.nifty_asset_program(a[8].0.unwrap());
                b.system_program(a[7].0.unwrap());
                b.payer(a[6].0.unwrap());
                if a[5].0.is_some() || !skip { b.collection(a[5].0); }
                b.update_authority(a[4].0.unwrap(), a[4].1);
                b.metadata(a[3].0.unwrap());
                b.mint(a[2].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.asset(a[0].0.unwrap());
            } else {
                b.asset(a[0].0.unwrap());
                b.vault(a[1].0.unwrap());
                b.mint(a[2].0.unwrap());
                b.metadata(a[3].0.unwrap());
                b.update_authority(a[4].0.unwrap(), a[4].1);
                if a[5].0.is_some() || !skip { b.collection(a[5].0); }
                b.payer(a[6].0.unwrap());
                b.system_program(a[7].0.unwrap());
                b.nifty_asset_program(a[8].0.unwrap());
                b.is_collection(*c);
            }
            for part in parts(rem, skip, rev) {
                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }
            }
            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }
        }
    }
}

