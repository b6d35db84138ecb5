#!/usr/bin/env python3
"""Writes harness/checks/src/glue.rs: one call per client instruction and style, from the table below.

The table is the specification: the accounts of each instruction in the order, and with the rights, that the
programs' own documentation (programs/*/src/instruction.rs) states. Rights: w writable, s signer, ? signer if asked,
o optional.
"""
import os
ASSET = [
 ('Close', 'buffer:ws recipient:w', ''),
 ('Burn', 'asset:w signer:ws recipient:ow group:ow', ''),
 ('Create', 'asset:ws authority:? owner: group:ow group_authority:os payer:osw system_program:o', 'name standard mutable extensions'),
 ('Approve', 'asset:w owner:s delegate:', 'delegate_input'),
 ('Allocate', 'asset:ws payer:osw system_program:o', 'extension'),
 ('Lock', 'asset:w signer:s', ''),
 ('Revoke', 'asset:w signer:s', 'delegate_input'),
 ('Transfer', 'asset:w signer:s recipient: group:o', ''),
 ('Unlock', 'asset:w signer:s', ''),
 ('Unverify', 'asset:w creator:s', ''),
 ('Update', 'asset:w authority:s buffer:ow group:o payer:osw system_program:o', 'name mutable extension'),
 ('Verify', 'asset:w creator:s', ''),
 ('Write', 'asset:ws payer:sw system_program:', 'overwrite bytes'),
 ('Group', 'asset:w group:w authority:s', ''),
 ('Ungroup', 'asset:w group:w authority:s', ''),
 ('Handover', 'asset:w authority:s new_authority:s', ''),
 ('Remove', 'asset:w authority:s group:o recipient:w', 'extension_type'),
 ('Resize', 'asset:w authority:s payer:?w system_program:o', 'strategy'),
]
# arguments: expression of the value, given `op` bindings; builder setters that take the inner value of an option
ARGS = {
 'Create': ('Op::Create { name, standard, mutable, exts }', {
   'name': 'name.clone()', 'standard': 'standard_of(*standard)', 'mutable': '*mutable',
   'extensions': 'exts.as_ref().map(|v| v.iter().map(ext_of).collect::<Vec<_>>())'}, {'extensions'}),
 'Approve': ('Op::Approve(r)', {'delegate_input': 'roles_of(r)'}, set()),
 'Revoke': ('Op::Revoke(r)', {'delegate_input': 'roles_of(r)'}, set()),
 'Allocate': ('Op::Allocate(e)', {'extension': 'ext_of(e)'}, set()),
 'Update': ('Op::Update { name, mutable, ext }', {
   'name': 'name.clone()', 'mutable': '*mutable', 'extension': 'ext.as_ref().map(ext_of)'}, {'name', 'mutable', 'extension'}),
 'Write': ('Op::Write { overwrite, bytes }', {'overwrite': '*overwrite', 'bytes': 'bytes.clone()'}, set()),
 'Remove': ('Op::Remove(t)', {'extension_type': 'type_of(*t)'}, set()),
 'Resize': ('Op::Resize(v)', {'strategy': 'strategy_of(*v)'}, set()),
}
# builder defaults: (what has to hold, what is left out)
DEFAULT = {'Create': {'standard': '*standard == 0', 'mutable': '*mutable'}, 'Write': {'system_program': 'a[2].0 == Some(Pubkey::default())'}}
BRIDGE = [
 ('Bridge', 'asset:w vault:w owner:s token:w mint: metadata:w master_edition: token_record:ow vault_token:w vault_token_record:ow payer:sw nifty_asset_program: token_metadata_program: system_program: sysvar_instructions: spl_token_program: spl_ata_program: authorization_rules_program:o authorization_rules:o group_asset:o', ''),
 ('Create', 'asset:w vault:w mint: metadata: update_authority:? collection:o payer:sw system_program: nifty_asset_program:', 'is_collection'),
]
# well-known accounts the builder fills in by itself
BDEF = {'Bridge': ['token_metadata_program', 'system_program', 'sysvar_instructions', 'spl_token_program', 'spl_ata_program', 'nifty_asset_program'],
        'Create': ['system_program', 'nifty_asset_program']}
import re
def accs(s):
    r = []
    for x in s.split():
        n, f = x.split(':')
        r.append((n, f))
    return r
def table(name, ins):
    out = f"pub const {name}: &[(&str, &[(&str, &str)])] = &[\n"
    for n, a, _ in ins:
        out += f"    ({n!r}, &[".replace("'", '"') + ', '.join(f'("{x}", "{f}")' for x, f in accs(a)) + "]),\n"
    return out + "];\n"
def gen(mod, ins, pat, exprs, inner, defaults):
    """pat(name) -> match arm pattern."""
    out = ''
    # plain struct
    direct, build, cpi, cpib = '', '', '', ''
    for n, a, ar in ins:
        A = accs(a); args = ar.split()
        ex = exprs(n)
        def acc(i, f, key):
            v = f'a[{i}].0'
            if '?' in f: return f'({v}.unwrap(), a[{i}].1)'
            if 'o' in f: return v
            return f'{v}.unwrap()'
        st = ', '.join(f'{x}: {acc(i, f, 1)}' for i, (x, f) in enumerate(A))
        ag = f'{mod}::{n}InstructionArgs {{ ' + ', '.join(f'{k}: {ex[k]}' for k in args) + ' }' if args else ''
        direct += f"        {pat(n)} => {{\n            let x = {mod}::{n} {{ {st} }};\n            if rem.is_empty() {{ x.instruction({ag}) }} else {{ x.instruction_with_remaining_accounts({ag + ', ' if ag else ''}rem) }}\n        }}\n"
        for which in ('b', 'c'):
            body = f"            let mut b = {mod}::{n}Builder::new();\n" if which == 'b' else f"            let mut b = {mod}::{n}CpiBuilder::new(program);\n"
            sets = []
            for i, (x, f) in enumerate(A):
                v = f'a[{i}].0'
                if '?' in f: sets.append(f'b.{x}({v}.unwrap(), a[{i}].1);')
                elif 'o' in f: sets.append(f'if a[{i}].0.is_some() || !skip {{ b.{x}({v}); }}')
                elif which == 'b' and x in defaults.get(n, {}): sets.append(f'if !(skip && {defaults[n][x]}) {{ b.{x}({v}.unwrap()); }}')
                else: sets.append(f'b.{x}({v}.unwrap());')
            for k in args:
                if k in inner.get(n, ()): sets.append(f'if let Some(v) = {ex[k]} {{ b.{k}(v); }}')
                elif k in defaults.get(n, {}): sets.append(f'if !(skip && {defaults[n][k]}) {{ b.{k}({ex[k]}); }}')
                else: sets.append(f'b.{k}({ex[k]});')
            # setters in two orders
            half = len(sets) // 2
            body += "            if rev {\n" + ''.join(f'                {s}\n' for s in reversed(sets)) + "            } else {\n" + ''.join(f'                {s}\n' for s in sets) + "            }\n"
            if which == 'b':
                body += "            for part in parts(rem, skip, rev) {\n                if part.len() == 1 { b.add_remaining_account(part[0].clone()); } else { b.add_remaining_accounts(part); }\n            }\n            let x = b.instruction();\n            assert!(b.instruction() == x, \"a second instruction of the builder differs\");\n            x\n"
                build += f"        {pat(n)} => {{\n{body}        }}\n"
            else:
                body += "            for part in parts(rem, skip, rev) {\n                if part.len() == 1 { b.add_remaining_account(part[0].0, part[0].1, part[0].2); } else { b.add_remaining_accounts(part); }\n            }\n            if seeds.is_empty() { b.invoke() } else { b.invoke_signed(seeds) }\n"
                cpib += f"        {pat(n)} => {{\n{body}        }}\n"
        cpi += f"        {pat(n)} => {{\n            let x = {mod}::{n}Cpi::new(program, {mod}::{n}CpiAccounts {{ {st} }}{', ' + ag if ag else ''});\n            match (seeds.is_empty(), rem.is_empty()) {{\n                (true, true) => x.invoke(),\n                (true, false) => x.invoke_with_remaining_accounts(rem),\n                (false, true) => x.invoke_signed(seeds),\n                (false, false) => x.invoke_signed_with_remaining_accounts(seeds, rem),\n            }}\n        }}\n"
    return direct, build, cpi, cpib
def fns(prefix, opty, parts):
    d, b, c, cb = parts
    I = "solana_program::instruction::Instruction"; M = "solana_program::instruction::AccountMeta"
    al = "#[allow(unused_variables)]\n"
    return (f"{al}pub fn {prefix}_direct(op: &{opty}, a: &[(Option<Pubkey>, bool)], rem: &[{M}]) -> {I} {{\n    match op {{\n{d}    }}\n}}\n\n"
      f"{al}pub fn {prefix}_builder(op: &{opty}, a: &[(Option<Pubkey>, bool)], rem: &[{M}], skip: bool, rev: bool) -> {I} {{\n    match op {{\n{b}    }}\n}}\n\n"
      f"{al}pub fn {prefix}_cpi<'a, 'b>(op: &{opty}, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]]) -> ProgramResult {{\n    match op {{\n{c}    }}\n}}\n\n"
      f"{al}pub fn {prefix}_cpi_builder<'a, 'b>(op: &{opty}, program: &'b AccountInfo<'a>, a: &[(Option<&'b AccountInfo<'a>>, bool)], rem: &[(&'b AccountInfo<'a>, bool, bool)], seeds: &[&[&[u8]]], skip: bool, rev: bool) -> ProgramResult {{\n    match op {{\n{cb}    }}\n}}\n\n")
out = """//! Written by tools/glue.py: do not edit.

use crate::model::Op;
use crate::client::*;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, pubkey::Pubkey};

"""
out += table('ASSET_TABLE', ASSET) + table('BRIDGE_TABLE', BRIDGE) + '\n'
out += fns('asset', 'Op', gen('nifty_asset::instructions', ASSET, lambda n: ARGS[n][0] if n in ARGS else f'Op::{n}', lambda n: ARGS[n][1] if n in ARGS else {}, {k: v[2] for k, v in ARGS.items()}, DEFAULT))
bdef = {k: {x: f'well_known("{x}", a[{[y for y, _ in accs(dict((q[0], q[1]) for q in BRIDGE)[k])].index(x)}].0)' for x in v} for k, v in BDEF.items()}
out += fns('bridge', 'BridgeOp', gen('nifty_bridge::instructions', BRIDGE, lambda n: {'Bridge': 'BridgeOp::Bridge', 'Create': 'BridgeOp::Create(c)'}[n], lambda n: {'is_collection': '*c'}, {}, bdef))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness/checks/src/glue.rs'), 'w').write(out)
