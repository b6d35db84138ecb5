#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = 'programs/asset/program/src/'
PR = P + 'processor/'
T = 'programs/asset/types/src/'
H = ['inputs', 'histories']
TESTS = "the stable tests only build a few extension values and compare program ids; the program tests need an SBF validator that is not run"
def p(id, title, st, over, qt, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why, "anchors": a}
OB = ["accounts after each instruction processed by the asset program"]
L = [
p("C01", "Ownership changes only through an authorised transfer",
  "The owner of an existing asset changes only through a transfer signed by its owner, by its delegate holding the transfer role, or by its manager holding the transfer role, and then the recipient becomes the owner and the delegate is cleared. Such a transfer of an unlocked, transferable asset whose royalty rules are met succeeds and touches nothing else; a transfer to the current owner leaves the asset as it was. Anybody else's transfer, or one without the signature, is rejected.",
  H, "for all assets, signers, recipients, account lists and instruction histories", TESTS + ", so no transfer is ever exercised; signer/role/delegate/manager/group combinations are unbounded",
  [PR+'transfer.rs', P+'utils.rs', T+'state/delegate.rs'], [("owner or delegate check", PR+'transfer.rs'), ("delegate roles", P+'utils.rs assert_delegate'), ("owner write and delegate reset", PR+'transfer.rs')], OB),
p("C02", "A locked asset stays put until it is unlocked by whoever may lock it",
  "While an asset is locked it cannot be transferred, burned or locked again, and its delegate cannot be approved or revoked. Locking and unlocking need the signature of the delegate or manager holding the lock role, or of the owner when no delegate is set, and change nothing but the lock. No other instruction changes whether an asset is locked.",
  H, "for all assets, signers and instruction histories", TESTS + ", so locking is never exercised",
  [PR+'lock.rs', PR+'unlock.rs', PR+'mod.rs'], [("lock guard before dispatch", PR+'mod.rs is_locked'), ("lock role check", PR+'lock.rs'), ("unlock role check", PR+'unlock.rs')], OB),
p("C03", "Delegates hold exactly the roles the owner granted and nobody revoked",
  "Only the owner can appoint a delegate; approving the current delegate again adds roles and approving another one replaces it. The owner or the delegate can revoke: exactly the named roles go (or all), and a delegate without roles is no delegate. A delegate can perform an action exactly when it holds that role, and only approval, revocation, transfer and burning change the delegate.",
  H, "for all role sets, delegates and histories of approvals, revocations and delegated actions", TESTS + "; only one role bitmask decoding is tested",
  [PR+'approve.rs', PR+'revoke.rs', P+'utils.rs', T+'state/delegate.rs'], [("role bitmask", T+'state/delegate.rs'), ("approve accumulates or replaces", PR+'approve.rs'), ("revoke clears", PR+'revoke.rs')], OB),
p("C04", "Burning and closing: who may, and where the rent goes",
  "An asset disappears only by burning, signed by its owner or by the delegate or manager holding the burn role, never while locked or while it is a group with members; a buffer that never became an asset disappears only by closing, signed by the buffer itself. In both cases the account's whole balance goes to the named recipient (the signer when a burn names none) and the account is left empty and unowned. Burning a group member needs its group account and lowers the group's size by one.",
  H, "for all assets, buffers, groups, signers, recipients and histories", TESTS + ", so neither burn nor close is exercised",
  [PR+'burn.rs', PR+'close.rs', P+'utils.rs'], [("burn authorisation", PR+'burn.rs'), ("close authorisation", PR+'close.rs'), ("account teardown", P+'utils.rs close_program_account')], OB),
p("C05", "Only the authority of a mutable asset edits it; immutable is final",
  "Name, mutability, authority, extensions and account size of an asset change only through instructions signed by its current authority, and only while it is mutable; once immutable it never becomes mutable again. A handover needs both the old and the new authority's signature and changes only the authority. An update applies exactly the requested name and mutability (unspecified fields stay as they were).",
  H, "for all assets, updates, signers and histories", TESTS + ", so update, handover, remove and resize are never exercised",
  [PR+'update.rs', PR+'handover.rs', PR+'remove.rs', PR+'resize.rs'], [("authority and mutability checks", PR+'update.rs'), ("double signature", PR+'handover.rs')], OB),
p("C06", "Extensions keep their layout and content through every edit",
  "After any accepted instruction an asset's extensions form a gapless, eight-byte-aligned chain with at most one extension of each type, and every extension reads back the content last written to it. Adding, replacing (larger or smaller), or removing one extension, or resizing the account, leaves every other extension and the rest of the asset unchanged. Trimming removes exactly the spare space and extending adds exactly the requested space, and an asset with spare space can still be edited.",
  H, "for all extension sets, sizes, orders, spare capacities and edit histories", TESTS + "; no test edits an account with several extensions",
  [PR+'update.rs', PR+'remove.rs', PR+'resize.rs', PR+'allocate.rs', T+'extensions/mod.rs', T+'state/asset.rs'], [("boundary recomputation and move", PR+'update.rs'), ("removal move", PR+'remove.rs'), ("extension walk", T+'extensions/mod.rs')], OB),
p("C07", "Creator verification is the creator's own, and shares total one hundred",
  "A creator becomes verified or unverified on an existing asset only by an instruction signed by that creator (or by being the authority when the creator list is first added or the creator is newly listed), and verification never touches anything else. Editing the list keeps every retained creator's status and is rejected if it drops a verified creator. A creator list is accepted only if its shares add up to exactly 100.",
  H, "for all creator lists, share values, signers and histories", TESTS + "; one list with a single creator is built",
  [PR+'verify.rs', PR+'unverify.rs', T+'extensions/creators.rs'], [("signature and membership", PR+'verify.rs'), ("status preservation and share total", T+'extensions/creators.rs Lifecycle')], OB),
p("C08", "A group's size is the number of its members and respects its maximum",
  "A group's recorded size always equals the number of assets belonging to it: it grows by one when an asset joins (at creation or later), shrinks by one when a member is removed or burned, and no edit changes it otherwise. Joining needs the signature of the group's authority or group delegate, an asset outside any group with the same authority, and room below the maximum; leaving needs the group's authority or delegate and an asset of that very group. A new group starts empty, its maximum cannot be set below its size, and a group with members can be neither burned nor lose its grouping.",
  H, "for all groups, members, authorities, delegates, maxima and histories of joins, leaves, burns and edits", TESTS + "; only the grouping builder is tested",
  [PR+'group.rs', PR+'ungroup.rs', PR+'create.rs', PR+'burn.rs', PR+'remove.rs', T+'extensions/grouping.rs'], [("join checks", PR+'group.rs'), ("leave checks", PR+'ungroup.rs'), ("size preservation", T+'extensions/grouping.rs Lifecycle')], OB),
p("C09", "Royalty rules are enforced on every transfer that is not wallet to wallet",
  "A transfer of an asset carrying royalties (or, when it has none itself, whose group carries them, the group account then being required) succeeds only if the royalty constraint holds for the asset, the signer and the recipient, except for a top-level transfer between two wallets, which is exempt. A transfer whose constraint holds is never refused on royalty grounds. Royalties above 100% are never accepted.",
  H, "for all constraints, asset/group royalty combinations, account owners, call depths and histories", TESTS + ", so enforcement is never exercised",
  [PR+'transfer.rs', P+'utils.rs', T+'extensions/royalties.rs', T+'constraints/mod.rs'], [("royalty processing", P+'utils.rs process_royalties'), ("own, then group royalties", PR+'transfer.rs'), ("basis point limit", T+'extensions/royalties.rs')], OB),
p("C10", "Managed, proxied and soulbound assets keep their special rules for life",
  "An asset is managed exactly when it carries a manager and proxied exactly when it carries proxy data whose derivation yields the asset's own address; the standard never changes after creation, and neither manager nor proxy data can be added to or removed from an existing asset, nor the proxy derivation edited. A proxied asset is touched as an instruction's subject only with its own signature (that of its program). A soulbound asset is never transferred but can be burned, locked and edited like any other.",
  H, "for all standards, extension sets, addresses, signers and histories", TESTS + ", so the rules are never exercised",
  [PR+'create.rs', PR+'update.rs', PR+'remove.rs', PR+'transfer.rs', PR+'mod.rs', T+'extensions/proxy.rs'], [("standard/extension agreement", PR+'create.rs'), ("proxy signature", PR+'mod.rs'), ("derivation is immutable", T+'extensions/proxy.rs Lifecycle')], OB),
p("C11", "Data written in pieces equals data written at once",
  "An asset assembled by allocating extensions and writing their data in arbitrary pieces (appending or overwriting) is identical to one created with the same extensions inline, and updating an extension from a buffer gives the same asset as updating it from instruction data. An asset with incomplete extension data cannot be initialised or extended, and more data than declared is refused. A buffer accepts writes only with its own signature and only until it becomes an asset.",
  H, "for all extension contents, chunkings, overwrites and interleavings of allocate, write, create and update", TESTS + "; no test writes a buffer",
  [PR+'allocate.rs', PR+'write.rs', PR+'create.rs', PR+'update.rs'], [("append/overwrite offsets", PR+'write.rs'), ("completeness check", PR+'create.rs'), ("buffer update", PR+'update.rs')], OB),
p("C12", "Rent is charged and refunded exactly, and never taken without a signature",
  "Every accepted instruction leaves each account it resizes rent exempt: growth is charged to a signing payer for exactly the missing balance, shrinking refunds exactly the excess to the named payer or recipient, and no other balance changes. The total of all balances is unchanged. Growth without a signing payer and the system program is rejected when money is needed, and accepted without them when the account already holds enough.",
  H, "for all account sizes, balances, payers and histories of growing and shrinking instructions", TESTS + ", so no lamports ever move",
  [PR+'mod.rs', PR+'create.rs', PR+'allocate.rs', PR+'write.rs', PR+'update.rs', PR+'remove.rs', PR+'resize.rs', P+'utils.rs'], [("resize and funding", PR+'mod.rs resize'), ("account creation", PR+'allocate.rs create_account')], OB),
p("C13", "Malformed or unauthorised instructions change nothing",
  "An instruction with undecodable data, too few accounts, the wrong kind of account in a position (foreign owner, uninitialised, not a group, same account twice), or a missing required signature is rejected, whatever the accounts contain. An accepted instruction never alters an account it was not entitled to alter and never leaves any asset malformed. Additional wallets at the end of the account list do not change the outcome.",
  ['inputs', 'histories'], "for all instruction bytes, account lists and account contents", TESTS + "; no instruction is ever decoded",
  [P+'entrypoint.rs', P+'instruction.rs', PR+'mod.rs'], [("instruction decoding and dispatch", PR+'mod.rs'), ("account context", P+'instruction.rs'), ("ownership, signature and state checks", PR)], OB),
p("C14", "Extension builders and readers round-trip every value",
  "For every extension type, whatever values are given to its builder are exactly the values its reader returns, in order, and the reported length equals the number of bytes built; reusing a buffer or setting a value again leaves no trace of the old one. A value read through the mutable view is the same as through the immutable one, and editing it through the mutable view changes exactly that value. Typed property lookups return a value only under its name and type.",
  ['inputs'], "for all values of every extension type (strings up to 255 bytes, any binary data, any list length)", "the tests build one or two literal values per type",
  [T+'extensions/'], [("builders and readers", T+'extensions/*.rs')], ["values returned by the types library"]),
p("C15", "Constraints evaluate as the logical formula they encode",
  "A constraint built from and, or, not, ownership and address tests passes exactly when the corresponding boolean formula holds for the given asset, authority and recipient: an ownership test holds when the account's owner is listed and the account is not empty, an address test when its address is listed, an empty constraint always, and missing recipients are an error wherever they are consulted. Serialising a constraint that was read gives back the bytes it was read from, and its size equals their number.",
  ['inputs'], "for all constraint trees and evaluation contexts", "the tests build one constraint per operator and never evaluate one",
  [T+'constraints/'], [("evaluation", T+'constraints/*.rs assert'), ("serialisation", T+'constraints/*.rs as_bytes')], ["assert results and bytes returned by the types library"]),
p("C16", "Reading an asset account finds exactly what is stored, in any version",
  "For any well-formed account, looking up an extension returns it exactly when present (first of its type), enumeration lists all present extensions in order, and the first/last extension queries agree with it when every type is known; mutable lookups reach the same data. Extensions of unknown types are skipped without hiding the ones behind them, spare space is never mistaken for an extension, and data written by older versions (metadata without image, groups without delegate) still reads, with the missing part empty. Header fields read back exactly as stored.",
  ['inputs'], "for all accounts: any header, extension sequence including unknown types, spare space and legacy encodings", "the tests read no account with more than one extension",
  [T+'state/asset.rs', T+'state/delegate.rs', T+'extensions/mod.rs', T+'extensions/metadata.rs', T+'extensions/grouping.rs'], [("extension walk", T+'extensions/mod.rs'), ("asset queries", T+'state/asset.rs')], ["values returned by the types library"]),
p("C17", "Client-built instructions are what the program expects",
  "Every instruction built by the Rust clients (of the asset and of the bridge program), directly or as a cross-program call, decodes in the program to the arguments given, and places each account in the position, with the signer and writable rights, that the program needs, omitted optional accounts taking the program's placeholder. Executing it therefore has the effect the caller asked for. Remaining accounts follow in the order given.",
  ['inputs', 'configurations'], "for all instructions, arguments, and subsets of optional accounts", "no test sends or decodes a client-built instruction",
  ['clients/rust/asset/src/generated/instructions/', 'clients/rust/bridge/src/generated/instructions/', P+'instruction.rs', 'programs/bridge/src/instruction.rs'], [("asset instruction builders", 'clients/rust/asset/src/generated/instructions/*.rs'), ("bridge instruction builders", 'clients/rust/bridge/src/generated/instructions/*.rs')], ["instructions produced by the client, executed by the program"]),
p("C18", "The mint helpers assemble exactly the requested asset",
  "The instructions produced by the mint helper, executed in order, create exactly the asset described (header, standard, owner, group and every extension with its full content, of any size), and each instruction fits in a transaction. The allocation helpers for programs likewise transmit extension data completely, whatever its length. Extension values read from JSON yield the bytes the builders produce for the same values.",
  ['inputs'], "for all names, standards, extension lists and data sizes, in particular around the transaction and call size limits", "no test mints with the helpers",
  ['clients/rust/asset/src/mint.rs', 'clients/rust/asset/src/impls.rs', 'clients/rust/asset/src/lib.rs'], [("chunking into allocate, write and create", 'clients/rust/asset/src/mint.rs mint'), ("JSON extension values", 'clients/rust/asset/src/mint.rs ExtensionValue::into_data'), ("size and cross-program macros", 'clients/rust/asset/src/lib.rs')], ["instructions produced by the client, executed by the program"]),
p("C19", "The client decodes accounts to what the program stored",
  "For every asset account the program can produce, the Rust client's decoded asset has the same owner, authority, delegate, roles, group, state, standard, mutability and name as stored, and the client's type for an extension decodes the stored data (in its current format) to the stored values. The same holds for the bridge's vault accounts, and error codes carry the program's names. Decoding bytes that are cut short or hold a value no enumeration has fails instead of inventing values.",
  ['inputs', 'histories'], "for all accounts reachable by instruction histories, and all byte strings", "no test decodes an account",
  ['clients/rust/asset/src/impls.rs', 'clients/rust/asset/src/hooked/', 'clients/rust/asset/src/generated/accounts/internal_asset.rs', 'clients/rust/asset/src/generated/types/', 'clients/rust/asset/src/generated/errors/', 'clients/rust/bridge/src/', T+'state/asset.rs'], [("extension types", 'clients/rust/asset/src/generated/types/'), ("vault decoding", 'clients/rust/bridge/src/'), ("header decoding", 'clients/rust/asset/src/generated/accounts/internal_asset.rs'), ("hooked field types", 'clients/rust/asset/src/hooked/'), ("extension access", 'clients/rust/asset/src/impls.rs')], ["values returned by the client"]),
p("C20", "The proxy interface forwards faithfully and guards its own operations",
  "An instruction sent to a proxy program for its asset reaches the asset program unchanged, with the same accounts and rights, plus the asset's own signature, for every instruction of the standard. The reference proxy creates an asset at the address derived from its stub, only updates it with its proxy authority's signature, and each transfer it performs advances the recorded transfer count by one and records the time. It never signs for an asset other than the one it was given, and the asset's own signature stands in as an authority only when the proxy authority signed too.",
  H, "for all instructions, account lists, proxied assets and histories", TESTS + "; only the proxy's id is tested",
  ['programs/asset/interface/src/interface.rs', 'programs/asset/interface/src/processor.rs', 'programs/proxy/src/'], [("instruction decoding", 'programs/asset/interface/src/interface.rs'), ("forwarding", 'programs/asset/interface/src/processor.rs'), ("creation", 'programs/proxy/src/processor/create.rs'), ("transfer counting", 'programs/proxy/src/processor/transfer.rs'), ("guarded update", 'programs/proxy/src/processor/update.rs')], ["calls made to the asset program and resulting accounts"]),
p("C21", "Bridging keeps exactly one of token and asset in circulation",
  "A token can be bridged only once, by creating an asset whose name, authority, creators, metadata and royalties mirror the token's, held by the vault; only genuine non-fungible tokens with matching metadata and, where the collection is not yet bridged, the update authority's signature are accepted. Crossing over swaps token and asset between owner and vault, in one step and only with the owner's signature: as long as both move only through the bridge, exactly one of the two is outside the vault at every moment. Crossing back restores the token.",
  H, "for all token kinds, metadata, collections, account substitutions and histories of crossings", TESTS + "; only the bridge's id is tested",
  ['programs/bridge/src/'], [("creation", 'programs/bridge/src/processor/create.rs'), ("crossing", 'programs/bridge/src/processor/bridge.rs')], ["calls made to the token and asset programs and resulting accounts"]),
p("C22", "An interface description embedded in a program reads back intact",
  "Whatever interface description is compressed for embedding is recovered unchanged, with its kind, from the program binary that embeds it, wherever in the binary it is placed; the asset program embeds its published one. A binary without a description, or with a damaged one, is reported as an error.",
  ['inputs'], "for all descriptions and binary layouts", "no test embeds or parses a description",
  ['include-idl/src/'], [("compression", 'include-idl/src/shrink.rs'), ("parsing", 'include-idl/src/parse.rs')], ["values returned by the library"]),
p("C23", "Creating an asset initialises exactly what was asked, once",
  "A creation signed by the new account yields an unlocked asset with exactly the given name, owner, authority, standard, mutability and extensions, no delegate, and membership only in the given group; it succeeds whenever these are valid and funded. An account that already is an asset can never be created again. Extension contents that cannot be read back are refused.",
  H, "for all creation arguments, prior account states and histories", TESTS + ", so creation is never exercised",
  [PR+'create.rs', PR+'allocate.rs'], [("initialisation", PR+'create.rs'), ("content validation", T+'extensions/mod.rs on_create')], OB),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in L:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(L))
