// Stand-in for umi: same behaviour on what the clients use, written for the checks.
import crypto from 'node:crypto';
import { encode58, publicKey, publicKeyBytes, isPublicKey, isPda } from './keys.js';
export * from './options.js';
export { publicKey, publicKeyBytes, isPublicKey, isPda, defaultPublicKey, uniquePublicKeys, samePublicKey, assertPublicKey, unwrapPda, publicKeyToString, PUBLIC_KEY_LENGTH, InvalidPublicKeyError } from './keys.js';

// errors
export class UmiError extends Error { constructor(message, source, sourceDetails, cause) { super(message); this.name = 'UmiError'; this.source = source; this.sourceDetails = sourceDetails; this.cause = cause; } }
export class SdkError extends UmiError { constructor(message, cause) { super(message, 'sdk', undefined, cause); this.name = 'SdkError'; } }
export class ProgramError extends UmiError { constructor(message, program, cause) { super(message, 'program', `${program?.name} [${program?.publicKey}]`, cause); this.name = 'ProgramError'; this.program = program; this.logs = cause?.logs; } }
export class AccountNotFoundError extends UmiError { constructor(publicKey, accountType) { super(`The account of type [${accountType ?? 'Account'}] was not found at the provided address [${publicKey}].`, 'sdk'); this.name = 'AccountNotFoundError'; } }
export class UnexpectedAccountError extends UmiError { constructor(publicKey, expected, cause) { super(`The account at the provided address [${publicKey}] is not of the expected type [${expected}].`, 'sdk', undefined, cause); this.name = 'UnexpectedAccountError'; } }
export class UnexpectedAmountError extends UmiError {}
export class InterfaceImplementationMissingError extends UmiError {}
export class ProgramNotRecognizedError extends UmiError { constructor(id) { super(`The provided program name [${id}] is not recognized.`, 'sdk'); this.name = 'ProgramNotRecognizedError'; } }

// accounts
export const ACCOUNT_HEADER_SIZE = 128;
export function assertAccountExists(account, name) { if (!account.exists) throw new AccountNotFoundError(account.publicKey, name); }
export function deserializeAccount(raw, serializer) {
  const { data, publicKey: key, ...rest } = raw;
  try { const [parsed] = serializer.deserialize(data); return { publicKey: key, header: rest, ...parsed }; }
  catch (e) { throw new UnexpectedAccountError(key, serializer.description, e); }
}

// signers
export const isSigner = (v) => typeof v === 'object' && v !== null && 'publicKey' in v && 'signMessage' in v;
export const createNoopSigner = (key) => ({ publicKey: key, signMessage: async (m) => m, signTransaction: async (t) => t, signAllTransactions: async (t) => t });
export const createNullSigner = () => { throw new Error('null signer'); };
export const generateSigner = (context) => createSignerFromKeypair(context, context.eddsa.generateKeypair());
export const createSignerFromKeypair = (_context, pair) => ({ ...createNoopSigner(pair.publicKey), secretKey: pair.secretKey });
export const isKeypairSigner = (s) => 'secretKey' in s;
export const uniqueSigners = (l) => l.filter((s, i) => l.findIndex((o) => o.publicKey === s.publicKey) === i);

// numbers
export const createBigInt = (v) => BigInt(v);
export const createAmount = (basisPoints, identifier, decimals) => ({ basisPoints: BigInt(basisPoints), identifier, decimals });
export const lamports = (v) => createAmount(v, 'SOL', 9);
export const sol = (v) => createAmount(Math.round(v * 1e9), 'SOL', 9);
export const chunk = (l, n) => Array.from({ length: Math.ceil(l.length / n) }, (_, i) => l.slice(i * n, i * n + n));
export const zipMap = (a, b, f) => a.map((x, i) => f(x, b[i] ?? null, i));

// transactions
export const TRANSACTION_SIZE_LIMIT = 1232;
const short = (n) => (n < 0x80 ? 1 : n < 0x4000 ? 2 : 3);
export function transactionSize(payer, instructions) {
  const keys = new Set([payer]); const signers = new Set([payer]);
  let body = 0;
  for (const ix of instructions) {
    for (const k of ix.keys) { keys.add(k.pubkey); if (k.isSigner) signers.add(k.pubkey); }
    keys.add(ix.programId);
    body += 1 + short(ix.keys.length) + ix.keys.length + short(ix.data.length) + ix.data.length;
  }
  // version, header, keys, block hash, instructions, (empty) lookup tables
  return short(signers.size) + 64 * signers.size + 1 + 3 + short(keys.size) + 32 * keys.size + 32 + short(instructions.length) + body + 1;
}
const itemsOf = (x) => (Array.isArray(x) ? x : [x]).flatMap((i) => (i && 'items' in i ? i.items : [i]));
export class TransactionBuilder {
  constructor(items = [], options = {}) { this.items = items; this.options = options; }
  empty() { return new TransactionBuilder([], this.options); }
  setItems(x) { return new TransactionBuilder(itemsOf(x), this.options); }
  prepend(x) { return new TransactionBuilder([...itemsOf(x), ...this.items], this.options); }
  append(x) { return new TransactionBuilder([...this.items, ...itemsOf(x)], this.options); }
  add(x) { return this.append(x); }
  mapInstructions(f) { return new TransactionBuilder(this.items.map(f), this.options); }
  addRemainingAccounts(x, index) {
    const metas = (Array.isArray(x) && !isPda(x) ? x : [x]).map((m) => ('pubkey' in m ? m : { pubkey: publicKey(m.signer ?? m), isSigner: 'signer' in m || isSigner(m), isWritable: m.isWritable ?? false }));
    const at = index ?? this.items.length - 1;
    return this.mapInstructions((w, i) => (i === at ? { ...w, instruction: { ...w.instruction, keys: [...w.instruction.keys, ...metas] } } : w));
  }
  splitByIndex(i) { return [new TransactionBuilder(this.items.slice(0, i), this.options), new TransactionBuilder(this.items.slice(i), this.options)]; }
  unsafeSplitByTransactionSize(context) {
    return this.items.reduce((list, item) => {
      const last = list.pop(); const more = last.add(item);
      if (more.fitsInOneTransaction(context)) list.push(more); else { list.push(last); list.push(last.empty().add(item)); }
      return list;
    }, [this.empty()]);
  }
  setFeePayer(s) { return new TransactionBuilder(this.items, { ...this.options, feePayer: s }); }
  getFeePayer(context) { return this.options.feePayer ?? context.payer; }
  setVersion(version) { return new TransactionBuilder(this.items, { ...this.options, version }); }
  useV0() { return this.setVersion(0); }
  useLegacyVersion() { return this.setVersion('legacy'); }
  setBlockhash(blockhash) { return new TransactionBuilder(this.items, { ...this.options, blockhash }); }
  getInstructions() { return this.items.map((i) => i.instruction); }
  getSigners(context) { return uniqueSigners([this.getFeePayer(context), ...this.items.flatMap((i) => i.signers)]); }
  getBytesCreatedOnChain() { return this.items.reduce((n, i) => n + i.bytesCreatedOnChain, 0); }
  getTransactionSize(context) { return transactionSize(this.getFeePayer(context).publicKey, this.getInstructions()); }
  minimumTransactionsRequired(context) { return Math.ceil(this.getTransactionSize(context) / TRANSACTION_SIZE_LIMIT); }
  fitsInOneTransaction(context) { return this.minimumTransactionsRequired(context) === 1; }
}
export const transactionBuilder = (items = []) => new TransactionBuilder(items);
const buildersOf = (x) => x.flatMap((b) => (Array.isArray(b) ? b : 'builders' in b ? b.builders : [b]));
export class TransactionBuilderGroup {
  constructor(builders = [], options = {}) { this.builders = builders; this.options = options; }
  prepend(...x) { return new TransactionBuilderGroup([...buildersOf(x), ...this.builders], this.options); }
  append(...x) { return new TransactionBuilderGroup([...this.builders, ...buildersOf(x)], this.options); }
  add(...x) { return this.append(...x); }
  map(f) { return new TransactionBuilderGroup(this.builders.map(f), this.options); }
  filter(f) { return new TransactionBuilderGroup(this.builders.filter(f), this.options); }
  parallel() { return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: true }); }
  sequential() { return new TransactionBuilderGroup(this.builders, { ...this.options, parallel: false }); }
  isParallel() { return this.options.parallel ?? false; }
  merge() { return this.builders.length ? this.builders.reduce((a, b) => a.add(b), this.builders[0].empty()) : new TransactionBuilder(); }
}
export const transactionBuilderGroup = (builders = []) => new TransactionBuilderGroup(builders);

// account queries
export class GpaBuilder {
  constructor(context, programId, options = {}) { this.context = context; this.programId = programId; this.options = options; }
  with(o) { return new GpaBuilder(this.context, this.programId, { ...this.options, ...o }); }
  reset() { return new GpaBuilder(this.context, this.programId, { fields: this.options.fields, deserializeCallback: this.options.deserializeCallback }); }
  registerFields(fields) { return this.with({ fields }); }
  registerFieldsFromStruct(fields, start = 0) {
    let at = start; const out = {};
    for (const [k, s] of fields) { out[k] = [at, s]; at = at === null || s.fixedSize === null ? null : at + s.fixedSize; }
    return this.registerFields(out);
  }
  deserializeUsing(deserializeCallback) { return this.with({ deserializeCallback }); }
  slice(offset, length) { return this.with({ dataSlice: { offset, length } }); }
  withoutData() { return this.slice(0, 0); }
  addFilter(...f) { return this.with({ filters: [...(this.options.filters ?? []), ...f] }); }
  where(offset, data) {
    const bytes = typeof data === 'string' ? publicKeyBytes(data) : typeof data === 'bigint' || typeof data === 'number' ? new Uint8Array([Number(data)]) : typeof data === 'boolean' ? new Uint8Array([data ? 1 : 0]) : new Uint8Array(data);
    return this.addFilter({ memcmp: { offset, bytes } });
  }
  whereField(name, data) {
    const field = this.options.fields?.[name];
    if (!field) throw new SdkError(`Field [${name}] is not defined.`);
    if (field[0] === null) throw new SdkError(`Field [${name}] does not have a fixed offset.`);
    return this.where(field[0], field[1].serialize(data));
  }
  whereSize(dataSize) { return this.addFilter({ dataSize }); }
  deserialize(account) { return this.options.deserializeCallback ? this.options.deserializeCallback(account) : account; }
  async get() { return this.context.rpc.getProgramAccounts(this.programId, { filters: this.options.filters ?? [] }); }
  async getDeserialized() { return (await this.get()).map((a) => this.deserialize(a)); }
}
export const gpaBuilder = (context, programId) => new GpaBuilder(context, programId);

// the context of the checks
const P = 2n ** 255n - 19n;
const pow = (b, e) => { let r = 1n; let x = ((b % P) + P) % P; while (e > 0n) { if (e & 1n) r = (r * x) % P; x = (x * x) % P; e >>= 1n; } return r; };
const D = ((-121665n * pow(121666n, P - 2n)) % P + P) % P;
/** Whether the bytes are a point of the curve (compressed). */
export function onCurve(bytes) {
  let y = 0n;
  for (let i = 31; i >= 0; i -= 1) y = (y << 8n) | BigInt(i === 31 ? bytes[i] & 0x7f : bytes[i]);
  y %= P;
  const u = (y * y - 1n + P) % P; const v = (D * y * y + 1n) % P;
  const x2 = (u * pow(v, P - 2n)) % P;
  return x2 === 0n || pow(x2, (P - 1n) / 2n) === 1n;
}
const pdas = new Map();
export function findPda(programId, seeds) {
  const id = publicKey(programId);
  const name = id + seeds.map((s) => Buffer.from(s).toString('hex')).join('.');
  let r = pdas.get(name);
  if (r) return r;
  for (let bump = 255; bump >= 0; bump -= 1) {
    const h = crypto.createHash('sha256');
    for (const s of seeds) { if (s.length > 32) throw new Error('Max seed length exceeded.'); h.update(s); }
    h.update(new Uint8Array([bump])).update(publicKeyBytes(id)).update('ProgramDerivedAddress');
    const key = new Uint8Array(h.digest());
    if (!onCurve(key)) { r = [encode58(key), bump]; break; }
  }
  if (pdas.size > 4000) pdas.clear();
  pdas.set(name, r);
  return r;
}
export function createProgramRepository(programs = [], bindings = new Map()) {
  const list = [...programs]; const bound = new Map(bindings);
  const resolve = (id, trail = []) => {
    if (!bound.has(id)) return id;
    if (trail.includes(id)) throw new SdkError('Circular program bindings.');
    return resolve(bound.get(id), [...trail, id]);
  };
  const find = (id) => { const r = resolve(id); return list.find((p) => (isPublicKey(r) ? p.publicKey === r : p.name === r)); };
  const repo = {
    has: (id) => Boolean(find(id)),
    get: (id) => { const p = find(id); if (!p) throw new ProgramNotRecognizedError(id); return p; },
    all: () => [...list],
    add: (p, overrides = true) => { if (overrides || !list.some((o) => o.name === p.name)) { if (overrides) list.unshift(p); else list.push(p); } },
    bind: (abstract, concrete) => { bound.set(abstract, concrete); resolve(abstract); },
    unbind: (abstract) => { bound.delete(abstract); },
    getPublicKey: (id, fallback) => {
      const p = find(id);
      if (p) return p.publicKey;
      const r = resolve(id);
      if (isPublicKey(r)) return r;
      if (fallback === undefined) throw new ProgramNotRecognizedError(id);
      return publicKey(fallback);
    },
    resolveError: (error) => error,
    clone: () => createProgramRepository(list, bound),
  };
  return repo;
}
export function createContext({ identity, payer, generated, accounts }) {
  const next = [...(generated ?? [])];
  const context = {
    programs: createProgramRepository(),
    identity: createNoopSigner(identity), payer: createNoopSigner(payer),
    eddsa: {
      generateKeypair: () => { if (!next.length) throw new Error('no further key'); return { publicKey: next.shift(), secretKey: new Uint8Array(64) }; },
      findPda, isOnCurve: (k) => onCurve(publicKeyBytes(publicKey(k))),
    },
    transactions: {},
    rpc: {
      getAccount: async (k) => (accounts?.[k] ? { exists: true, ...accounts[k] } : { exists: false, publicKey: k }),
      getAccounts: async (ks) => ks.map((k) => (accounts?.[k] ? { exists: true, ...accounts[k] } : { exists: false, publicKey: k })),
      getProgramAccounts: async (id, o) => Object.values(accounts ?? {}).filter((a) => a.owner === id && (o.filters ?? []).every((f) => ('dataSize' in f ? a.data.length === f.dataSize : Buffer.from(a.data.slice(f.memcmp.offset, f.memcmp.offset + f.memcmp.bytes.length)).equals(Buffer.from(f.memcmp.bytes))))),
    },
    use: (plugin) => { plugin.install(context); return context; },
  };
  return context;
}
