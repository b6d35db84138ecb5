// Runs the JavaScript clients on requests of the checks: one JSON document per line in, one per line out.
import readline from 'node:readline';
import * as umi from '@metaplex-foundation/umi';
import * as asset from '@nifty-oss/asset';
import * as bridge from '@nifty-oss/bridge';
import * as proxy from '@nifty-oss/proxy';

const clients = { asset, bridge, proxy };
const hex = (b) => Buffer.from(b).toString('hex');

function load(v, context) {
  if (v === null || typeof v !== 'object') return v;
  if (Array.isArray(v)) return v.map((x) => load(x, context));
  const keys = Object.keys(v);
  if (keys.length === 1 && keys[0][0] === '$') {
    const x = v[keys[0]];
    switch (keys[0]) {
      case '$s': return umi.createNoopSigner(x);
      case '$p': return [x, 255];
      case '$x': return new Uint8Array(Buffer.from(x, 'hex'));
      case '$n': return BigInt(x);
      case '$o': return umi.some(load(x, context));
      case '$0': return umi.none();
      case '$c': return context;
      // the value another function of the client makes
      case '$f': return clients[x.c ?? 'asset'][x.f](...load(x.a, context));
      default: throw new Error(keys[0]);
    }
  }
  return Object.fromEntries(keys.map((k) => [k, load(v[k], context)]));
}
function save(v) {
  if (typeof v === 'bigint') return { $n: v.toString() };
  if (v === null || typeof v !== 'object') return v;
  if (ArrayBuffer.isView(v)) return { $x: hex(v) };
  if (Array.isArray(v)) return v.map(save);
  if (v instanceof Map || v instanceof Set) return save([...v]);
  if (v instanceof Error) return { name: v.name, code: v.code, message: v.message };
  return Object.fromEntries(Object.entries(v).filter(([, x]) => typeof x !== 'function' && x !== undefined).map(([k, x]) => [k, save(x)]));
}
function transactions(context, r) {
  const builders = 'builders' in r ? r.builders : [r];
  return {
    together: 'builders' in r && r.isParallel(),
    transactions: builders.map((b) => ({
      size: b.items.length ? b.getTransactionSize(context) : 0,
      signers: b.items.length ? b.getSigners(context).map((s) => s.publicKey) : [],
      instructions: b.getInstructions().map((i) => ({ program: i.programId, data: hex(i.data), keys: i.keys.map((k) => [umi.publicKey(k.pubkey), k.isSigner, k.isWritable]) })),
    })),
  };
}
async function answer(q) {
  const accounts = q.accounts && Object.fromEntries(Object.entries(q.accounts).map(([k, a]) => [k, { publicKey: k, owner: a.owner, data: new Uint8Array(Buffer.from(a.data, 'hex')), executable: false, lamports: umi.lamports(1) }]));
  const context = umi.createContext({ identity: q.identity, payer: q.payer, generated: q.generated, accounts });
  if (q.plugins) context.use(asset.niftyAsset()).use(bridge.niftyBridge()).use(proxy.niftyProxy());
  const client = clients[q.c];
  if (typeof client[q.f] !== 'function') return { missing: q.f };
  // arguments are not altered, and where the context points stays what it was
  const given = [];
  const take = (a) => {
    const v = load(a, context);
    given.push([v, JSON.stringify(save(v.filter((x) => x !== context)))]);
    return v;
  };
  const home = context.programs.getPublicKey('asset', '11111111111111111111111111111111');
  let r = client[q.f](...take(q.a));
  for (const [m, ...a] of q.then ?? []) r = await r[m](...take(a));
  r = await r;
  if (given.some(([v, before]) => JSON.stringify(save(v.filter((x) => x !== context))) !== before)) return { err: 'the arguments are altered' };
  if (context.programs.getPublicKey('asset', '11111111111111111111111111111111') !== home || context.identity.publicKey !== q.identity || context.payer.publicKey !== q.payer) return { err: 'the context is altered' };
  return { ok: q.build ? transactions(context, r) : save(r) };
}
const lines = readline.createInterface({ input: process.stdin });
let queue = Promise.resolve();
lines.on('line', (line) => {
  queue = queue.then(async () => {
    let out;
    try { out = await answer(JSON.parse(line)); } catch (e) { out = { err: `${e?.message ?? e}${e?.cause?.message ? `: ${e.cause.message}` : ''}` }; }
    process.stdout.write(`${JSON.stringify(out === undefined ? null : out)}\n`);
  });
});
