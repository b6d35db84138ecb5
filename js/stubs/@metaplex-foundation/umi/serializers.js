// Stand-in for umi's serializers: same behaviour on what the clients use, written for the checks.
import { publicKey as toPublicKey, publicKeyBytes, encode58, decode58 } from './keys.js';
import { isOption, isSome, none, some, wrapNullable } from './options.js';

export class NotEnoughBytesError extends Error { constructor(what, want, got) { super(`Serializer [${what}] expected ${want} bytes, got ${got}.`); this.name = 'NotEnoughBytesError'; } }
export class DeserializingEmptyBufferError extends Error { constructor(what) { super(`Serializer [${what}] cannot deserialize empty buffers.`); this.name = 'DeserializingEmptyBufferError'; } }
export class ExpectedFixedSizeSerializerError extends Error {}
export class NumberOutOfRangeError extends RangeError { constructor(what, min, max, v) { super(`Serializer [${what}] expected number to be between ${min} and ${max}, got ${v}.`); this.name = 'NumberOutOfRangeError'; } }
export class InvalidNumberOfItemsError extends Error { constructor(what, want, got) { super(`Expected [${what}] to have ${want} items, got ${got}.`); this.name = 'InvalidNumberOfItemsError'; } }

// bytes
export const mergeBytes = (list) => {
  const out = new Uint8Array(list.reduce((n, b) => n + b.length, 0));
  let at = 0;
  for (const b of list) { out.set(b, at); at += b.length; }
  return out;
};
export const padBytes = (b, n) => { if (b.length >= n) return b; const out = new Uint8Array(n); out.set(b); return out; };
export const fixBytes = (b, n) => padBytes(b.slice(0, n), n);
const need = (what, b, at, n) => {
  const left = Math.max(0, b.length - at);
  if (left === 0 && n > 0) throw new DeserializingEmptyBufferError(what);
  if (left < n) throw new NotEnoughBytesError(what, n, left);
};

// combinators
export const fixSerializer = (s, n, description) => ({
  description: description ?? `fixed(${n}, ${s.description})`, fixedSize: n, maxSize: n,
  serialize: (v) => fixBytes(s.serialize(v), n),
  deserialize: (b, at = 0) => {
    need('fixSerializer', b, at, n);
    let part = b.slice(at, at + n);
    if (s.fixedSize !== null) part = fixBytes(part, s.fixedSize);
    return [s.deserialize(part, 0)[0], at + n];
  },
});
export const mapSerializer = (s, unmap, map) => ({
  description: s.description, fixedSize: s.fixedSize, maxSize: s.maxSize,
  serialize: (v) => s.serialize(unmap(v)),
  deserialize: (b, at = 0) => { const [v, n] = s.deserialize(b, at); return map ? [map(v, b, at), n] : [v, n]; },
});
export const reverseSerializer = (s) => {
  if (s.fixedSize === null) throw new ExpectedFixedSizeSerializerError('Cannot reverse a serializer of variable size.');
  return { ...s, serialize: (v) => s.serialize(v).reverse(),
    deserialize: (b, at = 0) => { const c = b.slice(); c.set(b.slice(at, at + s.fixedSize).reverse(), at); return s.deserialize(c, at); } };
};

// numbers
const number = (name, size, min, max, big, set, get) => (o = {}) => {
  const le = (o.endian ?? 'le') === 'le' || o.endian === 0;
  const description = o.description ?? `${name}(${le ? 'le' : 'be'})`;
  return {
    description, fixedSize: size, maxSize: size,
    serialize: (v) => {
      if (min !== null && (v < min || v > max)) throw new NumberOutOfRangeError(name, min, max, v);
      const b = new ArrayBuffer(size);
      set(new DataView(b), big ? BigInt(v) : Number(v), le);
      return new Uint8Array(b);
    },
    deserialize: (b, at = 0) => { need(name, b, at, size); const c = b.slice(at, at + size); return [get(new DataView(c.buffer, c.byteOffset, size), le), at + size]; },
  };
};
export const u8 = number('u8', 1, 0, 255, false, (d, v) => d.setUint8(0, v), (d) => d.getUint8(0));
export const i8 = number('i8', 1, -128, 127, false, (d, v) => d.setInt8(0, v), (d) => d.getInt8(0));
export const u16 = number('u16', 2, 0, 0xffff, false, (d, v, l) => d.setUint16(0, v, l), (d, l) => d.getUint16(0, l));
export const i16 = number('i16', 2, -0x8000, 0x7fff, false, (d, v, l) => d.setInt16(0, v, l), (d, l) => d.getInt16(0, l));
export const u32 = number('u32', 4, 0, 0xffffffff, false, (d, v, l) => d.setUint32(0, v, l), (d, l) => d.getUint32(0, l));
export const i32 = number('i32', 4, -0x80000000, 0x7fffffff, false, (d, v, l) => d.setInt32(0, v, l), (d, l) => d.getInt32(0, l));
export const u64 = number('u64', 8, 0n, (1n << 64n) - 1n, true, (d, v, l) => d.setBigUint64(0, v, l), (d, l) => d.getBigUint64(0, l));
export const i64 = number('i64', 8, -(1n << 63n), (1n << 63n) - 1n, true, (d, v, l) => d.setBigInt64(0, v, l), (d, l) => d.getBigInt64(0, l));
const wide = (signed) => [
  (d, v, l) => { const m = (1n << 64n) - 1n; d.setBigUint64(l ? 0 : 8, BigInt.asUintN(64, v & m), l); d.setBigUint64(l ? 8 : 0, BigInt.asUintN(64, v >> 64n), l); },
  (d, l) => { const lo = d.getBigUint64(l ? 0 : 8, l); const hi = signed ? d.getBigInt64(l ? 8 : 0, l) : d.getBigUint64(l ? 8 : 0, l); return (hi << 64n) + lo; },
];
export const u128 = number('u128', 16, 0n, (1n << 128n) - 1n, true, ...wide(false));
export const i128 = number('i128', 16, -(1n << 127n), (1n << 127n) - 1n, true, ...wide(true));
export const f32 = number('f32', 4, null, null, false, (d, v, l) => d.setFloat32(0, v, l), (d, l) => d.getFloat32(0, l));
export const f64 = number('f64', 8, null, null, false, (d, v, l) => d.setFloat64(0, v, l), (d, l) => d.getFloat64(0, l));
export const shortU16 = (o = {}) => ({
  description: o.description ?? 'shortU16', fixedSize: null, maxSize: 3,
  serialize: (v) => { const out = []; let n = v; for (;;) { const c = n & 0x7f; n >>= 7; if (n === 0) { out.push(c); break; } out.push(c | 0x80); } return new Uint8Array(out); },
  deserialize: (b, at = 0) => { let v = 0; let n = 0; for (;;) { const c = b[at + n]; v |= (c & 0x7f) << (7 * n); n += 1; if ((c & 0x80) === 0) break; } return [v, at + n]; },
});

// text
export const removeNullCharacters = (t) => t.replace(/\u0000/g, '');
export const padNullCharacters = (t, n) => t.padEnd(n, '\u0000');
export const utf8 = { description: 'utf8', fixedSize: null, maxSize: null,
  serialize: (t) => new TextEncoder().encode(t),
  deserialize: (b, at = 0) => [removeNullCharacters(new TextDecoder().decode(b.slice(at))), b.length] };
export const base16 = { description: 'base16', fixedSize: null, maxSize: null,
  serialize: (t) => new Uint8Array((t.toLowerCase().match(/../g) ?? []).map((x) => parseInt(x, 16))),
  deserialize: (b, at = 0) => [Array.from(b.slice(at), (x) => x.toString(16).padStart(2, '0')).join(''), b.length] };
export const base58 = { description: 'base58', fixedSize: null, maxSize: null, serialize: (t) => decode58(t), deserialize: (b, at = 0) => [encode58(b.slice(at)), b.length] };
export const base64 = { description: 'base64', fixedSize: null, maxSize: null, serialize: (t) => new Uint8Array(Buffer.from(t, 'base64')), deserialize: (b, at = 0) => [Buffer.from(b.slice(at)).toString('base64'), b.length] };
export const string = (o = {}) => {
  const size = o.size ?? u32(); const enc = o.encoding ?? utf8; const description = o.description ?? 'string';
  if (size === 'variable') return { ...enc, description };
  if (typeof size === 'number') return fixSerializer(enc, size, description);
  return { description, fixedSize: null, maxSize: null,
    serialize: (v) => { const c = enc.serialize(v); return mergeBytes([size.serialize(c.length), c]); },
    deserialize: (b, at = 0) => {
      need('string', b, at, 1);
      const [n, from] = size.deserialize(b, at); const len = Number(n);
      need('string', b, from, len);
      return [enc.deserialize(b.slice(from, from + len), 0)[0], from + len];
    } };
};
export const bytes = (o = {}) => {
  const size = o.size ?? 'variable'; const description = o.description ?? 'bytes';
  const raw = { description, fixedSize: null, maxSize: null, serialize: (v) => new Uint8Array(v), deserialize: (b, at = 0) => { const c = b.slice(at); return [c, at + c.length]; } };
  if (size === 'variable') return raw;
  if (typeof size === 'number') return fixSerializer(raw, size, description);
  return { ...raw, serialize: (v) => mergeBytes([size.serialize(v.length), raw.serialize(v)]),
    deserialize: (b, at = 0) => { need('bytes', b, at, 1); const [n, from] = size.deserialize(b, at); const len = Number(n); need('bytes', b, from, len); return [b.slice(from, from + len), from + len]; } };
};
export const bool = (o = {}) => {
  const size = o.size ?? u8();
  return { description: o.description ?? 'bool', fixedSize: size.fixedSize, maxSize: size.maxSize, serialize: (v) => size.serialize(v ? 1 : 0),
    deserialize: (b, at = 0) => { need('bool', b, at, 1); const [v, n] = size.deserialize(b, at); return [Number(v) === 1, n]; } };
};
export const unit = (o = {}) => ({ description: o.description ?? 'unit', fixedSize: 0, maxSize: 0, serialize: () => new Uint8Array(), deserialize: (_b, at = 0) => [undefined, at] });
export const publicKey = (o = {}) => ({ description: o.description ?? 'publicKey', fixedSize: 32, maxSize: 32, serialize: (v) => publicKeyBytes(toPublicKey(v)),
  deserialize: (b, at = 0) => { need('publicKey', b, at, 32); return [toPublicKey(b.slice(at, at + 32)), at + 32]; } });

// collections
const sum = (l) => l.reduce((a, x) => (a === null || x === null ? null : a + x), 0);
const sized = (size, n) => (typeof size === 'number' ? n * size : null);
const listOf = (what, item, size, put) => ({
  serialize: (list) => {
    if (typeof size === 'number' && list.length !== size) throw new InvalidNumberOfItemsError(what, size, list.length);
    const parts = list.map((v) => item.serialize(v));
    return typeof size === 'object' ? mergeBytes([size.serialize(list.length), ...parts]) : mergeBytes(parts);
  },
  deserialize: (b, at = 0) => {
    const out = [];
    if (typeof size === 'object' && b.length <= at) return [out, at];
    if (size === 'remainder') { while (at < b.length) { const [v, n] = item.deserialize(b, at); out.push(v); at = n; } return [out, at]; }
    let count = size;
    if (typeof size === 'object') { const [n, from] = size.deserialize(b, at); count = Number(n); at = from; }
    for (let i = 0; i < count; i += 1) { const [v, n] = item.deserialize(b, at); out.push(v); at = n; }
    return [out, at];
  },
});
export const array = (item, o = {}) => {
  const size = o.size ?? u32();
  const n = typeof size === 'number' && item.fixedSize !== null ? size * item.fixedSize : null;
  return { description: o.description ?? 'array', fixedSize: n, maxSize: n, ...listOf('array', item, size) };
};
export const set = (item, o = {}) => {
  const s = listOf('set', item, o.size ?? u32());
  return { description: o.description ?? 'set', fixedSize: null, maxSize: null, serialize: (v) => s.serialize(Array.from(v)), deserialize: (b, at = 0) => { const [v, n] = s.deserialize(b, at); return [new Set(v), n]; } };
};
export const tuple = (items, o = {}) => ({
  description: o.description ?? 'tuple', fixedSize: sum(items.map((i) => i.fixedSize)), maxSize: sum(items.map((i) => i.maxSize)),
  serialize: (v) => { if (v.length !== items.length) throw new InvalidNumberOfItemsError('tuple', items.length, v.length); return mergeBytes(items.map((s, i) => s.serialize(v[i]))); },
  deserialize: (b, at = 0) => { const out = []; for (const s of items) { const [v, n] = s.deserialize(b, at); out.push(v); at = n; } return [out, at]; },
});
export const map = (k, v, o = {}) => {
  const s = listOf('map', tuple([k, v]), o.size ?? u32());
  return { description: o.description ?? 'map', fixedSize: null, maxSize: null, serialize: (m) => s.serialize(Array.from(m.entries())), deserialize: (b, at = 0) => { const [l, n] = s.deserialize(b, at); return [new Map(l), n]; } };
};
export const struct = (fields, o = {}) => ({
  description: o.description ?? 'struct', fixedSize: sum(fields.map((f) => f[1].fixedSize)), maxSize: sum(fields.map((f) => f[1].maxSize)),
  serialize: (v) => mergeBytes(fields.map(([k, s]) => s.serialize(v[k]))),
  deserialize: (b, at = 0) => { const out = {}; for (const [k, s] of fields) { const [v, n] = s.deserialize(b, at); out[k] = v; at = n; } return [out, at]; },
});
const optional = (item, prefix, fixed, description, present, wrap, empty) => ({
  description, fixedSize: fixed && item.fixedSize !== null ? prefix.fixedSize + item.fixedSize : null, maxSize: null,
  serialize: (v) => {
    const [yes, x] = present(v);
    const out = mergeBytes([prefix.serialize(Number(yes)), yes ? item.serialize(x) : new Uint8Array()]);
    return fixed ? fixBytes(out, prefix.fixedSize + item.fixedSize) : out;
  },
  deserialize: (b, at = 0) => {
    if (b.length - at <= 0) return [empty(), at];
    const [p, from] = prefix.deserialize(b, at);
    const end = fixed ? at + prefix.fixedSize + item.fixedSize : null;
    if (Number(p) === 0) return [empty(), end ?? from];
    const [v, n] = item.deserialize(b, from);
    return [wrap(v), end ?? n];
  },
});
export const option = (item, o = {}) => optional(item, o.prefix ?? u8(), o.fixed ?? false, o.description ?? 'option', (v) => { const x = isOption(v) ? v : wrapNullable(v); return [isSome(x), isSome(x) ? x.value : null]; }, some, none);
export const nullable = (item, o = {}) => optional(item, o.prefix ?? u8(), o.fixed ?? false, o.description ?? 'nullable', (v) => [v !== null && v !== undefined, v], (v) => v, () => null);
export const scalarEnum = (ctor, o = {}) => {
  const size = o.size ?? u8();
  const names = Object.keys(ctor).filter((k) => Number.isNaN(Number(k)));
  const values = Object.values(ctor);
  const numeric = values.some((v) => typeof v === 'number');
  const texts = numeric ? names : values;
  const max = numeric ? values.length / 2 - 1 : values.length - 1;
  return { description: o.description ?? 'scalarEnum', fixedSize: size.fixedSize, maxSize: size.maxSize,
    serialize: (v) => {
      const n = typeof v === 'number' ? v : numeric ? ctor[v] ?? -1 : values.indexOf(v) >= 0 ? values.indexOf(v) : names.indexOf(v);
      if (!(n >= 0 && n <= max)) throw new Error(`Invalid scalar enum variant: ${String(v)} (of ${texts}).`);
      return size.serialize(n);
    },
    deserialize: (b, at = 0) => {
      need('enum', b, at, 1);
      const [x, n] = size.deserialize(b, at); const v = Number(x);
      if (v < 0 || v > max) throw new RangeError(`Enum discriminator out of range: ${v}.`);
      return [numeric ? v : values[v], n];
    } };
};
export const dataEnum = (variants, o = {}) => {
  const size = o.size ?? u8();
  return { description: o.description ?? 'dataEnum', fixedSize: null, maxSize: null,
    serialize: (v) => {
      const i = variants.findIndex(([k]) => k === v.__kind);
      if (i < 0) throw new Error(`Invalid data enum variant: ${String(v.__kind)}.`);
      return mergeBytes([size.serialize(i), variants[i][1].serialize(v)]);
    },
    deserialize: (b, at = 0) => {
      need('dataEnum', b, at, 1);
      const [x, from] = size.deserialize(b, at);
      const variant = variants[Number(x)];
      if (!variant) throw new RangeError(`Data enum index out of range: ${x}.`);
      const [v, n] = variant[1].deserialize(b, from);
      return [{ __kind: variant[0], ...(v ?? {}) }, n];
    } };
};
export const bitArray = (size, o = {}) => {
  const back = (typeof o === 'boolean' ? o : o.backward) ?? false;
  return { description: o.description ?? 'bitArray', fixedSize: size, maxSize: size,
    serialize: (v) => { const out = new Uint8Array(size); for (let i = 0; i < size * 8; i += 1) if (v[i]) out[i >> 3] |= 1 << (back ? i % 8 : 7 - (i % 8)); return out; },
    deserialize: (b, at = 0) => { need('bitArray', b, at, size); const out = []; for (let i = 0; i < size * 8; i += 1) out.push(((b[at + (i >> 3)] >> (back ? i % 8 : 7 - (i % 8))) & 1) === 1); return [out, at + size]; } };
};
void sized;
