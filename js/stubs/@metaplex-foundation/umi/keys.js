const ALPHABET = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
const INDEX = new Map([...ALPHABET].map((c, i) => [c, i]));
export const encode58 = (b) => {
  let zeros = 0;
  while (zeros < b.length && b[zeros] === 0) zeros += 1;
  const digits = [];
  for (let i = zeros; i < b.length; i += 1) {
    let carry = b[i];
    for (let j = 0; j < digits.length; j += 1) { carry += digits[j] << 8; digits[j] = carry % 58; carry = (carry / 58) | 0; }
    while (carry > 0) { digits.push(carry % 58); carry = (carry / 58) | 0; }
  }
  let out = '1'.repeat(zeros);
  for (let i = digits.length - 1; i >= 0; i -= 1) out += ALPHABET[digits[i]];
  return out;
};
export const decode58 = (t) => {
  let zeros = 0;
  while (zeros < t.length && t[zeros] === '1') zeros += 1;
  const out = [];
  for (let i = zeros; i < t.length; i += 1) {
    let carry = INDEX.get(t[i]);
    if (carry === undefined) throw new Error(`Expected a string of base 58, got [${t}].`);
    for (let j = 0; j < out.length; j += 1) { carry += out[j] * 58; out[j] = carry & 0xff; carry >>= 8; }
    while (carry > 0) { out.push(carry & 0xff); carry >>= 8; }
  }
  return new Uint8Array([...new Array(zeros).fill(0), ...out.reverse()]);
};
const seen = new Map();
const bytesOf = (t) => {
  let b = seen.get(t);
  if (!b) { b = decode58(t); if (b.length !== 32) throw new InvalidPublicKeyError(t); if (seen.size > 4000) seen.clear(); seen.set(t, b); }
  return b;
};
export class InvalidPublicKeyError extends Error { constructor(k) { super(`The provided public key is invalid: ${k}`); this.name = 'InvalidPublicKeyError'; } }
export const PUBLIC_KEY_LENGTH = 32;
export const isPublicKey = (v) => { if (typeof v !== 'string' || v.length < 32 || v.length > 44) return false; try { bytesOf(v); return true; } catch { return false; } };
export const isPda = (v) => Array.isArray(v) && v.length === 2 && typeof v[1] === 'number' && isPublicKey(v[0]);
export function assertPublicKey(v) { if (!isPublicKey(v)) throw new InvalidPublicKeyError(v); }
export const publicKey = (input, assertValid = true) => {
  let key;
  if (typeof input === 'string') key = input;
  else if (ArrayBuffer.isView(input)) key = encode58(input);
  else if (typeof input === 'object' && input !== null && 'publicKey' in input) key = input.publicKey;
  else if (typeof input === 'object' && input !== null && typeof input.toBase58 === 'function') key = input.toBase58();
  else if (Array.isArray(input)) [key] = input;
  else throw new InvalidPublicKeyError(String(input));
  if (assertValid) assertPublicKey(key);
  return key;
};
export const publicKeyBytes = (k) => new Uint8Array(bytesOf(k));
export const defaultPublicKey = () => '11111111111111111111111111111111';
export const uniquePublicKeys = (l) => [...new Set(l)];
export const samePublicKey = (a, b) => publicKey(a) === publicKey(b);
export const unwrapPda = (p) => p[0];
export const publicKeyToString = (k) => publicKey(k);
