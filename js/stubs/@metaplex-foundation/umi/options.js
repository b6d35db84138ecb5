export const some = (value) => ({ __option: 'Some', value });
export const none = () => ({ __option: 'None' });
export const isOption = (v) => v !== null && typeof v === 'object' && (v.__option === 'Some' || v.__option === 'None');
export const isSome = (o) => o.__option === 'Some';
export const isNone = (o) => o.__option === 'None';
export const wrapNullable = (v) => (v !== null && v !== undefined ? some(v) : none());
export const wrapOption = wrapNullable;
export const unwrapOption = (o, fallback) => (isSome(o) ? o.value : fallback ? fallback() : null);
export const unwrapSome = (o) => (isSome(o) ? o.value : null);
export const unwrapSomeOrElse = (o, fallback) => (isSome(o) ? o.value : fallback());
export const unwrapOptionRecursively = (v, fallback) => {
  if (!v || ArrayBuffer.isView(v) || typeof v !== 'object') return v;
  if (isOption(v)) return isSome(v) ? unwrapOptionRecursively(v.value, fallback) : fallback ? fallback() : null;
  if (Array.isArray(v)) return v.map((x) => unwrapOptionRecursively(x, fallback));
  return Object.fromEntries(Object.entries(v).map(([k, x]) => [k, unwrapOptionRecursively(x, fallback)]));
};
