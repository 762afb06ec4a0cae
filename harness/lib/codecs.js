'use strict';
// Arbitrary lawful codecs. A codec accepts the integers of a symbolic interval and represents them shifted by a symbolic
// offset, so wire values and decoded values differ, differ from codec to codec, and encode undoes decode.
//   required   accepts the interval only
//   optional   optional(required)            union: t.union([t.undefined, required])
//   nullable   optional(null or required)
//   defaulted  accepts undefined as well and turns it into the interval's lower end (not optional: never decodes to undefined)
function mkCodec(S, t, name, kind) {
  const lo = S.int(name + '.lo', -4, 4);
  const hi = S.int(name + '.hi', -4, 4);
  const off = S.int(name + '.off', 1, 5);
  if (kind === 'defaulted') S.assume(lo <= hi); // a default is itself a valid value
  const acceptsWire = (u) => typeof u === 'number' && lo <= u && u <= hi;
  const isValue = (v) => typeof v === 'number' && lo + off <= v && v <= hi + off;
  const defaulted = kind === 'defaulted';
  const base = new t.Type(
    name,
    isValue,
    (u, c) => (defaulted && u === undefined ? t.success(lo + off) : acceptsWire(u) ? t.success(u + off) : t.failure(u, c, 'rejected by ' + name)),
    (v) => v - off,
  );
  base.spec = { acceptsWire, isValue, dec: (u) => u + off, enc: (v) => v - off, optional: false, defaulted, dflt: lo + off, lo, hi, off };
  if (kind === 'required' || defaulted) return base;
  let c;
  if (kind === 'nullable') {
    const { dec, enc } = base.spec;
    c = S.load('@api-ts/io-ts-http').optional(t.union([t.null, base]));
    c.spec = Object.assign({}, base.spec, { optional: true, nullable: true, acceptsWire: (u) => u === null || acceptsWire(u), isValue: (v) => v === null || isValue(v), dec: (u) => (u === null ? null : dec(u)), enc: (v) => (v === null ? null : enc(v)) });
    return c;
  }
  if (kind === 'optional') c = S.load('@api-ts/io-ts-http').optional(base);
  else c = t.union([t.undefined, base]);
  c.spec = Object.assign({}, base.spec, { optional: true });
  return c;
}
// own-property test that does not depend on the object's own members
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
// structural copy of plain data (arrays and plain objects); other values are shared
function snap(x) {
  if (Array.isArray(x)) return x.map(snap);
  if (x !== null && typeof x === 'object') {
    const r = {};
    for (const k of Object.keys(x)) r[k] = snap(x[k]);
    return r;
  }
  return x;
}
module.exports = { mkCodec, has, snap };
