'use strict';
const { mkCodec, has } = require('./codecs');
const PARTS = ['params', 'query', 'headers', 'body'];

// a request codec declaring the given property names in the given parts, e.g. {query: ['a'], body: ['b']}
function build(S, shape, kinds) {
  const t = S.load('io-ts');
  const h = S.load('@api-ts/io-ts-http');
  const props = {};
  const specs = {};
  for (const part of Object.keys(shape)) {
    props[part] = {};
    specs[part] = {};
    for (const n of shape[part]) {
      const kind = S.pick(`kind_${part}_${n}`, kinds || ['required', 'optional', 'union']);
      const c = mkCodec(S, t, `${part}_${n}`, kind);
      props[part][n] = c;
      specs[part][n] = c.spec;
    }
  }
  return { codec: h.httpRequest(props), props, specs, h, t };
}
// every part that a request codec reads: those declared, and params and query always
const read = (shape) => ['query', 'params', ...Object.keys(shape).filter((x) => x !== 'query' && x !== 'params')];

// An arbitrary incoming request: each declared name present or not in its own part with an arbitrary value, and every
// other declared name also present in every part it does not belong to.
function input(S, shape, o) {
  o = Object.assign({ focus: null, kinds: ['number', 'undefined', 'null', 'object'], present: true }, o);
  const all = [...new Set([].concat(...Object.values(shape)))];
  const r = {};
  for (const part of PARTS) {
    if (part === o.focus && !S.is(S.bool('isobj_' + part))) {
      r[part] = S.pick('nonobj_' + part, [undefined, null, 3, 'text', ...(o.arrays ? [[]] : [])]);
      if (r[part] === undefined && S.is(S.bool('gone_' + part))) delete r[part];
      continue;
    }
    const v = {};
    for (const n of all) {
      if ((shape[part] || []).includes(n)) {
        if (!o.present || S.is(S.bool(`has_${part}_${n}`))) v[n] = S.any(`in_${part}_${n}`, { depth: 0, kinds: o.kinds, int: [-5, 5] });
      } else v[n] = S.int(`stray_${part}_${n}`, -5, 5);
    }
    v.zz = S.int(`stray_${part}`, -5, 5);
    r[part] = v;
  }
  return r;
}
// what the declaration says about an input: {ok, value}
function expected(S, shape, specs, inp) {
  const value = {};
  for (const part of read(shape)) {
    const v = inp[part];
    if (v === null || typeof v !== 'object' || Array.isArray(v)) return { ok: false };
    for (const n of shape[part] || []) {
      const sp = specs[part][n];
      const u = has(v, n) ? v[n] : undefined;
      if (u === undefined) {
        if (sp.defaulted) value[n] = sp.dflt;
        else if (!sp.optional) return { ok: false };
      } else if (sp.acceptsWire(u)) value[n] = sp.dec(u);
      else return { ok: false };
    }
  }
  return { ok: true, value };
}
// an arbitrary value of the decoded type: every required property valid, every optional one absent, undefined or valid
function value(S, shape, specs, o) {
  o = Object.assign({ undef: true }, o);
  const v = {};
  for (const part of Object.keys(shape)) for (const n of shape[part]) {
    const sp = specs[part][n];
    if (sp.optional) {
      const how = S.pick((sp.nullable ? 'nhow_' : 'how_') + n, (o.undef ? ['absent', 'undefined', 'present'] : ['absent', 'present']).concat(sp.nullable ? ['null'] : []));
      if (how === 'absent') continue;
      if (how === 'null') { v[n] = null; continue; }
      if (how === 'undefined') { v[n] = undefined; continue; }
    }
    const x = S.int('val_' + n, -4, 9);
    S.assume(sp.isValue(x));
    v[n] = x;
  }
  return v;
}
module.exports = { value, PARTS, build, input, expected, read };
