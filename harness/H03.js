'use strict';
const { mkCodec, has } = require('./lib/codecs');
const { build } = require('./lib/request');

const KINDS = ['required', 'optional', 'union', 'defaulted', 'any', 'nullable'];
function prop(S, t, name, kind) {
  if (kind === 'any') { const c = Object.assign(new t.Type(name, () => true, t.success, (x) => x)); c.spec = { acceptsWire: () => true, isValue: () => true, dec: (x) => x, enc: (x) => x, optional: true }; return c; }
  if (kind === 'nullable') {
    const b = mkCodec(S, t, name, 'required');
    const c = S.load('@api-ts/io-ts-http').optional(t.union([t.null, b]));
    c.spec = { acceptsWire: (u) => u === null || b.spec.acceptsWire(u), isValue: (v) => v === null || b.spec.isValue(v), dec: (u) => (u === null ? null : b.spec.dec(u)), enc: (v) => (v === null ? null : b.spec.enc(v)), optional: true };
    return c;
  }
  return mkCodec(S, t, name, kind);
}
const pairs = [];
for (const a of KINDS) for (const b of KINDS) pairs.push([a, b]);

// names that objects inherit: such a property is found on every object, so it is never missing here
const ODD = [{ k: ['optional', 'required'], names: ['toString', 'a'] }, { k: ['required', 'optional'], names: ['valueOf', 'constructor'] }, { k: ['optional', 'optional'], names: ['toString', 'isPrototypeOf'] }];

module.exports = {
  assumptions: ['codecs of the declared properties are lawful; one of them may accept every value, another may accept null'],
  scenarios: [
    {
      name: 'objects with optional properties',
      bounds: 'objects of two declared properties (thorough: three), each required, optional, union-with-undefined, defaulted, any-accepting or nullable; each absent, undefined, null or a number; with names that objects inherit: undefined or a number',
      labels: ['a property may be missing exactly when its codec admits undefined', 'decoding never leaves an undefined optional property', 'encoding never leaves an undefined optional property', 'missing and undefined are the same', 'membership test agrees'],
      cases: { quick: pairs.map((k) => ({ k })).concat(ODD), thorough: [...ODD, ...pairs.map((k) => ({ k })), ...pairs.map((k) => ({ k: [...k, 'optional'] })), ...pairs.map((k) => ({ k: [...k, 'required'] }))] },
      run(S, p) {
        const t = S.load('io-ts');
        const h = S.load('@api-ts/io-ts-http');
        const names = p.names || ['a', 'b', 'c'].slice(0, p.k.length);
        const props = {}, specs = {};
        names.forEach((n, i) => { props[n] = prop(S, t, n, p.k[i]); specs[n] = props[n].spec; });
        const codec = h.optionalized(props, S.pick('name', [undefined, 'named']));
        const inp = {}, alt = {};
        for (const n of names) {
          const how = S.pick('how_' + n, p.names ? ['undefined', 'number'] : ['absent', 'undefined', 'null', 'number']);
          if (how === 'absent') { alt[n] = undefined; continue; }
          inp[n] = how === 'undefined' ? undefined : how === 'null' ? null : S.int('in_' + n, -5, 5);
          if (how !== 'undefined' || p.names) alt[n] = inp[n];
        }
        const want = {};
        let ok = true;
        for (const n of names) {
          const sp = specs[n];
          if (inp[n] === undefined) { if (sp.defaulted) want[n] = sp.dflt; else if (!sp.optional) ok = false; } else if (sp.acceptsWire(inp[n])) want[n] = sp.dec(inp[n]);
          else ok = false;
        }
        const d = codec.decode(inp);
        S.observe('decoded', d._tag === 'Right' ? d.right : 'Left');
        S.check('a property may be missing exactly when its codec admits undefined', (d._tag === 'Right') === ok);
        if (d._tag === 'Right') S.check('decoding never leaves an undefined optional property', S.eq(d.right, want));
        const d2 = codec.decode(alt);
        S.check('missing and undefined are the same', S.and(d2._tag === d._tag, d._tag === 'Right' && d2._tag === 'Right' ? S.eq(d2.right, want) : true));
        // values of the decoded type
        let valid = true;
        const wire = {};
        for (const n of names) {
          const sp = specs[n];
          if (inp[n] === undefined) { if (!sp.optional) valid = false; } else if (sp.isValue(inp[n])) wire[n] = sp.enc(inp[n]);
          else valid = false;
        }
        S.check('membership test agrees', codec.is(inp) === valid);
        if (valid) {
          const e = codec.encode(inp);
          S.observe('encoded', e);
          S.check('encoding never leaves an undefined optional property', S.eq(e, wire));
          S.check('encoding a value without its undefined properties is the same', S.eq(codec.encode(alt), wire));
        }
      },
    },
    {
      name: 'absence in requests',
      bounds: 'requests of two properties in one or two parts, each optional or required; each absent or undefined or valid',
      labels: ['absent and undefined decode alike', 'absent and undefined encode alike'],
      cases: { quick: [{ shape: { query: ['a', 'b'] } }, { shape: { params: ['a'], headers: ['b'] } }, { shape: { body: ['a', 'b'] } }], thorough: [{ shape: { query: ['a', 'b'] } }, { shape: { params: ['a'], headers: ['b'] } }, { shape: { body: ['a', 'b'] } }, { shape: { headers: ['a', 'b'], body: ['c'] } }] },
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional', 'union', 'defaulted']);
        const one = { params: {}, query: {}, headers: {}, body: {} }, two = { params: {}, query: {}, headers: {}, body: {} };
        const v1 = {}, v2 = {};
        for (const part of Object.keys(p.shape)) for (const n of p.shape[part]) {
          if (S.is(S.bool('has_' + n))) {
            const x = S.int('in_' + n, -4, 4);
            one[part][n] = two[part][n] = x;
            const y = S.int('val_' + n, -4, 9);
            S.assume(specs[part][n].isValue(y));
            v1[n] = v2[n] = y;
          } else { two[part][n] = undefined; if (specs[part][n].optional) v2[n] = undefined; else { const y = S.int('val_' + n, -4, 9); S.assume(specs[part][n].isValue(y)); v1[n] = v2[n] = y; } }
        }
        const d1 = codec.decode(one), d2 = codec.decode(two);
        S.check('absent and undefined decode alike', S.and(d1._tag === d2._tag, d1._tag === 'Right' && d2._tag === 'Right' ? S.eq(d1.right, d2.right) : true));
        if (d1._tag === 'Right') for (const k of Object.keys(d1.right)) S.check('no decoded property is undefined', d1.right[k] !== undefined);
        const e1 = codec.encode(v1), e2 = codec.encode(v2);
        S.observe('e', e1);
        S.check('absent and undefined encode alike', S.eq(e1, e2));
      },
    },
    {
      name: 'optional codec',
      bounds: 'undefined, null, a number, a string or an object',
      labels: ['optional accepts undefined and what its codec accepts'],
      cases: { quick: [{}], thorough: [{}] },
      run(S) {
        const t = S.load('io-ts');
        const c = mkCodec(S, t, 'a', 'optional');
        const x = S.any('x', { depth: 0, kinds: ['undefined', 'null', 'number', 'string', 'object'], int: [-5, 5] });
        const d = c.decode(x);
        S.observe('d', d._tag);
        const ok = x === undefined || c.spec.acceptsWire(x);
        S.check('optional accepts undefined and what its codec accepts', S.and((d._tag === 'Right') === ok, d._tag === 'Right' ? (x === undefined ? d.right === undefined : d.right === c.spec.dec(x)) : true));
      },
    },
    require('./lib/ioseveral'),
  ],
};
