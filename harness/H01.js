'use strict';
const { build, input, expected, value, read } = require('./lib/request');
const { has } = require('./lib/codecs');

// names that objects inherit, for properties that are always there
const ODD = [{ query: ['hasOwnProperty'], body: ['toString'] }, { headers: ['constructor', 'valueOf'] }, { params: ['hasOwnProperty'], query: ['isPrototypeOf'] }, { body: ['query', 'body'] }, { query: ['params'], headers: ['body'] }];
const SHAPES = [
  {}, { params: ['a'] }, { query: ['a'] }, { headers: ['a'] }, { body: ['a'] },
  { params: ['a'], query: ['b'] }, { params: ['a'], headers: ['b'] }, { params: ['a'], body: ['b'] },
  { query: ['a'], headers: ['b'] }, { query: ['a'], body: ['b'] }, { headers: ['a'], body: ['b'] },
  { params: ['a', 'b'] }, { query: ['a', 'b'] }, { headers: ['a', 'b'] }, { body: ['a', 'b'] },
  { params: ['a'], query: ['b'], headers: ['c'], body: ['d'] },
];
const MORE = [
  { params: ['a', 'b'], query: ['c', 'd'] }, { query: ['a', 'b'], body: ['c', 'd'] }, { params: ['a'], headers: ['b', 'c'], body: ['d'] },
  { params: ['a', 'b'], query: ['c'], headers: ['d'], body: ['e'] }, { body: ['a', 'b', 'c', 'd'] },
];
const cases = { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...MORE].map((shape) => ({ shape })) };
const size = (shape) => Object.values(shape).flat().length;
const wire = (S, shape, specs, v) => {
  const r = {};
  for (const part of read(shape)) {
    r[part] = {};
    for (const n of shape[part] || []) if (has(v, n) && v[n] !== undefined) r[part][n] = specs[part][n].enc(v[n]);
  }
  return r;
};

module.exports = {
  assumptions: [
    'codecs of the declared properties are lawful integer-interval codecs with symbolic bounds and a symbolic offset between wire and decoded value',
    'a property name is declared in one part only (the documentation leaves anything else undefined)',
  ],
  scenarios: [
    {
      name: 'value to wire and back',
      bounds: '0-4 (thorough: up to 5) declared properties over the four parts, required / optional / union-with-undefined / defaulted, alone also nullable; every valid value of each in range, optional ones absent, undefined or present; two stray properties in the value',
      labels: ['each property is placed in its own part, encoded by its own codec, and nothing else is sent', 'decoding what was encoded gives the value back'],
      cases,
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional', 'union', 'defaulted'].slice(0, Object.keys(p.shape).length > 3 ? 2 : 4).concat(size(p.shape) < 2 ? ['nullable'] : []));
        const v = value(S, p.shape, specs);
        const clean = {};
        for (const k of Object.keys(v)) if (v[k] !== undefined) clean[k] = v[k];
        v.zz = S.int('stray', -5, 5);
        v.query = S.int('stray2', -5, 5);
        const out = codec.encode(v);
        S.observe('wire', out);
        S.check('each property is placed in its own part, encoded by its own codec, and nothing else is sent', S.eq(out, wire(S, p.shape, specs, v)));
        const back = codec.decode(out);
        S.check('decoding what was encoded gives the value back', S.and(back._tag === 'Right', back._tag === 'Right' ? S.eq(back.right, clean) : false));
      },
    },
    {
      name: 'unusual names to wire',
      bounds: 'one or two required properties in any parts, named like what objects inherit (hasOwnProperty, toString, constructor, valueOf, isPrototypeOf) or like parts of a request; every valid value',
      labels: ['each property is placed in its own part under its own name'],
      cases: { quick: ODD.map((shape) => ({ shape })), thorough: ODD.map((shape) => ({ shape })) },
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'defaulted']);
        const v = value(S, p.shape, specs);
        const out = codec.encode(v);
        S.observe('wire', out);
        S.check('each property is placed in its own part under its own name', S.eq(out, wire(S, p.shape, specs, v)));
      },
    },
    {
      name: 'wire to value and back',
      bounds: 'the same shapes; every accepted request, with each part also carrying stray properties',
      labels: ['re-encoding an accepted request gives back its declared content'],
      cases,
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional'].concat(size(p.shape) < 2 ? ['nullable'] : []));
        const inp = input(S, p.shape, { kinds: ['number', 'undefined', 'null'], present: Object.keys(p.shape).length < 4 });
        const d = codec.decode(inp);
        S.observe('tag', d._tag);
        if (d._tag !== 'Right') return;
        const out = codec.encode(d.right);
        const want = {};
        for (const part of read(p.shape)) {
          want[part] = {};
          for (const n of p.shape[part] || []) if (has(inp[part], n) && inp[part][n] !== undefined) want[part][n] = inp[part][n];
        }
        S.check('re-encoding an accepted request gives back its declared content', S.eq(out, want));
      },
    },
    {
      name: 'documented compositions',
      bounds: 'intersection of a request codec with a whole-body codec, and union of two request codecs; every valid value',
      labels: ['an intersected body travels whole', 'a union member round-trips'],
      cases: { quick: [{ how: 'intersection' }, { how: 'union' }], thorough: [{ how: 'intersection' }, { how: 'union' }] },
      run(S, p) {
        const one = build(S, { params: ['a'] }, ['required']);
        const { t } = one;
        const a = S.int('va', -4, 9);
        S.assume(one.specs.params.a.isValue(a));
        if (p.how === 'intersection') {
          const codec = t.intersection([one.codec, t.type({ body: t.number })]);
          const body = S.int('vb', -4, 9);
          const out = codec.encode({ a, body });
          S.observe('wire', out);
          const d = codec.decode(JSON.parse(JSON.stringify(out)));
          S.check('an intersected body travels whole', S.and(S.eq(out.params, { a: one.specs.params.a.enc(a) }), S.eq(out.body, body), d._tag === 'Right', d._tag === 'Right' && d.right.a === a && d.right.body === body));
        } else {
          const two = build(S, { query: ['b'] }, ['required']);
          const codec = t.union([one.codec, two.codec]);
          const b = S.int('vb', -4, 9);
          S.assume(two.specs.query.b.isValue(b));
          const first = S.is(S.bool('first'));
          const v = first ? { a } : { b };
          const d = codec.decode(codec.encode(v));
          S.observe('back', d._tag === 'Right' ? d.right : 'Left');
          S.check('a union member round-trips', S.and(d._tag === 'Right', d._tag === 'Right' ? S.eq(d.right, v) : false));
        }
      },
    },
    require('./lib/ioseveral'),
  ],
};
