'use strict';
const { build, input, read } = require('./lib/request');
const { has } = require('./lib/codecs');

const SHAPES = [{}, { params: ['a'] }, { query: ['a', 'b'] }, { params: ['a'], body: ['b'] }, { headers: ['a'], query: ['b'] }, { body: ['a', 'b'] }, { headers: ['a'], body: ['b'] }];
const MORE = [{ params: ['a'], query: ['b'], headers: ['c'] }, { query: ['a', 'b'], body: ['c'] }];
const size = (shape) => Object.values(shape).flat().length;
const KINDS = (shape) => ['required', 'optional', 'union', 'defaulted'].concat(size(shape) < 2 ? ['nullable'] : []);
const cases = { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...MORE].map((shape) => ({ shape })) };
module.exports = {
  assumptions: ['property codecs are lawful: each tests membership exactly for the values it can produce'],
  scenarios: [
    {
      name: 'membership',
      bounds: '0-2 (thorough: 3) declared properties; candidate values absent, undefined, null, number or object per property; non-object candidates',
      labels: ['membership holds exactly for values of the decoded type', 'a member encodes and decodes back'],
      cases,
      run(S, p) {
        const { codec, specs } = build(S, p.shape, KINDS(p.shape));
        let v;
        let ok = true;
        const clean = {};
        if (S.is(S.bool('isobj'))) {
          v = {};
          for (const part of Object.keys(p.shape)) for (const n of p.shape[part]) {
            if (S.is(S.bool('has_' + n))) v[n] = S.any('in_' + n, { depth: 0, kinds: ['number', 'undefined', 'null', 'object'], int: [-5, 9] });
            const sp = specs[part][n];
            if (v[n] === undefined) { if (!sp.optional) ok = false; } else if (sp.isValue(v[n])) clean[n] = v[n];
            else ok = false;
          }
          if (S.is(S.bool('stray'))) v.zz = S.int('strayv', -5, 5);
        } else {
          v = S.pick('nonobj', [undefined, null, 3, 'text', true]);
          ok = false;
        }
        const is = codec.is(v);
        S.observe('is', is);
        S.check('membership holds exactly for values of the decoded type', is === ok);
        if (ok) {
          const d = codec.decode(codec.encode(v));
          S.check('a member encodes and decodes back', S.and(d._tag === 'Right', d._tag === 'Right' ? S.eq(d.right, clean) : false));
        }
      },
    },
    {
      name: 'decoded values are members',
      bounds: 'the same shapes; arbitrary requests, each property absent, undefined, null, number or object',
      labels: ['what decoding returns is a member'],
      cases,
      run(S, p) {
        const { codec } = build(S, p.shape, KINDS(p.shape));
        const d = codec.decode(input(S, p.shape, { kinds: ['number', 'undefined', 'null'] }));
        S.observe('tag', d._tag);
        if (d._tag === 'Right') S.check('what decoding returns is a member', codec.is(d.right));
      },
    },
    require('./lib/ioseveral'),
  ],
};
