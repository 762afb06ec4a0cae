'use strict';
const { build, input, value } = require('./lib/request');
const { mkCodec, snap, has } = require('./lib/codecs');

const SHAPES = [{ params: ['a'] }, { query: ['a', 'b'] }, { params: ['a'], body: ['b'] }, { headers: ['a'], query: ['b'] }, { body: ['a', 'b'] }];
const MORE = [{ params: ['a'], query: ['b'], headers: ['c'] }, { query: ['a', 'b'], body: ['c'] }, { params: ['a'], query: ['b'], headers: ['c'], body: ['d'] }];
module.exports = {
  assumptions: ['the property codecs themselves do not modify what they are given'],
  scenarios: [
    {
      name: 'requests',
      bounds: '1-2 (thorough: up to 4) declared properties of every kind; inputs with each property absent, undefined, null or a number and stray properties, including undefined ones; accepted and rejected inputs alike',
      labels: ['decoding leaves its input as it was', 'decoding twice gives the same answer'],
      cases: { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...MORE].map((shape) => ({ shape })) },
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional', 'defaulted']);
        const inp = input(S, p.shape, { kinds: ['number', 'undefined', 'null'] });
        for (const part of Object.keys(inp)) inp[part].yy = undefined;
        const before = snap(inp);
        const parts = Object.assign({}, inp);
        const d1 = codec.decode(inp);
        S.observe('tag', d1._tag);
        S.check('decoding leaves its input as it was', S.eq(inp, before));
        for (const k of Object.keys(parts)) S.check('decoding keeps the parts themselves', inp[k] === parts[k]);
        const d2 = codec.decode(inp);
        S.check('decoding twice gives the same answer', S.and(d1._tag === d2._tag, d1._tag === 'Right' && d2._tag === 'Right' ? S.eq(d1.right, d2.right) : true));
      },
    },
    {
      name: 'encoding requests',
      bounds: 'the same shapes; every valid value, optional properties absent, undefined or present, plus stray properties',
      labels: ['encoding leaves its input as it was', 'encoding twice gives the same answer'],
      cases: { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...MORE].map((shape) => ({ shape })) },
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional', 'defaulted']);
        const v = value(S, p.shape, specs);
        v.yy = undefined;
        v.zz = S.int('stray', -5, 5);
        const before = snap(v);
        const e1 = codec.encode(v);
        S.observe('e', e1);
        S.check('encoding leaves its input as it was', S.eq(v, before));
        S.check('encoding twice gives the same answer', S.eq(codec.encode(v), e1));
        const is1 = codec.is(v);
        S.check('testing membership leaves its input as it was', S.eq(v, before));
        S.check('membership is stable', is1 === codec.is(v));
      },
    },
    {
      name: 'objects',
      bounds: 'an object codec nested in another; each property absent, undefined or a number; every combination of required and optional',
      labels: ['decoding leaves its input as it was', 'encoding leaves its input as it was'],
      cases: { quick: [{ outer: 'required' }, { outer: 'optional' }, { outer: 'none' }], thorough: [{ outer: 'required' }, { outer: 'optional' }, { outer: 'union' }, { outer: 'defaulted' }, { outer: 'none' }] },
      run(S, p) {
        const t = S.load('io-ts');
        const h = S.load('@api-ts/io-ts-http');
        const kind = (n) => S.pick('kind_' + n, ['required', 'optional']);
        const x = mkCodec(S, t, 'x', kind('x')), y = mkCodec(S, t, 'y', kind('y'));
        const inner = h.optionalized({ x, y });
        const props = { inner: S.is(S.bool('innerOpt')) ? h.optional(inner) : inner };
        if (p.outer !== 'none') props.a = mkCodec(S, t, 'a', p.outer);
        const codec = h.optionalized(props);
        const inp = {};
        if (p.outer !== 'none' && S.is(S.bool('has_a'))) inp.a = S.any('a', { depth: 0, kinds: ['number', 'undefined'], int: [-4, 9] });
        const how = S.pick('inner', ['absent', 'undefined', 'object']);
        if (how === 'undefined') inp.inner = undefined;
        if (how === 'object') {
          inp.inner = {};
          for (const n of ['x', 'y']) if (S.is(S.bool('has_' + n))) inp.inner[n] = S.any('in' + n, { depth: 0, kinds: ['number', 'undefined'], int: [-4, 9] });
        }
        inp.s = undefined;
        const before = snap(inp);
        const innerRef = inp.inner;
        const d = codec.decode(inp);
        S.observe('d', d._tag);
        S.check('decoding leaves its input as it was', S.and(S.eq(inp, before), inp.inner === innerRef));
        if (codec.is(inp)) {
          codec.encode(inp);
          S.check('encoding leaves its input as it was', S.and(S.eq(inp, before), inp.inner === innerRef));
        }
      },
    },
    {
      name: 'declarations',
      bounds: 'request declarations of two properties over one or two parts',
      labels: ['building a codec leaves the declaration as it was'],
      cases: { quick: SHAPES.slice(1).map((shape) => ({ shape })), thorough: [...SHAPES, ...MORE].map((shape) => ({ shape })) },
      run(S, p) {
        const { codec, props } = build(S, p.shape, ['required', 'optional']);
        codec.decode({ query: {}, params: {}, headers: {}, body: {} });
        S.observe('props', Object.keys(props));
        let same = Object.keys(props).length === Object.keys(p.shape).length;
        for (const part of Object.keys(p.shape)) same = same && has(props, part) && Object.keys(props[part]).join() === p.shape[part].join();
        S.check('building a codec leaves the declaration as it was', same);
      },
    },
  ],
};
