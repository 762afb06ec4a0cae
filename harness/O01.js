'use strict';
const { gen, accepts, onlyUndefined } = require('./lib/ir');
const { src } = require('./lib/oapi');
const { snap } = require('./lib/codecs');

const L = 'L';
const M = ['number', 'null', 'undefined', 'any', 'slit', 'blit', 'ref'];
const N = ['number', 'undefined', 'null', 'slit'];
const OPT = { u: [['slit', 'ref'], ['undefined', 'null']] };
const OPTN = { u: [['slit', 'number'], ['undefined', 'null']] };
const SHAPES = [
  L, { u: [L] }, { u: [L, M] }, { u: [N, N, M] }, { o: [M, N] }, { o: [{ u: [M, M] }] },
  { o: [{ u: [{ u: [N, N] }, N] }] }, { u: [{ u: [N, N] }, N] }, { u: [{ o: [OPT] }] }, { u: [{ o: [OPT] }, M] }, { o: [{ o: [OPT] }] },
  { i: [{ o: [M] }, { o: [M], keys: ['b'] }] }, { i: [{ o: [M] }, { o: [N] }] }, { i: [{ o: [OPT] }, { rec: N }] }, { i: [{ o: [M] }, 'ref', { o: [N], keys: ['b'] }] },
  { i: [{ u: [{ o: [['number', 'slit']] }, { o: [['number', 'null']], keys: ['b'] }] }, { o: [['slit', 'undefined']], keys: ['b'] }] }, { i: [{ i: [{ o: [N] }, 'ref'] }, { o: [M], keys: ['b'] }] }, { i: ['ref', 'any'] }, { i: [{ o: [L] }] },
  { arr: { u: [M, M] } }, { arr: { o: [OPT] } }, { rec: { u: [M, N] } }, { recd: OPT }, { rec: { o: [OPTN] } }, { u: [{ arr: M }, { arr: N }] },
];
const DEEP = [{ u: [] }, { u: [L, L, L] }, { u: [{ u: [M, N] }, { u: [M, N] }] }, { o: [{ u: [{ u: [M, M] }, M] }, OPT] }, { u: [{ o: [M] }, { o: [M] }] }, { i: [{ o: [M, N] }, { o: [M, N] }] }, { i: [{ o: [M] }, { o: [N] }, { o: [N] }] },
  { u: [{ i: [{ o: [M] }, { o: [N], keys: ['b'] }] }, N] }, { arr: { u: [{ arr: M }, M] } }, { o: [{ arr: { u: [M, M] } }] }];
const JSON_KINDS = ['null', 'boolean', 'number', 'string', 'array', 'object'];
const R = (x) => x === 'L' || x === 'ref' || (Array.isArray(x) && x.includes('ref'));
const need = (shape) => (R(shape) ? 1 : typeof shape === 'string' || Array.isArray(shape) ? 0 : (shape.u || shape.i ? 0 : 1) + Math.max(0, ...(shape.o || shape.u || shape.i || [shape.arr || shape.rec || shape.recd]).map(need)));

module.exports = {
  assumptions: ['a reference stands for one object type that does not change', 'members of an intersection describe objects'],
  scenarios: [
    {
      name: 'the same values',
      bounds: 'schemas of the listed shapes (nesting up to 3, thorough 4; up to 3 members and 2 properties), every leaf any of ten kinds, literals symbolic, requiredness symbolic; JSON values nested up to 2 over two property names',
      labels: ['simplifying keeps the values described', 'the schema given is not changed'],
      cases: { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...DEEP].map((shape) => ({ shape })) },
      run(S, p) {
        const { optimize } = src(S, 'optimize');
        const s = gen(S, 's', p.shape);
        const before = snap(s);
        const o = optimize(s);
        S.check('the schema given is not changed', S.eq(s, before));
        const v = S.any('v', { depth: Math.min(2, Math.max(1, need(p.shape))), keys: JSON.stringify(p.shape).match(/ref|L/) ? ['a', 'b', 'r'] : ['a', 'b'], kinds: JSON_KINDS, arr: 1, int: [0, 2], str: { max: 1, alphabet: 'ab' } });
        S.observe('simplified', o);
        S.check('simplifying keeps the values described', accepts(before, v) === accepts(o, v));
      },
    },
    {
      name: 'encodings of one type',
      bounds: 'unions of up to three (thorough: four) members, each a plain string, number or boolean, an encoding of a number, a boolean or a big integer as a string or a number, a literal, null or a reference; literals symbolic; alone or as an optional property',
      labels: ['only a type with encodings of it becomes that type', 'everything else keeps its values'],
      cases: { quick: [{ n: 1 }, { n: 2 }, { n: 3 }], thorough: [{ n: 1 }, { n: 2 }, { n: 3 }, { n: 4 }] },
      run(S, p) {
        const { optimize } = src(S, 'optimize');
        const kind = (name) => {
          switch (S.pick(name, ['string', 'number', 'boolean', 'numberAsString', 'intAsString', 'booleanAsNumber', 'booleanAsString', 'bigintAsString', 'blit', 'slit', 'null', 'ref'])) {
            case 'string': return { type: 'string', primitive: true };
            case 'number': return { type: 'number', primitive: true };
            case 'boolean': return { type: 'boolean', primitive: true };
            case 'numberAsString': return { type: 'string', format: 'number', decodedType: 'number' };
            case 'intAsString': return { type: 'string', format: 'integer', decodedType: 'number' };
            case 'booleanAsNumber': return { type: 'number', enum: [0, 1], decodedType: 'boolean' };
            case 'booleanAsString': return { type: 'string', enum: ['a', 'b'], decodedType: 'boolean' };
            case 'bigintAsString': return { type: 'string', format: 'number', decodedType: 'bigint' };
            case 'blit': return { type: 'boolean', enum: [S.is(S.bool(name + '.b'))] };
            case 'slit': return { type: 'string', enum: [S.str(name + '.s', { min: 1, max: 1, alphabet: 'ab' })] };
            case 'null': return { type: 'null' };
            default: return { type: 'ref', name: 'R', location: '/types.ts' };
          }
        };
        const members = Array.from({ length: p.n }, (_, i) => kind('m' + i));
        const optional = S.is(S.bool('optional'));
        const union = { type: 'union', schemas: optional ? [...members, { type: 'undefined' }] : members };
        const s = optional ? { type: 'object', properties: { a: union }, required: ['a'] } : union;
        const before = snap(s);
        const all = optimize(s);
        S.check('the schema given is not changed', S.eq(s, before));
        const o = optional ? all.properties.a : all;
        S.observe('simplified', o);
        if (optional) S.check('an optional property is not required', all.required.length === 0);
        const v = S.any('v', { depth: 1, keys: ['r'], kinds: JSON_KINDS, arr: 1, int: [0, 2], str: { max: 1, alphabet: 'ab' } });
        // the values of the members' common runtime type, if one of them is that type itself and another is an encoding of it
        const runtime = (m) => m.decodedType || m.type;
        const type = runtime(members[0]);
        if (['string', 'number', 'boolean'].includes(type) && members.every((m) => runtime(m) === type) && members.some((m) => m.type === type) && members.some((m) => m.decodedType)) {
          S.check('only a type with encodings of it becomes that type', S.or(S.eq(o, { type }), accepts({ type: 'union', schemas: members }, v) === accepts(o, v)));
        } else S.check('everything else keeps its values', accepts({ type: 'union', schemas: members }, v) === accepts(o, v));
      },
    },
  ],
};
