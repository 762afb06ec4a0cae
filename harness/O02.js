'use strict';
const { gen, accepts, acceptsOA, onlyUndefined, wellFormed, REF } = require('./lib/ir');
const { src } = require('./lib/oapi');
const { snap } = require('./lib/codecs');

const L = 'L';
const M = ['number', 'null', 'undefined', 'any', 'slit', 'ref'];
const N = ['number', 'undefined', 'null', 'slit'];
const OPT = { u: [['slit', 'ref'], ['undefined', 'null']] };
const OPTN = { u: [['slit', 'number'], ['undefined', 'null']] };
const SHAPES = [
  L, { u: [L] }, { u: [L, M] }, { u: [N, N, M] }, { o: [M, N] }, { o: [{ u: [M, M] }] }, { o: [{ u: [N, N, N] }] },
  { o: [{ u: [{ u: [N, N] }, N] }] }, { u: [{ u: [N, N] }, N] }, { u: [{ o: [OPT] }] }, { u: [{ o: [OPT] }, M] }, { o: [{ o: [OPT] }] },
  { i: [{ o: [M] }, { o: [M], keys: ['b'] }] }, { i: [{ o: [N] }, { o: [N] }] }, { i: [{ o: [OPT] }, { rec: ['slit', 'number'] }] }, { i: [{ o: [M] }, 'ref', { o: [N], keys: ['b'] }] },
  { i: [{ u: [{ o: [['number', 'slit']] }, { o: [['number', 'null']], keys: ['b'] }] }, { o: [['slit', 'undefined']], keys: ['b'] }] }, { i: ['ref', 'any'] },
  { arr: { u: [M, M] } }, { arr: { o: [OPT] } }, { rec: { u: [M, N] } }, { recd: OPT }, { reck: ['slit', 'ref'] }, { o: [{ reck: N }] }, { rec: { o: [OPTN] } }, { u: [{ arr: N }, { arr: N }] },
];
const DEEP = [{ u: [L, L, L] }, { u: [{ u: [M, N] }, { u: [M, N] }] }, { o: [{ u: [{ u: [M, M] }, M] }, OPT] }, { u: [{ o: [M] }, { o: [M] }] }, { i: [{ o: [M, N] }, { o: [M, N] }] }, { i: [{ o: [M] }, { o: [N] }, { o: [N] }] },
  { u: [{ i: [{ o: [M] }, { o: [N], keys: ['b'] }] }, N] }, { arr: { u: [{ arr: M }, M] } }, { o: [{ arr: { u: [M, M] } }] }];
const JSON_KINDS = ['null', 'boolean', 'number', 'string', 'array', 'object'];
const R = (x) => x === 'L' || x === 'ref' || (Array.isArray(x) && x.includes('ref'));
const need = (shape) => (R(shape) ? 1 : typeof shape === 'string' || Array.isArray(shape) ? 0 : (shape.u || shape.i ? 0 : 1) + Math.max(0, ...(shape.o || shape.u || shape.i || [shape.arr || shape.rec || shape.recd || shape.reck]).map(need)));
// arrays and records of nothing have no counterpart
const empty = (s) => (s.type === 'array' ? onlyUndefined(s.items) || empty(s.items) : s.type === 'record' ? onlyUndefined(s.codomain) || empty(s.codomain) : s.schemas ? s.schemas.some(empty) : s.type === 'object' ? Object.keys(s.properties).some((k) => empty(s.properties[k])) : false);
// The output deliberately leaves out alternatives that say "anything", and, other than for properties, a null next to undefined.
const flat = (s) => (s.type === 'union' ? [].concat(...s.schemas.map(flat)) : [s]);
function looseUnion(s, isProperty) {
  if (s.type === 'union') {
    const f = flat(s);
    const any = (k) => f.some((m) => m.type === k);
    if (f.length > 1 && (any('any') || (!isProperty && any('undefined') && any('null')))) return true;
    return f.some((m) => looseUnion(m, false));
  }
  if (s.type === 'object') return Object.keys(s.properties).some((k) => looseUnion(s.properties[k], true));
  return (s.schemas || [s.items, s.codomain]).some((m) => m !== undefined && looseUnion(m, false));
}

module.exports = {
  assumptions: ['a reference stands for one object type that does not change', 'members of an intersection describe objects', 'alternatives of oneOf are read inclusively, nullable as an alternative'],
  scenarios: [
    {
      name: 'the same values',
      bounds: 'schemas of the listed shapes (nesting up to 3, thorough 4; up to 3 members and 2 properties), every leaf any of ten kinds, literals symbolic, requiredness symbolic; JSON values nested up to 2 over two property names',
      labels: ['the document describes the same values', 'the document is well-formed'],
      cases: { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...DEEP].map((shape) => ({ shape })) },
      run(S, p) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const s = gen(S, 's', p.shape);
        S.assume(!empty(s));
        const before = snap(s);
        const o = schemaToOpenAPI(s);
        S.observe('document', o);
        if (o === undefined) {
          S.check('only what describes nothing is left out', onlyUndefined(s));
          return;
        }
        S.check('the document is well-formed', wellFormed(o));
        const v = S.any('v', { depth: Math.min(2, Math.max(1, need(p.shape))), keys: JSON.stringify(p.shape).match(/ref|L/) ? ['a', 'b', 'r'] : ['a', 'b'], kinds: JSON_KINDS, arr: 1, int: [0, 2], str: { max: 1, alphabet: 'ab' } });
        const comp = { R: schemaToOpenAPI(REF.R) };
        if (looseUnion(s, false)) {
          // an alternative is left out: the document describes no more than the schema does
          S.check('the document describes nothing else', !acceptsOA(o, v, comp) || accepts(before, v));
        } else S.check('the document describes the same values', acceptsOA(o, v, comp) === accepts(before, v));
      },
    },
  ],
};
