'use strict';
const { path, resolver } = require('./lib/modules');
const { cli } = require('./lib/cli');
const { expr } = require('./lib/codecprog');
const { acceptsOA } = require('./lib/ir');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const JSON_OF = (schema) => schema.content['application/json'].schema;
// definitions: shapes of their codecs and how deep their values are
const DEFS = {
  string: 'string', number: 'number', boolean: 'boolean', null: 'null', literal: 'slit', 'a number': 'nlit', 'a truth value': 'blit', keyof: 'keyof', nullable: { union: ['string', 'null'] }, union: { union: ['number', { type: ['slit'] }] }, 'union of literals': { union: ['slit', 'nlit', 'blit'] }, 'union of truth values': { union: ['blit', 'blit'] },
  object: { type: ['number', 'string'] }, partial: { partial: ['number'] }, optionalized: { optionalized: ['number', { optional: 'slit' }] }, 'with null': { type: [{ union: ['slit', 'null'] }] }, 'or undefined': { type: [{ union: ['number', 'undefined'] }] }, strict: { strict: ['boolean'] }, exact: { exact: ['slit'] },
  array: { array: 'number' }, record: { rec: 'number' }, keyed: { reck: 'boolean' }, intersection: { inter: [{ type: ['number'] }, { partial: ['slit'], keys: ['b'] }] }, 'intersection of unions': { inter: [{ union: [{ type: ['slit'] }, { type: ['number'] }] }, { type: ['boolean'], keys: ['b'] }] },
};
const NESTED = { 'array of objects': { array: { type: ['number'] } }, 'record of records': { rec: { rec: 'number' } }, 'object of arrays': { type: [{ array: 'slit' }, { optional: 'null' }] }, 'union of objects': { union: [{ type: ['slit', 'number'] }, { type: ['number'] }, 'null'] }, 'object of objects': { type: [{ partial: ['boolean'] }] }, 'optional codec': { optional: 'number' } };
// uses of a definition D: [text, codec, levels above the values of D, names of properties above]
const USES = {
  itself: [(D) => D, (t, h, D) => D, 0, []],
  property: [(D) => `t.type({ p: ${D} })`, (t, h, D) => t.type({ p: D }), 1, ['p']],
  'two properties': [(D) => `t.type({ p: ${D}, q: ${D} })`, (t, h, D) => t.type({ p: D, q: D }), 1, ['p', 'q']],
  'partial property': [(D) => `t.partial({ p: ${D} })`, (t, h, D) => t.partial({ p: D }), 1, ['p']],
  'optional property': [(D) => `h.optionalized({ p: h.optional(${D}), q: t.string })`, (t, h, D) => h.optionalized({ p: h.optional(D), q: t.string }), 1, ['p', 'q']],
  'property or undefined': [(D) => `t.type({ p: t.union([t.undefined, ${D}]) })`, (t, h, D) => t.type({ p: t.union([t.undefined, D]) }), 1, ['p']],
  'property, null or undefined': [(D) => `t.type({ p: t.union([${D}, t.null, t.undefined]) })`, (t, h, D) => t.type({ p: t.union([D, t.null, t.undefined]) }), 1, ['p']],
  nullable: [(D) => `t.union([${D}, t.null])`, (t, h, D) => t.union([D, t.null]), 0, []],
  'nullable property': [(D) => `t.type({ p: t.union([t.null, ${D}]) })`, (t, h, D) => t.type({ p: t.union([t.null, D]) }), 1, ['p']],
  union: [(D) => `t.union([t.array(t.boolean), ${D}, t.literal('z')])`, (t, h, D) => t.union([t.array(t.boolean), D, t.literal('z')]), 0, []],
  array: [(D) => `t.array(${D})`, (t, h, D) => t.array(D), 1, []],
  record: [(D) => `t.record(t.string, ${D})`, (t, h, D) => t.record(t.string, D), 1, ['p']],
  'keyed record': [(D) => `t.record(t.keyof({ p: null }), ${D})`, (t, h, D) => t.record(t.keyof({ p: null }), D), 1, ['p']],
  intersection: [(D) => `t.intersection([t.type({ q: t.boolean }), ${D}])`, (t, h, D) => t.intersection([t.type({ q: t.boolean }), D]), 0, ['q']],
  'intersection of properties': [(D) => `t.intersection([t.type({ p: ${D} }), t.partial({ q: ${D} })])`, (t, h, D) => t.intersection([t.type({ p: D }), t.partial({ q: D })]), 1, ['p', 'q']],
  'spread properties': [(D) => `t.type({ ...{ p: ${D} }, q: t.null })`, (t, h, D) => t.type({ p: D, q: t.null }), 1, ['p', 'q']],
};
const DEEPER = {
  'nested property': [(D) => `t.type({ q: t.partial({ p: ${D} }) })`, (t, h, D) => t.type({ q: t.partial({ p: D }) }), 2, ['p', 'q']],
  'items of a property': [(D) => `t.type({ p: t.array(${D}) })`, (t, h, D) => t.type({ p: t.array(D) }), 2, ['p']],
};
const level = (x) => (typeof x === 'string' ? 0 : Object.keys(x).filter((k) => k !== 'keys').reduce((d, k) => Math.max(d, (['union', 'inter', 'optional'].includes(k) ? 0 : 1) + Math.max(...(Array.isArray(x[k]) ? x[k] : [x[k]]).map(level))), 0));
const keysOf = (x) => { const s = JSON.stringify(x); return ['a'].concat(s.includes('keys') || /"(type|optionalized)":\[[^[{]*,/.test(s) || s.includes('reck') || /"(type|optionalized)":\[.*,\{"optional/.test(s) ? ['b'] : []); };
// how the definition is reached
const FROM = {
  here: { decl: (n, x) => [`const ${n} = ${x};`, ''], use: (n) => n },
  alias: { decl: (n, x) => [`const ${n}0 = ${x};\nconst ${n} = ${n}0;`, ''], use: (n) => n },
  imported: { decl: (n, x) => [`import { ${n} } from './b';`, `export const ${n} = ${x};`], use: (n) => n },
  'by another name': { decl: (n, x) => [`import { ${n} as Mine } from './b';`, `export const ${n} = ${x};`], use: () => 'Mine' },
  namespace: { decl: (n, x) => [`import * as ns from './b';`, `export const ${n} = ${x};`], use: (n) => `ns.${n}` },
};
async function document(S, x, from, route) {
  const { text, subst } = x;
  const [a, b] = FROM[from].decl('D', text);
  const files = {
    '/src/a.ts': { text: `${HEAD}${a}\n${route(FROM[from].use('D'))}\n`, subst },
    '/src/b.ts': { text: `${HEAD}${b}\n`, subst },
  };
  return cli(S, { files, resolve: resolver({ a: {}, b: {} }), args: { input: path('a') } });
}
const ANY = { kinds: ['null', 'boolean', 'number', 'string', 'array', 'object'], arr: 1, int: [0, 2], str: { min: 0, max: 1, alphabet: 'abz' } };
// a JSON value of as many levels as the codec has: the properties and items above those of D, D's own
function value(S, use, def) {
  const [, , above, names] = uses[use];
  const inner = (n, more) => S.any(n, { depth: Math.max(1, level(def)), keys: keysOf(def).concat(more), ...ANY });
  const outer = (n, left) => {
    if (left === 0) return inner(n, []);
    const kind = S.pick(n + '.is', ['object', 'array', 'other']);
    if (kind === 'other') return S.any(n, { depth: 0, keys: [], ...ANY });
    if (kind === 'array') return S.is(S.bool(n + '.empty')) ? [] : [outer(n + '.0', left - 1)];
    const o = {};
    for (const k of names) {
      if (k === 'q' && 'p' in o && typeof def !== 'string' && ['two properties', 'intersection of properties'].includes(use)) { if (S.is(S.bool(n + '.both'))) o.q = o.p; continue; } // the same codec
      if (S.is(S.bool(n + '.has' + k))) o[k] = ['nested property', 'optional property', 'spread properties'].includes(use) && k === 'q' && left === 1 ? S.any(n + '.' + k, { depth: 0, keys: [], ...ANY }) : outer(n + '.' + k, left - 1);
    }
    return o;
  };
  return above === 0 ? inner('v', names) : outer('v', above);
}
const defs = Object.assign({}, DEFS, NESTED);
const uses = Object.assign({}, USES, DEEPER);
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['alternatives are inclusive: a value that several alternatives of a oneOf describe is described (O02 says when oneOf is used)', 'the document of a parameter leaves out a null beside undefined', 'a property whose codec accepts everything is documented as required although its absence is accepted'],
  scenarios: [
    {
      name: 'responses',
      bounds: 'a response that uses a named codec of one of twenty-four forms in one of sixteen ways (thorough: thirty in eighteen); the codec declared in the file, under another name, or imported by name, by another name or by namespace; literals symbolic; JSON values nested as deep as the codec, with up to three property names',
      labels: ['the document describes what the codec accepts', 'a document is written'],
      cases: { quick: Object.keys(USES).flatMap((use, i) => Object.keys(DEFS).concat(i === 1 ? 'optional codec' : []).map((d, j) => ({ use, defs: [d], from: [Object.keys(FROM)[(i + j) % 5]] }))), thorough: Object.keys(uses).flatMap((use) => Object.keys(defs).map((d) => ({ use, defs: [d], from: Object.keys(FROM) }))) },
      async run(S, p) {
        const t = S.load('io-ts'), h = S.load('@api-ts/io-ts-http');
        const d = S.pick('definition', p.defs), from = S.pick('from', p.from);
        const subst = {};
        const x = Object.assign({ subst }, expr(S, { t, h, subst }, 'x', defs[d]));
        const [text, make] = uses[p.use];
        const got = await document(S, x, from, (D) => `export const api = h.apiSpec({ k: { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { 200: ${text(D)} } }) } });`);
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const { doc } = got;
        const v = value(S, p.use, defs[d]);
        S.check('the document describes what the codec accepts', acceptsOA(JSON_OF(doc.paths['/p'].get.responses[200]), v, doc.components.schemas) === (make(t, h, x.codec).decode(v)._tag === 'Right'), [{ id: 'named-optional', when: d === 'optional codec' }]);
      },
    },
    {
      name: 'requests',
      bounds: 'a request whose body, or two of whose parameters, query, path or header, use a named codec of one of the same forms, the second one optional; JSON values as above',
      labels: ['the body describes what the codec accepts', 'a parameter describes what the codec accepts', 'a parameter is required if the codec needs it', 'a document is written'],
      cases: { quick: Object.keys(DEFS).concat('optional codec').map((d, j) => ({ d, from: [Object.keys(FROM)[j % 5], Object.keys(FROM)[(j + 2) % 5]] })), thorough: Object.keys(defs).map((d) => ({ d, from: Object.keys(FROM) })) },
      async run(S, p) {
        const t = S.load('io-ts'), h = S.load('@api-ts/io-ts-http');
        const from = S.pick('from', p.from), part = S.pick('part', ['body', 'query', 'params', 'headers']);
        const subst = {};
        const x = Object.assign({ subst }, expr(S, { t, h, subst }, 'x', defs[p.d]));
        const got = await document(S, x, from, (D) => `export const api = h.apiSpec({ k: { post: h.httpRoute({ path: '/p', method: 'POST', request: h.httpRequest({ ${part}: { p: ${D}, q: h.optional(${D}) } }), response: { 200: t.string } }) } });`);
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const { doc } = got;
        const op = doc.paths['/p'].post;
        if (part === 'body') {
          const v = value(S, 'property', defs[p.d]);
          S.check('the body describes what the codec accepts', acceptsOA(JSON_OF(op.requestBody), v, doc.components.schemas) === (t.type({ p: x.codec, q: h.optional(x.codec) }).decode(v)._tag === 'Right'), [{ id: 'named-optional', when: p.d === 'optional codec' }]);
          return;
        }
        const v = value(S, 'itself', defs[p.d]);
        for (const [name, codec] of [['p', x.codec], ['q', h.optional(x.codec)]]) {
          const at = op.parameters.filter((q) => q.name === name);
          const loose = name === 'q' && v === null; // a null beside undefined is not said
          S.check('a parameter describes what the codec accepts', at.length === 1 && at[0].in === { query: 'query', params: 'path', headers: 'header' }[part] && (loose || acceptsOA(at[0].schema, v, doc.components.schemas) === (codec.decode(v)._tag === 'Right')));
          S.check('a parameter is required if the codec needs it', at.length === 1 && (at[0].required === true) === (codec.decode(undefined)._tag === 'Left'), [{ id: 'named-optional', when: p.d === 'optional codec' }]);
        }
      },
    },
  ],
};
