'use strict';
const { cli } = require('./lib/cli');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nimport { NumberFromString, DateFromISOString } from 'io-ts-types';\nimport { mine, boxed } from 'own-codecs';\n";
// what the documented items may be, beside plain strings
const LEAVES = {
  string: 't.string', number: 't.number', boolean: 't.boolean', encoded: 'NumberFromString', date: 'DateFromISOString', literal: "t.literal('lit')", enumeration: "t.union([t.literal('a'), t.literal('b')])",
  object: 't.type({ v: t.string, w: t.array(t.number) })', record: 't.record(t.string, t.number)', union: 't.union([t.string, t.type({ v: t.number })])', nullable: 't.union([t.number, t.null])', array: 't.array(t.string)', keyof: "t.keyof({ a: null, b: null })", partial: 't.partial({ v: t.string })',
  optional: 'h.optional(t.string)', optionalUnion: 'h.optional(t.union([t.string, t.number]))', custom: 'mine', customOf: 'boxed(t.string)',
};
// custom codecs may always return the same schema
const ownCodecs = () => {
  const mine = { type: 'string', format: 'mine' }, boxed = { type: 'array', items: { type: 'string', primitive: true } };
  return { '/opt/codecs.js': { __esModule: true, default: (e) => ({ 'own-codecs': { mine: () => e.right(mine), boxed: () => e.right(boxed) } }) } };
};
// where a comment may stand, and where the document has what it describes
const param = (name) => (doc) => { const ps = doc.paths['/one/{x}'].post.parameters; const i = ps.findIndex((p) => p.name === name); return [['paths', '/one/{x}', 'post', 'parameters', String(i)], ['paths', '/one/{x}', 'post', 'parameters', String(i), 'schema']]; };
const at = (...path) => () => [path, path];
const B = ['components', 'schemas', 'B', 'properties'];
const BODY = ['paths', '/one/{x}', 'post', 'requestBody', 'content', 'application/json', 'schema', 'properties'];
const RES = (n) => ['paths', '/one/{x}', 'post', 'responses', n, 'content', 'application/json', 'schema'];
const PLACES = {
  A: at('components', 'schemas', 'A'), B: at('components', 'schemas', 'B'), p: at(...B, 'p'), q: at(...B, 'q'), n: at(...B, 'n'), i: at(...B, 'n', 'properties', 'i'), o: at(...B, 'o'), One: at('paths', '/one/{x}', 'post'),
  x: param('x'), y: param('y'), k: param('k'), z: param('z'), b: at(...BODY, 'b'), c: at(...BODY, 'c'), r200: at(...RES('200')), r500: at(...RES('500')),
};
const NAMES = Object.keys(PLACES);
function program(c, leaf, own) {
  const defs = `${c('A')}export const A = ${leaf};\nexport const A0 = ${leaf};\n${c('B')}export const B = t.intersection([t.type({ ${c('p')}p: ${leaf}, p0: ${leaf}, ${c('q')}q: A, q0: A,\n${c('n')}n: t.type({ ${c('i')}i: ${leaf}, i0: ${leaf} }) }), t.partial({ ${c('o')}o: ${leaf}, o0: A0, w0: t.array(A), w1: t.record(t.string, A) })]);\n`;
  const text = `${own ? defs : "import { A, A0, B } from './b';\n"}${c('One')}const One = h.httpRoute({ path: '/one/{x}', method: 'POST', request: h.httpRequest({ params: { ${c('x')}x: t.string }, query: { ${c('y')}y: A, y0: A,\n${c('k')}k: ${leaf}, k0: h.optional(${leaf}) }, headers: { ${c('z')}z: ${leaf}, z0: ${leaf} }, body: { ${c('b')}b: ${leaf},\n${c('c')}c: A, d0: ${leaf}, e0: A } }), response: { ${c('r200')}200: B, 404: A,\n${c('r500')}500: ${leaf} } });\nconst Two = h.httpRoute({ path: '/two', method: 'GET', request: h.httpRequest({ query: { y: A, z: ${leaf} } }), response: { 200: ${leaf}, 404: A0, 406: t.array(A), 500: B } });\nexport const api = h.apiSpec({ one: { post: One }, two: { get: Two } });\n`;
  return { defs: HEAD + defs, text: HEAD + text };
}
// a copy without the marked annotations
function strip(v, mark, path = []) {
  if (Array.isArray(v)) return v.map((x) => strip(x, mark));
  if (v === null || typeof v !== 'object') return v;
  const out = {};
  for (const k of Object.keys(v)) if (!(typeof v[k] === 'string' && (mark(v[k]) || (k === 'description' && v[k] === '')))) out[k] = strip(v[k], mark, path.concat(k));
  const keys = Object.keys(out);
  if (keys.length === 1 && keys[0] === 'allOf' && out.allOf.length === 1) return out.allOf[0];
  return out;
}
function marks(v, prefix, path = []) {
  if (typeof v === 'string') return v.startsWith(prefix) ? [{ path, text: v }] : [];
  if (v === null || typeof v !== 'object') return [];
  return Object.keys(v).flatMap((k) => marks(v[k], prefix, path.concat(k)));
}
// what an example is read as depends on the codec
const STRINGS = ['string', 'encoded', 'date', 'literal', 'enumeration', 'keyof'];
const TAGS = ['description', 'title', 'format', 'pattern', 'example'];
const RESOLVE = { sync(q, o) { if (q[0] === '.') return `${o.basedir}/${q.slice(2)}.ts`; throw new Error(`Cannot find module '${q}' from '${o.basedir}'`); } };

module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['the program compiles'],
  scenarios: [
    {
      name: 'where comments arrive',
      maxLoop: 1200000,
      bounds: 'a program of two routes and four definitions, in one file or two, with a documentation comment at one or two of sixteen places: definitions, properties, nested and optional ones, references, a route, parameters of each kind, body properties, responses; eighteen kinds of codec, custom ones included, at all places alike; a description or a tag, on one line or several; texts with two symbolic characters',
      labels: ['a document is written', 'a comment is the documentation of its item, and of no other', 'the documentation of a definition comes along where it is written in', 'comments change nothing else'],
      cases: {
        quick: NAMES.map((one, j) => ({ one, leaves: [Object.keys(LEAVES)[j]].concat(one === 'A' ? ['custom', 'customOf'] : one === 'p' || one === 'y' || one === 'b' ? ['optional', 'optionalUnion'] : 'string'), few: true })),
        thorough: NAMES.flatMap((one) => Object.keys(LEAVES).map((l) => ({ one, leaves: [l] }))),
      },
      async run(S, p) {
        const leaf = S.pick('leaf', p.leaves);
        const own = S.is(S.bool('one file'));
        const one = p.one;
        const j = NAMES.indexOf(one);
        const two = S.pick('two', p.few ? [3, 5, 8, 14].map((d) => NAMES[(j + d) % 16]).concat('none') : NAMES.filter((n) => n !== one).concat('none'));
        const subst = {};
        const text = {};
        const tag = {};
        const comments = {};
        for (const n of [one, two]) {
          if (n === 'none') continue;
          tag[n] = n === one ? S.pick('tag of ' + leaf, TAGS.filter((x) => (x !== 'example' || STRINGS.includes(leaf)) && (!p.few || x === 'description' || TAGS[j % 4 + 1] === x))) : 'description';
          // as long as the text it stands for, for the offsets in the file
          const marker = '$' + 'ABCDEFGHIJKLMNOP'[NAMES.indexOf(n)];
          subst[marker] = text[n] = S.str('text_' + n, { min: 2, max: 2, alphabet: n === one ? 'ab -_.{' : 'ab -' });
          S.assume(S.and(text[n][0] !== ' ', text[n][1] !== ' '));
          const body = tag[n] === 'description' ? `mark ${n} ${marker}` : `@${tag[n]} mark ${n} ${marker}`;
          comments[n] = (n === one && !p.few ? S.is(S.bool('long')) : NAMES.indexOf(n) % 2 === 1) ? `/**\n * ${body}\n */\n` : `/** ${body} */ `;
        }
        const P = program((n) => comments[n] || '', LEAVES[leaf], own), P0 = program(() => '', LEAVES[leaf], own);
        const files = (x, s) => Object.assign({ '/src/a.ts': { text: x.text, subst: s } }, own ? {} : { '/src/b.ts': { text: x.defs, subst: s } });
        const got = await cli(S, { files: files(P, subst), resolve: RESOLVE, args: { input: '/src/a.ts', codecFile: '/opt/codecs.js' }, modules: ownCodecs() });
        S.observe('code', got.code);
        if (process.env.DBG) S.observe('printed', got.printed, got.thrown && got.thrown.message);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const base = await cli(S, { files: files(P0, {}), resolve: RESOLVE, args: { input: '/src/a.ts', codecFile: '/opt/codecs.js' }, modules: ownCodecs() });
        S.check('a document is written', base.code === 0);
        if (base.code !== 0) return;
        for (const n of Object.keys(comments)) {
          const everywhere = marks(got.doc, `mark ${n} `);
          // a definition that is written in where it is used is documented there as well
          const written = (f) => [B.concat('w0'), B.concat('w1'), ['paths', '/two', 'get', 'responses', '406']].findIndex((w) => w.every((x, i) => f.path[i] === x));
          const found = everywhere.filter((f) => written(f) < 0);
          if (n === 'A') for (const w of [0, 1, 2]) S.check('the documentation of a definition comes along where it is written in', everywhere.some((f) => written(f) === w));
          const [item, schema] = PLACES[n](got.doc);
          let want = tag[n] === 'description' ? [item.concat(n === 'One' ? 'summary' : 'description')] : [schema.concat(tag[n])];
          if (n === 'One' && tag[n] === 'example') want = ['200', '404', '500'].map((c) => ['paths', '/one/{x}', 'post', 'responses', c, 'content', 'application/json', 'example']);
          else if (n === 'One' && tag[n] !== 'description') want = [['paths', '/one/{x}', 'post', 'x-unknown-tags', tag[n]]];
          // what documents an array documents its items, too or alone
          const inItems = (x) => x[x.length - 2] === 'items';
          let items = found.map((f) => f.path);
          if (leaf === 'array' || leaf === 'customOf') items = items.some((x) => !inItems(x)) ? items.filter((x) => !(inItems(x) && x[x.length - 3] === 'schema')) : items.map((x) => x.slice(0, -2).concat(x[x.length - 1]));
          if (process.env.DBG) S.observe('found', JSON.stringify([n, found, want]));
          S.check('a comment is the documentation of its item, and of no other', S.and(S.eq(items.map((x) => x.join(' ')).sort(), want.map((x) => x.join(' ')).sort()), ...everywhere.map((f) => f.text === `mark ${n} ${text[n]}`)));
        }
        const mark = (v) => v.startsWith('mark ');
        const stripped = strip(got.doc, mark), plain = strip(base.doc, mark);
        delete stripped.paths['/one/{x}'].post['x-unknown-tags'];
        for (const c of ['A', 'B']) { delete stripped.components.schemas[c].title; delete plain.components.schemas[c].title; }
        if (tag[one] === 'format') for (const d of [stripped, plain]) dropFormats(d);
        if (process.env.DBG) S.observe('docs', JSON.stringify([stripped, plain])); S.check('comments change nothing else', S.eq(stripped, plain));
      },
    },
  ],
};
function dropFormats(v) {
  if (v === null || typeof v !== 'object') return;
  if (typeof v.format === 'string') delete v.format;
  for (const k of Object.keys(v)) dropFormats(v[k]);
}
