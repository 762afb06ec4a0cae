'use strict';
const { D, $, subst, isPackage, path, pkg, VALUE, print, oracle, legal, names, resolver } = require('./lib/modules');
const { cli } = require('./lib/cli');

// The program's definitions: each an object with a literal of its own and, if it refers to others, properties for them.
// uses: definition marker -> markers of the names it refers to
const PROGRAMS = {
  'two modules': { a: D({ imports: [['K', 'L', 'b'], ['M', 'N', 'c']] }), b: D({ decls: ['P'], inline: ['P'] }), c: D({ decls: ['Q'], inline: ['Q'] }), api: ['K', 'M', 'K', 'M'], uses: {} },
  'three modules': { a: D({ imports: [['K', 'L', 'b'], ['M', 'N', 'c'], ['S', 'T', 'd']] }), b: D({ decls: ['P'], inline: ['P'] }), c: D({ decls: ['Q'], inline: ['Q'] }), d: D({ decls: ['R'], inline: ['R'] }), api: ['K', 'M', 'S', 'M'], uses: {} },
  'an own definition': { a: D({ imports: [['K', 'L', 'b']], decls: ['M'] }), b: D({ decls: ['P', 'Q'], inline: ['P'] }), api: ['K', 'M', 'K'], uses: { P: ['Q'] } },
  'definitions that use others': { a: D({ imports: [['K', 'L', 'b'], ['M', 'N', 'c']] }), b: D({ imports: [['R', 'S', 'c']], decls: ['P'], inline: ['P'] }), c: D({ decls: ['T', 'Q'], inline: ['T', 'Q'] }), api: ['K', 'M'], uses: { P: ['R', 'R'], Q: ['T'] } },
  'one definition by two names': { a: D({ imports: [['K', 'L', 'b'], ['M', 'N', 'c']] }), b: D({ decls: ['P'], inline: ['P'], exports: [['Q', 'P']] }), c: D({ decls: ['R'], inline: ['R'], re: [['S', 'T', 'b']] }), api: ['K', 'M'], uses: {} },
  'renamed and default exports': { a: D({ imports: [['K', 'default', 'b'], ['M', 'N', 'c']] }), b: D({ decls: ['P'], exports: [['default', 'P']] }), c: D({ decls: ['Q', 'R'], exports: [['S', 'Q'], ['T', 'R']] }), api: ['K', 'M'], uses: {} },
  'exports named like other definitions': { a: D({ imports: [['K', 'L', 'b'], ['M', 'N', 'b']] }), b: D({ decls: ['P', 'Q', 'R'], exports: [['S', 'P'], ['T', 'R']] }), api: ['K', 'M'], uses: { P: ['Q'] }, letters: 'xyz' },
  'two packages': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'B']] }), A: D({ decls: ['P'], inline: ['P'] }), B: D({ decls: ['Q'], inline: ['Q'] }), api: ['K', 'M', 'K'], uses: {} },
  'a package and a module': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'c']] }), A: D({ decls: ['P', 'R'], inline: ['P'] }), c: D({ decls: ['Q'], inline: ['Q'] }), api: ['K', 'M'], uses: { P: ['R'] } },
  'modules of packages': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'B']] }), A: D({ stars: ['Am'] }), Am: D({ decls: ['P'], inline: ['P'] }), B: D({ re: [['Q', 'R', 'Bm']] }), Bm: D({ decls: ['S'], inline: ['S'] }), api: ['K', 'M'], uses: {} },
  'packages that export by other names': { a: D({ imports: [['K', 'default', 'A'], ['M', 'N', 'B']] }), A: D({ decls: ['P'], exports: [['default', 'P']] }), B: D({ decls: ['Q', 'R'], exports: [['S', 'Q'], ['T', 'R']] }), api: ['K', 'M'], uses: {} },
  'packages that export others': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'A']] }), A: D({ stars: ['B'] }), B: D({ re: [['Q', 'R', 'C']], decls: ['P'], inline: ['P'] }), C: D({ decls: ['S', 'T'], inline: ['S'] }), api: ['K', 'M'], uses: {} },
  'packages that use others': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'B']] }), A: D({ imports: [['R', 'S', 'B']], decls: ['P'], inline: ['P'] }), B: D({ imports: [['T', 'U', 'Bm']], decls: ['Q'], inline: ['Q'] }), Bm: D({ decls: ['V'], inline: ['V'] }), api: ['K', 'M'], uses: { P: ['R'], Q: ['T'] } },
};
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
async function run(S, p) {
  const { api, uses } = PROGRAMS[p.k];
  const mods = Object.fromEntries(Object.entries(PROGRAMS[p.k]).filter(([k]) => !['api', 'uses', 'letters'].includes(k)));
  const N = names(S, mods, p.letters, p.numbered ? 2 : 1);
  legal(S, mods, N);
  const O = oracle(mods, N);
  // the program compiles: what is imported and used exists
  for (const f of Object.keys(mods)) for (const [l, i] of mods[f].imports) if (i !== '*') S.assume(![null, 'ambiguous'].includes(O.local(f, N[l])));
  const files = {};
  const init = (v, f, d) => `t.type({ v: t.literal('${v}')${(uses[d] || []).map((u, i) => `, r${i}: ${$(u)}`).join('')} })`;
  const responses = api.map((x, i) => `${200 + i}: ${$(x)}`).join(', ');
  const spec = `export const api = h.apiSpec({ k: { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({}), response: { ${responses} } }) } });\n`;
  for (const f of Object.keys(mods)) files[path(f)] = { text: HEAD + print(f, mods[f], init, f === 'a' ? spec : ''), subst: subst(N) };
  for (const f of Object.keys(mods)) if (isPackage(f)) files[`/src/node_modules/${pkg(f)}/package.json`] = { text: JSON.stringify({ source: 'src/index.ts' }) };
  const got = await cli(S, { files, resolve: resolver(mods), args: { input: path('a') } });
  return { got, mods, N, O, api, uses };
}
const REF = '#/components/schemas/';
function same(S, r, doc, schema, want) {
  if (schema === undefined) return false;
  const ref = schema.$ref;
  if (typeof ref !== 'string') return false;
  if (!ref.startsWith(REF)) return false;
  const c = doc.components.schemas[ref.slice(REF.length)];
  if (c === undefined) return false;
  const us = r.uses[want.d] || [];
  const keys = ['v', ...us.map((_, i) => 'r' + i)];
  return S.and(c.type === 'object', S.eq(Object.keys(c.properties), keys), S.eq(c.properties.v, { type: 'string', enum: [VALUE(want.f, want.i)] }), ...us.map((u, i) => same(S, r, doc, c.properties['r' + i], r.O.local(want.f, r.N[u]))));
}
// where a definition may be used: the text (a response, or the parts of a route) and where the document then has it
const one = (xs) => xs.find((x) => x.$ref !== undefined) || xs[0];
const PLACES = {
  response: [(x) => x, (s) => s],
  property: [(x) => `t.type({ p: ${x} })`, (s) => s.properties.p],
  'optional property': [(x) => `h.optionalized({ p: h.optional(${x}) })`, (s) => s.properties.p],
  'nested property': [(x) => `t.type({ q: t.partial({ p: ${x} }) })`, (s) => s.properties.q.properties.p],
  'items of a property': [(x) => `t.type({ p: t.array(t.array(${x})) })`, (s) => s.properties.p.items.items],
  'values of records': [(x) => `t.record(t.string, t.record(t.string, t.type({ p: ${x} })))`, (s) => s.additionalProperties.additionalProperties.properties.p],
  'enumerated records': [(x) => `t.record(t.keyof({ k: null }), t.type({ p: ${x} }))`, (s) => s.properties.k.properties.p],
  union: [(x) => `t.union([${x}, t.array(t.string)])`, (s) => one(s.oneOf)],
  'records in a union': [(x) => `t.type({ p: t.union([t.null, t.number, t.record(t.string, t.type({ q: ${x} }))]) })`, (s) => s.properties.p.oneOf.find((x) => x.type === 'object').additionalProperties.properties.q],
  'arrays in an intersection': [(x) => `t.intersection([t.type({ p: t.union([t.string, t.array(${x})]) }), t.record(t.string, t.unknown)])`, (s) => s.allOf.find((x) => x.properties).properties.p.oneOf.find((x) => x.type === 'array').items],
  intersection: [(x) => `t.intersection([${x}, t.record(t.string, t.unknown)])`, (s) => one(s.allOf)],
  'property of an intersection': [(x) => `t.intersection([t.type({ p: ${x} }), t.type({ q: t.string })])`, (s) => s.properties.p],
  query: [(x) => ({ request: `query: { p: ${x} }` }), (s, op) => op.parameters.find((q) => q.in === 'query' && q.name === 'p').schema],
  header: [(x) => ({ request: `headers: { p: ${x} }` }), (s, op) => op.parameters.find((q) => q.in === 'header' && q.name === 'p').schema],
  'path parameter': [(x) => ({ request: `params: { p: ${x} }` }), (s, op) => op.parameters.find((q) => q.in === 'path' && q.name === 'p').schema],
  'whole body': [(x) => ({ whole: `t.intersection([h.httpRequest({ query: { q: t.string } }), t.type({ body: ${x} })])` }), (s, op) => op.requestBody.content['application/json'].schema],
  'body of a plain request': [(x) => ({ whole: `t.type({ params: t.type({}), query: t.type({}), body: ${x} })` }), (s, op) => op.requestBody.content['application/json'].schema],
  'whole body of one of two requests': [(x) => ({ whole: `t.union([t.type({ params: t.type({}), query: t.type({}), body: ${x} }), h.httpRequest({ body: { z: t.array(t.string) } })])` }), (s, op) => one(op.requestBody.content['application/json'].schema.oneOf)],
  body: [(x) => ({ request: `body: t.type({ b: ${x} })` }), (s, op) => op.requestBody.content['application/json'].schema.properties.b],
};
const FORMS = { object: 't.type({ a: t.string })', string: 't.string', literal: "t.literal('x')", union: 't.union([t.string, t.null])', 'alias of another': 'Inner', 'object with another': 't.type({ i: Inner })', 'array with another': 't.array(t.type({ i: Inner }))', 'intersection with another': 't.intersection([Inner, t.record(t.string, t.string)])' };
const schemaAt = (doc) => doc.paths['/one'].get.responses[200].content['application/json'].schema;
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['the program compiles: no name is declared or exported twice in a module, what is imported, exported and used exists and is not ambiguous'],
  scenarios: [
    {
      name: 'references',
      bounds: 'thirteen forms of programs of up to four modules and packages with named, renamed, default and star imports and exports, definitions that use others; every name either of two letters (thorough: any of three), or numbered as the tool numbers components',
      labels: ['a document is written', 'every component is referred to', 'a reference leads to the definition'],
      cases: { quick: Object.keys(PROGRAMS).map((k) => ({ k, letters: PROGRAMS[k].letters || 'xy' })).concat(['two modules', 'three modules', 'two packages'].map((k) => ({ k, letters: 'x1', numbered: 1 }))), thorough: Object.keys(PROGRAMS).flatMap((k) => [{ k, letters: 'xyz' }, { k, letters: 'x1', numbered: 1 }]) },
      async run(S, p) {
        const r = await run(S, p);
        const wants = r.api.map((x) => r.O.local('a', r.N[x]));
        S.assume(!wants.includes('ambiguous'));
        S.assume(!wants.includes(null));
        S.observe('code', r.got.code);
        if (r.got.thrown && r.got.thrown.message) console.error(r.got.thrown.stack);
        if (process.env.DBG) S.observe('printed', r.got.printed, r.got.thrown && r.got.thrown.message);
        S.check('a document is written', r.got.code === 0);
        if (r.got.code !== 0) return;
        const doc = r.got.doc;
        const text = JSON.stringify(doc);
        S.check('every component is referred to', S.and(...Object.keys(doc.components.schemas).map((c) => text.includes(`"${REF}${c}"`))));
        wants.forEach((w, i) => S.check('a reference leads to the definition', same(S, r, doc, doc.paths['/p'].get.responses[200 + i].content['application/json'].schema, w)));
      },
    },
    {
      name: 'places',
      bounds: 'a definition of a module or a package, with another of the same name used first, in any of nineteen places of a route or of a component',
      labels: ['a document is written', 'a reference leads to the definition'],
      cases: { quick: Object.keys(PLACES).map((place) => ({ place })), thorough: Object.keys(PLACES).map((place) => ({ place })) },
      async run(S, p) {
        const far = S.pick('from', ['./b', '@p/a']);
        const name = S.str('name', { min: 1, max: 1, alphabet: 'xy' });
        const kind = S.pick('kind', ['object', 'union']);
        const def = (v) => (kind === 'object' ? `t.type({ v: t.literal('${v}') })` : `t.union([t.literal('${v}'), t.type({})])`);
        const [text, get] = PLACES[p.place];
        const where = S.is(S.bool('in a component'));
        const use = text('$U');
        // the other definition, x, is met first or last
        const route = (id, o) => `${id}: { get: h.httpRoute({ path: '/${id}', method: 'GET', request: ${o.whole || `h.httpRequest({ ${o.request || ''} })`}, response: { 200: ${o.response || 't.string'} } }) }`;
        const inComponent = where && typeof use === 'string';
        const r = typeof use === 'string' ? { response: inComponent ? 'C' : use } : use;
        const list = [route('one', r), route('two', { response: 'x' })];
        if (S.is(S.bool('other first'))) list.reverse();
        const files = {
          '/src/a.ts': { text: `${HEAD}import { $Z as $U } from '${far}';\nconst x = t.literal('other');\n${inComponent ? `const C = t.type({ c: ${use} });\n` : ''}export const api = h.apiSpec({ ${list.join(', ')} });\n`, subst: { $Z: name, $U: S.str('alias', { min: 1, max: 1, alphabet: 'yz' }) } },
          '/src/b.ts': { text: `import * as t from 'io-ts';\nexport const $Z = ${def('it')};\n`, subst: { $Z: name } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ types: 'src/index.ts' }) },
        };
        files[path('A')] = files['/src/b.ts'];
        const got = await cli(S, { files, resolve: resolver({ a: {}, b: {}, A: {} }), args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const { doc } = got;
        const deref = (s) => (s && typeof s.$ref === 'string' && s.$ref.startsWith(REF) ? doc.components.schemas[s.$ref.slice(REF.length)] : undefined);
        const op = doc.paths['/one'].get;
        let top = op.responses[200].content['application/json'].schema;
        if (inComponent) top = deref(top).properties.c;
        const at = get(top, op, doc);
        const it = at && at.$ref === undefined ? at : deref(at);
        if (process.env.DBG) S.observe('printed', doc);
        const want = kind === 'object' ? { type: 'object', properties: { v: { type: 'string', enum: ['it'] } }, required: ['v'] } : undefined;
        S.check('a reference leads to the definition', S.and(it !== undefined, it !== undefined && (kind === 'object' ? S.and(S.eq(it.properties, want.properties), S.eq(it.required, want.required)) : Array.isArray(it.oneOf) && it.oneOf.length === 2 && S.and(...[{ type: 'string', enum: ['it'] }, { type: 'object', properties: {} }].map((w) => S.or(...it.oneOf.map((x) => S.eq(x, w))))))));
        S.check('a reference leads to the definition', S.eq(deref(doc.paths['/two'].get.responses[200].content['application/json'].schema).enum, ['other']));
      },
    },
    {
      name: 'packages as they are installed',
      bounds: 'a package that is installed twice, for the program and for another package it uses; scoped or not, its main module or a part with a package.json of its own; its main module given as source, typings or types, with declaration files and enumerations beside; names of two letters, either used first',
      labels: ['a document is written', 'a reference leads to the definition', 'an enumeration of a declaration file is documented'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const b = S.pick('package', ['@p/b', 'b', '@p/b/part', 'b/part']);
        const twice = S.is(S.bool('twice'));
        const as = S.pick('main', ['source', 'typings', 'types', 'source and types', 'source and typings']);
        const X = S.str('X', { min: 1, max: 1, alphabet: 'xy' }), Y = S.str('Y', { min: 1, max: 1, alphabet: 'xy' });
        const desc = as === 'source and types' ? { source: 'src/index.ts', types: 'dist/index.d.ts', main: 'dist/index.js' } : as === 'source and typings' ? { source: 'src/index.ts', typings: 'dist/index.d.ts' } : { [as]: 'src/index.ts', main: 'dist/index.js' };
        const inner = twice ? '/src/node_modules/@p/a/node_modules/' : '/src/node_modules/';
        const files = {
          '/src/a.ts': { text: `${HEAD}import { $X as U } from '${b}';\nimport { R, Mode } from '@p/a';\nexport const api = h.apiSpec({ k: { get: h.httpRoute({ path: '/p', method: 'GET', request: h.httpRequest({ query: { m: t.keyof(Mode) } }), response: { ${S.is(S.bool('own first')) ? '200: U, 201: R' : '200: R, 201: U'} } }) } });\n`, subst: { $X: X } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ source: 'src/index.ts' }) },
          '/src/node_modules/@p/a/src/index.ts': { text: `${HEAD}import { $Y as Q } from '${b}';\nexport { Mode } from 'd';\nexport const R = t.type({ r: Q });\n`, subst: { $Y: Y } },
          '/src/node_modules/d/package.json': { text: JSON.stringify({ types: 'dist/index.d.ts' }) },
          '/src/node_modules/d/dist/index.d.ts': { text: "export declare enum Mode { one = 'one', two = 'two' }\n" },
        };
        for (const [at, v] of [['/src/node_modules/', 'outer'], [inner, 'inner']]) {
          files[`${at}${b}/package.json`] = { text: JSON.stringify(desc) };
          files[`${at}${b}/dist/index.d.ts`] = { text: 'export declare const x: unknown, y: unknown;\n' };
          files[`${at}${b}/src/index.ts`] = { text: `${HEAD}export const x = t.type({ v: t.literal('${twice ? v : 'one'} x') });\nexport const y = t.type({ v: t.literal('${twice ? v : 'one'} y') });\n` };
        }
        const find = { sync(q, o) {
          const tries = [];
          if (q[0] === '.') tries.push(`${o.basedir}/${q.slice(2)}`);
          else for (let d = o.basedir; d.length > 1; d = d.slice(0, d.lastIndexOf('/'))) if (!d.endsWith('/node_modules')) tries.push(`${d}/node_modules/${q}`);
          for (const x of tries) for (const f of [x, ...o.extensions.map((e) => x + e)]) if (f in files) return f;
          throw new Error(`Cannot find module '${q}' from '${o.basedir}'`);
        } };
        const got = await cli(S, { files, resolve: find, args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        if (process.env.DBG) S.observe('printed', got.printed, got.thrown && got.thrown.message);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const { doc } = got;
        const deref = (s) => (s && typeof s.$ref === 'string' && s.$ref.startsWith(REF) ? doc.components.schemas[s.$ref.slice(REF.length)] : undefined);
        const op = doc.paths['/p'].get;
        const at = (c) => op.responses[c].content['application/json'].schema;
        const cs = [deref(at(200)), deref(at(201))];
        const r = cs.find((c) => c && c.properties.r), u = cs.find((c) => c && c.properties.v);
        S.check('a reference leads to the definition', S.and(r !== undefined, u !== undefined));
        if (r === undefined || u === undefined) return;
        const q = deref(r.properties.r);
        S.check('a reference leads to the definition', S.and(S.eq(u.properties.v.enum, [`${twice ? 'outer' : 'one'} ${X}`]), q !== undefined && S.eq(q.properties.v.enum, [`${twice ? 'inner' : 'one'} ${Y}`])), [{ id: 'package-installed-twice', when: S.and(twice, S.eq(X, Y)) }]);
        S.check('an enumeration of a declaration file is documented', S.eq(op.parameters[0].schema, { type: 'string', enum: ['one', 'two'] }));
      },
    },
    {
      name: 'comments of definitions',
      bounds: 'a definition of one of eight forms, of a module or a package or of the file itself, with a comment of a description, a tag or both or without, that refers to another definition with or without a comment; used once or twice',
      labels: ['a component has the comment of its definition', 'a document is written'],
      cases: { quick: Object.keys(FORMS).map((form) => ({ form })), thorough: Object.keys(FORMS).map((form) => ({ form })) },
      async run(S, p) {
        const from = S.pick('from', ['here', './b', '@p/a']);
        const text = S.str('text', { min: 1, max: 1, alphabet: 'ab' });
        const comment = (n) => {
          const how = S.pick(n, n === 'outer' ? ['none', 'description', 'tag', 'both'] : ['none', 'description']);
          return [{ none: '', description: '/**\n * ~\n */\n', tag: '/**\n * @format ~\n */\n', both: '/**\n * ~\n * @format ~\n */\n' }[how].replace(/~/g, n === 'outer' ? '~' : 'inner'), how];
        };
        const [outer, how] = comment('outer');
        const [inner, innerHow] = comment('inner');
        const exp = from === 'here' ? '' : 'export ';
        const defs = `${inner}const Inner = t.type({ i: t.string });\n/** not this one */\nconst other = 1;\n${outer}${exp}const Outer = ${FORMS[p.form]};\n`;
        const twice = S.is(S.bool('twice'));
        const files = {
          '/src/a.ts': { text: `${HEAD}${from === 'here' ? defs : `import { Outer } from '${from}';\n`}export const api = h.apiSpec({ k: { get: h.httpRoute({ path: '/one', method: 'GET', request: h.httpRequest({}), response: { 200: t.type({ x: Outer${twice ? ', /** here */ y: Outer' : ''} }) } }) } });\n`, subst: { '~': text } },
          '/src/b.ts': { text: HEAD + defs, subst: { '~': text } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ types: 'src/index.ts' }) },
        };
        files[path('A')] = files['/src/b.ts'];
        const got = await cli(S, { files, resolve: resolver({ a: {}, b: {}, A: {} }), args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const cs = got.doc.components.schemas;
        const c = cs.Outer;
        const said = (x) => (x.type === 'array' ? x.items : x); // an array's comment is that of its items
        const described = ['description', 'both'].includes(how), formatted = ['tag', 'both'].includes(how);
        S.check('a component has the comment of its definition', S.and(c !== undefined, c !== undefined && S.and(S.eq(said(c).description, described ? text : undefined), S.eq(said(c).format, formatted ? text : undefined))));
        if (p.form.includes('other')) S.check('a component has the comment of its definition', cs.Inner !== undefined && S.eq(cs.Inner.description, innerHow === 'none' ? undefined : 'inner'));
        // the uses have none of it
        const props = schemaAt(got.doc).properties;
        S.check('a component has the comment of its definition', S.and(S.eq(props.x, { $ref: REF + 'Outer' }), !twice || S.eq(props.y, { allOf: [{ $ref: REF + 'Outer' }], description: 'here' })));
      },
    },
  ],
};
