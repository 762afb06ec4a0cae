'use strict';
const { cli } = require('./lib/cli');
const { path, resolver } = require('./lib/modules');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
// places of a codec X in a program: parts of the text
const P = (x) => Object.assign({ top: '', path: "'/one'", method: "'GET'", request: 'h.httpRequest({})', response: '200: t.string', routes: '', apis: '', more: '' }, x);
const PLACES = {
  response: (x) => P({ response: `200: ${x}` }),
  'second response': (x) => P({ response: `200: t.string, 400: ${x}` }),
  'property of a response': (x) => P({ response: `200: t.type({ p: t.partial({ q: ${x} }) })` }),
  items: (x) => P({ response: `200: t.array(${x})` }),
  'values of a record': (x) => P({ response: `200: t.record(t.string, ${x})` }),
  union: (x) => P({ response: `200: t.union([t.string, ${x}])` }),
  intersection: (x) => P({ response: `200: t.intersection([t.type({ a: t.string }), ${x}])` }),
  optional: (x) => P({ response: `200: h.optionalized({ p: h.optional(${x}) })` }),
  query: (x) => P({ request: `h.httpRequest({ query: { p: ${x} } })` }),
  header: (x) => P({ request: `h.httpRequest({ headers: { p: h.optional(${x}) } })` }),
  'path parameter': (x) => P({ request: `h.httpRequest({ params: { p: ${x} } })` }),
  'property of a body': (x) => P({ request: `h.httpRequest({ body: { p: ${x} } })` }),
  'whole body': (x) => P({ request: `t.intersection([h.httpRequest({ query: {} }), t.type({ body: ${x} })])` }),
  'member of a request': (x) => P({ request: `h.httpRequest({ query: { a: t.string } }), request: t.union([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { p: ${x} } })])` }),
  definition: (x) => P({ top: `const Def = t.type({ p: ${x} });\n`, response: '200: Def' }),
  alias: (x) => P({ top: `const Other = ${x};\n`, response: '200: t.array(Other)' }),
  'definition of a definition': (x) => P({ top: `const Deep = t.array(${x});\nconst Def = t.type({ p: Deep });\n`, response: '200: t.type({ d: Def })' }),
  'constant properties': (x) => P({ top: `const props = { p: ${x} };\n`, response: '200: t.type(props)' }),
  'spread properties': (x) => P({ top: `const props = { p: ${x} };\n`, response: '200: t.type({ ...props, q: t.string })' }),
  'second route': (x) => P({ routes: `, post: h.httpRoute({ path: '/one', method: 'POST', request: h.httpRequest({}), response: { 200: ${x} } })` }),
  'second name': (x) => P({ apis: `, m: { get: h.httpRoute({ path: '/two', method: 'GET', request: h.httpRequest({}), response: { 200: ${x} } }) }` }),
  'second specification': (x) => P({ more: `export const other = h.apiSpec({ z: { get: h.httpRoute({ path: '/three', method: 'GET', request: h.httpRequest({}), response: { 200: ${x} } }) } });\n` }),
};
// uses of a symbolic name Z: [text of the use, further text, text of the module b]; all the names are letters
const NAMES = {
  'a name of the module': ['Z', 'const C = t.number;\n'],
  'an import': ['Z', "import { E as D } from './b';\n"],
  'a member of a namespace': ['ns.Z', "import * as ns from './b';\n"],
  'a codec of a package': ['Z', "import { E as D } from '@p/a';\n"],
  'a member of a package': ['ns.Z', "import * as ns from '@p/a';\n"],
  'a codec of io-ts': ['t.Z', ''],
  'a package that is not installed': ['Z', "import { E as Z } from '@p/z';\n"],
  'a member of a package that is not installed': ['ns.Z', "import * as ns from '@p/z';\n"],
  'a package without source': ['Z', "import { E as Z } from '@p/n';\n"],
  'a part of a package': ['Z', "import { E as Z } from '@p/a/part';\n"],
  'a module that is not there': ['Z', "import { E as Z } from './c';\n"],
  'a module that does not parse': ['Z', "import { E as Z } from './broken';\n"],
};
// expressions that no codec is read from
const UNREAD = ['ready ? t.string : t.number', 'make(t.string)', 'choose(1)', 'far(t.string)', 'named()', 'named', 'declared', 'later', 'Sub.codec', 'new Sub()', 't.string || t.number', '(ready, t.string)', 't[`string`]', "t['string']", 't.string as any', '(() => t.string)()', 'make', 't.array', 'arrow.call(null)', 't.type({ [`x`]: t.string })', 't.type({ get a() { return t.string; } })', 't.type({ m() {} })', '!t.string', 't?.string', 't.nothing(t.string)', 'make?.(t.string)', 't.keyof(ready)', 'function () {}', 'class {}', 'this.codec', 't.string!', '<any>t.string'];
// bodies of functions: the text, what the local name $L stands for (null without one), whether it is only a return
const BODIES = {
  expression: ['$R', null, true],
  'in parentheses': ['($R)', null, false],
  'a return': ['{ return $R; }', null, true],
  'a call before': ["{ log('x'); return $R; }", null, true],
  'a local constant': ["{ const $L = t.literal('local l'); return $R; }", 'local l', false],
  'an unrelated constant': ['{ const other = 1; return $R; }', null, true],
  'an unrelated function': ['{ function other() { return t.null; } return $R; }', null, true],
  'a local constant that is used inside': ["{ const $L = t.literal('local l'); return t.exact(t.type({ p: t.array(t.type({ $R })) })); }", 'local l', false],
  'a local constant in a computed key': ["{ const $L = t.literal('local l'); return t.type({ ['p']: $R }); }", 'local l', false],
  'a local variable': ["{ let $L = t.literal('local l'); return $R; }", 'local l', false],
  'a local function': ["{ return $R; function $L() { return t.literal('local l'); } }", undefined, false],
  'a local class': ['{ class $L {} return $R; }', undefined, false],
  'a local pattern': ["{ const { $L } = { $L: t.literal('local l') }; return $R; }", 'local l', false],
  'an earlier return': ["{ if (ready) return t.literal('local l'); return $R; }", null, false, 'local l'],
  'an earlier return in a block': ["{ { return t.literal('local l'); } return $R; }", null, false, 'local l'],
  'a try': ["{ try { return t.literal('local l'); } finally { log(1); } return $R; }", null, false, 'local l'],
  'a switch': ["{ switch (ready) { case true: return t.literal('local l'); } return $R; }", null, false, 'local l'],
  'a loop': ["{ while (ready) { return t.literal('local l'); } return $R; }", null, false, 'local l'],
  'a label': ["{ here: return t.literal('local l'); return $R; }", null, false, 'local l'],
  'two returns': ["{ return $R; return t.literal('local l'); }", null, false],
};
const STRING = ['t.string as any', 'arrow.call(null)', 't.string!', '<any>t.string', "t['string']", 't[`string`]', 'named()', '(() => t.string)()', 'Sub.codec', 't?.string'];
const ALSO = ["import { B as Also } from './b';\n", "import { B as Also } from './b';\nimport { B as Too } from '@p/a';\n"]; // so that there are such names elsewhere
const program = ({ top, path: at, method, request, response, routes, apis, more }, extra) => `${HEAD}${extra}${top}export const api = h.apiSpec({ k: { get: h.httpRoute({ path: ${at}, method: ${method}, request: ${request}, response: { ${response} } })${routes} }${apis} });\n${more}`;
const finder = (files) => ({ sync(q, o) {
  const at = q[0] === '.' ? `${o.basedir}/${q.slice(2)}` : `/src/node_modules/${q}`;
  for (const f of [at, ...o.extensions.map((e) => at + e)]) if (f in files) return f;
  throw new Error(`Cannot find module '${q}' from '${o.basedir}'`);
} });
const noDocument = (S, got) => S.and(got.code !== 0, !got.printed.some((x) => typeof x === 'string' && x.startsWith('{')));
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['package resolution finds the files that are there', 'an expression of a kind that is not read may be documented as anything'],
  scenarios: [
    {
      name: 'names',
      bounds: 'a codec at one of 22 places of a program, named in one of 12 ways (of the module, imported, of a namespace, of a package, ...), every name a symbolic letter, with and without codecs of any name elsewhere in the program',
      labels: ['a program with an undefined name has no document', 'a program with all names defined has a document'],
      cases: { quick: Object.keys(PLACES).map((place) => ({ place })), thorough: Object.keys(PLACES).map((place) => ({ place })) },
      async run(S, p) {
        const kind = S.pick('kind', Object.keys(NAMES));
        const [use, extra] = NAMES[kind];
        const N = {};
        const one = (n) => (N[n] = S.str(n, { min: 1, max: 1, alphabet: 'xyz' }));
        const Z = one('Z'), D = one('D'), E = one('E'), C = one('C'), B = one('B');
        const elsewhere = S.is(S.bool('elsewhere'));
        const files = {
          '/src/a.ts': { text: program(PLACES[p.place](use.replace('Z', '$Z')), (extra + (elsewhere ? ALSO[kind === 'a part of a package' ? 0 : 1] : '')).replace(/\b([BCDEZ])\b/g, '$$$1')), subst: { $Z: Z, $D: D, $E: E, $C: C, $B: B } },
          '/src/b.ts': { text: `${HEAD}export const $B = t.literal('b');\n`, subst: { $B: B } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ source: 'src/index.ts' }) },
        };
        files[path('A')] = files['/src/b.ts'];
        files['/src/node_modules/@p/n/package.json'] = { text: JSON.stringify({ main: 'dist/index.js' }) };
        files['/src/broken.ts'] = { text: 'export const = ;\n' };
        const defined = { 'a name of the module': S.eq(Z, C), 'an import': S.and(S.eq(Z, D), S.eq(E, B)), 'a member of a namespace': S.eq(Z, B), 'a codec of a package': S.and(S.eq(Z, D), S.eq(E, B)), 'a member of a package': S.eq(Z, B), 'a codec of io-ts': false }[kind] || false;
        const got = await cli(S, { files, resolve: finder(files), args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        if (S.is(defined)) S.check('a program with all names defined has a document', got.code === 0);
        else S.check('a program with an undefined name has no document', noDocument(S, got));
      },
    },
    {
      name: 'expressions that are not read',
      bounds: 'one of 32 expressions that no codec is read from, at one of the same places',
      labels: ['what cannot be read is documented as anything, if at all'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const place = S.pick('place', Object.keys(PLACES));
        const x = S.pick('expression', UNREAD);
        const run = (x) => cli(S, { files: { '/src/a.ts': { text: program(PLACES[place](x), "import { far } from './b';\nconst make = (x) => t.array(x), choose = (x) => (x ? t.string : t.number), ready = true, arrow = () => t.string;\nfunction named() { return t.string; }\ndeclare const declared: t.Mixed;\nlet later;\nclass Sub { static codec = t.string; }\n") }, '/src/b.ts': { text: 'export const far = (x) => x;\n' } }, resolve: finder({ '/src/b.ts': 1 }), args: { input: '/src/a.ts' } });
        const got = await run(x);
        S.observe('code', [place, x, got.code]);
        const none = noDocument(S, got);
        const any = none || (await run('t.any')).doc, string = none || !STRING.includes(x) ? any : (await run('t.string')).doc;
        S.check('what cannot be read is documented as anything, if at all', S.or(none, S.eq(got.doc, any), S.eq(got.doc, string)));
      },
    },
    {
      name: 'functions',
      bounds: 'a codec that a function without parameters returns, an expression or a block with statements of one of twenty kinds, local names and the returned name symbolic; the function of the module, imported, of a namespace or of a package, called at one of the same places',
      labels: ['what a function returns is documented as it is, if at all', 'a function that only returns is read'],
      cases: { quick: Object.keys(BODIES).map((body, j) => ({ body, places: [Object.keys(PLACES)[j % Object.keys(PLACES).length]] })), thorough: Object.keys(BODIES).map((body) => ({ body, places: Object.keys(PLACES) })) },
      async run(S, p) {
        const place = S.pick('place', p.places);
        const how = S.pick('how', ['of the module', 'imported', 'of a namespace', 'of a package']);
        const L = S.str('L', { min: 1, max: 1, alphabet: 'xyz' }), R = S.str('R', { min: 1, max: 1, alphabet: 'xyz' });
        const [body, local, plain, always] = BODIES[p.body];
        const mine = local !== null && S.is(S.eq(L, R));
        // the program compiles
        S.assume(S.or(mine, R !== 'z'));
        const def = `const x = t.literal('module x'), y = t.literal('module y'), ready = true;\nfunction log(a) {}\n`;
        const fn = `export const F = () => ${body};\n`;
        const files = {};
        const subst = { $L: L, $R: R };
        const use = how === 'of a namespace' ? 'K.F()' : 'F()';
        const extra = { 'of the module': def + fn, imported: "import { F } from './b';\nconst x = t.literal('wrong x'), y = t.literal('wrong y'), z = t.string;\n", 'of a namespace': "import * as K from './b';\n", 'of a package': "import { F } from '@p/a';\n" }[how];
        files['/src/a.ts'] = { text: program(PLACES[place](use), extra), subst };
        files['/src/b.ts'] = { text: HEAD + def + fn, subst };
        files['/src/node_modules/@p/a/package.json'] = { text: JSON.stringify({ source: 'src/index.ts' }) };
        files[path('A')] = files['/src/b.ts'];
        const got = await cli(S, { files, resolve: finder(files), args: { input: '/src/a.ts' } });
        S.observe('code', [place, got.code]);
        const none = noDocument(S, got);
        if (plain && how !== 'of a package') S.check('a function that only returns is read', got.code === 0);
        if (none) return;
        const returned = always !== undefined ? always : mine ? local : `module ${S.is(S.eq(R, 'x')) ? 'x' : 'y'}`;
        // the values that may be documented: the literals in the document
        const lits = [];
        const walk = (v) => { if (typeof v === 'string') { if (/^(module|local|wrong) ./.test(v)) lits.push(v); } else if (v !== null && typeof v === 'object') for (const k of Object.keys(v)) walk(v[k]); };
        walk(got.doc);
        S.check('what a function returns is documented as it is, if at all', lits.every((v) => v === returned));
        if (plain && how !== 'of a package') S.check('a function that only returns is read', lits.length > 0);
      },
    },
    {
      name: 'reads that fail',
      bounds: 'a program of five modules, a package of two and a file with custom codecs; any one of the reads and file tests fails with EIO or EACCES, or finds an empty or a broken file, once or from then on',
      labels: ['a failing read never changes the document', 'a file that is needed and cannot be read leaves no document'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const x = S.str('x', { min: 1, max: 1, alphabet: 'xy' }), y = S.str('y', { min: 1, max: 1, alphabet: 'xy' });
        const files = {
          '/src/package.json': { text: JSON.stringify({ name: 'project' }) },
          '/src/a.ts': { text: `${HEAD}import { Own } from './b';\nimport { Theirs, $X as Custom } from '@p/a';\nimport * as r from './r';\nexport const api = h.apiSpec({ k: r.routes });\n`, subst: { $X: x } },
          '/src/r.ts': { text: `${HEAD}import { Own } from './b';\nimport { Theirs, $X as Custom } from '@p/a';\nexport const routes = { get: h.httpRoute({ path: '/one', method: 'GET', request: h.httpRequest({}), response: { 200: Own, 201: Theirs, 202: Custom } }) };\n`, subst: { $X: x } },
          '/src/b.ts': { text: "export * from './c';\nexport * from './d';\n" },
          '/src/c.ts': { text: `${HEAD}export const Own = t.literal('own');\n` },
          '/src/d.ts': { text: `${HEAD}export const Other = t.literal('other');\nexport const Theirs = t.literal('not theirs');\n` },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ types: 'src/index.ts', customCodecFile: 'codecs.js' }) },
          '/src/node_modules/@p/a/codecs.js': { text: '' },
          [path('A')]: { text: `${HEAD}import { Inner } from './m';\nexport const Theirs = t.type({ i: Inner });\nexport const x = t.literal('declared x');\nexport const y = t.literal('declared y');\n` },
          [path('Am')]: { text: `${HEAD}export const Inner = t.literal('inner');\n` },
        };
        const modules = { '/src/node_modules/@p/a/codecs.js': { __esModule: true, default: (E) => { const o = {}; S.def(o, y, () => E.right({ type: 'string', enum: ['custom'] })); return o; } } };
        const reads = [];
        const run = (fault) => cli(S, { files, modules, resolve: finder(files), args: { input: '/src/a.ts' }, fault });
        const whole = await run((at, op) => { reads.push([at, op]); });
        if (process.env.DBG) S.observe('whole', [whole.code, whole.thrown && String(whole.thrown.stack), whole.printed]);
        S.check('a failing read never changes the document', whole.code === 0);
        const k = S.pick('which', Array.from({ length: 20 }, (_, i) => i));
        S.assume(k < reads.length && reads.length <= 20);
        const how = S.pick('how', ['EIO', 'EACCES', 'broken', 'empty']);
        const [at, op] = reads[k];
        const lasting = S.is(S.bool('lasting'));
        let i = 0;
        const got = await run((now) => ((lasting ? i++ < k || now !== at : i++ !== k) ? undefined : how === 'broken' ? { text: now.endsWith('.json') ? '{' : 'export const = ;\n' } : how === 'empty' ? { text: '' } : Object.assign(new Error(`${how}: ${now}`), { code: how })));
        S.observe('code', got.code);
        S.check('a failing read never changes the document', S.or(noDocument(S, got), S.and(got.code === 0, S.eq(got.doc, whole.doc))));
        if (!at.endsWith('d.ts') && (op === 'read' || how.startsWith('E')) && lasting && !reads.slice(0, k).some((r) => r[0] === at && r[1] === op)) S.check('a file that is needed and cannot be read leaves no document', noDocument(S, got));
      },
    },
    {
      name: 'routes that are not readable',
      bounds: 'a route of three whose path, method, request, responses or whole definition is left out or no constant, or a resource or a specification that is not',
      labels: ['a route that cannot be read leaves no document'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const part = S.pick('part', ['path', 'method', 'request', 'response', 'route', 'resource', 'specification']);
        const bad = S.pick('bad', ['left out', 'choice ? one : two', 'make(1)', '[]', '{}', "'x'", 'nope', 'one.nope']);
        const where = S.pick('where', [0, 1, 2]);
        const parts = { path: (i) => `path: '/p${i}'`, method: (i) => `method: '${['GET', 'POST', 'PUT'][i]}'`, request: () => 'request: h.httpRequest({})', response: () => 'response: { 200: t.string }' };
        // an empty object or a string is what some parts are
        S.assume(!(bad === "'x'" && ['path', 'method'].includes(part)) && !(bad === '{}' && ['request', 'response', 'resource', 'specification'].includes(part)) && !(bad === 'left out' && ['route', 'resource', 'specification'].includes(part)));
        const route = (i) => (part === 'route' && i === where ? bad : `h.httpRoute({ ${Object.keys(parts).map((k) => (k !== part || i !== where ? parts[k](i) : bad === 'left out' ? '' : `${k}: ${bad}`)).filter(Boolean).join(', ')} })`);
        const resource = (i) => (part === 'resource' && i === where ? bad : `{ ${['get', 'post', 'put'][i]}: ${route(i)} }`);
        const spec = (is) => (part === 'specification' && is.includes(where) ? bad : `{ ${is.map((i) => `k${i}: ${resource(i)}`).join(', ')} }`);
        const files = { '/src/a.ts': { text: `${HEAD}const choice = 1 > 0;\nconst one = { k: t.string }, two = t.number;\nconst make = (x) => x;\nexport const api = h.apiSpec(${spec([0, 1])});\nexport const other = h.apiSpec(${spec([2])});\n` } };
        const got = await cli(S, { files, resolve: finder(files), args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        S.check('a route that cannot be read leaves no document', noDocument(S, got));
      },
    },
    {
      name: 'definitions of codecs that fail',
      bounds: 'a file with custom codecs, given as an option, by the project or by a package, that is missing, has no default export, throws, or whose definition of the codec that is used or of another one is refused',
      labels: ['a custom definition that fails leaves no document', 'a definition that is not used does not matter'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const by = S.pick('by', ['option', 'project', 'package']);
        const how = S.pick('how', ['missing', 'no default', 'throws', 'refused']);
        const x = S.str('x', { min: 1, max: 1, alphabet: 'xy' }), y = S.str('y', { min: 1, max: 1, alphabet: 'xy' });
        const def = (E) => {
          if (how === 'throws') throw new Error('no definitions');
          const o = {};
          S.def(o, y, () => E.left('refused'));
          return by === 'package' ? o : { '@p/a': o };
        };
        const at = { option: '/opt/codecs.js', project: '/src/conf/codecs.js', package: '/src/node_modules/@p/a/codecs.js' }[by];
        const files = {
          '/src/package.json': { text: JSON.stringify(by === 'project' ? { 'openapi-generator': { 'codec-file': 'conf/codecs.js' } } : {}) },
          '/src/a.ts': { text: program(PLACES.response('K'), "import { $X as K } from '@p/a';\n"), subst: { $X: x } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify(Object.assign({ source: 'src/index.ts' }, by === 'package' ? { customCodecFile: 'codecs.js' } : {})) },
          [path('A')]: { text: `${HEAD}export const x = t.literal('x');\nexport const y = t.literal('y');\n` },
        };
        if (how !== 'missing') files[at] = { text: '' };
        const modules = { [at]: how === 'no default' ? { __esModule: true } : { __esModule: true, default: def } };
        if (how === 'missing') { delete modules[at]; S.stubMissing(at); }
        const got = await cli(S, { files, modules, resolve: finder(files), args: { input: '/src/a.ts', codecFile: by === 'option' ? at : undefined } });
        S.observe('code', got.code);
        if (how !== 'refused' || S.is(S.eq(x, y))) S.check('a custom definition that fails leaves no document', noDocument(S, got));
        else S.check('a definition that is not used does not matter', got.code === 0);
      },
    },
  ],
};
