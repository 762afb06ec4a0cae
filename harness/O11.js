'use strict';
const { resolver, path } = require('./lib/modules');
const { cli } = require('./lib/cli');
const { src } = require('./lib/oapi');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const route = (id, res = 't.string') => `{ get: h.httpRoute({ path: '/${id}', method: 'GET', request: h.httpRequest({}), response: { 200: ${res} } }) }`;
const schemaOf = (doc, id) => doc.paths['/' + id].get.responses[200].content['application/json'].schema;
const E = (S) => S.load('fp-ts/Either');
const BY = ['option', 'project', 'package', 'option and package', 'project and option', 'project and package'];
const MODS = { a: {}, A: {}, B: {} };
const withCodecs = (mods, extra) => { const r = resolver(mods); return { sync: (q, o) => (q in extra ? extra[q] : r.sync(q, o)) }; };
module.exports = {
  keepNative: ['@swc/core', 'cmd-ts'],
  assumptions: ['the program compiles'],
  scenarios: [
    {
      name: 'custom codecs',
      bounds: 'a codec of a package, imported by name, under another name or through a namespace; definitions given by option, in the project, in the package or in both, for any name; built-in codecs of the same and of other packages beside it',
      labels: ['a custom codec is documented as defined', 'a codec without a custom definition is documented as declared', 'built-in codecs are kept', 'a document is written'],
      cases: { quick: BY.flatMap((by) => ['named', 'star'].map((how) => ({ by, how }))), thorough: BY.flatMap((by) => ['named', 'star'].map((how) => ({ by, how }))) },
      async run(S, p) {
        const name = S.str('name', { min: 1, max: 1, alphabet: 'xy' });
        const defined = S.str('defined', { min: 1, max: 1, alphabet: 'xy' });
        const builtin = S.is(S.bool('extends a built-in package'));
        const def = (v) => () => E(S).right({ type: 'string', enum: [v] });
        const own = () => { const o = {}; S.def(o, defined, def('own')); return o; };
        const given = (v) => () => { const o = { '@p/a': {} }; S.def(o['@p/a'], defined, def(v)); if (builtin) o['io-ts'] = { custom: def('io') }; return o; };
        const use = p.how === 'star' ? 'K.$Z' : 'K';
        const files = {
          '/src/package.json': { text: JSON.stringify(p.by.includes('project') ? { 'openapi-generator': { 'codec-file': 'conf/codecs.js' } } : {}) },
          [path('a')]: { text: `${HEAD}import ${p.how === 'star' ? '* as K' : '{ $Z as K }'} from '@p/a';\nexport const api = h.apiSpec({ k: ${route('one', use)}, l: ${route('two', 't.number')}, m: ${route('three', "t.record(t.string, t.boolean)")} });\n`, subst: { $Z: name } },
          '/src/node_modules/@p/a/package.json': { text: JSON.stringify(Object.assign({ source: 'src/index.ts' }, p.by.includes('package') ? { customCodecFile: 'codecs.js' } : {})) },
          [path('A')]: { text: "import * as t from 'io-ts';\nexport const x = t.literal('declared x');\nexport const y = t.literal('declared y');\n" },
        };
        const modules = { '/src/conf/codecs.js': { __esModule: true, default: given('project') }, '/opt/codecs.js': { __esModule: true, default: given('option') }, '/src/node_modules/@p/a/codecs.js': { __esModule: true, default: own } };
        const got = await cli(S, { files, modules, resolve: withCodecs(MODS, { '@p/a/codecs.js': '/src/node_modules/@p/a/codecs.js' }), args: { input: path('a'), codecFile: p.by.includes('option') ? '/opt/codecs.js' : undefined } });
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        const { doc } = got;
        const one = schemaOf(doc, 'one');
        if (name === defined) S.check('a custom codec is documented as defined', S.eq(one, { type: 'string', enum: [p.by.includes('option') ? 'option' : p.by.includes('project') ? 'project' : 'own'] }));
        else S.check('a codec without a custom definition is documented as declared', S.and(S.eq(one.$ref, '#/components/schemas/' + name), S.eq(doc.components.schemas[name], { title: name, type: 'string', enum: ['declared ' + name] })));
        S.check('built-in codecs are kept', S.and(S.eq(schemaOf(doc, 'two'), { type: 'number' }), S.eq(schemaOf(doc, 'three'), { type: 'object', additionalProperties: { type: 'boolean' } })));
      },
    },
    {
      name: 'whose custom codec',
      bounds: 'codecs of one name imported from two of six modules: a package, another, one of a scope, a part of it, a module of the program in two directories; a custom definition for one or two of the packages, given by option or in the package itself',
      labels: ['a custom codec is documented as defined', 'a codec without a custom definition is documented as declared', 'a document is written'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const SPECS = ['a', 'ab', '@p/a', '@p/a/part', './b', './deep/b'];
        const name = S.str('name', { min: 1, max: 1, alphabet: 'xy' });
        const one = S.pick('one', [0, 1, 2, 3, 4, 5]), two = S.pick('two', [0, 1, 2, 3, 4, 5]);
        S.assume(one < two);
        const by = S.pick('by', ['option', 'package']);
        const keys = S.pick('defined for, by ' + by, by === 'option' ? [['a'], ['@p/a'], ['@p/a/part'], ['ab', '@p/a'], ['@p']] : [['a'], ['@p/a'], ['@p/a/part'], ['ab', '@p/a']]);
        const files = { '/src/a.ts': { text: `${HEAD}import { $Z as K } from '${SPECS[one]}';\nimport { $Z as L } from '${SPECS[two]}';\nexport const api = h.apiSpec({ k: ${route('one', 'K')}, l: ${route('two', 'L')} });\n`, subst: { $Z: name } } };
        const def = (v) => () => E(S).right({ type: 'string', enum: ['custom ' + v] });
        const own = (v) => { const o = {}; S.def(o, name, def(v)); return o; };
        const modules = { '/opt/codecs.js': { __esModule: true, default: () => Object.fromEntries(keys.map((k) => [k, own(k)])) } };
        for (const q of SPECS) {
          const at = q[0] === '.' ? `/src/${q.slice(2)}.ts` : `/src/node_modules/${q}/src/index.ts`;
          files[at] = { text: `import * as t from 'io-ts';\nexport const $Z = t.literal('${q}');\n`, subst: { $Z: name } };
          if (q[0] === '.') continue;
          const mine = by === 'package' && keys.includes(q);
          files[`/src/node_modules/${q}/package.json`] = { text: JSON.stringify(Object.assign({ source: 'src/index.ts' }, mine ? { customCodecFile: 'codecs.js' } : {})) };
          if (mine) modules[`/src/node_modules/${q}/codecs.js`] = { __esModule: true, default: () => own(q) };
        }
        const resolve = { sync(q, o) {
          const base = q[0] === '.' ? `${o.basedir}/${q.slice(2)}` : `/src/node_modules/${q}`;
          for (const f of [base, base + '.ts']) if (f in files || f in modules) return f;
          throw new Error(`Cannot find module '${q}' from '${o.basedir}'`);
        } };
        const got = await cli(S, { files, modules, resolve, args: { input: '/src/a.ts', codecFile: by === 'option' ? '/opt/codecs.js' : undefined } });
        S.observe('code', got.code);
        S.check('a document is written', got.code === 0);
        if (got.code !== 0) return;
        for (const [id, q] of [['one', SPECS[one]], ['two', SPECS[two]]]) {
          const s = schemaOf(got.doc, id);
          if (keys.includes(q)) S.check('a custom codec is documented as defined', S.eq(s, { type: 'string', enum: ['custom ' + q] }));
          else S.check('a codec without a custom definition is documented as declared', S.and(typeof s.$ref === 'string', S.eq(got.doc.components.schemas[String(s.$ref).slice(21)].enum, [q])));
        }
      },
    },
    {
      name: 'information',
      bounds: 'name, version and description given as options, in the package.json nearest to the file, or not at all; any string',
      labels: ['the information of the document is that given'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const want = {};
        const args = { input: '/src/deep/a.ts' };
        const pkg = {};
        const where = S.pick('package.json', ['beside', 'above', 'none']);
        const dflt = { name: 'openapi-generator', version: '0.0.1' };
        for (const k of ['name', 'version', 'description']) {
          const from = S.pick(k + '.from', ['option', 'package', 'both', 'none']);
          const o = S.str(k + '.option', { min: 0, max: 1, alphabet: 'ab' }), q = S.str(k + '.package', { min: 0, max: 1, alphabet: 'ab' });
          if (from === 'option' || from === 'both') args[k] = o;
          if (from === 'package' || from === 'both') pkg[k] = q;
          want[k] = k in args ? o : k in pkg && where !== 'none' ? q : k === 'description' ? `API spec for ${want.name}` : dflt[k];
        }
        const files = { '/src/deep/a.ts': { text: `${HEAD}export const api = h.apiSpec({ k: ${route('one')} });\n` } };
        if (where !== 'none') files[where === 'beside' ? '/src/deep/package.json' : '/src/package.json'] = { text: JSON.stringify(pkg) };
        const got = await cli(S, { files, resolve: resolver({}), args });
        S.observe('info', got.doc && got.doc.info);
        S.check('the information of the document is that given', S.and(got.code === 0, got.code === 0 && S.eq(got.doc.info, { title: want.name, version: want.version, description: want.description })));
      },
    },
    {
      name: 'arguments',
      bounds: 'the file and any of the options, each in its long form with a space or an equals sign or in its short form, before or after the file; two programs, with and without a package.json',
      labels: ['every argument has its meaning', 'a command line without a file or with an unknown option is refused'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const args = [], want = {};
        const OPTIONS = { name: 'n', version: 'v', description: 'd', 'codec-file': 'c' };
        const values = { name: ['the name', '-x'], version: ['1.2.3'], description: ['a=b c'], 'codec-file': ['/opt/codecs.js'] };
        const at = S.pick('file', ['first', 'last', 'between', 'none']);
        if (at === 'first') args.push('/src/a.ts');
        for (const k of Object.keys(OPTIONS)) {
          if (k === 'description' && at === 'between') args.push('/src/a.ts');
          const form = S.pick(k, ['none', 'long', 'equals', 'short']);
          if (form === 'none') continue;
          const v = k === 'name' && at === 'first' && form === 'equals' ? S.pick('value', values[k]) : values[k][0];
          want[k] = v;
          args.push(...(form === 'equals' ? [`--${k}=${v}`] : [form === 'short' ? '-' + OPTIONS[k] : '--' + k, v]));
        }
        if (at === 'last') args.push('/src/a.ts');
        const unknown = S.is(S.bool('unknown'));
        if (unknown) args.push('--title', 'x');
        const files = { '/src/a.ts': { text: `${HEAD}import { Own } from '@p/a';\nexport const api = h.apiSpec({ k: ${route('one', 'Own')} });\n` }, '/src/node_modules/@p/a/package.json': { text: '{ "source": "src/index.ts" }' }, [path('A')]: { text: "import * as t from 'io-ts';\nexport const Own = t.string;\n" } };
        const pkg = S.is(S.bool('package'));
        if (pkg) files['/src/package.json'] = { text: '{ "name": "pkg", "version": "9.9.9" }' };
        const modules = { '/opt/codecs.js': { __esModule: true, default: (e) => ({ '@p/a': { Own: () => e.right({ type: 'boolean' }) } }) } };
        const got = await cli(S, { files, modules, resolve: resolver(MODS), args });
        S.observe('code', got.code);
        if (at === 'none' || unknown) { S.check('a command line without a file or with an unknown option is refused', S.and(got.code !== 0, got.doc === undefined)); return; }
        const name = want.name !== undefined ? want.name : pkg ? 'pkg' : 'openapi-generator';
        const info = { title: name, version: want.version || (pkg ? '9.9.9' : '0.0.1'), description: want.description || `API spec for ${name}` };
        S.check('every argument has its meaning', S.and(got.code === 0, got.code === 0 && S.and(S.eq(got.doc.info, info), (schemaOf(got.doc, 'one').type === 'boolean') === ('codec-file' in want))));
      },
    },
    {
      name: 'specifications of a file',
      bounds: 'up to three specifications in a file, made by apiSpec imported by name, under another name or through a namespace, exported or not, beside calls of functions of the same names from elsewhere and of other functions, and other declarations; with or without a server',
      labels: ['the routes are those of all specifications', 'the servers are those of the specifications', 'a file without a specification is refused'],
      cases: { quick: [1, 2, 3].map((n) => ({ n })), thorough: [1, 2, 3].map((n) => ({ n })) },
      async run(S, p) {
        const ids = [], servers = [];
        let text = HEAD + "import { apiSpec, apiSpec as make, httpRoute as pack } from '@api-ts/io-ts-http';\nimport { apiSpec as other } from './b';\nimport * as o from './b';\n";
        const subst = {};
        if (p.n === 1) text += S.pick('beside', ["const lazy = import('./b');", 'let nothing;', 'export const none = o.apiSpec();', 'const made = (0, o.apiSpec)({});', 'class Sub extends o.Base { constructor() { super(); } }', 'enum Mode { a, b }', "const called = make.call(null, {}), n = 1;", "export default { made: 1 };", 'const { apiSpec: own } = o;', 'type apiSpecs = string;']) + '\n';
        for (let i = 0; i < p.n; i++) {
          const few = p.n === 3;
          const fn = S.pick('fn' + i, few ? ['h.apiSpec', 'make', 'other', 'pack'] : ['h.apiSpec', 'apiSpec', 'make', 'other', 'o.apiSpec', 'h.httpRoute2', 'pack']);
          const isSpec = ['h.apiSpec', 'apiSpec', 'make'].includes(fn);
          const server = S.pick('server' + i, few ? ['none', 'both'] : p.n === 2 ? ['none', 'text', 'url'] : ['none', 'text', 'url', 'both']);
          const url = p.n > 1 ? ['/api/v1', '{server}/api', 'https://x.example/{v}'][i] : server === 'none' || server === 'text' ? '' : S.pick('url' + i, ['/api/v1', 'https://x.example/{v}', '{server}/api', '{server}', '{a}/{b}', '[x]/y', '/v1 ', '/v1 text']);
          const lines = [];
          if (server === 'text' || server === 'both') lines.push(' * The server ' + i);
          if (server === 'url' || server === 'both') lines.push(' * @url ' + url);
          if (lines.length > 0) text += `/**\n${lines.join('\n')}\n */\n`;
          text += `${(p.n < 3 ? S.is(S.bool('exported' + i)) : i === 1) ? 'export ' : ''}const api${i} = ${fn}({ k${i}: ${route('p' + i)} });\n`;
          if (!isSpec) continue;
          ids.push('/p' + i);
          if (server === 'url' || server === 'both') servers.push({ url: url.split(' ')[0], description: server === 'both' ? 'The server ' + i : '' });
        }
        const got = await cli(S, { files: { '/src/a.ts': { text, subst }, '/src/b.ts': { text: 'export const apiSpec = (x) => x;\n' } }, resolve: resolver({ b: {} }), args: { input: '/src/a.ts' } });
        S.observe('code', got.code);
        if (ids.length === 0) { S.check('a file without a specification is refused', got.code === 1); return; }
        S.check('the routes are those of all specifications', S.and(got.code === 0, got.code === 0 && S.eq(Object.keys(got.doc.paths), ids)));
        if (got.code !== 0) return;
        const plain = (x) => (x.description === '' || x.description === undefined ? { url: x.url } : { url: x.url, description: x.description });
        S.check('the servers are those of the specifications', S.eq((got.doc.servers || []).map(plain), servers.map(plain)));
      },
    },
    {
      name: 'several projects',
      bounds: 'two projects in one process, the package of the first with definitions of its own',
      labels: ['a project has the definitions of its own packages only'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const modules = { '/src/node_modules/@p/a/codecs.js': { __esModule: true, default: (e) => ({ x: () => e.right({ type: 'string' }) }) } };
        const files = { '/src/a.ts': { text: "import { x } from '@p/a';\n" }, '/src/node_modules/@p/a/package.json': { text: JSON.stringify({ source: 'src/index.ts', customCodecFile: 'codecs.js' }) }, [path('A')]: { text: 'export const x = 1;\n' } };
        const explicit = S.is(S.bool('explicit'));
        await cli(S, { files, modules, resolve: withCodecs(MODS, { '@p/a/codecs.js': '/src/node_modules/@p/a/codecs.js' }), args: { input: '/src/a.ts' } });
        const { Project } = src(S, 'project');
        const { KNOWN_IMPORTS } = src(S, 'knownImports');
        const other = explicit ? new Project({}, KNOWN_IMPORTS) : new Project();
        S.check('a project has the definitions of its own packages only', S.and(other.resolveKnownImport('@p/a', 'x') === undefined, other.resolveKnownImport('io-ts', 'string') !== undefined));
      },
    },
  ],
};
