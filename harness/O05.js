'use strict';
const { sources } = require('./lib/prog');
const { src } = require('./lib/oapi');
const { D, $, subst, isPackage, path, pkg, VALUE, print, oracle, legal, names, resolver } = require('./lib/modules');

const PROGRAMS = {
  'a declaration or an import': { a: D({ imports: [['K', 'L', 'b']], decls: ['M'] }), b: D({ decls: ['P', 'Q'], inline: ['P'] }) },
  'renamed exports': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['P', 'Q'], exports: [['R', 'P'], ['T', 'Q']] }) },
  'a default and a named import': { a: D({ imports: [['K', 'default', 'b'], ['L', 'M', 'b']] }), b: D({ decls: ['P', 'Q'], inline: ['P'], exports: [['default', 'Q']] }) },
  'default exports': { a: D({ imports: [['K', 'default', 'b'], ['L', 'M', 'b']] }), b: D({ decls: ['P', 'Q'], inline: ['P'], exports: [['default', 'R']] }) },
  'a default beside renamed exports': { a: D({ imports: [['K', 'default', 'b'], ['L', 'M', 'b']] }), b: D({ decls: ['P', 'Q'], exports: [['R', 'P'], ['default', 'Q']] }) },
  'three at once': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['P', 'Q', 'R'], inline: ['P', 'Q', 'R'] }) },
  're-exported imports': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ imports: [['P', 'Q', 'c']], decls: ['R'], exports: [['T', 'U']] }), c: D({ decls: ['V', 'W'], inline: ['V', 'W'] }) },
  're-exports': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['R'], inline: ['R'], re: [['T', 'U', 'c']] }), c: D({ decls: ['V', 'W'], inline: ['V', 'W'] }) },
  're-exports beside a local of the same name': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['R'], re: [['T', 'U', 'c'], ['X', 'U', 'd']] }), c: D({ decls: ['V'], inline: ['V'] }), d: D({ decls: ['W'], inline: ['W'] }) },
  're-exported defaults': { a: D({ imports: [['K', 'L', 'b'], ['M', 'default', 'b']] }), b: D({ re: [['T', 'default', 'c'], ['default', 'U', 'c']] }), c: D({ decls: ['V', 'W'], inline: ['V'], exports: [['default', 'W']] }) },
  'star exports': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['R'], inline: ['R'], stars: ['c', 'd'] }), c: D({ decls: ['V', 'W'], inline: ['V'] }), d: D({ decls: ['X'], inline: ['X'], exports: [['default', 'X']] }) },
  'star of star': { a: D({ imports: [['K', 'L', 'b'], ['M', 'default', 'b']] }), b: D({ stars: ['c'] }), c: D({ decls: ['R'], inline: ['R'], stars: ['d'] }), d: D({ decls: ['X'], inline: ['X'], exports: [['default', 'X']] }) },
  'modules that export each other': { a: D({ imports: [['K', 'L', 'b']] }), b: D({ decls: ['P'], inline: ['P'], stars: ['c'] }), c: D({ decls: ['R'], inline: ['R'], stars: ['b'] }) },
  'modules that import each other': { a: D({ imports: [['K', 'L', 'b']], decls: ['M'], inline: ['M'] }), b: D({ imports: [['P', 'Q', 'a']], decls: ['R'], inline: ['R'], exports: [['T', 'P']] }) },
  'packages': { a: D({ imports: [['K', 'L', 'A'], ['M', 'N', 'B']] }), A: D({ decls: ['P'], inline: ['P'], stars: ['Am'] }), Am: D({ decls: ['Q', 'R'], inline: ['Q'] }), B: D({ imports: [['S', 'T', 'A']], decls: ['U'], exports: [['V', 'U']] }) },
  'package defaults': { a: D({ imports: [['K', 'default', 'A'], ['M', 'N', 'A']], decls: ['O'] }), A: D({ re: [['default', 'P', 'Am']], stars: ['Am'] }), Am: D({ decls: ['Q', 'R'], inline: ['Q'], exports: [['default', 'R']] }) },
  'package namespaces': { a: D({ imports: [['K', '*', 'A'], ['L', 'M', 'B']], decls: ['N'] }), A: D({ decls: ['P', 'Q'], inline: ['P'], exports: [['R', 'Q']], stars: ['Am'] }), Am: D({ decls: ['V'], inline: ['V'] }), B: D({ decls: ['S'], inline: ['S'] }) },
  'namespaces': { a: D({ imports: [['K', '*', 'b'], ['L', 'M', 'c']], decls: ['N'] }), b: D({ decls: ['P', 'Q'], inline: ['P'], exports: [['R', 'Q']], stars: ['c'] }), c: D({ decls: ['V'], inline: ['V'] }) },
};
// ways to use a name, the declarations they need and what the use comes to
const str = (v) => ({ type: 'string', enum: [v] });
const obj = (v) => ({ type: 'object', properties: { k: str(v) }, required: ['k'] });
const USES = {
  argument: { text: (n) => `t.exact(${n})`, schema: str },
  'object spread': { text: (n) => `t.exact({ ...${n} })`, init: (v) => `{ k: ${v} }`, schema: obj },
  'array spread': { text: (n) => `t.union([...${n}, 'z'])`, init: (v) => `[${v}]`, schema: (v) => ({ type: 'union', schemas: [str(v), str('z')] }) },
  'computed key': { text: (n) => `t.exact({ [${n}]: 'z' })`, schema: (v) => ({ type: 'object', properties: { [v]: str('z') }, required: [v] }) },
  template: { text: (n) => `t.exact(\`<\${${n}}>\`)`, schema: (v) => str(`<${v}>`) },
  shorthand: { text: (n) => `t.exact({ ${n} })`, schema: (v, n) => ({ type: 'object', properties: { [n]: str(v) }, required: [n] }), plain: true },
};
async function setup(S, p) {
  const mods = PROGRAMS[p.k];
  const N = names(S, mods, p.letters);
  legal(S, mods, N);
  S.stub('resolve', resolver(mods));
  const packages = {};
  for (const f of Object.keys(mods)) if (isPackage(f)) packages[`/src/node_modules/${pkg(f)}/package.json`] = JSON.stringify(Object.assign({ main: 'dist/index.js' }, S.pick('field' + f, [{ source: 'src/index.ts' }, { typings: 'src/index.ts' }, { types: 'src/index.ts' }, { types: 'dist/index.d.ts', source: 'src/index.ts' }])));
  const fs = { readFileSync: (f) => packages[f], readFile() {}, existsSync: () => false };
  for (const at of ['fs', 'node:fs']) S.stub(at, Object.assign({ default: fs }, fs));
  const files = {};
  const name = S.str('name', { min: 1, max: 1, alphabet: p.letters });
  const ns = p.k.endsWith('namespaces') && S.is(S.bool('through a namespace'));
  const use = p.use ? `import * as t from 'io-ts';\nconst use = ${USES[p.use].text(ns ? `${$('K')}.${$('Z')}` : $('Z'))};\n` : '';
  // the values may be made of what each module declares by the same name
  const value = (v, f) => (p.own ? `\`\${own}${v.slice(f.length + 1)}\`` : `'${v}'`);
  const init = p.use && ((v, f) => (USES[p.use].init || ((x) => x))(value(v, f)));
  for (const f of Object.keys(mods)) files[path(f)] = { text: print(f, mods[f], init, (p.own ? `const own = 'v${f}';\n` : '') + (f === 'a' ? use : ''), !!p.together), subst: Object.assign(subst(N), f === 'a' ? { [$('Z')]: name } : {}) };
  const sf = await sources(S, files);
  const { Project } = src(S, 'project');
  const project = new Project(sf);
  const O = oracle(mods, N);
  const want = ns ? O.member('a', N.K, name) : O.local('a', name);
  S.assume(want !== 'ambiguous');
  return { mods, N, sf, project, name, ns, want, file: sf[path('a')] };
}
const isIt = (S, got, want) => S.and(got._tag === 'Right', got._tag === 'Right' && S.and(got.right[0].path === path(want.f), S.eq(got.right[1].value, VALUE(want.f, want.i))));
const EITHER = (c) => [c, Object.assign({ together: 1 }, c)];
const cases = () => ({ quick: Object.keys(PROGRAMS).flatMap((k) => EITHER({ k, letters: 'xyz' })), thorough: Object.keys(PROGRAMS).flatMap((k) => EITHER({ k, letters: 'wxyz' })) });
const USE_CASES = (letters, both) => Object.keys(PROGRAMS).flatMap((k, i) => Object.keys(USES).flatMap((use, j) => [0, 1].filter((own) => both || (i + j) % 2 === own).map((own) => ({ k, use, letters, own }))));
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['the program compiles: no name is declared or exported twice in a module, what is exported exists, no name is ambiguous'],
  scenarios: [
    {
      name: 'names across modules',
      bounds: 'eighteen forms of programs of 2-4 modules and packages with named, renamed, default, namespace and star imports and exports, cycles included; written in one statement each or together; every name any of three (thorough: four) letters',
      labels: ['a name means what it means in TypeScript', 'an unknown name is reported'],
      cases: cases(),
      async run(S, p) {
        const { project, file, N, name, ns, want } = await setup(S, p);
        const { findSymbolInitializer } = src(S, 'resolveInit');
        const got = findSymbolInitializer(project, file, ns ? [N.K, name] : name);
        S.observe('got', got._tag);
        if (want === null) S.check('an unknown name is reported', got._tag === 'Left');
        else S.check('a name means what it means in TypeScript', isIt(S, got, want));
      },
    },
    {
      name: 'uses of names',
      bounds: 'the same programs; the name used as an argument, in an object or array spread, as a computed key, in a template, as a shorthand property; its value given as it is or in terms of what its module declares',
      labels: ['a use has the value of the definition', 'an unknown codec is reported'],
      cases: { quick: USE_CASES('xyz'), thorough: USE_CASES('wxyz', true) },
      async run(S, p) {
        if (USES[p.use].plain && p.k.endsWith('namespaces')) S.assume(S.not(S.bool('through a namespace')));
        const { project, file, name, want } = await setup(S, p);
        const { parsePlainInitializer } = src(S, 'codec');
        const got = parsePlainInitializer(project, file, file.symbols.declarations.find((d) => d.name === 'use').init);
        S.observe('got', got._tag);
        if (want === null) S.check('an unknown codec is reported', got._tag === 'Left');
        else S.check('a use has the value of the definition', got._tag === 'Right' && S.eq(got.right, USES[p.use].schema(VALUE(want.f, want.i), name)));
      },
    },
  ],
};
