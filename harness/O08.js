'use strict';
const { sources } = require('./lib/prog');
const { src } = require('./lib/oapi');

// What may stand between two items: its text, and which of the comments in it documents what follows (the last doc comment)
const GAPS = {
  nothing: () => [' ', null],
  'doc': (m) => [` /** ${m} */ `, m],
  'adjacent doc': (m) => [`/** ${m} */`, m],
  'doc on its own lines': (m) => [`\n  /**\n   * ${m}\n   */\n  `, m],
  'doc on one line before': (m) => [`\n  /** ${m} */\n  `, m],
  'line comment': (m) => [` // ${m} * x\n  `, null],
  'block comment': (m) => [`\n  /*\n   * ${m}\n   */\n  `, null],
  'two docs': (m, k) => [`\n  /** ${k} */\n  /** ${m} */\n  `, m],
  'doc and line comment': (m) => [`\n  /** ${m} */\n  // eslint a * b\n  `, m],
  'line comment and doc': (m, k) => [` // ${k}\n\n  /** ${m} */\n  `, m],
  'block comment and doc': (m, k) => [`\n  /* ${k} * */\n  /** ${m} */\n  `, m],
  'doc behind a line comment': (m) => [`\n  // /** ${m} */\n  `, null],
  'wide doc': (m) => [`\n  /**\n   * ${m} 😀é€\n   */\n  `, m + ' 😀é€'],
};
const VALUES = { plain: 't.string', wide: "t.literal('é€😀')", object: 't.type({ z: t.string })', documented: 't.type({\n /** inner */\n z: t.string })', template: 't.literal(`😀`)' };
const MARK = [['~', '^'], ['#', '%'], ['&', '@']];
const text = (S, n) => S.str(n, { min: 1, max: 1, alphabet: 'a"/' });
// `sym`: whether its text is symbolic
function gap(S, i, kinds, subst, sym) {
  const [a, b] = MARK[i];
  const kind = S.pick('g' + i, kinds);
  const [txt, doc] = GAPS[kind](a, b);
  if (txt.includes(a)) subst[a] = sym ? text(S, 'm' + i) : 'm';
  if (txt.includes(b)) subst[b] = sym ? text(S, 'k' + i) : 'k';
  // with the symbolic text
  return { txt, doc: doc === null ? undefined : doc === a ? subst[a] : subst[a] + doc.slice(1) };
}
const descr = (c) => (c === undefined ? undefined : c.description);
const KINDS = Object.keys(GAPS);
const SOME = ['nothing', 'doc', 'adjacent doc', 'line comment', 'two docs', 'wide doc'];
const PROPS = {
  keyed: (n, v) => `${n}: ${v}`, quoted: (n, v) => `'${n}': ${v}`, computed: (n, v) => `[key${n}]: ${v}`, shorthand: (n) => n, spread: (n) => `...s${n}`,
};
const BEFORE = { 'a first declaration': '', 'after an import': "/** of the file */\nimport * as t from 'io-ts';", 'after a wide constant': "/** of w */ const w = 'é😀';", 'after a function': '/** of f */ function f() { /** inside */ return 1; }', 'after a type': '/** of T */ type T = { /** inside */ x: string };', 'after a call': '/** of the call */ f();', 'after an export': "/** of the export */ export { y } from './y';", 'after a class': '/** of C */ class C { /** inside */ m() {} }' };
const DECLS = { const: 'const X = 1;', exported: 'export const X = 1;', enum: "enum X { A = 'a' }", 'exported enum': "export enum X { A = 'a' }", 'two names': 'const X = 1, Y = 2;' };
async function program(S, bom, body, subst) {
  const sf = await sources(S, { '/other.ts': { text: '/** 😀 */\nconst other = 1;\n' }, '/types.ts': { text: (bom ? '\uFEFF' : '') + body, subst } });
  return sf['/types.ts'];
}
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['a documentation comment is a block comment opened by /**; the last one before a declaration or property documents it'],
  scenarios: [
    {
      name: 'properties',
      bounds: 'objects of three properties (keyed, quoted, computed, shorthand, spread), with any of thirteen forms of comments (none, one, two; one line or more; documentation, line and block comments; non-ASCII text) before each of two of them, values with non-ASCII literals and with comments of their own; comment text symbolic',
      labels: ['a property has its own comment', 'the file is read'],
      cases: { quick: [['keyed', 'keyed', 0], ['quoted', 'keyed', 1], ['computed', 'shorthand', 2], ['shorthand', 'spread', 1], ['spread', 'keyed', 2], ['keyed', 'spread', 2], ['shorthand', 'computed', 2]].map(([p0, p1, s]) => ({ p0, p1, s })), thorough: Object.keys(PROPS).flatMap((p0) => Object.keys(PROPS).flatMap((p1) => [0, 1, 2].map((s) => ({ p0, p1, s, all: 1 })))) },
      async run(S, p) {
        const subst = {};
        const forms = [p.p0, p.p1, 'keyed'];
        const v = S.pick('value', Object.keys(VALUES));
        const gs = [gap(S, 0, p.all ? KINDS : SOME, subst, p.s === 0), gap(S, 1, p.all ? KINDS : ['nothing', 'doc', 'line comment'], subst, p.s === 1), gap(S, 2, p.all ? ['doc', 'nothing'] : KINDS, subst, p.s === 2)];
        const names = ['a', 'b', 'c'];
        const sep = S.pick('separator', [',', ' ,']);
        const items = names.map((n, i) => gs[i].txt + PROPS[forms[i]](n, i === 0 ? VALUES[v] : 't.number')).join(sep);
        const body = `import * as t from 'io-ts';\nconst w = 'é😀';\nconst keya = 'a', keyb = 'b', a = t.null, b = t.null;\nconst sa = { a: t.null };\nconst sb = { /** spread */ b: t.null };\nconst X = t.type({${items} });\n`;
        const file = await program(S, false, body, subst);
        const { Project } = src(S, 'project');
        const { parsePlainInitializer } = src(S, 'codec');
        const got = parsePlainInitializer(new Project({ '/types.ts': file }), file, file.symbols.declarations.find((d) => d.name === 'X').init);
        S.check('the file is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const props = got.right.properties;
        S.observe('comments', names.map((n) => descr(props[n].comment)));
        names.forEach((n, i) => {
          const want = forms[i] !== 'spread' ? gs[i].doc : n === 'b' ? 'spread' : undefined;
          S.check('a property has its own comment', want === undefined ? props[n].comment === undefined : S.and(props[n].comment !== undefined, props[n].comment !== undefined && S.eq(descr(props[n].comment), want)));
        });
        if (v === 'documented' && (p.p0 === 'keyed' || p.p0 === 'quoted' || p.p0 === 'computed')) S.check('a property has its own comment', descr(props.a.properties.z.comment) === 'inner');
      },
    },
    {
      name: 'declarations',
      bounds: 'a constant, an enumeration, exported or not, or two constants in one statement, first in the file or after an import, constant, function, type, call, export or class, with comments of its own; any of the comment forms before and after; with and without a byte order mark',
      labels: ['a declaration has its own comment'],
      cases: { quick: Object.keys(BEFORE).flatMap((b) => Object.keys(DECLS).map((d) => ({ b, d }))), thorough: Object.keys(BEFORE).flatMap((b) => Object.keys(DECLS).map((d) => ({ b, d, all: 1 }))) },
      async run(S, p) {
        const subst = {};
        const bom = S.is(S.bool('byte order mark'));
        const g0 = gap(S, 0, KINDS, subst, true), g1 = gap(S, 1, p.all ? KINDS : ['nothing', 'doc', 'adjacent doc'], subst, false);
        const file = await program(S, bom, `${BEFORE[p.b]}${g0.txt}${DECLS[p.d]}${g1.txt}const Z = 3;\n`, subst);
        for (const d of file.symbols.declarations) {
          if (d.name === 'w') continue;
          const want = d.name === 'Z' ? g1.doc : g0.doc;
          S.check('a declaration has its own comment', want === undefined ? d.comment === undefined : S.and(d.comment !== undefined, d.comment !== undefined && S.eq(descr(d.comment), want)));
        }
        S.observe('n', file.symbols.declarations.length);
      },
    },
    {
      name: 'members of enumerations',
      bounds: 'an enumeration of two members, any of the comment forms before each, member names plain or quoted',
      labels: ['a member has its own comment', 'the file is read'],
      cases: { quick: [{ q: false, s: 0 }, { q: true, s: 1 }], thorough: [{ q: false, s: 0 }, { q: true, s: 0 }, { q: false, s: 1 }, { q: true, s: 1 }] },
      async run(S, p) {
        const subst = {};
        const g0 = gap(S, 0, KINDS, subst, p.s === 0), g1 = gap(S, 1, KINDS, subst, p.s === 1);
        const n = p.q ? ["'A'", "'B'"] : ['A', 'B'];
        const file = await program(S, false, `/** of E */ enum E {${g0.txt}${n[0]} = 'é😀',${g1.txt}${n[1]} = 'b' }\nconst X = E;\n`, subst);
        const { Project } = src(S, 'project');
        const { parsePlainInitializer } = src(S, 'codec');
        const got = parsePlainInitializer(new Project({ '/types.ts': file }), file, file.symbols.declarations[0].init);
        S.check('the file is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const props = got.right.properties;
        S.observe('comments', [descr(props.A.comment), descr(props.B.comment)]);
        [['A', g0], ['B', g1]].forEach(([k, g]) => S.check('a member has its own comment', g.doc === undefined ? props[k].comment === undefined : S.and(props[k].comment !== undefined, props[k].comment !== undefined && S.eq(descr(props[k].comment), g.doc))));
      },
    },
  ],
};
