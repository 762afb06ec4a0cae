'use strict';
const { sources } = require('./lib/prog');
const { src } = require('./lib/oapi');
const { accepts } = require('./lib/ir');
const { expr, ALL } = require('./lib/codecprog');

const M = ['number', 'null', 'undefined', 'slit', 'ref'];
const N = ['number', 'undefined', 'slit'];
const Q = ['null', 'undefined', 'slit'];
const OPT = { optional: Q };
const SHAPES = [
  ALL, 'unknown', { type: [ALL, ['slit', 'undefined']] }, { partial: [M, Q] }, { strict: [Q, Q] }, { exact: [Q, N] }, { exactp: [N, Q] }, { optionalized: [{ optional: ALL }, ['slit']] }, { optionalized: [{ optional: Q }, Q] }, { optionalized: [{ union: [Q, Q] }, OPT] },
  { array: ALL }, { rarray: M }, { rec: ['slit', 'ref'] }, { rec: N }, { reck: N }, { union: [ALL, M] }, { union: [M, N, N] }, { union: [{ type: [M] }, { partial: [N] }] }, { union: [{ array: M }, 'unknown'] },
  { inter: [{ type: [Q] }, { partial: [N], keys: ['b'] }] }, { inter: [{ type: [N] }, 'ref'] }, { inter: [{ type: [{ union: [Q, N] }] }, { type: [Q] }] },
  { type: [{ array: { type: [N] } }] }, { type: [{ partial: [M] }] }, { type: [{ union: [{ type: [N] }, 'null'] }] }, { array: { union: [M, N] } }, { rec: { type: [N] } }, { rec: { union: [['null', 'undefined'], ['slit', 'undefined']] } },
];
const DEEP = [{ union: [ALL, ALL, ALL] }, { type: [{ union: [ALL, M] }, { union: [M, M] }] }, { inter: [{ type: [ALL] }, { partial: [ALL], keys: ['b'] }] }, { inter: [{ union: [{ type: [N] }, { type: [M], keys: ['b'] }] }, { partial: [M], keys: ['b'] }] },
  { array: { array: M } }, { reck: { union: [M, N] } }, { optionalized: [{ optional: { type: [M] } }, { union: [M, N] }] }, { union: [{ inter: [{ type: [N] }, { partial: [M], keys: ['b'] }] }, M] }];
const hasRef = (x) => JSON.stringify(x).includes('ref');
const depth = (x) => (typeof x === 'string' || Array.isArray(x) ? (hasRef(x) ? 1 : 0) : Object.keys(x).filter((k) => k !== 'keys').reduce((d, k) => Math.max(d, (['union', 'inter', 'optional'].includes(k) ? 0 : 1) + Math.max(...(Array.isArray(x[k]) && !['array', 'rarray', 'rec', 'reck', 'optional'].includes(k) ? x[k] : [x[k]]).map(depth))), 0));

const WRAPS = ['inline', 'const', 'as const', 'alias', 'function', 'returning', 'assign', 'exact'];
const MARK = [['Q', 'W'], ['Y', 'Z'], ['U', 'V']];
const lit = (n) => ({ type: 'number', enum: [n] });
function item(S, name, [m, m2], subst, decls) {
  const kind = S.pick(name, ['plain', 'quoted', 'computed', 'member', 'shorthand', 'spread', 'spread2', 'nested spread']);
  const n = Number(name.slice(1)) * 10;
  const k = S.str(name + '.k', { min: 1, max: 1, alphabet: 'xyz' });
  subst[m] = k;
  const c = 'k' + name;
  const add = [[k, lit(n)]];
  if (kind === 'plain') return { text: `${m}: t.literal(${n})`, add };
  if (kind === 'quoted') return { text: `'${m}': t.literal(${n})`, add };
  if (kind === 'computed') { decls.push(`const ${c} = '${m}';`); return { text: `[${c}]: t.literal(${n})`, add }; }
  if (kind === 'member') { decls.push(`const ${c} = { p: '${m}' } as const;`); return { text: `[${c}.p]: t.literal(${n})`, add }; }
  if (kind === 'shorthand') { decls.push(`const s${name} = t.literal(${n});`); return { text: `s${name}`, add: [['s' + name, lit(n)]] }; }
  if (kind === 'spread') { decls.push(`const ${c} = { '${m}': t.literal(${n}) };`); return { text: `...${c}`, add, spread: true }; }
  const k2 = S.str(name + '.k2', { min: 1, max: 1, alphabet: 'xyz' });
  subst[m2] = k2;
  S.assume(S.not(S.eq(k, k2)));
  if (kind === 'spread2') { decls.push(`const ${c} = { '${m}': t.literal(${n}), '${m2}': t.literal(${n + 1}) };`); return { text: `...${c}`, add: [[k, lit(n)], [k2, lit(n + 1)]], spread: true }; }
  decls.push(`const n${c} = { '${m2}': t.literal(${n + 1}) };`, `const ${c} = { '${m}': t.literal(${n}), ...n${c} };`);
  return { text: `...${c}`, add: [[k, lit(n)], [k2, lit(n + 1)]], spread: true };
}
// ways of writing a literal: their text, with the marker ~ for the symbolic letter, and its value
const SPELLED = {
  single: ["'~'", (c) => c], double: ['"~"', (c) => c], escaped: ["'\\t~\\n'", (c) => '\t' + c + '\n'], quotes: ["'\\'~\\\\'", (c) => "'" + c + '\\'], 'code points': ["'\\u{41}~\\x42\\u0043'", (c) => 'A' + c + 'BC'],
  template: ['`~`', (c) => c], 'escaped template': ['`\\t~\\n`', (c) => '\t' + c + '\n'], 'template code points': ['`\\u{41}~\\x42`', (c) => 'A' + c + 'B'], 'template quotes': ['`\\`~\\${x}`', (c) => '`' + c + '${x}'],
  'one constant': ['`<${C}>~`', (c, d) => '<' + d + '>' + c], 'two constants': ['`${C}~${C}`', (c, d) => d + c + d], 'adjacent constants': ['`${C}${D.e}`', (c, d) => d + c], 'template in a template': ['`a${`~${C}`}b`', (c, d) => 'a' + c + d + 'b'], 'escapes around constants': ['`\\n${C}\\\\${C}\\t`', (c, d) => '\n' + d + '\\' + d + '\t'],
  member: ['D.e', (c) => c], 'with as const': ["'~' as const", (c) => c], 'with a type': ["'~' as 'a' | 'b'", (c) => c],
  decimal: ['1.50', () => 1.5], hexadecimal: ['0x1F', () => 31], exponent: ['2e3', () => 2000], separated: ['1_000', () => 1000], zero: ['0', () => 0], true: ['true', () => true], false: ['false', () => false],
};
const AT = {
  literal: { text: (l) => `t.literal(${l})`, schema: (v) => ({ type: typeof v, enum: [v] }) },
  'constant key': { text: () => 't.type({ [L]: t.number })', decl: (l) => `const L = ${l};`, schema: (v) => ({ type: 'object', properties: { [v]: { type: 'number', primitive: true } }, required: [String(v)] }), string: true },
  'enumerated keys': { text: () => 't.keyof({ [L]: null, z: 1 })', decl: (l) => `const L = ${l};`, schema: (v) => ({ type: 'union', schemas: [{ type: 'string', enum: [String(v)] }, { type: 'string', enum: ['z'] }] }), string: true },
  constant: { text: () => 't.literal(L)', decl: (l) => `const L = ${l};`, schema: (v) => ({ type: typeof v, enum: [v] }) },
};
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['a property whose codec accepts everything is documented as required although its absence is accepted'],
  scenarios: [
    {
      name: 'codec expressions',
      bounds: 'codec expressions of the listed shapes (nesting up to 3), every leaf any of the listed kinds, string literals and keys symbolic; JSON values nested up to 2 over two or three property names',
      labels: ['the schema describes what the codec accepts'],
      cases: { quick: SHAPES.map((shape) => ({ shape })), thorough: [...SHAPES, ...DEEP].map((shape) => ({ shape })) },
      async run(S, p) {
        const t = S.load('io-ts'), h = S.load('@api-ts/io-ts-http');
        const subst = {};
        const env = { t, h, subst, R: t.type({ r: t.number }) };
        const x = expr(S, env, 'x', p.shape);
        const sf = await sources(S, { '/types.ts': { text: `import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nconst R = t.type({ r: t.number });\nexport const X = ${x.text};\n`, subst } });
        const { Project } = src(S, 'project');
        const { parseCodecInitializer } = src(S, 'codec');
        const file = sf['/types.ts'];
        const got = parseCodecInitializer(new Project(sf), file, file.symbols.declarations[1].init);
        S.observe('schema', got._tag);
        if (got._tag !== 'Right') { S.check('the schema describes what the codec accepts', false); return; }
        const keys = (/"rec".*ref/.test(JSON.stringify(p.shape)) ? ['a'] : ['a', 'b']).concat(hasRef(p.shape) ? ['r'] : []);
        const v = S.any('v', { depth: Math.min(2, Math.max(1, depth(p.shape))), keys, kinds: ['null', 'boolean', 'number', 'string', 'array', 'object'], arr: 1, int: [0, 2], str: { min: 0, max: 1, alphabet: 'abc' } });
        S.check('the schema describes what the codec accepts', accepts(got.right, v, true) === (x.codec.decode(v)._tag === 'Right'));
      },
    },
    {
      name: 'ways of writing properties',
      bounds: 'objects of two (thorough: three) items, each a plain, quoted or computed property, a shorthand or a spread of a one- or two-property object; written inline, in a constant, with "as const", behind an alias, in a function without parameters, or joined by Object.assign; every key any of three letters',
      labels: ['the properties are those of the object'],
      cases: { quick: WRAPS.flatMap((wrap) => [[0, 1], [1, 2]].map((o) => ({ wrap, n: 2, o }))), thorough: WRAPS.flatMap((wrap) => [[0, 1, 2], [2, 1, 0], [1, 2, 0]].map((o) => ({ wrap, n: 3, o }))) },
      async run(S, p) {
        const subst = {}, decls = [];
        const items = p.o.map((id) => item(S, 'i' + id, MARK[id], subst, decls));
        // a literal does not name a property twice
        const lits = items.filter((x) => !x.spread);
        for (let i = 0; i < lits.length; i++) for (let j = 0; j < i; j++) S.assume(S.not(S.eq(lits[i].add[0][0], lits[j].add[0][0])));
        const want = {};
        for (const x of items) for (const [k, v] of x.add) S.def(want, k, v);
        const body = `{ ${items.map((x) => x.text).join(', ')} }`;
        const w = { inline: `t.type(${body})`, const: 't.type(props)', 'as const': 't.type(props)', alias: 't.type({ ...again })', function: 'make()', returning: 'make()', assign: `t.type(Object.assign({}, ${items.map((x) => `{ ${x.text} }`).join(', ')}))`, exact: `t.exact(t.type(${body}))` }[p.wrap];
        if (p.wrap === 'const' || p.wrap === 'alias') decls.push(`const props = ${body};`);
        if (p.wrap === 'alias') decls.push('const again = props;');
        if (p.wrap === 'as const') decls.push(`const props = ${body} as const;`);
        if (p.wrap === 'function') decls.push(`const make = () => t.type(${body});`);
        if (p.wrap === 'returning') decls.push(`const make = () => { const x = 1; return t.type(${body}); };`);
        const sf = await sources(S, { '/types.ts': { text: `import * as t from 'io-ts';\n${decls.join('\n')}\nexport const X = ${w};\n`, subst } });
        const { Project } = src(S, 'project');
        const { parseCodecInitializer } = src(S, 'codec');
        const file = sf['/types.ts'];
        const got = parseCodecInitializer(new Project(sf), file, file.symbols.declarations.find((d) => d.name === 'X').init);
        S.observe('schema', got._tag);
        if (got._tag !== 'Right' || got.right.type !== 'object') { S.check('the properties are those of the object', false); return; }
        const names = Object.keys(want), req = got.right.required;
        S.check('the properties are those of the object', S.and(S.eq(got.right.properties, want), req.length === names.length, ...names.map((n) => req.some((r) => r === n))));
      },
    },
    {
      name: 'ways of writing literals',
      bounds: 'string literals and templates with escapes, nested templates and constants, numbers in every notation, booleans; as the value of a literal codec, directly or through a constant, as a computed key or an enumerated key through a constant; the letters in them any of two',
      labels: ['a literal has its value', 'the codec is read'],
      cases: { quick: Object.keys(AT).map((at) => ({ at })), thorough: Object.keys(AT).map((at) => ({ at })) },
      async run(S, p) {
        const at = AT[p.at];
        const how = S.pick('spelled', Object.keys(SPELLED));
        const c = S.str('c', { min: 1, max: 1, alphabet: 'ab' }), d = S.str('d', { min: 1, max: 1, alphabet: 'ab' });
        const [text, value] = SPELLED[how];
        const want = value(c, d);
        if (at.string) S.assume(typeof want !== 'boolean');
        const decls = ["const C = '^';", "const D = { e: '~' };"].concat(at.decl ? [at.decl(text)] : []);
        const sf = await sources(S, { '/types.ts': { text: `import * as t from 'io-ts';\n${decls.join('\n')}\nexport const X = ${at.text(text)};\n`, subst: { '~': c, '^': d } } });
        const { Project } = src(S, 'project');
        const { parseCodecInitializer } = src(S, 'codec');
        const file = sf['/types.ts'];
        const got = parseCodecInitializer(new Project(sf), file, file.symbols.declarations.find((x) => x.name === 'X').init);
        S.observe('schema', got);
        S.check('the codec is read', got._tag === 'Right');
        if (got._tag === 'Right') S.check('a literal has its value', S.eq(got.right, at.schema(want)));
      },
    },
    {
      name: 'enumerations',
      bounds: 'enumerations of two or three members with and without values (strings or numbers), with symbolic names, declared before their use or imported; a member as the value of a literal codec or as a computed key, all members as enumerated keys',
      labels: ['a member has its value', 'the keys are those of the enumeration', 'the codec is read'],
      cases: { quick: ['literal', 'key', 'keyof'].flatMap((use) => [2, 3].map((n) => ({ use, n }))), thorough: ['literal', 'key', 'keyof'].flatMap((use) => [2, 3, 4].map((n) => ({ use, n }))) },
      async run(S, p) {
        const marks = ['~', '^', '#', '%'], vmarks = ['&', '?', '@', '!'];
        const subst = {}, values = [], names = [], texts = [];
        let next = 0;
        for (let i = 0; i < p.n; i++) {
          const m = marks[i], w = vmarks[i];
          const name = subst['Q' + 'WXYZ'[i]] = S.str('name' + i, { min: 2, max: 2, alphabet: i === 0 ? 'ab' : 'abc' });
          for (const x of names) S.assume(S.not(S.eq(x, name)));
          names.push(name);
          const how = S.pick(next === undefined ? 'set value' + i : 'value' + i, next === undefined ? ['string', 'number', 'hexadecimal'] : ['none', 'string', 'number', 'hexadecimal']);
          let v = next;
          if (how === 'string') { v = subst[w] = S.str('string' + i, { min: 1, max: 1, alphabet: 'uv' }); next = undefined; } else { if (how === 'number') v = 5 * i; if (how === 'hexadecimal') v = 16; next = v + 1; }
          values.push(v);
          const q = how === 'number' && i === 1 ? "'" : '';
          texts.push(`/* ${i} */ ${q}Q${'WXYZ'[i]}${q}${how === 'none' ? '' : ` = ${how === 'string' ? `'${w}'` : how === 'number' ? v : '0x10'}`}`);
        }
        const imported = S.is(S.bool('imported'));
        const which = p.use === 'keyof' ? 0 : S.pick('which', Array.from({ length: p.n }, (_, i) => i));
        const member = `E.Q${'WXYZ'[which]}`;
        const use = { literal: `t.literal(${member})`, key: `t.type({ [${member}]: t.number })`, keyof: 't.keyof(E)' }[p.use];
        const text = `${imported ? 'export ' : ''}enum E { ${texts.join(', ')} }\n`;
        const head = "import * as t from 'io-ts';\n";
        const files = { '/src/a.ts': { text: `${head}${imported ? "import { E } from './b';\n" : text}export const X = ${use};\n`, subst } };
        if (imported) files['/src/b.ts'] = { text, subst };
        S.stub('resolve', { sync: (q, o) => o.basedir + q.slice(1) + '.ts' });
        const sf = await sources(S, files);
        const { Project } = src(S, 'project');
        const { parseCodecInitializer } = src(S, 'codec');
        const file = sf['/src/a.ts'];
        const got = parseCodecInitializer(new Project(sf), file, file.symbols.declarations.find((x) => x.name === 'X').init);
        S.observe('schema', got);
        S.check('the codec is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const v = values[which];
        if (p.use === 'literal') S.check('a member has its value', S.eq(got.right, { type: typeof v, enum: [v] }));
        if (p.use === 'key') S.check('a member has its value', S.eq(got.right, { type: 'object', properties: { [v]: { type: 'number', primitive: true } }, required: [String(v)] }));
        if (p.use === 'keyof') {
          // what TypeScript makes of an enumeration: names to values, numbers to names
          const e = {};
          names.forEach((n, i) => { S.def(e, n, values[i]); if (typeof values[i] === 'number') e[values[i]] = n; });
          const t = S.load('io-ts');
          const x = S.str('x', { min: 1, max: 2, alphabet: 'abcuv0156' });
          S.check('the keys are those of the enumeration', accepts(got.right, x, true) === t.keyof(e).is(x));
        }
      },
    },
  ],
};
