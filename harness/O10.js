'use strict';
const { sources } = require('./lib/prog');
const { src } = require('./lib/oapi');

const PARTS = ['query', 'params', 'headers'];
const PLACE = { query: 'query', params: 'path', headers: 'header' };
const TYPES = { string: { type: 'string', primitive: true }, number: { type: 'number', primitive: true } };
const MARKS = ['~', '^', '#', '%', '&', '?', '@', '$'];
const obj = (ps) => ({ type: 'object', properties: Object.fromEntries(ps.map((p) => [p.name, p.schema])), required: ps.filter((p) => p.required).map((p) => p.name) });
const union = (...schemas) => ({ type: 'union', schemas });
// one parameter: its text and what it is
function param(S, ctx, n, part) {
  const mark = MARKS[ctx.n++];
  const name = S.str(n, { min: 1, max: 1, alphabet: 'xyz' });
  ctx.subst[mark] = name;
  const type = S.pick(n + '.type', ctx.types);
  const how = S.pick(n + '.optional', ctx.optional);
  const T = TYPES[type], U = { type: 'undefined' }, N = { type: 'null' };
  const [text, schema] = { no: [`t.${type}`, T], yes: [`h.optional(t.${type})`, union(T, U)], 'in a union': [`t.union([t.null, h.optional(t.${type})])`, union(N, union(T, U))], twice: [`h.optional(h.optional(t.${type}))`, union(union(T, U), U)], 'not in a union': [`t.union([t.null, t.${type}])`, union(N, T)] }[how];
  return { part, name, required: how.startsWith('no'), text: `'${mark}': ${text}`, schema };
}
// one request: parts is a list of [part, number of parameters]
function request(S, ctx, n, parts) {
  const texts = [], all = [];
  let codec = 'h.httpRequest';
  const where = S.pick(n + '.where', ctx.where);
  const into = where === 'imported' ? ctx.other : ctx.decls;
  for (const [part, count] of parts) {
    const ps = [];
    for (let i = 0; i < count; i++) ps.push(param(S, ctx, `${n}.${part}${i}`, part));
    for (let i = 0; i < ps.length; i++) for (let j = 0; j < i; j++) S.assume(S.not(S.eq(ps[i].name, ps[j].name)));
    let text = `{ ${ps.map((p) => p.text).join(', ')} }`;
    const how = ctx.how ? S.pick(`${n}.${part}.how`, ctx.how) : 'inline';
    if (how === 'const') { into.push(`const ${part}${n} = ${text};`); text = `${part}${n}`; }
    if (how === 'type') text = `t.type(${text})`;
    if (how === 'spread') { into.push(`const ${part}${n} = ${text};`); text = `{ ...${part}${n} }`; }
    if (part === 'body') {
      // a body may be any codec, and left out
      const kind = S.pick(`${n}.body.kind`, ps.length > 1 || parts.length > 1 || ctx.total > 3 ? ['object'] : ['object', 'optional', 'or undefined', 'not an object', 'in a partial object']);
      ps.kind = kind;
      if (kind !== 'object') { S.assume(ps[0].required && ps[0].schema === TYPES.string); codec = kind === 'in a partial object' ? 't.partial' : 't.type'; if (how !== 'type') text = `t.type(${text})`; }
      if (kind === 'optional') text = `h.optional(${text})`;
      if (kind === 'or undefined') text = `t.union([t.undefined, ${text}])`;
      if (kind === 'not an object') text = `t.array(${text})`;
    }
    texts.push(`${part}: ${text}`);
    all.push([part, ps]);
  }
  // httpRequest takes objects alone
  let text = `${codec}({ ${texts.join(', ')} })`;
  if (where === 'const') { ctx.decls.push(`const ${n} = ${text};`); text = n; }
  if (where === 'imported') { ctx.other.push(`export const ${n} = ${text};`); ctx.imports.push(n); text = n; }
  return { text, parts: new Map(all) };
}
const bodyOf = (r) => { const ps = r.parts.get('body'), o = obj(ps); return { object: o, 'in a partial object': o, optional: union(o, { type: 'undefined' }), 'or undefined': union({ type: 'undefined' }, o), 'not an object': { type: 'array', items: o } }[ps.kind]; };
// what is documented for a request
function expected(S, kind, reqs) {
  const params = [];
  let body;
  const each = (r, part) => (r.parts.has(part) ? r.parts.get(part) : []).map((p) => ({ type: PLACE[part], name: p.name, schema: p.schema, required: p.required }));
  if (kind !== 'union') {
    for (const r of reqs) for (const part of PARTS) params.push(...each(r, part));
    const bodies = reqs.filter((r) => r.parts.has('body')).map(bodyOf);
    if (bodies.length > 0) body = kind === 'intersection' ? { type: 'intersection', schemas: bodies } : bodies[0];
  } else {
    const queries = reqs.filter((r) => r.parts.has('query')).map((r) => obj(r.parts.get('query')));
    if (queries.length > 0) params.push({ type: 'query', name: 'union', explode: true, required: true, schema: { type: 'union', schemas: queries } });
    for (const r of reqs) for (const p of each(r, 'headers')) if (!params.some((q) => q.type === 'header' && q.name === p.name)) params.push(p);
    const first = reqs.find((r) => r.parts.has('params'));
    if (first) params.push(...each(first, 'params'));
    const bodies = reqs.filter((r) => r.parts.has('body')).map(bodyOf);
    if (bodies.length > 0) body = { type: 'union', schemas: bodies };
  }
  return { params, body };
}
async function routes(S, files, name) {
  S.stub('resolve', { sync: (q, o) => o.basedir + q.slice(1) + '.ts' });
  const sf = await sources(S, files);
  const { Project } = src(S, 'project');
  const { parseApiSpec } = src(S, 'apiSpec');
  const file = sf['/src/a.ts'];
  const init = file.symbols.declarations.find((d) => d.name === name).init;
  return parseApiSpec(new Project(sf), file, init.arguments[0].expression);
}
const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n";
const P = (q, p, hd, b) => [['query', q], ['params', p], ['headers', hd], ['body', b]].filter((x) => x[1] > 0);
const REQS = {
  single: [[P(1, 0, 0, 0)], [P(0, 1, 0, 0)], [P(0, 0, 1, 0)], [P(0, 0, 0, 1)], [P(2, 0, 0, 0)], [P(1, 1, 0, 0)], [P(0, 1, 1, 0)], [P(1, 0, 0, 1)], [P(0, 0, 0, 2)], [P(0, 0, 0, 0)]],
  intersection: [[P(1, 0, 0, 0), P(0, 1, 0, 0)], [P(1, 0, 0, 0), P(1, 0, 0, 1)], [P(0, 0, 1, 1), P(0, 0, 0, 1)]],
  union: [[P(1, 0, 0, 0), P(1, 0, 0, 0)], [P(0, 0, 1, 0), P(0, 0, 1, 0)], [P(0, 0, 0, 0), P(0, 1, 0, 0)], [P(0, 0, 0, 1), P(0, 0, 0, 1)], [P(0, 1, 0, 0), P(0, 1, 0, 0)], [P(1, 0, 0, 0), P(0, 0, 1, 1)], [P(0, 0, 0, 0), P(0, 0, 0, 1)]],
};
const MORE = {
  single: [[P(2, 1, 0, 0)], [P(1, 1, 1, 0)], [P(1, 0, 1, 1)], [P(0, 0, 2, 1)]],
  intersection: [[P(1, 1, 0, 0), P(1, 0, 1, 0)], [P(1, 0, 0, 0), P(0, 0, 1, 0), P(0, 0, 0, 1)], [P(0, 0, 0, 1), P(0, 0, 0, 1), P(1, 0, 0, 0)]],
  union: [[P(0, 0, 2, 0), P(0, 0, 2, 0)], [P(0, 0, 1, 0), P(0, 0, 1, 0), P(0, 0, 1, 0)], [P(1, 1, 0, 0), P(0, 1, 1, 0)], [P(1, 0, 0, 1), P(1, 0, 0, 1)]],
};
const list = (R) => Object.keys(R).flatMap((kind) => R[kind].map((parts) => ({ kind, parts })));
// [key, [method]] lists of the parts of a specification; "spread" refers to a constant holding such a list
const SPECS = {
  'two actions': ['A', 'B'], 'spread first': ['...A', 'B'], 'spread last': ['A', '...B'], 'two spreads': ['...A', '...B'], 'spread between': ['A', '...B', 'C'], 'a specification spread': ['...=A', 'B'], 'an imported specification': ['...!A', 'B'], 'an imported specification last': ['A', '...!B'],
};
// where a specification holds the name of a route
const api = (text) => `export const api = h.apiSpec(${text});`;
const HOLDERS = {
  inline: { in: 'a', make: (f, n) => f.a.decls.push(api(`{ k: { get: ${n} } }`)) },
  'actions in a constant': { in: 'a', make: (f, n) => f.a.decls.push(`const actions = { get: ${n} };`, api('{ k: actions }')) },
  'specification in a constant': { in: 'a', make: (f, n) => f.a.decls.push(`const spec = { k: { get: ${n} } };`, api('spec')) },
  'a specification spread': { in: 'a', make: (f, n) => f.a.decls.push(`const spec = h.apiSpec({ k: { get: ${n} } });`, api('{ ...spec }')) },
  'imported actions': { in: 'b', make: (f, n) => { f.a.imports.push("import { actions } from './b';"); f.b.decls.push(`export const actions = { get: ${n} };`); f.a.decls.push(api('{ k: actions }')); } },
  'actions of a namespace': { in: 'b', make: (f, n) => { f.a.imports.push("import * as B from './b';"); f.b.decls.push(`export const actions = { get: ${n} };`); f.a.decls.push(api('{ k: B.actions }')); } },
  'an imported object spread': { in: 'b', make: (f, n) => { f.a.imports.push("import { spec } from './b';"); f.b.decls.push(`export const spec = { k: { get: ${n} } };`); f.a.decls.push(api('{ ...spec }')); } },
  'an imported object': { in: 'b', make: (f, n) => { f.a.imports.push("import { spec } from './b';"); f.b.decls.push(`export const spec = { k: { get: ${n} } };`); f.a.decls.push(api('spec')); } },
  'an imported specification spread': { in: 'b', make: (f, n) => { f.a.imports.push("import { spec } from './b';"); f.b.decls.push(`const object = { k: { get: ${n} } };`, 'export const spec = h.apiSpec(object);'); f.a.decls.push('const object = {};', api('{ ...spec }')); } },
  'a specification of a namespace spread': { in: 'b', make: (f, n) => { f.a.imports.push("import * as B from './b';"); f.b.decls.push(`export const spec = h.apiSpec({ k: { get: ${n} } });`); f.a.decls.push(api('{ ...B.spec }')); } },
};
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['a parameter is declared in one member of an intersection only', 'headers and path parameters that several members of a union declare are those of the first that declares them (as documented)'],
  scenarios: [
    {
      name: 'requests',
      bounds: 'a request, an intersection or a union of two requests (thorough: three) with up to four parameters in query, path, headers and body, of two types, required or optional, with symbolic names; each request inline, in a constant or imported, each part inline, a codec, in a constant or spread',
      labels: ['the parameters are those of the request', 'the body is that of the request', 'the route is read'],
      cases: { quick: list(REQS), thorough: [...list(REQS), ...list(MORE)] },
      async run(S, p) {
        const total = [].concat(...p.parts).reduce((a, x) => a + x[1], 0);
        const ctx = { n: 0, subst: {}, decls: [], other: [], imports: [], types: total > 2 ? ['string'] : ['string', 'number'], optional: total > 1 ? ['no', 'yes'] : ['no', 'yes', 'in a union', 'twice', 'not in a union'], total, where: total > 3 ? ['inline', 'const'] : ['inline', 'const', 'imported'], how: p.parts.length > 1 || total > 2 ? (total > 3 ? null : ['inline', 'const']) : ['inline', 'const', 'type', 'spread'] };
        const reqs = p.parts.map((parts, i) => request(S, ctx, 'R' + i, parts));
        const seen = [];
        if (p.kind === 'intersection') for (const r of reqs) for (const part of PARTS) for (const x of r.parts.get(part) || []) { for (const y of seen) if (y.part === part) S.assume(S.not(S.eq(x.name, y.name))); seen.push(x); }
        let text = reqs[0].text;
        if (p.kind !== 'single') text = `t.${p.kind}([${reqs.map((r) => r.text).join(', ')}])`;
        if (S.is(S.bool('named'))) { ctx.decls.push(`const Request = ${text};`); text = 'Request'; }
        const body = `${HEAD}${ctx.imports.length > 0 ? `import { ${ctx.imports.join(', ')} } from './b';\n` : ''}${ctx.decls.join('\n')}\nexport const api = h.apiSpec({ k: { get: h.httpRoute({ path: '/p', method: 'GET', request: ${text}, response: { 200: t.string } }) } });\n`;
        const got = await routes(S, { '/src/a.ts': { text: body, subst: ctx.subst }, '/src/b.ts': { text: HEAD + ctx.other.join('\n') + '\n', subst: ctx.subst } }, 'api');
        S.check('the route is read', got._tag === 'Right' && got.right.length === 1);
        if (got._tag !== 'Right') return;
        const r = got.right[0];
        S.observe('route', r);
        const want = expected(S, p.kind, reqs);
        S.check('the parameters are those of the request', S.and(r.parameters.length === want.params.length, ...want.params.map((w) => S.or(...r.parameters.map((g) => S.eq(g, w))))));
        S.check('the body is that of the request', S.eq(r.body, want.body));
      },
    },
    {
      name: 'specifications',
      bounds: 'specifications of two or three actions with symbolic keys, written inline, spread from a constant or from another, possibly imported, specification; one or two methods each, the route inline, in a constant or imported; path and method a literal, a constant, a template or imported',
      labels: ['the routes are those of the specification', 'the specification is read'],
      cases: { quick: Object.keys(SPECS).map((form) => ({ form })), thorough: Object.keys(SPECS).map((form) => ({ form, two: 1 })) },
      async run(S, p) {
        const subst = {}, decls = [], other = [], imports = [];
        const result = [];
        const items = SPECS[p.form].map((item, i) => {
          const name = item.slice(-1);
          const mark = MARKS[i];
          const key = subst[mark] = S.str('key' + name, { min: 1, max: 1, alphabet: 'xyz' });
          const far = item.includes('!');
          const into = far ? other : decls;
          const methods = p.two && i === 0 ? ['get', 'post'] : ['get'];
          const routesOf = methods.map((method) => {
            const id = name + method;
            const pk = S.pick(id + '.path', i === 0 && method === 'get' ? ['literal', 'const', 'template', 'imported'] : ['literal']);
            let path = `'/${id}'`;
            if (pk === 'const') { into.push(`const path${id} = '/${id}';`); path = `path${id}`; }
            if (pk === 'template') { into.push(`const path${id} = '${id}';`); path = `\`/\${path${id}}\``; }
            if (pk === 'imported' && !far) { other.push(`export const path${id} = '/${id}';`); imports.push(`path${id}`); path = `path${id}`; }
            let text = `h.httpRoute({ path: ${path}, method: '${method.toUpperCase()}', request: h.httpRequest({}), response: { 200: t.string, ${400 + i}: t.number } })`;
            const where = S.pick(id + '.where', far || i > 1 ? ['inline', 'const'] : ['inline', 'const', 'imported']);
            if (where === 'const') { into.push(`const route${id} = ${text};`); text = `route${id}`; }
            if (where === 'imported' && pk !== 'imported') { other.push(...(pk === 'literal' ? [] : [into.pop()])); other.push(`export const route${id} = ${text};`); imports.push(`route${id}`); text = `route${id}`; }
            return { method, text, want: { path: `/${id}`, method: method.toUpperCase(), parameters: [], response: { 200: TYPES.string, [400 + i]: TYPES.number } } };
          });
          let text = `'${mark}': { ${routesOf.map((r) => `${r.method}: ${r.text}`).join(', ')} }`;
          if (item === name && i === 1) if (S.is(S.bool('actions in a constant'))) { decls.push(`const action = { ${routesOf.map((r) => `${r.method}: ${r.text}`).join(', ')} };`); text = `'${mark}': action`; }
          if (item !== name) {
            into.push(`${far ? 'export ' : ''}const spec${name} = ${item.includes('=') || far ? `h.apiSpec({ ${text} })` : `{ ${text} }`};`);
            if (far) imports.push('spec' + name);
            text = `...spec${name}`;
          }
          return { key, text, literal: item === name, wants: routesOf.map((r) => r.want) };
        });
        for (let i = 0; i < items.length; i++) for (let j = 0; j < i; j++) if (items[i].literal && items[j].literal) S.assume(S.not(S.eq(items[i].key, items[j].key)));
        // as in JavaScript, the last of several equal keys counts
        const by = {};
        for (const x of items) S.def(by, x.key, x.wants);
        for (const k of Object.keys(by)) result.push(...by[k]);
        const body = `${HEAD}${imports.length > 0 ? `import { ${imports.join(', ')} } from './b';\n` : ''}${decls.join('\n')}\nexport const api = h.apiSpec({ ${items.map((x) => x.text).join(', ')} });\n`;
        const got = await routes(S, { '/src/a.ts': { text: body, subst }, '/src/b.ts': { text: HEAD + other.join('\n') + '\n', subst } }, 'api');
        S.check('the specification is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        S.observe('routes', got.right.map((r) => r.method + r.path));
        S.check('the routes are those of the specification', S.and(got.right.length === result.length, ...result.map((w) => S.or(...got.right.map((g) => S.eq(g, w))))));
      },
    },
    {
      name: 'where routes are',
      bounds: 'a route, with a comment of a description, a tag, both or none, declared in the file of the specification, in that of its actions or in a third one, exported or not, referred to by its name, by another name, through a namespace or an alias of another file, from a specification, an action or a spread specification of the first or the second file; routes of the same name in the other files',
      labels: ['the route is the one meant', 'its comment is the one before it', 'the specification is read'],
      cases: { quick: Object.keys(HOLDERS).map((holder) => ({ holder })) },
      async run(S, p) {
        const H = HOLDERS[p.holder];
        const refs = H.in === 'a' ? ['local', 'b named', 'b renamed', 'b namespace', 'b re-exported', 'b default', 'b aliased', 'b alias of a member'] : ['local', 'c named', 'c renamed', 'c namespace', 'c re-exported', 'c default', 'c aliased', 'c alias of a member'];
        const ref = S.pick('ref', refs);
        const text = S.str('text', { min: 1, max: 1, alphabet: 'abt' });
        const form = S.pick('comment', ['none', 'description', 'tag', 'both', 'one line', 'not a documentation']);
        const comment = { none: '', description: '/**\n * ~\n */\n', tag: '/**\n * @operationId ~\n */\n', both: '/**\n * ~\n *\n * @operationId ~\n * @tag x\n */\n', 'one line': '/** ~ */\n', 'not a documentation': '/* ~ */\n// ~\n' }[form];
        const files = { a: { imports: [], decls: [] }, b: { imports: [], decls: [] }, c: { imports: [], decls: [] } };
        const route = (f) => `h.httpRoute({ path: '/${f}', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } })`;
        const at = ref === 'local' ? H.in : ref[0];
        const far = at !== H.in;
        // one of that name in each file
        for (const f of ['a', 'b', 'c']) {
          const name = ref === 'local' || f === at ? 'route' : 'other';
          files[f].decls.push(`${f === at ? comment : '/** not this one */\n'}${f === at && far && ref[2] !== 'd' ? 'export ' : ''}const ${name} = ${route(f)};`);
          if (f === at && ref.endsWith('default')) files[f].decls.push('export { route as default };');
        }
        const into = files[H.in].imports;
        let name = 'route';
        if (ref.endsWith(' named')) into.push(`import { route } from './${at}';`);
        if (ref.endsWith('renamed')) { into.push(`import { route as mine } from './${at}';`); name = 'mine'; }
        if (ref.endsWith('namespace')) { into.push(`import * as ns from './${at}';`); name = 'ns.route'; }
        if (ref.endsWith('default')) { into.push(`import mine from './${at}';`); name = 'mine'; }
        if (ref.endsWith('re-exported')) { into.push("import { mine } from './d';"); files.d = { imports: [], decls: [`export { route as mine } from './${at}';`, `const route = ${route('d')};`] }; name = 'mine'; }
        if (ref.endsWith(' aliased')) { into.push("import { mine } from './d';"); files.d = { imports: [`import { route } from './${at}';`], decls: ['export const mine = route;', `const other = ${route('d')};`] }; name = 'mine'; }
        if (ref.endsWith('alias of a member')) { into.push("import { mine } from './d';", "import * as ns from './e';"); files.d = { imports: [`import * as ns from './${at}';`], decls: ['export const mine = ns.route;', `const route = ${route('d')};`] }; files.e = { imports: [], decls: [`/** not this one */\nexport const route = ${route('e')};`] }; name = 'mine'; }
        H.make(files, name);
        const subst = { '~': text };
        const sources = {};
        for (const f of Object.keys(files)) sources[`/src/${f}.ts`] = { text: HEAD + files[f].imports.join('\n') + '\n' + files[f].decls.join('\n') + '\n', subst };
        const got = await routes(S, sources, 'api');
        S.check('the specification is read', got._tag === 'Right' && got.right.length === 1);
        if (got._tag !== 'Right' || got.right.length !== 1) return;
        const r = got.right[0];
        S.observe('route', [r.path, r.comment && r.comment.description]);
        const { comment: c, ...rest } = r;
        S.check('the route is the one meant', S.eq(rest, { path: '/' + at, method: 'GET', parameters: [], response: { 200: TYPES.string } }));
        const described = ['description', 'both', 'one line'].includes(form), tagged = ['tag', 'both'].includes(form);
        if (!described && !tagged) S.check('its comment is the one before it', c === undefined);
        else S.check('its comment is the one before it', S.and(c !== undefined, c !== undefined && S.and(S.eq(c.description, described ? text : ''), S.eq(c.tags.map((x) => [x.tag, x.name]), tagged ? [['operationId', text]].concat(form === 'both' ? [['tag', 'x']] : []) : []))));
      },
    },
  ],
};
