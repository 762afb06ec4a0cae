'use strict';
const { src, block } = require('./lib/oapi');
const { snap } = require('./lib/codecs');
const { STATUS_CODES } = require('http');

const PATHS = ['/b', '/a', '/a/{x}', '/A', '/a/'];
const METHODS = ['POST', 'GET', 'delete'];
const INFO = { title: 't', version: '1' };
const LEAF = [{ type: 'string' }, { type: 'number' }, { type: 'ref', name: 'R', location: '/x.ts' }, { type: 'array', items: { type: 'string' } }, { type: 'object', properties: { a: { type: 'string' } }, required: ['a'] }];
const DOC = [{ type: 'string' }, { type: 'number' }, { $ref: '#/components/schemas/R' }, { type: 'array', items: { type: 'string' } }, { type: 'object', properties: { a: { type: 'string' } }, required: ['a'] }];
const content = (schema) => ({ 'application/json': { schema } });
// one arbitrary leaf schema with the document expected for it
function leaf(S, name, of) {
  const i = S.pick(name, of || [0, 1, 2, 3, 4]);
  return { schema: snap(LEAF[i]), doc: snap(DOC[i]) };
}
const sorted = (xs) => xs.every((x, i) => i === 0 || xs[i - 1].localeCompare(x) < 0);

module.exports = {
  assumptions: ['schemas are translated as O02 and O03 establish', 'no two routes share a path and a method'],
  scenarios: [
    {
      name: 'paths and methods',
      bounds: '1-3 (thorough: 4) routes over five paths and three methods, in any order; 0-2 servers',
      labels: ['every route is at its path and method', 'there is nothing else', 'paths and methods are sorted'],
      cases: { quick: [1, 2, 3].map((n) => ({ n })), thorough: [1, 2, 3, 4].map((n) => ({ n })) },
      run(S, p) {
        const { convertRoutesToOpenAPI } = src(S, 'openapi');
        const routes = [];
        for (let i = 0; i < p.n; i++) {
          const path = S.pick('path' + i, PATHS), method = S.pick('method' + i, METHODS);
          S.assume(!routes.some((r) => r.path === path && r.method === method));
          routes.push({ path, method, parameters: [], response: { 200: { type: 'string', enum: ['r' + i] } } });
        }
        const servers = [{ url: 'u0' }, { url: 'u1' }].slice(0, S.pick('servers', [0, 1, 2]));
        const before = snap(routes);
        const d = convertRoutesToOpenAPI(INFO, servers, routes, {});
        S.check('every route is at its path and method', S.and(...before.map((r, i) => S.eq((d.paths[r.path] || {})[r.method.toLowerCase()], { parameters: [], responses: { 200: { description: 'OK', content: content({ type: 'string', enum: ['r' + i] }) } } }))));
        let count = 0;
        for (const k of Object.keys(d.paths)) count += Object.keys(d.paths[k]).length;
        S.check('there is nothing else', S.and(count === p.n, S.eq(d.components, { schemas: {} }), S.eq(d.info, INFO), d.openapi === '3.0.3', S.eq(d.servers, servers.length ? servers : undefined)));
        S.check('paths and methods are sorted', S.and(sorted(Object.keys(d.paths)), ...Object.keys(d.paths).map((k) => sorted(Object.keys(d.paths[k])))));
        S.check('the routes given are not changed', S.eq(routes, before));
      },
    },
    {
      name: 'operations',
      bounds: 'routes with 0-2 parameters of any place, requiredness, explosion, description, visibility and five kinds of schema; with or without a body; 0-2 (thorough: 3) responses of any status; the route beside another one',
      labels: ['every parameter is listed as declared', 'the body is the one declared', 'the responses are the ones declared'],
      cases: { quick: [[0, 1], [1, 0], [2, 0], [0, 2]].map(([np, nr]) => ({ np, nr })), thorough: [[0, 1], [1, 1], [2, 0], [0, 3]].map(([np, nr]) => ({ np, nr })) },
      run(S, p) {
        const { convertRoutesToOpenAPI } = src(S, 'openapi');
        const parameters = [], wantP = [];
        for (let i = 0; i < p.np; i++) {
          const { schema, doc } = leaf(S, 'p' + i, p.np > 1 ? [0, 2, 3] : undefined);
          const q = { type: S.pick('in' + i, ['path', 'query', 'header']), name: S.str('name' + i, { min: 1, max: 1, alphabet: 'ab-' }), schema, required: S.is(S.bool('req' + i)) };
          const w = { name: q.name, in: q.type, schema: doc };
          if (q.required) w.required = true;
          if (S.is(S.bool('explode' + i))) { q.explode = true; w.style = 'form'; w.explode = true; }
          if (i === 0 && schema.type !== 'array') {
            const from = S.pick('documented', ['no', 'comment', 'tag', 'codec', 'comment and codec', 'tag and codec']);
            if (from.includes('codec')) w.description = schema.description = S.str('own', { min: 1, max: 1, alphabet: 'xy' });
            if (from.includes('comment') || from.includes('tag')) {
              const vis = S.pick('visibility', ['', '@private', '@public']);
              const text = from.includes('tag') ? '' : S.str('desc', { min: 1, max: 1, alphabet: 'xy' });
              schema.comment = block(S, '/**\n * ' + text + '\n ' + (vis ? '* ' + vis + '\n ' : '* @deprecated\n ') + '*/');
              if (text !== '') w.description = text;
              if (vis) w['x-internal'] = vis === '@private';
              else w.schema = Object.assign({ deprecated: true }, doc);
            }
            if ('$ref' in doc && from !== 'no') { delete w.schema.$ref; w.schema = Object.assign({}, w.schema === doc ? {} : w.schema, { allOf: [{ $ref: '#/components/schemas/R' }] }); }
          }
          parameters.push(q);
          wantP.push(w);
        }
        const route = { path: '/x', method: 'PUT', parameters, response: {} };
        const want = { parameters: wantP, responses: {} };
        if (p.np < 2 && S.is(S.bool('body'))) {
          const { schema, doc } = leaf(S, 'b', p.np > 0 || p.nr > 1 ? [1, 2] : undefined);
          route.body = schema;
          want.requestBody = { content: content(doc) };
        }
        let named = false;
        for (let i = 0; i < p.nr; i++) {
          const status = S.pick('status' + i, [200, 404, 500, 599, 'ok'].filter((x) => !(x in route.response)));
          if (status === 'ok') named = true;
          const { schema, doc } = leaf(S, 'r' + i);
          route.response[status] = schema;
          want.responses[status === 'ok' ? 200 : status] = { description: status === 'ok' ? 'OK' : STATUS_CODES[status] || '', content: content(doc) };
        }
        S.assume(!(named && 200 in route.response));
        const other = { path: '/x', method: 'GET', parameters: [], response: { 200: { type: 'boolean' } } };
        const d = convertRoutesToOpenAPI(INFO, [], p.np < 2 && S.is(S.bool('second')) ? [other, route] : [route, other], {});
        const op = d.paths['/x'].put;
        S.observe('operation', op);
        // An empty description is none
        const listed = op.parameters.map((q) => { const c = Object.assign({}, q); if (c.description === '') delete c.description; return c; });
        S.check('every parameter is listed as declared', S.eq(listed, want.parameters));
        S.check('the body is the one declared', S.eq(op.requestBody, want.requestBody));
        S.check('the responses are the ones declared', S.eq(op.responses, want.responses), [{ id: 'named-status', when: named }]);
        S.check('the operation has nothing else', Object.keys(op).every((k) => ['parameters', 'requestBody', 'responses'].includes(k)));
      },
    },
    {
      name: 'comments of routes',
      bounds: 'comments of 0-3 lines and one of ten tags (thorough: two), texts of up to 2 characters',
      labels: ['the comment documents the operation', 'contradicting tags are refused'],
      cases: { quick: [...[0, 1, 2, 3].map((lines) => ({ lines, n: 1 })), { lines: 0, n: 2 }], thorough: [0, 1, 2, 3].map((lines) => ({ lines, n: 2 })) },
      run(S, p) {
        const { convertRoutesToOpenAPI } = src(S, 'openapi');
        const word = (name) => S.str(name, { min: 1, max: 2, alphabet: 'abc' });
        const TAGS = ['operationId', 'tag', 'private', 'public', 'unstable', 'example', 'version', 'flag', 'summary'];
        let text = '/**\n';
        const want = {};
        const lines = [];
        for (let i = 0; i < p.lines; i++) {
          const w = word('line' + i);
          lines.push(w);
          text += ' * ' + w + '\n';
        }
        if (lines.length > 0) want.summary = lines[0];
        if (lines.length > 1) want.description = lines.slice(1).join('\n');
        const used = [];
        let example;
        for (let i = 0; i < p.n; i++) {
          const k = S.pick('tag' + i, TAGS.filter((x) => !used.includes(x)));
          used.push(k);
          const v = ['operationId', 'tag', 'version', 'summary'].includes(k) ? word('value' + i) : k === 'example' ? S.pick('ex' + i, ['{"a": [1]}', '[1,2]', 'plain']) : '';
          text += ' * @' + k + (v === '' ? '' : ' ' + v) + '\n';
          if (k === 'operationId') want.operationId = v;
          if (k === 'tag') want.tags = [v];
          if (k === 'private' || k === 'public') want['x-internal'] = k === 'private';
          if (k === 'unstable') want['x-unstable'] = true;
          if (k === 'example') example = v === 'plain' ? v : JSON.parse(v);
          if (k === 'version') want['x-unknown-tags'] = Object.assign({}, want['x-unknown-tags'], { version: v });
          if (k === 'flag') want['x-unknown-tags'] = Object.assign({}, want['x-unknown-tags'], { flag: true });
        }
        const route = { path: '/x', method: 'GET', parameters: [], response: { 200: { type: 'string' }, 404: { type: 'number' } }, comment: block(S, text + ' */') };
        let d, threw = false;
        try { d = convertRoutesToOpenAPI(INFO, [], [route], {}); } catch (e) { S.abortedRethrow(e); threw = true; }
        if (used.includes('private') && used.includes('public')) { S.check('contradicting tags are refused', threw); return; }
        S.check('the comment is understood', !threw);
        if (threw) return;
        const op = Object.assign({}, d.paths['/x'].get);
        const ex = Object.keys(op.responses).map((c) => op.responses[c].content['application/json'].example);
        S.check('the example is on every response', S.and(...ex.map((x) => S.eq(x, example))));
        delete op.parameters;
        delete op.responses;
        S.observe('operation', op);
        S.check('the comment documents the operation', S.eq(op, want));
      },
    },
    {
      name: 'components',
      bounds: '0-2 named schemas of six kinds, with a title of their own or not; a mapping that renames references',
      labels: ['every named schema is a component'],
      cases: { quick: [0, 1, 2].map((n) => ({ n })) },
      run(S, p) {
        const { convertRoutesToOpenAPI } = src(S, 'openapi');
        const schemas = {}, want = {};
        const renamed = S.is(S.bool('renamed'));
        const R = renamed ? '#/components/schemas/R1' : '#/components/schemas/R';
        for (let i = 0; i < p.n; i++) {
          const name = ['A', 'B'][i];
          if (S.is(S.bool('undef' + i))) { schemas[name] = { type: 'undefined' }; continue; }
          const { schema, doc } = leaf(S, 's' + i);
          schemas[name] = schema;
          if ('$ref' in doc) want[name] = { allOf: [{ title: name }, { $ref: R }] };
          else want[name] = Object.assign({ title: name }, doc);
          if (schema.type !== 'array' && S.is(S.bool('titled' + i))) {
            const own = S.str('title' + i, { min: 1, max: 1, alphabet: 'xy' });
            if (S.is(S.bool('incomment' + i))) schema.comment = block(S, '/**\n * @title ' + own + '\n */');
            else schema.title = own;
            want[name] = '$ref' in doc ? { title: own, allOf: [{ $ref: R }] } : Object.assign({}, doc, { title: own });
          }
        }
        const d = convertRoutesToOpenAPI(INFO, [], [{ path: '/x', method: 'GET', parameters: [], response: { 200: { type: 'ref', name: 'R', location: '/x.ts' }, 201: { type: 'ref', name: 'R', location: '/other.ts' } } }], schemas, renamed ? { '/x.ts': { R: 'R1' } } : undefined);
        S.observe('document', d);
        S.check('every named schema is a component', S.eq(d.components, { schemas: want }));
        const res = d.paths['/x'].get.responses;
        S.check('references go to the component of their own type', S.and(S.eq(res[200].content['application/json'].schema, { $ref: R }), S.eq(res[201].content['application/json'].schema, { $ref: '#/components/schemas/R' })));
      },
    },
  ],
};
