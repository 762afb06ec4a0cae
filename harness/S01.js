'use strict';
const { wrapper, transport, segments, pathOf } = require('./lib/client');
const ALPHA = 'aZ9-._~/?#%&=+ {}$:@;,\\é漢';
const BASES = ['http://h', 'http://h/', 'https://h:8443/api', 'http://h/api/v1/'];

// templates: literals and {parameters}; one segment may mix both
const T1 = [['/t/{a}', ['t', ['a']]], ['/{a}/x', [['a'], 'x']], ['/v{a}.json', [['v', 'a', '.json']]], ['/{a}/x/{a}', [['a'], 'x', ['a']]], ['/fixed', ['fixed']]];
const T2 = [['/{a}/{b}', [['a'], ['b']]], ['/{b}-{a}/z', [['', 'b', '-', 'a'], 'z']], ['/{ab}/{a}', [['ab'], ['a']]]];
const T3 = [['/x/{2}', ['x', ['2']]], ['/{a.b}/{axb}', [['a.b'], ['axb']]], ['/{a-b}/{$1}', [['a-b'], ['$1']]], ['/{a|b}.{x}', [['', 'a|b', '.', 'x']]]];
const names = (parts) => [...new Set(parts.flatMap((x) => (typeof x === 'string' ? [] : x.length === 1 ? x : x.filter((_, i) => i % 2 === 1))))];
module.exports = {
  assumptions: ['a parameter is not empty, and a path segment is neither . nor .. once filled in (a URL cannot carry those)', 'strings are well-formed UTF-16'],
  scenarios: [
    {
      name: 'parameters in the URL',
      bounds: 'twelve path templates with 0-2 parameters (alone, mixed with literals, repeated, with names of digits and punctuation); parameter values of 1-2 (thorough: 3) characters of letters, digits, reserved characters, braces, $, %, space, backslash and non-ASCII; superagent with four base URLs (quick: one for two parameters), and supertest',
      labels: ['the server reads each parameter back from its own place', 'nothing else becomes part of the path or the query'],
      cases: {
        quick: [...T1.map((x) => ({ x, len: 2, kind: 'supertest' })), ...T2.map((x) => ({ x, len: 1, kind: 'supertest' })), ...T3.map((x) => ({ x, len: 1, kind: 'supertest', alphabet: '2a$/%é' })), ...T1.map((x) => ({ x, len: 1, kind: 'superagent' })), { x: T2[0], len: 1, kind: 'superagent', bases: [BASES[2]] }],
        thorough: [...T1.map((x) => ({ x, len: 3, kind: 'supertest' })), ...T2.map((x) => ({ x, len: 2, kind: 'supertest' })), ...T3.map((x) => ({ x, len: 2, kind: 'supertest', alphabet: '2a$/%é' })), ...T3.map((x) => ({ x, len: 1, kind: 'superagent', alphabet: '2a$/%é' })), ...T1.map((x) => ({ x, len: 2, kind: 'superagent' })), ...T2.map((x) => ({ x, len: 1, kind: 'superagent' }))],
      },
      run(S, p) {
        const m = wrapper(S);
        const h = S.load('@api-ts/io-ts-http');
        const t = S.load('io-ts');
        const [path, parts] = p.x;
        const props = {};
        const value = {};
        for (const n of names(parts)) {
          props[n] = t.string;
          value[n] = S.str('val_' + n, { min: 1, max: p.len, alphabet: p.alphabet || ALPHA });
        }
        const wanted = parts.map((x) => (typeof x === 'string' ? x : x.length === 1 ? value[x[0]] : x.map((y, i) => (i % 2 ? value[y] : y)).join('')));
        for (const w of wanted) S.assume(w !== '.' && w !== '..');
        const { agent, reqs } = transport();
        const route = { path, method: 'GET', request: h.httpRequest({ params: props }), response: { 200: t.string } };
        const base = p.kind === 'superagent' ? S.pick('base', p.bases || BASES) : '';
        const factory = p.kind === 'superagent' ? m.superagentRequestFactory(agent, base) : m.supertestRequestFactory(agent);
        m.buildApiClient(factory, { api: { get: route } }).api.get(value);
        const url = reqs[0].url;
        S.observe('url', url);
        const own = pathOf(url);
        S.check('nothing else becomes part of the path or the query', S.and(reqs.length === 1, own.length === url.length));
        const prefix = base === '' ? '' : base.endsWith('/') ? base.slice(0, -1) : base;
        S.check('the URL is under the base', own.startsWith(prefix + '/'));
        const segs = segments(own.slice(prefix.length + 1));
        S.check('the server reads each parameter back from its own place', S.eq(segs, wanted));
      },
    },
  ],
};
