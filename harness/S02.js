'use strict';
const { wrapper, transport } = require('./lib/client');
const { build, value } = require('./lib/request');
const { probe } = require('./lib/ter');
const SHAPES = [{}, { query: ['a', 'b'] }, { headers: ['a', 'b'] }, { body: ['a', 'b'] }, { query: ['a'], headers: ['b'] }, { query: ['a'], body: ['b'] }, { params: ['a'], body: ['b'] }, { headers: ['a'], body: ['b'] }];
const MORE = [{ query: ['a'], headers: ['b'], body: ['c'] }, { params: ['a'], query: ['b'], headers: ['c'], body: ['d'] }];
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  assumptions: ['the HTTP client joins the objects given to query() and the headers given to set(), and sends what was last given to send()', 'no route declares a content-type header of its own'],
  scenarios: [
    {
      name: 'what is sent',
      bounds: 'request codecs of 0-2 (thorough: 4) properties over the four parts, required, optional, union or defaulted, and every value of their type; five methods; superagent and supertest',
      labels: ['each part goes where it belongs', 'a body is JSON and labelled so', 'no body is sent when there is none', 'no status is treated as a failure'],
      cases: { quick: SHAPES.map((shape, i) => ({ shape, method: METHODS[i % 5] })), thorough: [...SHAPES, ...MORE].flatMap((shape) => METHODS.map((method) => ({ shape, method }))) },
      run(S, p) {
        const m = wrapper(S);
        const { codec, specs, t } = build(S, p.shape, Object.keys(p.shape).length > 2 ? ['required', 'optional'] : ['required', 'optional', 'union']);
        const v = value(S, p.shape, specs);
        const { agent, reqs } = transport();
        const route = { path: '/x/{a}', method: p.method.toUpperCase(), request: codec, response: { 200: t.unknown } };
        const kind = S.pick('kind', ['superagent', 'supertest']);
        const factory = kind === 'superagent' ? m.superagentRequestFactory(agent, 'http://h') : m.supertestRequestFactory(agent);
        const made = m.buildApiClient(factory, { api: { [p.method]: route } }).api[p.method](v);
        const wire = codec.encode(v);
        const r = reqs[0];
        S.check('one request with the route\'s method', reqs.length === 1 && r.method === p.method && r.agent);
        const heads = {};
        for (const k of Object.keys(r.headers)) heads[k.toLowerCase()] = r.headers[k];
        S.observe('query', r.query_);
        S.observe('sent', r.sent);
        const body = wire.body;
        const ct = heads['content-type'];
        delete heads['content-type'];
        S.observe('headers', [heads, ct]);
        S.check('each part goes where it belongs', S.and(S.eq(Object.assign({}, ...r.query_), wire.query), S.eq(heads, wire.headers || {})));
        if (body === undefined) S.check('no body is sent when there is none', S.and(r.sent.length === 0, ct === undefined));
        else S.check('a body is JSON and labelled so', S.and(r.sent.length === 1, ct === 'application/json', typeof r.sent[0] === 'string', r.sent.length === 1 ? S.eq(JSON.parse(r.sent[0]), body) : false));
        S.check('no status is treated as a failure', S.and(r.okCalls.length >= 1, r.okCalls.length >= 1 ? r.okCalls[r.okCalls.length - 1]({ status: S.int('status', 100, 599) }) === true : false));
        S.check('the request is not sent before it is decoded', r.thens === 0 && typeof made.decode === 'function' && typeof made.decodeExpecting === 'function');
      },
    },
    {
      name: 'any encoded request',
      bounds: 'codecs with arbitrary JSON bodies, falsy ones, big integers and nested values included; header and query values arbitrary',
      labels: ['the body is sent as it is', 'big integers are sent as decimal strings'],
      cases: { quick: [{ depth: 1 }], thorough: [{ depth: 2 }] },
      run(S, p) {
        const m = wrapper(S);
        const t = S.load('io-ts');
        const { agent, reqs } = transport();
        const big = S.is(S.bool('big'));
        const n = S.pick('bigint', [0n, -1n, 12345678901234567890n]);
        const body = big ? S.pick('where', ['top', 'prop', 'elem']) : null;
        const wireBody = big ? (body === 'top' ? n : body === 'prop' ? { a: n, b: { c: n } } : [n, 1]) : S.any('body', { depth: p.depth, keys: ['a'], arr: 1, int: [-3, 12], str: { max: 2, alphabet: 'a"\\é' } });
        const q = { q: S.str('q', { max: 2, alphabet: 'a&= ' }), qs: [S.str('qs', { max: 1, alphabet: 'a&' }), 'z'] };
        const h = { 'x-h': S.str('h', { max: 2, alphabet: 'ab:' }) };
        const enc = { params: {}, query: q, headers: h, body: wireBody };
        if (!big && wireBody === undefined && S.is(S.bool('gone'))) delete enc.body;
        if (S.is(S.bool('noheaders'))) delete enc.headers;
        const route = { path: '/x', method: 'PATCH', request: probe(S, t, 'r', { decode: t.success, encode: () => enc }), response: {} };
        m.buildApiClient(m.supertestRequestFactory(agent), { api: { patch: route } }).api.patch({});
        const r = reqs[0];
        S.observe('sent', r.sent);
        S.check('query and headers are sent as they are', S.and(S.eq(Object.assign({}, ...r.query_), q), 'headers' in enc ? S.and(r.headers['x-h'] === h['x-h']) : !('x-h' in r.headers)));
        if (big) {
          const s = String(n);
          S.check('big integers are sent as decimal strings', S.and(r.sent.length === 1, S.eq(JSON.parse(r.sent[0]), body === 'top' ? s : body === 'prop' ? { a: s, b: { c: s } } : [s, 1])));
        } else if (wireBody === undefined) S.check('nothing is sent for a missing body', r.sent.length === 0);
        else S.check('the body is sent as it is', S.and(r.sent.length === 1, r.sent.length === 1 ? S.eq(JSON.parse(r.sent[0]), JSON.parse(JSON.stringify(wireBody))) : false));
      },
    },
    require('./lib/clientseveral'),
  ],
};
