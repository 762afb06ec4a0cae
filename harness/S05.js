'use strict';
const { wrapper, transport, segments, pathOf } = require('./lib/client');
const ew = require('./lib/ew');
const { mkCodec } = require('./lib/codecs');
const { dispatch, mkRes } = require('./lib/express');

// A lawful codec between integers and one-character strings, as parameters, queries and headers need
function strCodec(S, t, name, kind) {
  const lo = S.int(name + '.lo', 0, 4), hi = S.int(name + '.hi', 0, 4), off = S.int(name + '.off', 0, 5);
  const isV = (v) => typeof v === 'number' && lo <= v && v <= hi;
  const base = new t.Type(name, isV, (u, c) => {
    if (typeof u !== 'string' || u.length !== 1) return t.failure(u, c);
    const v = u.charCodeAt(0) - 48 - off;
    return isV(v) ? t.success(v) : t.failure(u, c);
  }, (v) => String.fromCharCode(v + 48 + off));
  base.isValue = isV;
  return kind === 'optional' ? Object.assign(S.load('@api-ts/io-ts-http').optional(base), { isValue: isV, optional: true }) : base;
}
const SHAPES = [{ params: ['p'], query: ['q'] }, { headers: ['h'], body: ['b'] }, { params: ['p'], body: ['b'] }, { query: ['q', 'r'] }, { body: ['b', 'c'] }];
module.exports = {
  assumptions: ['HTTP carries path, query strings, header strings (names case-insensitively) and JSON bodies as they are', 'express is the model of a router and response that the other checks use'],
  scenarios: [
    {
      name: 'round trip',
      bounds: 'a client and an express-wrapper or typed-express-router server of one specification: GET and POST, for some also PUT, DELETE and PATCH; requests of 1-3 properties over the four parts, required or optional, every value of the declared types; results of two declared statuses or an undeclared one, members of the declared type or not',
      labels: ['the handler receives what the client was given', 'the client receives what the handler returned', 'an ill-typed result reaches the client as an error'],
      cases: { quick: SHAPES.flatMap((shape) => ['express-wrapper', 'typed-express-router'].map((server) => ({ shape, server }))).concat(['express-wrapper', 'typed-express-router'].map((server) => ({ shape: { body: ['b'] }, server, methods: ['put', 'delete', 'patch'] }))), thorough: [...SHAPES.flatMap((shape) => ['express-wrapper', 'typed-express-router'].map((server) => ({ shape, server, methods: ['put', 'delete', 'patch'] }))), ...[...SHAPES, { params: ['p'], query: ['q'], body: ['b'] }, { params: ['p'], query: ['q'], headers: ['h'], body: ['b'] }].flatMap((shape) => ['express-wrapper', 'typed-express-router'].map((server) => ({ shape, server })))] },
      async run(S, p) {
        const env = ew.setup(S);
        const { t, h, log } = env;
        const sup = wrapper(S);
        const props = {};
        const value = {};
        for (const part of Object.keys(p.shape)) {
          props[part] = {};
          for (const n of p.shape[part]) {
            const kind = part === 'params' ? 'required' : S.pick('kind_' + n, ['required', 'optional']);
            const c = part === 'body' ? mkCodec(S, t, n, kind) : strCodec(S, t, n, kind);
            props[part][n] = c;
            if (kind === 'optional' && S.is(S.bool('absent_' + n))) continue;
            const v = S.int('v_' + n, -8, 9);
            S.assume(part === 'body' ? c.spec.isValue(v) : c.isValue(v));
            value[n] = v;
          }
        }
        const out200 = mkCodec(S, t, 'out200', 'required');
        const out404 = t.type({ why: mkCodec(S, t, 'out404', 'required') });
        const path = p.shape.params ? '/x/{p}/y' : '/x';
        const method = S.pick('method', p.methods || ['get', 'post']);
        const route = { path, method: method.toUpperCase(), request: h.httpRequest(props), response: { 200: out200, 404: out404 } };
        const spec = { 'my.api': { [method]: route } };
        const status = S.pick('status', [200, 404, 500]);
        const x = S.int('x', -8, 12);
        const payload = status === 404 ? { why: x } : x;
        const got = [];
        const keyed = S.is(S.bool('keyed'));
        if (p.server === 'express-wrapper') env.m.routerForApiSpec({ spec, routeHandlers: { 'my.api': { [method]: async (input) => { got.push(input); return { type: keyed && status === 200 ? 'ok' : status, payload }; } } } });
        else S.load('@api-ts/typed-express-router').createRouter(spec)[method]('my.api', [(req, res) => { got.push(req.decoded); res.sendEncoded(status, payload); }]);
        const reg = log.filter((r) => r.method)[0];
        const { agent } = transport(async (r) => {
          try {
            const own = pathOf(r.url);
            const have = segments(own), pattern = segments(reg.path);
            const params = {};
            let match = have.length === pattern.length && r.method === reg.method;
            if (match) pattern.forEach((s, i) => { if (s[0] === ':') params[s.slice(1)] = have[i]; else if (have[i] !== s) match = false; });
            S.check('the request matches the route', match);
            const headers = {};
            for (const k of Object.keys(r.headers)) headers[k.toLowerCase()] = String(r.headers[k]);
            const req = { method: r.method.toUpperCase(), url: r.url, params, query: Object.assign({}, ...r.query_), headers, body: r.sent.length ? JSON.parse(r.sent[0]) : {} };
            const res = mkRes([]);
            dispatch(S, reg.chain, req, res);
            await S.settle();
            S.check('the request is answered once', res.sent.length === 1);
            const s = res.sent[0];
            const text = s.body === undefined ? '' : JSON.stringify(s.body);
            r.resolve({ status: s.status, text, body: text === '' ? {} : JSON.parse(text) });
          } catch (e) { r.reject(e); }
        });
        const client = sup.buildApiClient(sup.supertestRequestFactory(agent), spec);
        const answer = await client['my.api'][method](value).decode();
        S.check('the handler receives what the client was given', S.and(got.length === 1, S.eq(got[0], value)));
        S.observe('answer', [answer.status, answer.body]);
        const member = status === 200 ? S.is(out200.spec.isValue(x)) : status === 404 ? S.is(out404.is(payload)) : false;
        if (member) S.check('the client receives what the handler returned', S.and(answer.status === status, S.eq(answer.body, payload)));
        else S.check('an ill-typed result reaches the client as an error', answer.status === 'decodeError');
      },
    },
  ],
};
