'use strict';
// Several routers and several requests: what a router keeps between its requests, and what routers of one specification
// or around one express router share, must never show in what a request is given or answered with.
const { setup, probe, dispatch, mkRes, mkRouter } = require('./ter');

module.exports = {
  name: 'several routers, one request after another',
  bounds: 'two routers of one specification, two around the same express router, or one with a route under two names; each with its own options, middleware and handlers, checked or not, one with an alias; up to three (thorough: four) requests to them in any order, each valid or not, the same request object and the same body or new ones, answered or passed on',
  labels: ['a request is decoded from its own parts and meets its own handlers', 'a request meets the middleware of its own router', 'a request is answered with its own value under the options of its own router'],
  cases: {
    quick: ['one specification', 'one express router', 'one route'].flatMap((how) => [{ how, checked: true, n: 2 }, { how, checked: false, n: 2 }]).concat({ how: 'one specification', checked: true, n: 3, few: true }),
    thorough: ['one specification', 'one express router', 'one route'].flatMap((how) => [{ how, checked: true, n: 3 }, { how, checked: false, n: 3 }]).concat({ how: 'one specification', checked: true, n: 4, few: true }),
  },
  run(S, p) {
    const { m, t, log } = setup(S);
    const events = [];
    const codec = probe(S, t, 'Req', { decode: (u) => (u.params.valid ? t.success({ id: u.params.id, b: u.body.b }) : t.failures([{ value: u.params.id, context: [], message: 'bad' }])) });
    const out = () => probe(S, t, 'Res', { decode: t.success, is: (v) => v.fine, encode: (v) => ['encoded', v.id] });
    const route = () => ({ path: '/one/{id}', method: 'POST', request: codec, response: { 200: out() } });
    const options = (k) => ({
      decodeErrorFormatter: (e, r) => ({ by: k, value: e[0].value, id: r.params.id }), getDecodeErrorStatusCode: () => 410 + k,
      encodeErrorFormatter: (e, r) => ({ failed: k, id: r.params.id }), getEncodeErrorStatusCode: () => 510 + k,
      afterEncodedResponseSent: (status, payload, req) => { events.push(['hook', k, status, payload.id, req.params.id]); },
    });
    const r0 = route();
    const verb = p.checked ? 'post' : 'postUnchecked';
    const shared = p.how === 'one route';
    const spec = shared ? { a: { post: r0 }, b: { post: r0 } } : { a: { post: r0 } };
    const express = p.how === 'one express router' ? mkRouter(log) : undefined;
    const make = (k) => (express ? m.wrapRouter(express, p.few ? spec : k === 0 ? spec : { a: { post: route() } }, options(k)) : m.createRouter(spec, shared ? {} : options(k)));
    const routers = shared ? [make(0)] : [make(0), make(1)];
    const chains = [];
    const handler = (k, i) => (req, res, next) => {
      events.push(['handler', k, i, req.decoded, req.apiName, req.httpRoute === spec.a.post || express !== undefined]);
      if (i === 0 || !req.answer) next(); else res.sendEncoded(200, { id: req.params.id, fine: req.params.fine });
    };
    const middleware = (k) => (req, res, next) => { events.push(['middleware', k, req.decoded]); next(); };
    const add = (k) => {
      const before = log.length;
      const o = shared ? options(k) : {};
      routers[shared ? 0 : k][verb](shared && k === 1 ? 'b' : 'a', [handler(k, 0), handler(k, 1)], k === 0 ? Object.assign(o, { routeAliases: ['/old/:id'] }) : shared ? o : undefined);
      for (const x of log.slice(before)) if (x.method) chains.push({ k, chain: x.chain });
    };
    const mine = p.few || S.is(S.bool('middleware'));
    if (mine) { routers[0].use(middleware(0)); if (!shared) routers[1].use(middleware(1)); }
    if (S.is(S.bool('second first'))) { add(1); add(0); } else { add(0); add(1); }
    S.check('a registration per route and alias', chains.length === 3 && chains.filter((c) => c.k === 0).length === 2);
    let req;
    for (let n = 0; n < p.n; n++) {
      const c = chains[S.pick('to' + n, p.few ? [0, 1, 2] : n === 0 ? [0, 2] : [0, 1, 2])];
      const valid = S.bool('valid' + n), fine = S.bool('fine' + n);
      const id = S.int('id' + n, 0, 9), b = S.int('b' + n, 0, 9);
      const answer = p.few || S.is(S.bool('answer' + n));
      const params = { id, valid, fine };
      const how = n === 0 ? 'new' : S.pick('request' + n, p.few ? ['new', 'again'] : ['new', 'again', 'same body', 'same parts']);
      // what the request now holds
      if (how === 'new') req = { body: { b }, headers: {}, params, query: {} };
      else if (how === 'same body') req = { body: req.body, headers: {}, params, query: {} };
      else if (how === 'same parts') Object.assign(req.params, params);
      else Object.assign(req, { params, body: { b } });
      req.answer = answer;
      const holds = req.body.b;
      events.length = 0;
      const res = mkRes([]);
      const left = dispatch(S, c.chain, req, res);
      const ok = S.is(valid);
      S.observe('events', events.map((e) => e.slice(0, 2).join(' ')));
      S.observe('sent', res.sent.map((x) => x.status));
      const runs = ok || !p.checked;
      const value = { id, b: holds };
      const sees = (d) => (ok ? S.and(d._tag === 'Right', S.eq(d.right, value)) : S.and(d._tag === 'Left', S.eq(d.left[0].value, id)));
      const hs = events.filter((e) => e[0] === 'handler'), ms = events.filter((e) => e[0] === 'middleware'), ks = events.filter((e) => e[0] === 'hook');
      S.check('a request is decoded from its own parts and meets its own handlers', S.and(hs.length === (runs ? 2 : 0), ...hs.map((e, i) => S.and(e[1] === c.k, e[2] === i, p.checked ? S.eq(e[3], value) : sees(e[3]), e[4] === (shared && c.k === 1 ? 'b' : 'a'), e[5]))));
      if (mine) S.check('a request meets the middleware of its own router', S.and(ms.length === 1, ms.length === 1 && S.and(ms[0][1] === (shared ? 0 : c.k), sees(ms[0][2]))));
      const want = !runs ? { how: 'json', status: 410 + c.k, body: { by: c.k, value: id, id } } : !answer ? undefined : S.is(fine) ? { how: 'json', status: 200, body: ['encoded', id] } : { how: 'json', status: 510 + c.k, body: { failed: c.k, id } };
      S.check('a request is answered with its own value under the options of its own router', S.and(left.errors === 0, S.eq(res.sent, want === undefined ? [] : [want]), S.eq(ks, want !== undefined && want.status === 200 ? [['hook', c.k, 200, id, id]] : []), (left.left === 'end') === (runs && !answer)));
    }
  },
};
