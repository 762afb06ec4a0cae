'use strict';
// Several servers and several requests: what is kept between requests, and what servers of one specification share, must
// never show in what a handler is given or a request is answered with.
const { setup, probe, mkRes } = require('./ew');
const { dispatch } = require('./express');

module.exports = {
  name: 'several servers, one request after another',
  bounds: 'two routers of one specification, of two that share the route, or of two whose routes have one handler; handlers plain, with middleware of their own or with one in common; options of their own; up to three (thorough: four) requests to them in any order, each valid or not, the same request object and body or new ones, answered under one of two responses, one by one or all under way at once and finished in either order',
  labels: ['a handler is given what its own request holds', 'a request is answered by its own handler under the options of its own router'],
  cases: {
    quick: ['one specification', 'one route', 'one handler'].flatMap((how) => [{ how, n: 2 }, { how, n: 2, overlap: true }]).concat({ how: 'one specification', n: 3, few: true }),
    thorough: ['one specification', 'one route', 'one handler'].flatMap((how) => [{ how, n: 3 }, { how, n: 3, overlap: true }, { how, n: 4, few: true }]),
  },
  async run(S, p) {
    const env = setup(S);
    const { m, t, log } = env;
    const own = p.how === 'one handler';
    const route = (k) => ({ path: '/one/{id}', method: 'POST', request: probe(S, t, 'Req', { decode: (u) => (u.params.valid ? t.success({ id: u.params.id, b: u.body.b, via: k }) : t.failures([{ value: u.params.id, context: [], message: 'bad' + k }])) }),
      response: { 200: probe(S, t, 'Res', { decode: t.success, encode: (v) => ['encoded' + k, v] }), 404: probe(S, t, 'Res404', { decode: t.success, encode: (v) => ['none' + k, v] }) } });
    const r0 = route(0);
    const s0 = { a: { post: r0 } };
    const specs = p.how === 'one specification' ? [s0, s0] : [s0, { b: { post: own ? route(1) : r0 } }];
    const via = (k) => (own ? k : 0);
    let seen = [];
    const pending = [];
    const ends = (v) => (p.overlap ? new Promise((ok) => { pending.push(() => ok(v)); }) : Promise.resolve(v));
    const fn = (k) => (input) => { seen.push([k, input]); return ends({ type: input.b === 0 ? 404 : 200, payload: { by: k, id: input.id } }); };
    const form = p.overlap || p.few ? 'middleware' : S.pick('handlers', ['plain', 'middleware', 'one middleware']);
    const mw = () => m.middlewareFn(async (req) => ({ extra: req.params.id }));
    const one = mw();
    const handler = (k) => (form === 'plain' ? fn(k) : m.routeHandler({ middleware: [form === 'middleware' ? mw() : one], handler: fn(k) }));
    const hs = [handler(0)];
    hs.push(own ? hs[0] : handler(1));
    const by = (k) => (own ? 0 : k);
    const chains = [];
    for (const k of S.is(S.bool('second first')) ? [1, 0] : [0, 1]) {
      const before = log.length;
      m.routerForApiSpec({ spec: specs[k], routeHandlers: { [Object.keys(specs[k])[0]]: { post: hs[k] } }, decodeErrorFormatter: (e, r) => ({ by: k, value: e[0].value, message: e[0].message, id: r.params.id }), getDecodeErrorStatusCode: () => 410 + k });
      const regs = log.slice(before).filter((x) => x.method);
      S.check('every router registers its routes', regs.length === 1);
      chains[k] = regs[0].chain;
    }
    const want = (x) => (x.ok ? { how: 'json', status: x.b === 0 ? 404 : 200, body: [(x.b === 0 ? 'none' : 'encoded') + via(x.k), { by: by(x.k), id: x.id }] } : { how: 'json', status: 410 + x.k, body: { by: x.k, value: x.id, message: 'bad' + via(x.k), id: x.id } });
    const given = (x) => [by(x.k), Object.assign({ id: x.id, b: x.b, via: via(x.k) }, form === 'plain' ? {} : { extra: x.id })];
    const all = [];
    let req;
    for (let n = 0; n < p.n; n++) {
      const x = { k: S.pick('to' + n, [0, 1]), ok: S.is(S.bool('valid' + n)), id: S.int('id' + n, 0, 9), res: mkRes([]) };
      const b = S.is(S.bool('none' + n)) ? 0 : 1;
      const params = { id: x.id, valid: x.ok };
      const how = n === 0 || p.overlap ? 'new' : S.pick('request' + n, p.few ? ['new', 'again'] : ['new', 'again', 'same body', 'same parts']);
      if (how === 'new') req = { body: { b }, headers: {}, params, query: {} };
      else if (how === 'same body') req = { body: req.body, headers: {}, params, query: {} };
      else if (how === 'same parts') Object.assign(req.params, params);
      else Object.assign(req, { params, body: { b } });
      x.b = req.body.b;
      if (!p.overlap) seen = [];
      x.out = dispatch(S, chains[x.k], req, x.res);
      all.push(x);
      if (p.overlap) continue;
      await S.settle();
      S.check('a handler is given what its own request holds', S.eq(seen, x.ok ? [given(x)] : []));
    }
    if (p.overlap) {
      await S.settle();
      const valid = all.filter((x) => x.ok);
      S.check('a handler is given what its own request holds', S.and(pending.length === valid.length, S.eq(seen, valid.map(given))));
      while (pending.length) { pending.splice(S.pick(`finish${pending.length}`, pending.map((_, i) => i)), 1)[0](); await S.settle(); }
    }
    for (const x of all) {
      S.observe('sent', x.res.sent.map((y) => y.status));
      S.check('a request is answered by its own handler under the options of its own router', S.and(x.out.errors === 0, S.eq(x.res.sent, [want(x)])));
    }
  },
};
