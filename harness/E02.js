'use strict';
const { setup, one, send, probe, mkRes } = require('./lib/ew');
const KINDS = ['plain', 'fn'];
const ACTS = { plain: ['next', 'later', 'answer', 'nexterr', 'throw', 'twice'], fn: ['result', 'result', 'empty', 'reject', 'throw'] };

module.exports = {
  assumptions: ['a middleware calls next() at most with undefined or an error that is neither null nor undefined'],
  scenarios: [
    {
      name: 'middleware chain of a route',
      bounds: '0-2 (thorough: 3) middlewares, plain or value-producing, passing on at once or later, once or twice, answering, failing or throwing; results with any of three keys and arbitrary values; routes with and without routeHandler',
      labels: ['the handler runs exactly when every middleware passes on', 'middleware runs in order, one after the other', 'the handler sees the request with what the middleware added', 'without routeHandler nothing is added', 'the decoded request is left alone'],
      cases: {
        quick: [0, 1, 2].flatMap((n) => [true, false].flatMap((brand) => (n === 2 ? ['plain', 'fn'] : [null]).map((first) => ({ n, brand, first })))),
        thorough: [0, 1, 2, 3].flatMap((n) => [true, false].flatMap((brand) => (n >= 2 ? ['plain', 'fn'].flatMap((a) => ['plain', 'fn'].map((b) => [a, b])) : [[null, null]]).map(([first, second]) => ({ n, brand, first, second })))),
      },
      async run(S, p) {
        const env = setup(S);
        const { t, m } = env;
        const decoded = { a: S.int('da', 0, 9), b: S.int('db', 0, 9) };
        const want = Object.assign({}, decoded);
        const before = Object.assign({}, decoded);
        const trace = [];
        const expectTrace = [];
        let alive = true;
        const middleware = [];
        for (let i = 0; i < p.n; i++) {
          const kind = S.pick('kind' + i + (p['first second third'.split(' ')[i]] || ''), (i === 0 && p.first) || (i === 1 && p.second) ? [i === 0 ? p.first : p.second] : KINDS);
          const act = S.pick(`act_${kind}_${i}`, kind === 'plain' ? ACTS.plain : ACTS.fn.slice(1));
          const value = {};
          if (act === 'result') for (const k of ['a', 'c', 'd']) if (S.is(S.bool(`gives_${i}_${k}`))) value[k] = S.int(`v_${i}_${k}`, 10, 99);
          if (alive) {
            expectTrace.push('start' + i);
            if (['answer', 'nexterr', 'throw', 'reject'].includes(act)) alive = false;
            else if (p.brand) Object.assign(want, value);
            if (act === 'later' || kind === 'fn' && act !== 'throw' && act !== 'reject') expectTrace.push('done' + i);
          }
          if (kind === 'plain') middleware.push((req, res, next) => {
            trace.push('start' + i);
            if (act === 'next') next();
            if (act === 'later') Promise.resolve().then(() => { trace.push('done' + i); next(); });
            if (act === 'answer') res.status(401).json('stop');
            if (act === 'nexterr') next(new Error('mw'));
            if (act === 'throw') throw new Error('mw');
            if (act === 'twice') { next(); next(); }
          });
          else middleware.push(m.middlewareFn(act === 'throw' ? () => { trace.push('start' + i); throw new Error('mw'); } : async () => {
            trace.push('start' + i);
            await undefined;
            if (act === 'reject') throw new Error('mw');
            trace.push('done' + i);
            return value;
          }));
        }
        const got = [];
        const handler = (input) => { got.push(input); trace.push('handler'); return { type: 200, payload: 1 }; };
        const rh = p.brand ? (p.n === 0 && S.is(S.bool('noMiddleware')) ? m.routeHandler({ handler }) : m.routeHandler({ middleware, handler })) : (p.n === 0 && S.is(S.bool('bare')) ? handler : { middleware, handler });
        const chain = one(S, env, { path: '/', method: 'PUT', request: probe(S, t, 'Req', { decode: () => t.success(decoded) }), response: { 200: t.unknown } }, rh);
        const res = mkRes([]);
        await send(S, chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        if (alive) expectTrace.push('handler');
        S.observe('trace', trace);
        S.check('the handler runs exactly when every middleware passes on', got.length === (alive ? 1 : 0));
        S.check('middleware runs in order, one after the other', trace.join() === expectTrace.join());
        if (alive) {
          S.check(p.brand ? 'the handler sees the request with what the middleware added' : 'without routeHandler nothing is added', S.eq(got[0], p.brand ? want : before));
          S.check('a request that passes is answered by its handler', S.and(res.sent.length === 1, S.eq(res.sent[0], { how: 'json', status: 200, body: 1 })));
        }
        S.check('the decoded request is left alone', S.eq(decoded, before));
      },
    },
    require('./lib/ewseveral'),
  ],
};
