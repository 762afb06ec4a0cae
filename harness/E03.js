'use strict';
const { setup, one, send, probe, mkRes } = require('./lib/ew');

module.exports = {
  assumptions: ['what is thrown or passed to next() is neither null nor undefined'],
  scenarios: [
    {
      name: 'failures',
      bounds: 'a handler that throws, rejects or returns nonsense, a middleware that throws, rejects or fails through next(), after setting any status or answering or not; routes with and without routeHandler; six kinds of error value',
      labels: ['a failed request is answered once, as an error', 'a status set beforehand is kept if it is an error', 'a response already sent is left alone'],
      cases: { quick: ['handler', 'middleware'].flatMap((where) => [true, false].map((brand) => ({ where, brand }))), thorough: ['handler', 'middleware'].flatMap((where) => [true, false].map((brand) => ({ where, brand }))) },
      async run(S, p) {
        const env = setup(S);
        const { t, m } = env;
        const err = S.pick('err', [new Error('x'), 'text', 0, false, { status: 404 }, new TypeError('y')]);
        const before = S.pick('before', ['nothing', 'status', 'answer', 'start']);
        const code = S.int('code', 200, 599);
        const how = S.pick('how', p.where === 'handler' ? ['throw', 'reject', 'undefined', 'null', 'number', 'empty'] : p.brand ? ['throw', 'nexterr', 'reject'] : ['throw', 'nexterr', 'reject']);
        const prep = (res) => {
          if (before === 'status') res.status(code);
          if (before === 'answer') res.status(code).json('early');
          if (before === 'start') { res.status(code).json('early'); res.finished = false; }
        };
        const fail = (next) => {
          if (how === 'throw') throw err;
          if (how === 'nexterr') next(err);
        };
        const first = (req, res, next) => { prep(res); if (p.where === 'middleware') fail(next); else next(); };
        const rejecting = m.middlewareFn(async (req, res) => { prep(res); throw err; });
        const ran = [];
        const handler = p.where === 'handler' ? () => {
          ran.push('handler');
          if (how === 'throw') throw err;
          if (how === 'reject') return Promise.reject(err);
          return how === 'undefined' ? undefined : how === 'null' ? null : how === 'number' ? 7 : {};
        } : () => { ran.push('handler'); return { type: 200, payload: 1 }; };
        const middleware = [how === 'reject' && p.where === 'middleware' ? rejecting : first];
        const rh = p.brand ? m.routeHandler({ middleware, handler }) : { middleware, handler };
        const chain = one(S, env, { path: '/', method: 'DELETE', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response: { 200: t.unknown } }, rh);
        const res = mkRes([]);
        const out = await send(S, chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        S.observe('sent', res.sent);
        S.observe('ran', ran);
        S.check('failures stay inside the request', S.and(out.rejected === undefined, out.errors === 0));
        if (p.where === 'middleware') S.check('the handler does not run', ran.length === 0);
        S.check('a failed request is answered once', S.and(res.sent.length === 1, res.finished === true));
        const s = res.sent[0];
        if (before === 'answer' || before === 'start') S.check('a response already sent is left alone', S.and(s.status === code, s.body === 'early'));
        else {
          S.check('a failed request is answered once, as an error', S.and(s.status >= 400, s.body === undefined));
          const nonsense = ['undefined', 'null', 'number', 'empty'].includes(how);
          if (before === 'nothing' || nonsense && how !== 'undefined' && how !== 'null') S.check('it is a server error', s.status === 500);
          else if (before === 'status') S.check('a status set beforehand is kept if it is an error', S.and(S.implies(code >= 400, s.status === code), S.implies(code < 400, s.status === 500)));
        }
      },
    },
  ],
};
