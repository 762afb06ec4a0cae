'use strict';
const { METHODS, setup, probe, dispatch, mkRes } = require('./lib/ter');

module.exports = {
  assumptions: ['express runs the registered chain layer by layer through next()'],
  scenarios: [
    {
      name: 'handlers of an unchecked route',
      bounds: 'five methods, chain of 1-3 handlers each of which passes on or answers, with or without custom error options; any verdict of the request codec',
      labels: ['handlers run whatever the verdict', 'the handler sees the verdict itself', 'the router never answers'],
      cases: { quick: METHODS.map((method) => ({ method, n: 2 })), thorough: METHODS.map((method) => ({ method, n: 3 })) },
      run(S, p) {
        const { m, t, log } = setup(S);
        const ok = S.bool('valid');
        const errs = [{ value: 1, context: [], message: 'bad' }];
        const value = { v: S.int('value', 0, 9) };
        const req0 = { body: { b: 1 }, headers: { h: 'x' }, params: { p: 'y' }, query: { q: 'z' } };
        const codec = probe(S, t, 'Req', { decode: () => (ok ? t.success(value) : t.failures(errs)) });
        const route = { path: '/a', method: p.method.toUpperCase(), request: codec, response: { 200: t.unknown } };
        const custom = S.is(S.bool('custom'));
        const opts = custom ? { decodeErrorFormatter: () => ({ f: 1 }), getDecodeErrorStatusCode: () => 418 } : undefined;
        const events = [];
        const n = S.pick('n', Array.from({ length: p.n }, (_, i) => i + 1));
        const acts = Array.from({ length: n }, (_, i) => S.pick('act' + i, ['next', 'answer']));
        const seen = [];
        const handlers = acts.map((a, i) => (req, res, next) => {
          events.push('h' + i);
          seen.push({ req, decoded: req.decoded, send: typeof res.sendEncoded, api: req.apiName, route: req.httpRoute });
          if (a === 'next') next();
          else res.status(201).json('by handler');
        });
        const router = S.is(S.bool('level')) ? m.createRouter({ 'a.b': { [p.method]: route } }, opts || {}) : m.createRouter({ 'a.b': { [p.method]: route } });
        router[p.method + 'Unchecked']('a.b', handlers, custom ? opts : undefined);
        const res = mkRes(events);
        const mine = log.filter((x) => x.method);
        S.check('the route is registered once', mine.length === 1 && mine[0].method === p.method && mine[0].path === '/a');
        const out = dispatch(S, mine[0].chain, req0, res);
        const ran = acts.findIndex((a) => a !== 'next') + 1 || n;
        S.observe('events', events);
        S.check('handlers run whatever the verdict', events.filter((x) => x[0] === 'h').join() === Array.from({ length: ran }, (_, i) => 'h' + i).join());
        const valid = S.is(ok);
        for (const s of seen) S.check('the handler sees the verdict itself', S.and(s.req === req0, s.send === 'function', s.api === 'a.b', s.route === route, valid ? S.and(s.decoded._tag === 'Right', s.decoded.right === value) : S.and(s.decoded._tag === 'Left', s.decoded.left === errs)));
        const answered = acts[ran - 1] === 'answer';
        S.check('the router never answers', S.and(res.sent.length === (answered ? 1 : 0), answered ? res.sent[0].body === 'by handler' : out.left === 'end', out.errors === 0));
        S.check('the request codec is given the four parts once', S.and(codec.calls.validate.length === 1, S.eq(codec.calls.validate[0], { body: { b: 1 }, headers: { h: 'x' }, params: { p: 'y' }, query: { q: 'z' } })));
      },
    },
  ],
};
