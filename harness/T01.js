'use strict';
const { METHODS, setup, probe, dispatch, mkRes } = require('./lib/ter');
const { build, input, expected } = require('./lib/request');

module.exports = {
  assumptions: ['express runs the registered chain layer by layer through next(), and refuses to send a response twice'],
  scenarios: [
    {
      name: 'handlers of a checked route',
      bounds: 'five methods, created or wrapped router, chain of 1-3 handlers each of which passes on, answers, throws or fails through next(err), or a custom error formatter and status; any verdict of the request codec',
      labels: ['handlers run exactly when the request is valid', 'a rejected request is answered once, with the formatted errors', 'handlers run in order, each at most once', 'a valid request is not answered by the router itself'],
      cases: { quick: METHODS.map((method) => ({ method, n: method === 'post' ? 3 : 2 })), thorough: METHODS.map((method) => ({ method, n: 3 })) },
      run(S, p) {
        const { m, t, log, made } = setup(S);
        const ok = S.bool('valid');
        const errs = [{ value: 1, context: [], message: 'bad' }, { value: 2, context: [], message: 'worse' }];
        const value = { v: S.int('value', 0, 9) };
        const req0 = { body: { b: S.int('body', 0, 9) }, headers: { h: 'x' }, params: { p: 'y' }, query: { q: 'z' }, cookies: 1 };
        const codec = probe(S, t, 'Req', { decode: () => (ok ? t.success(value) : t.failures(errs)) });
        const route = { path: '/a/{id}', method: p.method.toUpperCase(), request: codec, response: { 200: t.unknown } };
        const status = S.int('status', 400, 599);
        const custom = S.is(S.bool('custom'));
        const opts = custom ? { decodeErrorFormatter: (e, r) => ({ count: e.length, same: r === req0 }), getDecodeErrorStatusCode: (e, r) => (e.length === 2 && r === req0 ? status : 0) } : {};
        const events = [];
        const n = S.pick('n', Array.from({ length: p.n }, (_, i) => i + 1));
        const acts = Array.from({ length: n }, (_, i) => S.pick('act' + i + '_' + n, i === n - 1 || i === 0 ? ['next', 'answer', 'throw', 'nexterr'] : ['next', 'answer']));
        const seen = [];
        const handlers = acts.map((a, i) => (req, res, next) => {
          events.push('h' + i);
          seen.push({ req, decoded: req.decoded, send: typeof res.sendEncoded });
          if (a === 'next') next();
          else if (a === 'answer') res.status(201).json('by handler');
          else if (a === 'throw') throw new Error('from handler');
          else next(new Error('from handler'));
        });
        const wrap = S.is(S.bool('wrap'));
        const spec = { 'a.b': { [p.method]: route } };
        const router = wrap ? m.wrapRouter(setupRouter(log), spec, opts) : m.createRouter(spec, opts);
        router[p.method]('a.b', handlers);
        const res = mkRes(events);
        const mine = log.filter((x) => x.method);
        S.check('the route is registered once', mine.length === 1 && mine[0].method === p.method);
        const out = dispatch(S, mine[0].chain, req0, res);
        const valid = S.is(ok);
        const ran = valid ? acts.findIndex((a) => a !== 'next') + 1 || n : 0;
        S.observe('events', events);
        S.observe('sent', res.sent);
        S.check('handlers run exactly when the request is valid', seen.length === ran);
        S.check('handlers run in order, each at most once', events.filter((x) => x[0] === 'h').join() === Array.from({ length: ran }, (_, i) => 'h' + i).join());
        for (const s of seen) S.check('a handler sees the decoded request and can send', S.and(s.req === req0, s.decoded === value, s.send === 'function'));
        const last = valid ? acts[ran - 1] : null;
        if (!valid) {
          S.check('a rejected request is answered once, with the formatted errors', S.and(res.sent.length === 1, out.errors === 0, out.left === undefined,
            res.sent.length === 1 ? (custom ? S.and(res.sent[0].status === status, S.eq(res.sent[0].body, { count: 2, same: true })) : S.and(res.sent[0].status === 400, S.eq(res.sent[0].body, ['bad', 'worse']))) : false));
        } else {
          S.check('a valid request is not answered by the router itself', S.and(res.sent.length === (last === 'answer' ? 1 : 0), last === 'answer' ? res.sent[0].body === 'by handler' && res.sent[0].status === 201 : true));
          S.check('failures of handlers reach express', out.errors === (last === 'throw' || last === 'nexterr' ? 1 : 0));
          S.check('a chain that passes on leaves the route', (out.left === 'end') === (last === 'next'));
        }
        S.check('the request codec is given the four parts once', S.and(codec.calls.validate.length === 1, codec.calls.validate.length === 1 ? S.eq(codec.calls.validate[0], { body: req0.body, headers: { h: 'x' }, params: { p: 'y' }, query: { q: 'z' } }) : false));
        S.observe('made', made.length);
      },
    },
    {
      name: 'requests of a real codec',
      bounds: 'request codecs of one declared property per part (1-2 parts, thorough up to 4); every property absent, undefined, null or a number',
      labels: ['the handler gets exactly what the declaration says', 'an invalid request never reaches the handler'],
      cases: {
        quick: [{ shape: { params: ['a'], query: ['b'] } }, { shape: { headers: ['a'], body: ['b'] } }, { shape: { query: ['a'], body: ['b'] } }],
        thorough: [{ shape: { params: ['a'], query: ['b'] } }, { shape: { headers: ['a'], body: ['b'] } }, { shape: { params: ['a'], query: ['b'], body: ['c'] } }, { shape: { params: ['a'], query: ['b'], headers: ['c'], body: ['d'] } }],
      },
      run(S, p) {
        const { m, log } = setup(S);
        const { codec, specs, t } = build(S, p.shape, ['required', 'optional']);
        const inp = input(S, p.shape, { kinds: ['number', 'undefined'] });
        const method = S.pick('method', ['get', 'post']);
        const router = m.createRouter({ api: { [method]: { path: '/x', method: method.toUpperCase(), request: codec, response: { 200: t.unknown } } } });
        const got = [];
        router[method]('api', [(req, res) => { got.push(req.decoded); res.status(200).json('done'); }]);
        const events = [];
        const res = mkRes(events);
        const req = Object.assign({ url: '/x' }, inp);
        dispatch(S, log[0].chain, req, res);
        const e = expected(S, p.shape, specs, inp);
        S.observe('sent', res.sent.length ? res.sent[0].status : 'none');
        if (e.ok) S.check('the handler gets exactly what the declaration says', S.and(got.length === 1, got.length === 1 ? S.eq(got[0], e.value) : false, res.sent.length === 1, res.sent.length === 1 ? res.sent[0].status === 200 : false));
        else S.check('an invalid request never reaches the handler', S.and(got.length === 0, res.sent.length === 1, res.sent.length === 1 ? S.and(res.sent[0].status === 400, Array.isArray(res.sent[0].body) && res.sent[0].body.length > 0) : false));
      },
    },
    require('./lib/terseveral'),
  ],
};
function setupRouter(log) { return require('./lib/express').mkRouter(log); }
