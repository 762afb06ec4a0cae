'use strict';
const { setup, probe, dispatch, mkRes } = require('./lib/ter');

module.exports = {
  assumptions: ['the response model refuses to send twice, as express does'],
  scenarios: [
    {
      name: 'after the response',
      bounds: 'hook given for the router, for the route, for both or not at all; it may throw; any payload verdict, failing encoders, statuses by code or name; one or two responses attempted',
      labels: ['the hook runs once after a successful response', 'the hook does not run for an encoding error', 'a failing hook cannot change the response', 'the route hook replaces the router hook'],
      cases: { quick: [{ checked: true }, { checked: false }], thorough: [{ checked: true }, { checked: false }] },
      run(S, p) {
        const { m, t, log } = setup(S);
        const member = S.is(S.bool('member'));
        const encodeFails = S.is(S.bool('encodeFails'));
        const hookFails = S.is(S.bool('hookFails'));
        const payload = { pay: S.int('payload', 0, 9) };
        const response = { ok: probe(S, t, 'ok', { decode: t.success, is: () => member, encode: (a) => { if (encodeFails) throw new Error('encode'); return { e: a.pay }; } }), 404: t.unknown };
        const status = S.pick('status', ['ok', 404, 500]);
        const req0 = { body: {}, headers: {}, params: {}, query: {} };
        const events = [];
        const hooks = [];
        const errs = [];
        const res = mkRes(events);
        const hook = (name) => (...a) => { hooks.push({ name, a, sent: res.sent.length, finished: res.finished }); if (hookFails) throw new Error('hook'); };
        const where = S.pick('where', ['none', 'router', 'route', 'both']);
        const ropts = { encodeErrorFormatter: () => { errs.push('f'); return { err: 1 }; }, getEncodeErrorStatusCode: () => { errs.push('s'); return 503; } };
        if (where === 'router' || where === 'both') ropts.afterEncodedResponseSent = hook('router');
        const oopts = where === 'route' || where === 'both' ? { afterEncodedResponseSent: hook('route') } : undefined;
        const router = m.createRouter({ api: { get: { path: '/', method: 'GET', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response } } }, ropts);
        router[p.checked ? 'get' : 'getUnchecked']('api', [(req, r) => { r.sendEncoded(status, payload); }], oopts);
        dispatch(S, log[0].chain, req0, res);
        const fine = status === 404 || (status === 'ok' && member && !encodeFails);
        S.observe('sent', res.sent);
        S.observe('hooks', hooks.length);
        const code = status === 'ok' ? 200 : 404;
        if (fine) {
          S.check('the hook runs once after a successful response', hooks.length === (where === 'none' ? 0 : 1));
          for (const h of hooks) {
            S.check('the hook sees the finished response', S.and(h.sent === 1, h.finished === true));
            S.check('the hook is given the status code, the payload as sent by the handler, the request and the response', S.and(h.a[0] === code, h.a[1] === payload, h.a[2] === req0, h.a[3] === res));
            S.check('the route hook replaces the router hook', h.name === (where === 'both' ? 'route' : where));
          }
          S.check('a failing hook cannot change the response', S.and(res.sent.length === 1, res.sent.length === 1 ? S.and(res.sent[0].status === code, S.eq(res.sent[0].body, status === 'ok' ? { e: payload.pay } : payload)) : false, res.statusCode === code));
          S.check('a sent response is not treated as an encoding error', errs.length === 0);
        } else {
          S.check('the hook does not run for an encoding error', hooks.length === 0);
          S.check('one error response', S.and(res.sent.length === 1, res.sent.length === 1 ? S.and(res.sent[0].status === 503, S.eq(res.sent[0].body, { err: 1 })) : false));
        }
      },
    },
  ],
};
