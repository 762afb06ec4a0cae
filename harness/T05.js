'use strict';
const { setup, probe, dispatch, mkRes } = require('./lib/ter');
const LEVELS = ['none', 'router', 'route', 'both', 'undefined at route'];

module.exports = {
  assumptions: ['the response model refuses to send twice, as express does'],
  scenarios: [
    {
      name: 'choice of options',
      bounds: 'each of the five options given at the router, at the route, at both, at neither, or explicitly undefined at the route; created and wrapped routers; checked and unchecked routes; invalid requests, encoding errors and successful responses',
      labels: ['a route option wins over a router option over the default'],
      cases: {
        quick: [{ checked: true, wrap: false, what: 'decode' }, { checked: true, wrap: true, what: 'decode' }, { checked: true, wrap: false, what: 'encode' }, { checked: false, wrap: true, what: 'encode' }, { checked: true, wrap: true, what: 'sent' }, { checked: false, wrap: false, what: 'sent' }],
        thorough: [].concat(...['decode', 'encode', 'sent'].map((what) => [].concat(...[true, false].map((wrap) => [true, false].filter((c) => c || what !== 'decode').map((checked) => ({ checked, wrap, what })))))),
      },
      run(S, p) {
        const { m, t, log } = setup(S);
        const level = {};
        const OPTS = { decode: ['decodeErrorFormatter', 'getDecodeErrorStatusCode'], encode: ['encodeErrorFormatter', 'getEncodeErrorStatusCode'], sent: ['afterEncodedResponseSent'] };
        const ALL = [].concat(...Object.values(OPTS));
        const hooks = [];
        const router_ = {}, route_ = {};
        const value = { decodeErrorFormatter: (w) => () => ({ by: w, d: 1 }), encodeErrorFormatter: (w) => () => ({ by: w, e: 1 }), getDecodeErrorStatusCode: (w) => () => (w === 'router' ? 410 : 411), getEncodeErrorStatusCode: (w) => () => (w === 'router' ? 510 : 511), afterEncodedResponseSent: (w) => (st) => { hooks.push([w, st]); } };
        for (const o of ALL) {
          // the options under test are chosen freely, the others only as a pair
          level[o] = OPTS[p.what].includes(o) ? S.pick('level_' + o, LEVELS) : S.pick('level_others', ['none', 'both']);
          if (level[o] === 'router' || level[o] === 'both' || level[o] === 'undefined at route') router_[o] = value[o]('router');
          if (level[o] === 'route' || level[o] === 'both') route_[o] = value[o]('route');
          if (level[o] === 'undefined at route') route_[o] = undefined;
        }
        const codec = probe(S, t, 'Req', { decode: (u, c) => (p.what === 'decode' ? t.failures([{ value: 1, context: [], message: 'bad' }]) : t.success({})) });
        const spec = { api: { post: { path: '/', method: 'POST', request: codec, response: { 200: probe(S, t, 'Res', { decode: t.success, is: () => p.what !== 'encode' }) } } } };
        const router = p.wrap ? m.wrapRouter(require('./lib/express').mkRouter(log), spec, router_) : m.createRouter(spec, router_);
        router[p.checked ? 'post' : 'postUnchecked']('api', [(req, res) => res.sendEncoded(200, { x: 1 })], S.is(S.bool('noOptions')) && Object.keys(route_).length === 0 ? undefined : route_);
        const events = [];
        const res = mkRes(events);
        dispatch(S, log[0].chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        const by = (o) => (level[o] === 'both' || level[o] === 'route' ? 'route' : level[o] === 'none' ? 'default' : 'router');
        S.observe('sent', res.sent);
        const sent = res.sent[0];
        S.check('one response', res.sent.length === 1);
        const L = 'a route option wins over a router option over the default';
        if (p.what === 'decode') {
          const f = by('decodeErrorFormatter'), s = by('getDecodeErrorStatusCode');
          S.check(L, S.and(S.eq(sent.body, f === 'default' ? ['bad'] : { by: f, d: 1 }), sent.status === { default: 400, router: 410, route: 411 }[s]));
        } else if (p.what === 'encode') {
          const f = by('encodeErrorFormatter'), s = by('getEncodeErrorStatusCode');
          S.check(L, S.and(S.eq(sent.body, f === 'default' ? {} : { by: f, e: 1 }), sent.status === { default: 500, router: 510, route: 511 }[s]));
        } else {
          const w = by('afterEncodedResponseSent');
          S.check(L, S.eq(hooks, w === 'default' ? [] : [[w, 200]]));
        }
      },
    },
    require('./lib/terseveral'),
  ],
};
