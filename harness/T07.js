'use strict';
const { setup, probe, dispatch, mkRes } = require('./lib/ter');

module.exports = {
  assumptions: ['express runs the registered chain layer by layer through next()'],
  scenarios: [
    {
      name: 'router middleware',
      bounds: '0-3 middlewares added before, between and after two routes; each passes on, answers, fails or throws; checked and unchecked routes, one with an alias; any verdict of the request codec',
      labels: ['middleware runs in order of addition, after decoding and before validation', 'a middleware that does not pass on ends the request', 'a route runs the middleware added before it'],
      cases: { quick: [{ checked: true }, { checked: false }], thorough: [{ checked: true, more: true }, { checked: false, more: true }] },
      run(S, p) {
        const { m, t, log } = setup(S);
        const ok = S.is(S.bool('valid'));
        const value = { v: 1 };
        const errs = [{ value: 1, context: [], message: 'bad' }];
        const mk = (path) => ({ path, method: 'GET', request: probe(S, t, 'Req', { decode: () => (ok ? t.success(value) : t.failures(errs)) }), response: { 200: t.unknown } });
        const spec = { one: { get: mk('/one') }, two: { get: mk('/two') } };
        const router = m.createRouter(spec);
        let events = [];
        const seen = [];
        const before = S.pick('before', p.more ? [0, 1, 2] : [0, 1]);
        const between = S.pick('between', p.more ? [0, 1, 2] : [0, 1]);
        const acts = [];
        const add = (n) => { for (let i = 0; i < n; i++) { const k = acts.length; const act = S.pick('act' + k, ['next', 'answer', 'nexterr', 'throw']); acts.push(act); router.use((req, res, next) => {
          events.push('m' + k);
          seen.push([req.decoded, req.apiName, typeof res.sendEncoded]);
          if (act === 'next') next(); else if (act === 'answer') res.status(299).json('m' + k); else if (act === 'nexterr') next(new Error('m')); else throw new Error('m');
        }); } };
        const handler = (n) => (req, res) => { events.push('h' + n); res.status(200).json(req.decoded === value || req.decoded.right === value ? 'value' : 'left'); };
        const verb = p.checked ? 'get' : 'getUnchecked';
        add(before);
        const alias = S.is(S.bool('alias'));
        router[verb]('one', [handler(1)], alias ? { routeAliases: ['/old'] } : undefined);
        add(between);
        router[verb]('two', [handler(2)]);
        add(S.pick('after', [0, 1]));
        const routes = log.filter((l) => l.method);
        const runs = alias ? [1, 1, 2] : [1, 2];
        S.check('a registration per route and alias', routes.length === runs.length);
        runs.forEach((n, at) => {
          events = [];
          seen.length = 0;
          const res = mkRes([]);
          const out = dispatch(S, routes[at].chain, { body: {}, headers: {}, params: {}, query: {} }, res);
          const count = n === 1 ? before : before + between;
          const stop = acts.slice(0, count).findIndex((a) => a !== 'next');
          const want = Array.from({ length: stop < 0 ? count : stop + 1 }, (_, i) => 'm' + i);
          if (stop < 0 && (ok || !p.checked)) want.push('h' + n);
          S.observe('events', events.slice());
          S.check('a route runs the middleware added before it', events.filter((x) => x[0] === 'm').length === want.filter((x) => x[0] === 'm').length);
          S.check('middleware runs in order of addition, after decoding and before validation', S.and(events.join() === want.join(), ...seen.map((s) => S.and(s[1] === (n === 1 ? 'one' : 'two'), s[2] === 'function', ok ? s[0]._tag === 'Right' && s[0].right === value : s[0]._tag === 'Left' && s[0].left === errs))));
          const body = res.sent.length ? res.sent[0].body : undefined;
          if (stop >= 0) S.check('a middleware that does not pass on ends the request', acts[stop] === 'answer' ? S.and(res.sent.length === 1, body === 'm' + stop, out.errors === 0) : S.and(res.sent.length === 0, out.errors === 1));
          else S.check('the request is then validated and handled', S.and(res.sent.length === 1, ok ? body === 'value' : p.checked ? res.sent[0].status === 400 : body === 'left'));
        });
      },
    },
    require('./lib/terseveral'),
  ],
};
