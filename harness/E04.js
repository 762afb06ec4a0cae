'use strict';
const { setup, send, probe, mkRes } = require('./lib/ew');
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

module.exports = {
  keepNative: ['express'],
  assumptions: ['express runs the registered chain layer by layer through next(); one scenario uses the real express'],
  scenarios: [
    {
      name: 'every route gets its own handler',
      bounds: 'APIs of one name with any subset of the five methods, or of up to three names with any two of them each; stray keys included; codec verdicts of each route; error options and encoder given or not, in seven combinations',
      labels: ['every route of the specification is served, and nothing else', 'each route runs its own handler on its own decoded request', 'a rejected request runs no handler and gets the formatted errors'],
      cases: { quick: [{ all: true }, { all: true, same: true }, ...METHODS.map((a, i) => ({ a, b: METHODS[(i + 1) % 5], c: METHODS[(i + 2) % 5] }))], thorough: [{ all: true }, { all: true, same: true }].concat(METHODS.flatMap((a) => METHODS.filter((b) => b !== a).map((b) => ({ a, b, c: b })))) },
      async run(S, p) {
        const env = setup(S);
        const { t, m, log } = env;
        const routes = [];
        const spec = {};
        const routeHandlers = {};
        const ran = [];
        const given = S.pick('options', ['none', 'all', 'formatter', 'status', 'encoder and status', 'encoder and formatter', 'encoding only']);
        const has = (o) => given === 'all' || given.includes(o);
        const dcode = S.int('dcode', 400, 499);
        const ecode = S.int('ecode', 500, 599);
        const add = (name, method, path) => {
          const id = name + '.' + method;
          const ok = S.bool('valid_' + id);
          const value = { id, v: S.int('value_' + id, 0, 9) };
          const member = S.bool('member_' + id);
          const errs = [{ value: 'x', context: [], message: 'bad ' + id }, { value: 'x', context: [], message: 'worse' }];
          const route = { path, method: method.toUpperCase(), request: probe(S, t, id, { decode: () => (ok ? t.success(value) : t.failures(errs)) }), response: { 200: probe(S, t, 'Res' + id, { decode: t.success, encode: (x) => ['encoded by ' + id, x] }) } };
          spec[name] = spec[name] || {};
          routeHandlers[name] = routeHandlers[name] || {};
          spec[name][method] = route;
          routeHandlers[name][method] = async (input) => { ran.push([id, input]); return { type: 200, payload: input.v }; };
          routes.push({ id, name, method, path, route, ok, value, errs });
        };
        if (p.all) for (const method of METHODS) {
          // any subset of the methods
          if (S.is(S.bool('has ' + method))) add('one', method, p.same ? '/one/{id}' : '/one/{id}/' + method);
        } else {
          add('one', p.a, '/one/{id}');
          add('one', p.b, '/one/{id}/b');
          add('two', p.a, '/two');
          if (S.is(S.bool('more'))) add('three', p.c, '/two/{a}/{b}');
        }
        if (S.is(S.bool('stray'))) { spec.one = spec.one || {}; routeHandlers.one = routeHandlers.one || {}; spec.one.other = { path: '/never', method: 'OTHER', request: {}, response: {} }; spec.empty = {}; routeHandlers.empty = {}; }
        m.routerForApiSpec(Object.assign({ spec, routeHandlers }, has('formatter') ? { decodeErrorFormatter: (e) => ({ n: e.length }) } : {}, has('status') ? { getDecodeErrorStatusCode: () => dcode } : {}, has('encoding') ? { encodeErrorFormatter: () => 'enc', getEncodeErrorStatusCode: () => ecode } : {},
          has('encoder') ? { encoder: (r, x) => (req, res) => { res.status(200).json(r.response[200].encode(x.payload)); } } : {}));
        const regs = log.filter((x) => x.method);
        S.observe('paths', regs.map((x) => x.method + ' ' + x.path));
        const conv = (x) => x.replace(/{(\w+)}/g, ':$1');
        S.check('every route of the specification is served, and nothing else', regs.length === routes.length && routes.every((r) => regs.filter((x) => x.method === r.method && x.path === conv(r.path)).length === 1));
        for (const r of routes) {
          const reg = regs.find((x) => x.method === r.method && x.path === conv(r.path));
          const res = mkRes([]);
          ran.length = 0;
          const out = await send(S, reg.chain, { body: { b: 1 }, headers: { h: 2 }, params: { p: 3 }, query: { q: 4 } }, res);
          S.observe('sent ' + r.id, res.sent);
          S.check('each route decodes its own request', S.eq(r.route.request.calls.validate, [{ body: { b: 1 }, headers: { h: 2 }, params: { p: 3 }, query: { q: 4 } }]));
          if (S.is(r.ok)) S.check('each route runs its own handler on its own decoded request', S.and(ran.length === 1, S.eq(ran, [[r.id, r.value]]), S.eq(res.sent, [{ how: 'json', status: 200, body: ['encoded by ' + r.id, r.value.v] }])));
          else S.check('a rejected request runs no handler and gets the formatted errors', S.and(ran.length === 0, out.errors === 0, S.eq(res.sent, [{ how: 'json', status: has('status') ? dcode : 400, body: has('formatter') ? { n: 2 } : { error: `bad ${r.id}\nworse` } }])));
        }
      },
    },
    {
      name: 'server',
      bounds: 'the application under construction, its configuration registering middleware or nothing',
      labels: ['the router comes after what the configuration registers'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const env = setup(S);
        const { t, m, log, apps } = env;
        const n = S.pick('n', [0, 1, 2]);
        const mws = Array.from({ length: n }, (_, i) => () => i);
        let given;
        const spec = { api: { get: { path: '/x', method: 'GET', request: probe(S, t, 'r', { decode: () => t.success({ v: S.int('v', 0, 9) }) }), response: { 200: t.unknown } } } };
        const ran = [];
        const app = m.createServer(spec, (a) => { given = a; for (const x of mws) a.use(x); return { api: { get: (i) => { ran.push(i); return { type: 'ok', payload: i.v }; } } }; });
        S.check('one application, the one configured, is returned', apps.length === 1 && app === apps[0] && given === app);
        S.check('the router comes after what the configuration registers', app.used.length === n + 1 && mws.every((x, i) => app.used[i][1] === x) && typeof app.used[n][1] === 'function' && app.used[n][0] === 'use');
        const res = mkRes([]);
        await send(S, log.filter((x) => x.method)[0].chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        S.observe('sent', res.sent);
        S.check('the handlers are those of the configuration', S.and(ran.length === 1, res.sent.length === 1));
      },
    },
    {
      name: 'on the real express',
      bounds: 'a server with a parameterised and a plain route on the same path under two methods; any of them, other methods and other paths requested; arbitrary query values',
      labels: ['a request reaches its own route\'s handler and no other'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        S.stubMissing('@opentelemetry/api');
        const m = S.load('@api-ts/express-wrapper');
        const t = S.load('io-ts');
        const h = S.load('@api-ts/io-ts-http');
        const ran = [];
        const mk = (id, method, path, props) => ({ path, method, request: h.httpRequest(props), response: { 200: t.string } });
        const lo = S.int('lo', 0, 9);
        const Num = new t.Type('Num', t.number.is, (u, c) => (typeof u === 'number' && lo <= u ? t.success(u) : t.failure(u, c)), t.identity);
        const spec = { a: { get: mk('a.get', 'GET', '/x/{id}', { params: { id: t.string }, query: { q: Num } }), put: mk('a.put', 'PUT', '/x/{id}', { params: { id: t.string } }) }, b: { get: mk('b.get', 'GET', '/y', {}) } };
        const app = m.createServer(spec, () => ({ a: { get: (i) => { ran.push(['a.get', i]); return { type: 200, payload: 'ag' }; }, put: m.routeHandler({ handler: (i) => { ran.push(['a.put', i]); return { type: 'ok', payload: 'ap' }; } }) }, b: { get: (i) => { ran.push(['b.get', i]); return { type: 200, payload: 'bg' }; } } }));
        const q = S.int('q', 0, 9);
        const which = S.pick('which', [['GET', '/x/7', 'a.get'], ['PUT', '/x/8', 'a.put'], ['GET', '/y', 'b.get'], ['POST', '/x/7', null], ['PUT', '/y', null], ['GET', '/x', null], ['GET', '/x/7/z', null], ['GET', '/x/{id}', 'a.get']]);
        const events = [];
        const res = mkRes(events);
        const req = { method: which[0], url: which[1], headers: {}, query: { q }, body: {} };
        let left = 0;
        app._router.handle(req, res, () => { left++; });
        await S.settle();
        S.observe('ran', ran);
        S.observe('sent', res.sent);
        const ok = which[2] !== null && (which[2] !== 'a.get' || S.is(lo <= q));
        if (which[2] === null) S.check('no route, no handler', ran.length === 0 && res.sent.length === 0 && left === 1);
        else if (!ok) S.check('an invalid request reaches no handler', S.and(ran.length === 0, res.sent.length === 1, res.sent[0].status === 400, typeof res.sent[0].body.error === 'string'));
        else S.check('a request reaches its own route\'s handler and no other', S.and(ran.length === 1, ran[0][0] === which[2], res.sent.length === 1, res.sent[0].status === 200, res.sent[0].body === which[2][0] + which[2][2],
          which[2] === 'b.get' ? S.eq(ran[0][1], {}) : which[2] === 'a.put' ? S.eq(ran[0][1], { id: '8' }) : S.eq(ran[0][1], { id: which[1].slice(3), q })));
      },
    },
    require('./lib/ewseveral'),
  ],
};
