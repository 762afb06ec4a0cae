'use strict';
const { METHODS, setup, probe, dispatch, mkRes } = require('./lib/ter');
const { mkRouter } = require('./lib/express');

module.exports = {
  keepNative: ['express'],
  assumptions: ['the router model records registrations as express would receive them; one scenario runs on the real express router'],
  scenarios: [
    {
      name: 'what is registered',
      bounds: 'an API of two names with any two of the five methods; routes added in any order, checked or unchecked, with 0-2 aliases; paths with and without a final slash; created and wrapped routers',
      labels: ['one registration per path, under the route\'s own method', 'the specified path comes first, each alias verbatim', 'every path runs the same chain'],
      cases: { quick: METHODS.map((a) => ({ a })), thorough: [].concat(...METHODS.map((a) => METHODS.map((b) => ({ a, b })))) },
      run(S, p) {
        const { m, t, log } = setup(S);
        const b = p.b || S.pick('other', METHODS);
        const routes = {};
        const mk = (n, method, path) => (routes[n + method] = { path, method: method.toUpperCase(), request: probe(S, t, n + method, { decode: () => t.success({ by: n + method }) }), response: { 200: t.unknown } });
        const spec = { one: { [p.a]: mk('one', p.a, '/one/{id}') }, two: { [p.a]: mk('two', p.a, '/two/'), [b]: mk('two', b, b === p.a ? '/two/' : '/two/{x}/y/{z1}/') } };
        const PATH = { ['one' + p.a]: '/one/:id', ['two' + b]: '/two/:x/y/:z1/', ['two' + p.a]: '/two/' };
        if (b === p.a) PATH['two' + b] = '/two/';
        const mine = [];
        const router = S.is(S.bool('wrap')) ? m.wrapRouter(mkRouter(log), spec, {}) : m.createRouter(spec);
        const adds = [['one', p.a], ['two', p.a], ['two', b]];
        const order = S.pick('order', [[0, 1, 2], [2, 0, 1], [1, 0], [2]]);
        const want = [];
        for (const i of order) {
          const [n, method] = adds[i];
          const checked = S.is(S.bool('checked' + i));
          const aliases = S.pick('aliases' + i, i === 2 ? [undefined, [], ['/old/:id'], ['/x/{y}', '/*all/']] : [undefined, ['/x/{y}', '/*all/']]);
          router[method + (checked ? '' : 'Unchecked')](n, [(req, res) => { mine.push([n, method, checked ? req.decoded : req.decoded.right, req.apiName, req.httpRoute === routes[n + method]]); }], aliases === undefined ? undefined : { routeAliases: aliases });
          for (const path of [PATH[n + method], ...(aliases || [])]) want.push({ n, method, path });
        }
        S.observe('log', log.map((l) => [l.method, l.path]));
        S.check('one registration per path, under the route\'s own method', log.length === want.length);
        want.forEach((w, i) => {
          const l = log[i];
          S.check('the specified path comes first, each alias verbatim', l !== undefined && l.method === w.method && l.path === w.path);
          if (!l) return;
          const before = mine.length;
          dispatch(S, l.chain, { body: {}, headers: {}, params: {}, query: {} }, mkRes([]));
          const got = mine[before];
          S.check('every path runs the same chain', S.and(mine.length === before + 1, got !== undefined && got[0] === w.n && got[1] === w.method && S.eq(got[2], { by: w.n + w.method }), got !== undefined && got[3] === w.n && got[4] === true));
        });
      },
    },
    {
      name: 'routes that are not in the specification',
      bounds: 'five methods, checked and unchecked; names and methods missing or explicitly undefined',
      labels: ['adding it is refused and nothing is registered'],
      cases: { quick: METHODS.map((method) => ({ method })), thorough: METHODS.map((method) => ({ method })) },
      run(S, p) {
        const { m, t, log } = setup(S);
        const other = p.method === 'get' ? 'post' : 'get';
        const good = { path: '/', method: 'GET', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response: {} };
        const spec = { some: { [other]: good }, undef: { [p.method]: undefined }, full: { [p.method]: good } };
        const router = m.createRouter(spec);
        const name = S.pick('name', ['some', 'undef', 'missing', 'full']);
        let threw = false;
        try { router[p.method + (S.is(S.bool('checked')) ? '' : 'Unchecked')](name, [() => {}]); } catch (e) { S.abortedRethrow(e); threw = true; }
        S.observe('threw', threw);
        S.check('adding it is refused and nothing is registered', S.and(threw === (name !== 'full'), log.length === (name === 'full' ? 1 : 0)));
      },
    },
    {
      name: 'on the real express router',
      bounds: 'concrete paths with and without parameters and aliases; an arbitrary query value; matching and non-matching methods and paths',
      labels: ['a request reaches the handler exactly under its paths and method'],
      cases: { quick: [{}], thorough: [{}] },
      run(S) {
        S.stubMissing('@opentelemetry/api');
        const m = S.load('@api-ts/typed-express-router');
        const t = S.load('io-ts');
        const h = S.load('@api-ts/io-ts-http');
        const { mkCodec } = require('./lib/codecs');
        const q = mkCodec(S, t, 'q', 'required');
        const route = { path: '/item/{id}', method: 'GET', request: h.httpRequest({ params: { id: t.string }, query: { q } }), response: { 200: t.unknown } };
        const opts = S.pick('opts', [{}, { strict: true }, { caseSensitive: true }]);
        const router = m.createRouter({ item: { get: route } }, opts);
        const got = [];
        router.get('item', [(req, res) => { got.push(req.decoded); res.status(200).json('x'); }], { routeAliases: ['/old/:id/thing'] });
        const x = S.int('x', -5, 5);
        const url = S.pick('url', ['/item/7', '/old/7/thing', '/item', '/item/7/x', '/Item/7', '/item/7/']);
        const method = S.pick('method', ['GET', 'POST']);
        const res = mkRes([]);
        let left = false;
        router({ url, method, originalUrl: url, query: { q: x }, headers: {}, body: {} }, res, () => { left = true; });
        const hit = method === 'GET' && (url === '/item/7' || url === '/old/7/thing' || (url === '/Item/7' && !opts.caseSensitive) || (url === '/item/7/' && !opts.strict));
        const ok = hit && q.spec.acceptsWire(x);
        S.observe('left', left);
        S.check('a request reaches the handler exactly under its paths and method', S.and(left === !hit, ok ? S.and(got.length === 1, got.length === 1 ? S.eq(got[0], { id: '7', q: q.spec.dec(x) }) : false) : got.length === 0, hit ? res.sent.length === 1 : res.sent.length === 0));
      },
    },
    {
      name: 'as a router',
      bounds: 'created and wrapped routers; any request handed to it; other router methods and properties',
      labels: ['it behaves as the router it wraps'],
      cases: { quick: [{}], thorough: [{}] },
      run(S) {
        const { m, t, log, made } = setup(S);
        const good = { path: '/', method: 'GET', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response: {} };
        const spec = { full: { get: good } };
        const wrap = S.is(S.bool('wrap'));
        const own = mkRouter(log);
        own.extra = S.int('extra', 0, 9);
        const router = wrap ? m.wrapRouter(own, spec, {}) : m.createRouter(spec, { strict: true, caseSensitive: true, decodeErrorFormatter: () => 1 });
        const inner = wrap ? own : made[0].router;
        const a = {}, b = {}, c = () => {};
        router(a, b, c);
        const d = log.find((x) => x.direct);
        S.check('it behaves as the router it wraps', S.and(typeof router === 'function', d !== undefined && d.direct.length === 3 && d.direct[0] === a && d.direct[1] === b && d.direct[2] === c, d !== undefined && d.self === inner));
        S.check('it has the router\'s other methods', S.and(typeof router.route === 'function', typeof router.param === 'function', typeof router.all === 'function', router.stack === inner.stack, wrap ? router.extra === own.extra : true));
        router.param('id', c);
        S.check('its other methods act on the router', inner.paramFns.length === 1 && inner.paramFns[0][1] === c);
        if (!wrap) S.check('express options reach express, hooks do not', S.and(made.length === 1, S.eq(made[0].opts, { strict: true, caseSensitive: true })));
        S.observe('n', made.length);
      },
    },
  ],
};
