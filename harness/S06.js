'use strict';
const { wrapper, transport } = require('./lib/client');
const { probe } = require('./lib/ter');
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
module.exports = {
  assumptions: [],
  scenarios: [
    {
      name: 'client of a specification',
      bounds: 'specifications of 0-3 names (also ones that differ in case only) with any two of the five methods, names like "a.b", "constructor" and "__proto__" aside; stray keys, inherited keys, explicitly undefined routes',
      labels: ['the client has exactly the routes of the specification', 'each call goes to its own route', 'an undefined route is refused'],
      cases: { quick: METHODS.map((a, i) => ({ a, b: METHODS[(i + 1) % 5] })), thorough: METHODS.flatMap((a) => METHODS.filter((b) => b !== a).map((b) => ({ a, b }))) },
      run(S, p) {
        const m = wrapper(S);
        const t = S.load('io-ts');
        const inherit = S.is(S.bool('inherit'));
        const spec = inherit ? Object.create({ inherited: { get: {} } }) : {};
        const routes = [];
        const add = (name, method) => {
          const id = S.int(`id_${name}_${method}`, 0, 9);
          const route = { path: `/${name}/${method}/{k}`, method: method.toUpperCase(), request: probe(S, t, 'r', { decode: t.success, encode: (v) => ({ params: { k: 'K' + method }, query: { v, id } }) }), response: {} };
          spec[name] = spec[name] || {};
          spec[name][method] = route;
          routes.push({ name, method, route, id });
        };
        const shape = S.pick('shape', ['none', 'one', 'two', 'both', 'three', 'case']);
        if (shape !== 'none' && shape !== 'case') add('a.b', p.a);
        if (shape === 'two' || shape === 'three') add('a.b', p.b);
        if (shape === 'case') { add('a.b', p.a); add('A.b', p.b); add('A.B', p.a); }
        if (shape === 'both' || shape === 'three') add('c', p.a);
        if (shape === 'both') add('c', p.b);
        const stray = S.is(S.bool('stray'));
        if (stray) { spec.empty = {}; spec['other'] = { options: {}, head: {} }; }
        const undef = S.is(S.bool('undef'));
        if (undef) spec.u = { [p.b]: undefined };
        const { agent, reqs } = transport();
        let client;
        let threw = false;
        try { client = m.buildApiClient(m.supertestRequestFactory(agent), spec); } catch (e) { S.abortedRethrow(e); threw = true; }
        S.observe('threw', threw);
        S.check('an undefined route is refused', threw === undef);
        if (threw) return;
        S.check('the client has exactly the routes of the specification', S.and(S.eq(Object.keys(client).sort(), Object.keys(spec).sort()), ...Object.keys(spec).map((n) => S.eq(Object.keys(client[n]).sort(), routes.filter((r) => r.name === n).map((r) => r.method).sort()))));
        for (const r of routes) {
          reqs.length = 0;
          const v = { x: S.int(`v_${r.name}_${r.method}`, 0, 9) };
          client[r.name][r.method](v);
          S.observe('url', reqs[0].url);
          S.check('each call goes to its own route', S.and(reqs.length === 1, reqs[0].method === r.method, reqs[0].url === `/${r.name}/${r.method}/K${r.method}`, S.eq(Object.assign({}, ...reqs[0].query_), { v, id: r.id }), r.route.request.calls.encode.length === 1, r.route.request.calls.encode[0] === v));
        }
      },
    },
    require('./lib/clientseveral'),
  ],
};
