'use strict';
const { setup, probe, mkRes, tracer } = require('./lib/ter');

// Runs a chain with every layer of the harness suspended until the schedule lets it go on.
function start(S, chain, req, res) {
  const p = { pending: null, left: false, error: undefined };
  const run = (i, err) => {
    if (err) { p.error = err; return; }
    if (i >= chain.length) { p.left = true; return; }
    try { chain[i](req, res, (e) => run(i + 1, e)); } catch (e) { S.abortedRethrow(e); p.error = e; }
  };
  p.go = () => run(0);
  req.suspend = (f) => { p.pending = f; };
  return p;
}

module.exports = {
  assumptions: ['handlers and middleware are asynchronous and resume in any order; layers of the router itself pass on synchronously, as express calls them'],
  scenarios: [
    {
      name: 'interleaved requests',
      bounds: '2 (thorough: 3) requests to the same or different routes, checked or unchecked, valid or not, each suspended in a middleware and in the handler; every interleaving of their steps; with tracing',
      labels: ['each request gets its own answer', 'each request sees its own decoded value', 'each request has its own spans'],
      cases: {
        quick: [{ n: 2, routes: ['one', 'one'], checked: true }, { n: 2, routes: ['one', 'two'], checked: true }, { n: 2, routes: ['one', 'one'], checked: false }, { n: 2, routes: ['one', 'two'], checked: false }],
        thorough: [{ n: 2, routes: ['one', 'one'], checked: true }, { n: 2, routes: ['one', 'two'], checked: true }, { n: 2, routes: ['one', 'two'], checked: false }, { n: 3, routes: ['one', 'one', 'one'], checked: true }, { n: 3, routes: ['one', 'two', 'one'], checked: true }, { n: 3, routes: ['one', 'two', 'one'], checked: false }],
      },
      run(S, p) {
        const tr = tracer();
        const { m, t, log } = setup(S, { otel: tr.api });
        const mk = (name, path, method) => ({ path, method: 'POST', request: probe(S, t, 'Req' + name, { decode: (u) => (u.body.valid ? t.success({ id: u.body.id, by: name }) : t.failures([{ value: u.body.id, context: [], message: 'bad ' + name }])) }),
          response: { 200: probe(S, t, 'Res' + name, { decode: t.success, is: (v) => v.fine, encode: (v) => ({ by: name, id: v.id }) }) } });
        const spec = { one: { post: mk('one', '/one') }, two: { post: mk('two', '/two') } };
        const router = m.createRouter(spec, { encodeErrorFormatter: (e, r) => ({ failed: r.body.id }), decodeErrorFormatter: (e, r) => ({ rejected: r.body.id, value: e[0].value, message: e[0].message }) });
        router.use((req, res, next) => req.suspend(() => next()));
        const seen = [];
        for (const n of ['one', 'two']) router[p.checked ? 'post' : 'postUnchecked'](n, [
          (req, res, next) => { seen.push([req.body.id, req.decoded, req.apiName]); req.suspend(() => next()); },
          (req, res) => { seen.push([req.body.id, req.decoded, req.apiName]); res.sendEncoded(200, { id: req.body.id, fine: req.body.fine }); },
        ]);
        const reqs = p.routes.map((r, i) => ({ route: r, req: { body: { id: i, valid: S.is(S.bool('valid' + i)), fine: S.is(S.bool('fine' + i)) }, headers: {}, params: {}, query: {} }, res: mkRes([]) }));
        for (const x of reqs) x.p = start(S, log.find((l) => l.path === '/' + x.route).chain, x.req, x.res);
        // schedule: at each step one of the requests that can move moves
        const steps = [];
        const live = () => reqs.filter((x) => !x.started || x.p.pending);
        for (let k = 0; k < 3 * p.n + 1; k++) {
          const l = live();
          if (l.length === 0) break;
          const x = S.pick(`step${k}_${l.length}`, l);
          steps.push(x.req.body.id);
          if (!x.started) { x.started = true; x.p.go(); } else { const f = x.p.pending; x.p.pending = null; f(); }
        }
        S.observe('steps', steps);
        S.check('every request finishes', live().length === 0);
        for (const x of reqs) {
          const { id, valid, fine } = x.req.body;
          S.check('no request fails', x.p.error === undefined && x.p.left === false);
          const handled = valid || !p.checked;
          const want = !handled ? { status: 400, body: { rejected: id, value: id, message: 'bad ' + x.route } } : fine ? { status: 200, body: { by: x.route, id } } : { status: 500, body: { failed: id } };
          S.check('each request gets its own answer', S.and(x.res.sent.length === 1, x.res.sent.length === 1 ? S.and(x.res.sent[0].status === want.status, S.eq(x.res.sent[0].body, want.body)) : false));
          const mine = seen.filter((s) => s[0] === id);
          S.check('each request sees its own decoded value', S.and(mine.length === (handled ? 2 : 0), ...mine.map((s) => S.and(s[2] === x.route, p.checked ? S.eq(s[1], { id, by: x.route }) : valid ? S.eq(s[1].right, { id, by: x.route }) : s[1]._tag === 'Left' && s[1].left[0].value === id))));
        }
        const dec = tr.spans.filter((s) => /decode/.test(s.name)), enc = tr.spans.filter((s) => /encode/.test(s.name));
        S.check('each request has its own spans', S.and(dec.length === p.n, enc.length === reqs.filter((x) => x.req.body.valid || !p.checked).length, tr.spans.every((s) => s.ended === 1 && s.late === 0),
          dec.filter((s) => s.status && s.status.code === 2).length === reqs.filter((x) => !x.req.body.valid).length,
          enc.filter((s) => s.status && s.status.code === 2).length === reqs.filter((x) => (x.req.body.valid || !p.checked) && !x.req.body.fine).length));
      },
    },
    require('./lib/terseveral'),
  ],
};
