'use strict';
// A model of the parts of express the wrappers rely on: a router that records what is registered and runs the chain of a
// registration the way express does (one layer after another through next(); an exception or next(err) stops the chain
// and reaches the error handler), and a response object that refuses to send twice.
function mkRouter(log) {
  const proto = Object.create(Function.prototype);
  proto.route = function (p) { return { self: this, p }; };
  proto.param = function (n, f) { this.paramFns.push([n, f]); return this; };
  const router = function (...a) { log.push({ direct: a, self: this }); return 'routed'; };
  Object.setPrototypeOf(router, proto);
  router.stack = [];
  router.paramFns = [];
  router.caseSensitive = undefined;
  for (const m of ['get', 'post', 'put', 'delete', 'patch', 'all', 'head', 'options'])
    router[m] = function (p, ...hs) { log.push({ method: m, path: p, chain: flat(hs) }); return this; };
  router.use = function (...hs) { log.push({ use: flat(hs) }); return this; };
  return router;
}
function flat(xs) {
  const out = [];
  for (const x of xs) if (Array.isArray(x)) for (const y of flat(x)) out.push(y); else out.push(x);
  return out;
}
// runs a chain; resolves/records how it left: 'end' (next() past the last), or the error
function dispatch(S, chain, req, res) {
  const out = { left: undefined, error: undefined, errors: 0 };
  const run = (i, err) => {
    if (err !== undefined && err !== null) { out.errors++; out.error = err; return; }
    if (i >= chain.length) { out.left = 'end'; return; }
    let called = false;
    const next = (e) => { if (called) { out.again = true; } called = true; run(i + 1, e); };
    try {
      const r = chain[i](req, res, next);
      if (r && typeof r.then === 'function') r.then(undefined, (e) => { S.abortedRethrow(e); out.rejected = e; });
    } catch (e) {
      S.abortedRethrow(e);
      run(i + 1, e === undefined ? new Error('undefined') : e);
    }
  };
  run(0);
  return out;
}
function mkRes(events, o) {
  o = o || {};
  const res = { statusCode: 200, headersSent: false, finished: false, locals: {}, sent: [] };
  res.status = (c) => { res.statusCode = c; return res; };
  const send = (how, body) => {
    if (res.headersSent) throw new Error('ERR_HTTP_HEADERS_SENT');
    if (o.unserializable !== undefined && body === o.unserializable) throw new TypeError('Do not know how to serialize');
    res.headersSent = true;
    res.sent.push({ how, status: res.statusCode, body });
    events.push('send');
    return res;
  };
  res.json = (body) => { send('json', body); res.finished = true; return res; };
  res.send = (body) => { send('send', body); res.finished = true; return res; };
  res.end = (body) => { if (!res.headersSent) send('end', body); res.finished = true; events.push('end'); return res; };
  res.sendStatus = (c) => { res.statusCode = c; return res.send(String(c)); };
  res.set = res.setHeader = () => res;
  return res;
}
module.exports = { mkRouter, dispatch, mkRes, flat };
