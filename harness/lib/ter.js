'use strict';
// typed-express-router set up over the router model
const { mkRouter, dispatch, mkRes } = require('./express');
const { mkCodec } = require('./codecs');
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];

function setup(S, o) {
  o = Object.assign({ otel: null }, o);
  const log = [];
  const made = [];
  S.stub('express', Object.assign(() => ({}), { Router: (opts) => { const r = mkRouter(log); made.push({ router: r, opts }); return r; }, default: { Router: (opts) => { const r = mkRouter(log); made.push({ router: r, opts }); return r; } }, __esModule: true }));
  if (o.otel) S.stub('@opentelemetry/api', o.otel);
  else S.stubMissing('@opentelemetry/api');
  const m = S.load('@api-ts/typed-express-router');
  const t = S.load('io-ts');
  const h = S.load('@api-ts/io-ts-http');
  return { m, t, h, log, made };
}
// a codec whose every decision is the harness's: decode() and is() answer as told, and what they were given is recorded
function probe(S, t, name, o) {
  const calls = { validate: [], is: [], encode: [] };
  const codec = new t.Type(
    name,
    (u) => { calls.is.push(u); return o.is ? o.is(u) : true; },
    (u, c) => { calls.validate.push(u); return o.decode(u, c); },
    (a) => { calls.encode.push(a); return o.encode ? o.encode(a) : a; },
  );
  codec.calls = calls;
  return codec;
}
// a recording tracer
function tracer() {
  const spans = [];
  const api = {
    SpanStatusCode: { UNSET: 0, OK: 1, ERROR: 2 },
    trace: { getTracer: (n) => ({ startSpan: (name) => {
      const s = { name, tracer: n, attrs: {}, ended: 0, status: undefined, exceptions: [], late: 0 };
      s.setAttributes = (a) => { if (s.ended) s.late++; Object.assign(s.attrs, a); return s; };
      s.setAttribute = (k, v) => { if (s.ended) s.late++; s.attrs[k] = v; return s; };
      s.recordException = (e) => { if (s.ended) s.late++; s.exceptions.push(e); };
      s.setStatus = (x) => { if (s.ended) s.late++; s.status = x; return s; };
      s.end = () => { s.ended++; };
      s.spanContext = () => ({});
      s.isRecording = () => !s.ended;
      s.addEvent = () => s;
      s.updateName = () => s;
      spans.push(s);
      return s;
    } }), getActiveSpan: () => undefined, setSpan: (c) => c },
    context: { active: () => ({}), with: (c, f) => f() },
  };
  return { api, spans };
}
module.exports = { METHODS, setup, probe, tracer, dispatch, mkRes, mkRouter, mkCodec };
