'use strict';
const { METHODS, setup, probe, dispatch, mkRes, tracer } = require('./lib/ter');

module.exports = {
  assumptions: ['the tracing library is a recording stand-in with the interface of @opentelemetry/api, or is missing'],
  scenarios: [
    {
      name: 'spans',
      bounds: 'five methods, checked and unchecked; tracing available or not; any request verdict; 0-2 responses attempted: fitting, unfitting, undeclared status; error statuses from the options of the router or of the route; throwing formatters excluded',
      labels: ['one decode span per request', 'one encode span per response', 'without the tracing library nothing changes', 'failed decoding is recorded', 'failed encoding is recorded'],
      cases: { quick: METHODS.map((method) => ({ method })), thorough: METHODS.map((method) => ({ method, more: true })) },
      run(S, p) {
        const on = S.is(S.bool('tracing'));
        const tr = tracer();
        const { m, t, log } = setup(S, { otel: on ? tr.api : null });
        const valid = S.is(S.bool('valid'));
        const codec = probe(S, t, 'Req', { decode: () => (valid ? t.success({ v: 1 }) : t.failures([{ value: 1, context: [], message: 'bad' }])) });
        const spec = { 'api.v1.x': { [p.method]: { path: '/p/{id}', method: p.method.toUpperCase(), request: codec, response: { 200: probe(S, t, 'Res', { decode: t.success, is: (x) => x.fine }), notFound: t.unknown } } } };
        const dcode = S.int('dcode', 400, 499), ecode = S.int('ecode', 500, 599);
        // the options that count are the route's if it has some, and tracing records what counts
        const own = S.is(S.bool('own'));
        const router = m.createRouter(spec, { getDecodeErrorStatusCode: () => (own ? 1 : dcode), getEncodeErrorStatusCode: () => (own ? 2 : ecode) });
        const checked = S.is(S.bool('checked'));
        const what = S.pick('what', ['nothing', 'fine', 'unfit', 'undeclared', 'keyed', 'hooked']);
        let openDecode = -1;
        let openAt;
        router[p.method + (checked ? '' : 'Unchecked')]('api.v1.x', [(req, res) => {
          openDecode = tr.spans.filter((s) => !s.ended).length;
          if (what === 'fine' || what === 'hooked') res.sendEncoded(200, { fine: true });
          if (what === 'unfit') res.sendEncoded(200, { fine: false });
          if (what === 'undeclared') res.sendEncoded(500, { fine: true });
          if (what === 'keyed') res.sendEncoded('notFound', { fine: true });
        }], Object.assign({}, what === 'hooked' ? { afterEncodedResponseSent: () => {} } : {}, own ? { getDecodeErrorStatusCode: () => dcode, getEncodeErrorStatusCode: () => ecode } : {}));
        const res = mkRes([]);
        const req = { body: {}, headers: {}, params: {}, query: {} };
        const out = dispatch(S, log[0].chain, req, res);
        const handled = valid || !checked;
        // behaviour is the same with and without tracing
        const want = !handled ? [[dcode, ['bad']]] : what === 'nothing' ? [] : what === 'fine' || what === 'hooked' ? [[200, { fine: true }]] : what === 'keyed' ? [[404, { fine: true }]] : [[ecode, {}]];
        S.observe('sent', res.sent);
        S.check('without the tracing library nothing changes', S.and(out.errors === 0, S.eq(res.sent.map((x) => [x.status, x.body]), want)));
        if (!on) { S.check('no spans without the tracing library', tr.spans.length === 0); return; }
        const attrs = { 'api_ts.operation_id': 'api.v1.x', 'api_ts.method': p.method.toUpperCase(), 'api_ts.path': '/p/{id}' };
        const dec = tr.spans.filter((s) => s.name === 'typed-express-router.decode'), enc = tr.spans.filter((s) => s.name === 'typed-express-router.encode');
        S.observe('spans', tr.spans.map((s) => [s.name, s.ended, s.status === undefined]));
        S.check('one decode span per request', S.and(dec.length === 1, dec.length === 1 ? dec[0].ended === 1 : false));
        S.check('one encode span per response', S.and(enc.length === (handled && what !== 'nothing' ? 1 : 0), ...enc.map((s) => s.ended === 1)));
        S.check('no span is touched after its end', tr.spans.every((s) => s.late === 0) && tr.spans.length === dec.length + enc.length);
        if (handled) S.check('decoding is over before the handler runs', openDecode === 0);
        if (valid) S.check('successful decoding is recorded', S.and(S.eq(dec[0].attrs, attrs), dec[0].status === undefined, dec[0].exceptions.length === 0));
        else S.check('failed decoding is recorded', S.and(S.eq(dec[0].attrs, Object.assign({ 'api_ts.status_code': dcode }, attrs)), dec[0].status !== undefined && dec[0].status.code === 2, dec[0].exceptions.length === 1));
        for (const s of enc) {
          const good = what === 'fine' || what === 'hooked' || what === 'keyed';
          S.check('attributes of the response', S.eq(s.attrs, Object.assign({ 'api_ts.status_code': good ? (what === 'keyed' ? 404 : 200) : ecode }, attrs)));
          if (good) S.check('successful encoding is recorded', S.and(s.status === undefined, s.exceptions.length === 0));
          else S.check('failed encoding is recorded', S.and(s.status !== undefined && s.status.code === 2, s.exceptions.length === 1));
        }
      },
    },
  ],
};
