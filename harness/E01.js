'use strict';
const { setup, one, send, probe, mkRes } = require('./lib/ew');
const CODE = { 200: 200, 404: 404, ok: 200, created: 201, notFound: 404, internalError: 500, 500: 500 };

module.exports = {
  assumptions: ['the response model refuses to send twice, as express does; a body may be one that cannot be serialised'],
  scenarios: [
    {
      name: 'default encoder',
      bounds: 'responses declared under codes, under names or under both; handler results of sixteen types (declared code or name, the other spelling of a declared one, undeclared, unknown, a code in a string, not a status), any payload, encoders that fail, bodies that cannot be serialised; results given at once or promised',
      labels: ['the payload goes out encoded by its codec under its status', 'everything else is one empty 500', 'the response is complete'],
      cases: { quick: [{ decl: 'codes' }, { decl: 'names' }, { decl: 'both' }], thorough: [{ decl: 'codes' }, { decl: 'names' }, { decl: 'both' }] },
      async run(S, p) {
        const env = setup(S);
        const { t } = env;
        const fails = S.is(S.bool('encodeFails'));
        const poison = { unserializable: 1 };
        const bad = S.is(S.bool('unserialisable'));
        const v = S.int('enc', 0, 9);
        const payload = S.pick('payload', [{ x: 1 }, undefined, null, 0, '', false, [1]]);
        const response = {};
        const codecs = {};
        const declared = p.decl === 'codes' ? ['200', '404', '500'] : p.decl === 'names' ? ['ok', 'notFound', 'created'] : ['200', 'ok', 'notFound'];
        for (const k of declared) {
          codecs[k] = probe(S, t, 'Res' + k, { decode: t.success, encode: () => { if (fails) throw new Error('encode'); return bad ? poison : { k, v }; } });
          response[k] = codecs[k];
        }
        const type = S.pick('type', [200, 404, 500, 'ok', 'notFound', 'created', 'internalError', 'nonsense', 'toString', 202, 'accepted', '200', '404', undefined, null, NaN]);
        const result = { type, payload };
        const promised = S.is(S.bool('promised'));
        const got = [];
        const request = probe(S, t, 'Req', { decode: () => t.success({ r: 1 }) });
        const chain = one(S, env, { path: '/', method: 'GET', request, response }, (input) => { got.push(input); return promised ? Promise.resolve(result) : result; });
        const events = [];
        const res = mkRes(events, { unserializable: poison });
        const out = await send(S, chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        const code = (typeof type === 'number' || isNaN(Number(type))) && Object.prototype.hasOwnProperty.call(CODE, String(type)) ? CODE[String(type)] : undefined;
        // the codec of the status: declared under its code, else under its own name
        const key = code === undefined ? undefined : declared.includes(String(code)) ? String(code) : declared.includes(String(type)) ? String(type) : undefined;
        S.observe('sent', res.sent);
        S.check('the handler gets the decoded request once', got.length === 1 && S.eq(got[0], { r: 1 }));
        S.check('exactly one response', S.and(res.sent.length === 1, out.rejected === undefined, out.errors === 0));
        const s = res.sent[0];
        // with both spellings declared, which codec a name selects is not specified
        const open = p.decl === 'both' && type === 'ok';
        if (key !== undefined && !fails && !bad) {
          S.check('the payload goes out encoded by its codec under its status', S.and(s.status === code, s.how === 'json', open ? s.body.v === v : S.eq(s.body, { k: key, v })));
          if (!open) S.check('the payload itself is encoded', S.and(codecs[key].calls.encode.length >= 1, codecs[key].calls.encode[0] === payload));
        } else S.check('everything else is one empty 500', S.and(s.status === 500, s.body === undefined));
        S.check('the response is complete', res.finished === true);
      },
    },
    {
      name: 'custom encoder',
      bounds: 'an encoder of the application\'s own, which answers, passes on or throws; any handler result',
      labels: ['it alone decides the response'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const env = setup(S);
        const { t } = env;
        const act = S.pick('act', ['answer', 'next', 'throw']);
        const result = { type: S.pick('type', [200, 'ok', 'nonsense', 404]), payload: S.int('payload', 0, 9) };
        const seen = [];
        const route = { path: '/', method: 'POST', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response: { 200: probe(S, t, 'Res', { decode: t.success }) } };
        const encoder = (r, x) => (req, res, next) => {
          seen.push([r, x, req, res]);
          if (act === 'answer') res.status(299).json('custom');
          else if (act === 'next') next();
          else throw new Error('encoder');
        };
        const chain = one(S, env, route, async () => result, { encoder });
        const req = { body: {}, headers: {}, params: {}, query: {} };
        const res = mkRes([]);
        const out = await send(S, chain, req, res);
        S.observe('sent', res.sent);
        S.check('it alone decides the response', S.and(seen.length === 1, seen[0][0] === route, seen[0][1] === result, seen[0][2] === req, seen[0][3] === res, out.rejected === undefined,
          act === 'answer' ? res.sent.length === 1 && res.sent[0].status === 299 && res.sent[0].body === 'custom'
            : act === 'next' ? res.sent.length === 0 && out.left === 'end'
              : res.sent.length === 1 && res.sent[0].status >= 500));
      },
    },
    {
      name: 'encoders that use sendEncoded',
      bounds: 'an encoder that hands any declared or undeclared status and payload to sendEncoded, a codec that fails or not, with and without own error options',
      labels: ['the payload goes out encoded by its codec under its status', 'an encoding failure is answered as configured'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const env = setup(S);
        const { t } = env;
        const fails = S.is(S.bool('fails'));
        const type = S.pick('type', [200, 404, 599]);
        const v = S.int('enc', 0, 9);
        const payload = { x: S.int('payload', 0, 9) };
        const calls = [];
        const codec = (k) => probe(S, t, 'Res' + k, { decode: t.success, encode: (x) => { calls.push(x); if (fails) throw new Error('encode'); return { k, v }; } });
        const route = { path: '/', method: 'POST', request: probe(S, t, 'Req', { decode: () => t.success({}) }), response: { 200: codec(200), 404: codec(404) } };
        const own = S.is(S.bool('own options'));
        const code = S.int('code', 400, 599);
        const opts = { encoder: (r, x) => (req, res) => { res.sendEncoded(x.type, x.payload); } };
        if (own) Object.assign(opts, { encodeErrorFormatter: () => 'own', getEncodeErrorStatusCode: () => code });
        const chain = one(S, env, route, () => ({ type, payload }), opts);
        const res = mkRes([]);
        const out = await send(S, chain, { body: {}, headers: {}, params: {}, query: {} }, res);
        S.observe('sent', res.sent);
        S.check('exactly one response', S.and(res.sent.length === 1, out.rejected === undefined, out.errors === 0));
        const s = res.sent[0];
        if (!fails && type !== 599) S.check('the payload goes out encoded by its codec under its status', S.and(s.status === type, S.eq(s.body, { k: type, v }), calls.length === 1 && calls[0] === payload));
        else S.check('an encoding failure is answered as configured', S.and(s.status === (own ? code : 500), own ? s.body === 'own' : S.eq(s.body, {})));
      },
    },
    require('./lib/ewseveral'),
  ],
};
