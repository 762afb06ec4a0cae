'use strict';
const { setup, probe, dispatch, mkRes } = require('./lib/ter');

module.exports = {
  assumptions: ['the response model refuses to send twice, as express does; a response body may be one that cannot be serialised'],
  scenarios: [
    {
      name: 'sending a typed response',
      bounds: 'statuses given as code or name: declared, undeclared, declared but not an HTTP status; any payload verdict, encoders that fail, bodies that cannot be serialised; checked and unchecked routes; default and custom error options',
      labels: ['a member of the declared type is sent, encoded, under its status', 'anything else is answered once as an encoding error', 'the response is complete', 'the error is reported to the error options'],
      cases: { quick: [{ checked: true }, { checked: false }], thorough: [{ checked: true }, { checked: false }] },
      run(S, p) {
        const { m, t, log } = setup(S);
        const member = S.bool('member');
        const encodeFails = S.is(S.bool('encodeFails'));
        const payload = S.pick('payload', [{ x: 1 }, undefined, null, 0, '', false, 'text']);
        const poison = { unserializable: 1 };
        const bad = S.is(S.bool('unserialisable'));
        const encoded = bad ? poison : { enc: S.int('enc', 0, 9) };
        const codecs = {};
        const response = {};
        const declared = [200, 404, 'ok', 'notFound', 'created', 'custom', 'toString'];
        for (const k of declared) {
          codecs[k] = probe(S, t, 'Res' + k, { decode: t.success, is: () => member, encode: (a) => { if (encodeFails) throw new Error('encode ' + k); return k === 200 || k === 'ok' || k === 'created' || k === 404 || k === 'notFound' ? (bad ? poison : { k, e: encoded }) : 'never'; } });
          if (k !== 'toString') response[k] = codecs[k];
        }
        const req0 = { body: {}, headers: {}, params: {}, query: {} };
        const codec = probe(S, t, 'Req', { decode: () => t.success({}) });
        const events = [];
        const errs = [];
        const custom = S.is(S.bool('custom'));
        const opts = custom ? { encodeErrorFormatter: (e, r) => { errs.push([e, r]); return { message: 'custom' }; }, getEncodeErrorStatusCode: (e, r) => { errs.push([e, r]); return 599; } } : {};
        const status = S.pick('status', [200, 404, 'ok', 'notFound', 'created', 'custom', 'accepted', 500, 'toString', '200']);
        const router = m.createRouter({ api: { get: { path: '/', method: 'GET', request: codec, response } } }, opts);
        let thrown;
        let ret = 'none';
        router[p.checked ? 'get' : 'getUnchecked']('api', [(req, res) => { try { ret = res.sendEncoded(status, payload); } catch (e) { S.abortedRethrow(e); thrown = e; } }]);
        const res = mkRes(events, { unserializable: poison });
        dispatch(S, log[0].chain, req0, res);
        const CODE = { 200: 200, 404: 404, ok: 200, notFound: 404, created: 201 };
        const key = String(status);
        const isDeclared = Object.prototype.hasOwnProperty.call(CODE, key) && status !== '200';
        const fine = isDeclared && S.is(member) && !encodeFails && !bad;
        S.observe('sent', res.sent);
        S.observe('thrown', thrown === undefined);
        S.check('nothing is thrown at the handler', thrown === undefined);
        S.check('exactly one response', res.sent.length === 1);
        const sent = res.sent[0];
        if (fine) {
          S.check('a member of the declared type is sent, encoded, under its status', S.and(sent.status === CODE[key], S.eq(sent.body, { k: status, e: encoded })));
          S.check('the payload itself is tested and encoded', S.and(codecs[key].calls.is.length >= 1, codecs[key].calls.encode.length >= 1, codecs[key].calls.encode[0] === payload, codecs[key].calls.is[0] === payload));
          S.check('the error options are not consulted', errs.length === 0);
        } else if (status !== '200') {
          S.check('anything else is answered once as an encoding error', S.and(sent.status === (custom ? 599 : 500), S.eq(sent.body, custom ? { message: 'custom' } : {})));
          if (custom) {
            S.check('the error is reported to the error options', S.and(errs.length >= 2, errs[0][1] === req0, errs[0][0] instanceof Error || errs[0][0] !== undefined));
            if (encodeFails && isDeclared && S.is(member)) S.check('the encoder\'s own error is reported', errs[0][0].message === 'encode ' + key);
          }
        }
        S.check('the response is complete', res.finished === true);
      },
    },
  ],
};
