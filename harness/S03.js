'use strict';
const { wrapper, transport } = require('./lib/client');
const { probe } = require('./lib/ter');

// a response as HTTP clients present it: [body, text, what was received]
const BODIES = [[{ x: 1 }, '{"x":1}', { x: 1 }], [[1], '[1]', [1]], [0, '0', 0], [false, 'false', false], ['', '""', ''], [null, 'null', null], ['text', '"text"', 'text'], [7, '7', 7], [true, 'true', true], [undefined, 'plain', 'plain'], [null, 'plain', 'plain'], [undefined, '', ''], [{}, 'plain', {}]];
function respond(S, r) { r.resolve(r.answer); }
function setup(S, o) {
  const m = wrapper(S);
  const t = S.load('io-ts');
  const verdict = S.bool('accepts');
  const value = { decoded: S.int('value', 0, 99) };
  const errs = [{ value: 1, context: [], message: 'wrong one' }, { value: 2, context: [], message: 'wrong two' }];
  const codecs = {};
  const response = {};
  for (const k of [200, 404, 500]) {
    codecs[k] = probe(S, t, 'Res' + k, { decode: () => (verdict ? t.success({ from: k, value }) : t.failures(errs)) });
    response[k] = codecs[k];
  }
  if (S.is(S.bool('undeclared'))) response[204] = undefined;
  const route = { path: '/x', method: 'GET', request: probe(S, t, 'req', { decode: t.success, encode: () => ({ params: {}, query: {} }) }), response };
  const [body, text, received] = S.pick('body', BODIES);
  const status = S.int('status', 100, 599);
  const original = { body, text, status, extra: 'kept' };
  const { agent, reqs } = transport((r) => r.resolve(original));
  const client = m.buildApiClient(m.supertestRequestFactory(agent), { api: { get: route } });
  const declared = S.is(status === 200) ? 200 : S.is(status === 404) ? 404 : S.is(status === 500) ? 500 : undefined;
  return { m, t, client, reqs, codecs, received, status, original, declared, verdict, value, errs };
}
module.exports = {
  setup,
  assumptions: ['HTTP clients present a parsed body as body, and what cannot be parsed as text with body missing or null'],
  scenarios: [
    {
      name: 'decode',
      bounds: 'any status of 100-599, three of them declared, one explicitly undeclared; thirteen kinds of body with all falsy ones; any verdict of the response codec',
      labels: ['a declared response is decoded by its own codec', 'any other response is a decode error that keeps what was received', 'decoding never rejects'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const e = setup(S);
        const req = e.client.api.get({});
        let out;
        let threw = false;
        try { out = await req.decode(); } catch (x) { S.abortedRethrow(x); threw = true; }
        await S.settle();
        S.check('decoding never rejects', !threw);
        S.observe('out', [out.status, out.body, out.error === undefined]);
        S.check('the response itself comes along', S.and(out.original === e.original, e.reqs.length === 1, e.reqs[0].thens === 1));
        if (e.declared !== undefined) S.check('the codec is given what was received', S.and(e.codecs[e.declared].calls.validate.length >= 1, S.eq(e.codecs[e.declared].calls.validate[0], e.received)));
        for (const k of [200, 404, 500]) if (k !== e.declared) S.check('no other codec decodes it', e.codecs[k].calls.validate.length === 0);
        if (e.declared !== undefined && S.is(e.verdict)) S.check('a declared response is decoded by its own codec', S.and(out.status === e.status, S.eq(out.body, { from: e.declared, value: e.value }), out.error === undefined));
        else S.check('any other response is a decode error that keeps what was received', S.and(out.status === 'decodeError', S.eq(out.body, e.received), typeof out.error === 'string' && out.error.length > 0, e.declared !== undefined ? out.error.includes('wrong one') && out.error.includes('wrong two') : true));
      },
    },
    {
      name: 'transport failures',
      bounds: 'a request that fails without a response; decode and decodeExpecting',
      labels: ['the failure itself is reported'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const m = wrapper(S);
        const t = S.load('io-ts');
        const err = S.pick('err', [new Error('refused'), 'text', 0]);
        const { agent } = transport((r) => r.reject(err));
        const client = m.buildApiClient(m.supertestRequestFactory(agent), { api: { put: { path: '/', method: 'PUT', request: probe(S, t, 'r', { decode: t.success, encode: () => ({ params: {}, query: {} }) }), response: { 200: t.unknown } } } });
        const req = client.api.put({});
        let got = 'none';
        try { await (S.is(S.bool('expecting')) ? req.decodeExpecting(200) : req.decode()); } catch (x) { S.abortedRethrow(x); got = x; }
        S.observe('got', got);
        S.check('the failure itself is reported', got === err);
      },
    },
    require('./lib/clientseveral'),
  ],
};
