'use strict';
const { setup } = require('./S03');
module.exports = {
  assumptions: ['HTTP clients present a parsed body as body, and what cannot be parsed as text with body missing or null'],
  scenarios: [
    {
      name: 'decodeExpecting',
      bounds: 'any status of 100-599, any expected one of the declared or another; thirteen kinds of body; any verdict of the response codec',
      labels: ['the expected response is returned decoded', 'any other outcome rejects with the decoded response'],
      cases: { quick: [{}], thorough: [{}] },
      async run(S) {
        const e = setup(S);
        const expected = S.pick('expected', [200, 404, 500, 204]);
        const req = e.client.api.get({});
        let out;
        let err;
        try { out = await req.decodeExpecting(expected); } catch (x) { S.abortedRethrow(x); err = x; }
        await S.settle();
        S.observe('err', err && err.message);
        const fine = S.is(e.status === expected) && e.declared !== undefined && S.is(e.verdict);
        if (fine) S.check('the expected response is returned decoded', S.and(err === undefined, out !== undefined, out.status === e.status, S.eq(out.body, { from: e.declared, value: e.value }), out.original === e.original, out.error === undefined));
        else {
          S.check('any other outcome rejects with the decoded response', S.and(out === undefined, err instanceof e.m.DecodeError, err instanceof Error, typeof err.message === 'string'));
          const d = err.decodedResponse;
          const decoded = e.declared !== undefined && S.is(e.verdict);
          S.check('the rejection carries the response', S.and(d.original === e.original, decoded ? S.and(d.status === e.status, S.eq(d.body, { from: e.declared, value: e.value })) : S.and(d.status === 'decodeError', S.eq(d.body, e.received))));
          S.check('the message names the status', err.message.includes(String(e.status)));
        }
        S.check('one request is made', e.reqs.length === 1 && e.reqs[0].thens === 1);
      },
    },
  ],
};
