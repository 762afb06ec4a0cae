'use strict';
// Several clients and several calls: what is kept between calls, and what clients of one specification or routes of one
// codec share, must never show in what is sent or in how a response is read.
const { wrapper, transport } = require('./client');
const { probe } = require('./ter');

module.exports = {
  name: 'several clients, one call after another',
  bounds: 'two clients of one specification, over transports of their own; four routes with one request codec, two under one path with other methods, two the very same route object; two (thorough: three) calls to any of them, with the same value or another, body and header each sent or not, all under way at once and answered in either order, with one of two declared statuses or another, each decoded once or twice',
  labels: ['a call sends its own value to its own route by its own client', 'a response is read by the codecs of its own route'],
  cases: { quick: [{ n: 2, quick: true }, { n: 2, quick: true, again: true }], thorough: [{ n: 2 }, { n: 2, again: true }, { n: 3, quick: true }, { n: 3, quick: true, again: true }] },
  async run(S, p) {
    const m = wrapper(S);
    const t = S.load('io-ts');
    const codec = probe(S, t, 'req', { decode: t.success, encode: (v) => Object.assign({ params: { k: 'K' + v.s }, query: { q: v.id } }, v.headers ? { headers: { 'x-id': 'H' + v.s } } : {}, v.body ? { body: { b: v.s } } : {}) });
    const Res = (by) => probe(S, t, 'Res' + by, { decode: (u) => (u.ok ? t.success({ by, u }) : t.failures([{ value: u, context: [], message: 'bad ' + by }])) });
    const route = (by, path, method) => ({ path, method, request: codec, response: { 200: Res(by + ' 200'), 404: Res(by + ' 404') } });
    const ag = route('a.get', '/a/{k}', 'GET');
    const spec = { a: { get: ag, put: route('a.put', '/a/{k}', 'PUT') }, b: { get: ag, put: route('b.put', '/b/{k}', 'PUT') } };
    const nets = [transport(), transport()];
    const clients = nets.map((x) => m.buildApiClient(m.supertestRequestFactory(x.agent), spec));
    const targets = [[0, 'a', 'get', 'a.get', '/a/'], [0, 'a', 'put', 'a.put', '/a/'], [1, 'a', 'put', 'a.put', '/a/'], [0, 'b', 'get', 'a.get', '/a/'], [1, 'b', 'put', 'b.put', '/b/']];
    const calls = [];
    let v;
    for (let n = 0; n < p.n; n++) {
      const to = targets[S.pick('to' + n, [0, 1, 2, 3, 4])];
      const now = { s: 'xyz'[n], id: S.int('id' + n, 0, 9), headers: !p.quick || n > 0 ? S.is(S.bool('headers' + n)) : true, body: !p.quick || n > 0 ? S.is(S.bool('body' + n)) : true };
      if (n > 0 && p.again) Object.assign(v, now); else v = Object.assign({}, now);
      const net = nets[to[0]];
      const before = nets.map((x) => x.reqs.length);
      const req = clients[to[0]][to[1]][to[2]](v);
      S.check('one request is made, by its own client', net.reqs.length === before[to[0]] + 1 && nets[1 - to[0]].reqs.length === before[1 - to[0]]);
      calls.push({ to, now, raw: net.reqs[net.reqs.length - 1], req });
    }
    for (const { to, now, raw } of calls) {
      S.observe('sent', [raw.method, raw.url]);
      S.check('a call sends its own value to its own route by its own client', S.and(raw.method === to[2], raw.url === `${to[4]}K${now.s}`, S.eq(Object.assign({}, ...raw.query_), { q: now.id }), raw.headers['x-id'] === (now.headers ? 'H' + now.s : undefined), S.eq(raw.sent, now.body ? [`{"b":"${now.s}"}`] : []), raw.okCalls.length > 0));
    }
    const got = calls.map((c) => c.req.decode());
    const twice = p.n === 2 && S.is(S.bool('twice')) ? calls.map((c) => c.req.decode()) : [];
    const order = S.is(S.bool('last first')) ? calls.slice().reverse() : calls;
    for (const c of order) {
      c.status = S.pick('status' + c.now.s, p.n === 2 && !p.quick ? [200, 404, 500] : [200, 404]);
      c.ok = p.n === 2 && (!p.quick || c === calls[1]) ? S.is(S.bool('ok' + c.now.s)) : true;
      c.body = { of: c.now.s, ok: c.ok };
      c.answer = { status: c.status, body: c.body, text: '' };
      c.raw.resolve(c.answer);
      await S.settle();
    }
    for (const list of [got, twice]) for (let i = 0; i < list.length; i++) {
      const c = calls[i];
      const out = await list[i];
      S.observe('out', [out.status]);
      S.check('a response is read by the codecs of its own route', S.and(out.original === c.answer, c.status === 500 ? S.and(out.status === 'decodeError', S.eq(out.body, c.body)) : c.ok ? S.and(out.status === c.status, S.eq(out.body, { by: `${c.to[3]} ${c.status}`, u: c.body })) : S.and(out.status === 'decodeError', S.eq(out.body, c.body), out.error.includes(`bad ${c.to[3]} ${c.status}`))));
    }
  },
};
