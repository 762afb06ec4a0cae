'use strict';
// Several codecs and several uses of them: what a codec keeps between its uses, and what codecs of the same properties or
// names share, must never show in what it accepts, decodes or encodes.
module.exports = {
  name: 'several codecs, one use after another',
  bounds: 'two request codecs whose properties have codecs of the same names and parts, each optional or required and with a range of its own; two (thorough: three) decodings, encodings or membership tests by either of them, of the same object, changed in between, or of new ones; values absent, undefined or numbers',
  labels: ['each decoding depends on its own codec and what the input holds then', 'each encoding depends on its own codec and what the value holds then', 'each test depends on its own codec and what the value holds then'],
  cases: { quick: ['httpRequest', 'optionalized'].flatMap((kind) => ['decode', 'encode', 'is'].map((last) => ({ n: 2, kind, last }))), thorough: ['httpRequest', 'optionalized'].flatMap((kind) => ['decode', 'encode', 'is'].map((last) => ({ n: 3, kind, last }))) },
  run(S, p) {
    const t = S.load('io-ts'), h = S.load('@api-ts/io-ts-http');
    const mk = (k) => {
      const lo = S.int('lo' + k, 0, 9);
      const opt = S.is(S.bool('optional' + k));
      const X = new t.Type('X', (u) => typeof u === 'object' && u !== null && 'x' in u && u.x >= lo, (u, c) => (typeof u === 'number' && u >= lo ? t.success({ x: u }) : t.failure(u, c)), (v) => v.x);
      const a = opt ? h.optional(X) : X;
      const codec = p.kind === 'httpRequest' ? h.httpRequest({ query: { a }, body: { b: X } }) : h.optionalized({ a, b: X });
      return { codec, lo, opt };
    };
    const codecs = [mk(0), mk(1)];
    let wire, value;
    for (let n = 0; n < p.n; n++) {
      const c = codecs[S.pick('codec' + n, [0, 1])];
      const op = n === p.n - 1 ? p.last : S.pick('op' + n, ['decode', 'encode', 'is']);
      const same = n > 0 && S.is(S.bool('same' + n));
      const av = S.int('a' + n, 0, 9), bv = S.int('b' + n, 0, 9);
      const a = S.pick('how' + n, ['absent', 'undefined', 'number']);
      const okA = a === 'number' ? S.is(av >= c.lo) : c.opt;
      const ok = S.is(bv >= c.lo) && okA;
      const set = (o, v) => { if (a === 'absent') delete o.a; else o.a = a === 'undefined' ? undefined : v; };
      if (op === 'decode') {
        if (!same || wire === undefined) wire = p.kind === 'httpRequest' ? { params: {}, query: {}, headers: {}, body: {} } : {};
        const q = p.kind === 'httpRequest' ? wire.query : wire;
        set(q, av);
        (p.kind === 'httpRequest' ? wire.body : wire).b = bv;
        const got = c.codec.decode(wire);
        S.observe('decoded', got._tag);
        S.check('each decoding depends on its own codec and what the input holds then', ok ? S.and(got._tag === 'Right', S.eq(got.right, a === 'number' ? { a: { x: av }, b: { x: bv } } : { b: { x: bv } })) : got._tag === 'Left');
        continue;
      }
      if (!same || value === undefined) value = {};
      set(value, { x: av });
      value.b = { x: bv };
      if (op === 'is') {
        const got = c.codec.is(value);
        S.observe('is', got);
        S.check('each test depends on its own codec and what the value holds then', got === ok);
      } else if (ok) {
        const got = c.codec.encode(value);
        S.observe('encoded', Object.keys(got));
        const part = a === 'number' ? { a: av } : {};
        S.check('each encoding depends on its own codec and what the value holds then', S.and(...(p.kind === 'httpRequest' ? [S.eq(got.query, part), S.eq(got.body, { b: bv })] : [S.eq(got, Object.assign({ b: bv }, part))])));
      }
    }
  },
};
