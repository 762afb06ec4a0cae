'use strict';
module.exports = {
  scenarios: [
    { name: 'basic', bounds: 'x', async run(S) {
      const s = S.str('s', { max: 3, alphabet: 'ab{}' });
      const n = S.int('n', -5, 20);
      const r = s.replace(/\{(\w+)\}/g, ':$1');
      S.observe('r', r);
      S.observe('t', `${n}/${s.length}`);
      S.check('len', r.length <= s.length);
      const v = S.any('v', { depth: 1 });
      S.observe('ty', typeof v);
      S.observe('js', JSON.stringify(v));
      const { a = 5, ...rest } = Object(v ?? {});
      S.observe('a', a);
      S.observe('rest', Object.keys(rest));
      await S.settle();
      S.check('num', n !== 17 || s.length < 4);
    } },
    { name: 'iots', async run(S) {
      const h = S.load('@api-ts/io-ts-http');
      const t = S.load('io-ts');
      const C = h.httpRequest({ params: { a: t.string }, query: { b: h.optional(t.number) } });
      const inp = { params: S.any('p', { depth: 1, keys: ['a', 'b'] }), query: S.any('q', { keys: ['b', 'a'] }) };
      const d = C.decode(inp);
      S.observe('tag', d._tag);
      if (d._tag === 'Right') {
        S.observe('val', d.right);
        S.check('a string', typeof d.right.a === 'string');
      }
    } },
  ],
};
