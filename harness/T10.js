'use strict';
const { setup, probe } = require('./lib/ter');

// {name} with a name of one or more word characters becomes :name, everything else stays
function convert(S, p) {
  let out = '';
  let i = 0;
  const word = (c) => (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c === '_';
  while (i < p.length) {
    if (p[i] === '{') {
      let j = i + 1;
      while (j < p.length && word(p[j])) j++;
      if (j > i + 1 && j < p.length && p[j] === '}') { out += ':' + p.slice(i + 1, j); i = j + 1; continue; }
    }
    out += p[i];
    i++;
  }
  return out;
}
module.exports = {
  assumptions: [],
  scenarios: [
    {
      name: 'any path',
      bounds: 'every string of up to 5 (thorough: 7) characters from {, }, /, letters, digits, underscore, hyphen, colon, dollar',
      labels: ['each {name} becomes a parameter and nothing else changes'],
      cases: { quick: [0, 1, 2, 3, 4, 5].map((n) => ({ n })), thorough: [0, 1, 2, 3, 4, 5, 6, 7].map((n) => ({ n })) },
      run(S, p) {
        const { m, t, log } = setup(S);
        const path = S.str('path', { min: p.n, max: p.n, alphabet: '{}/azZ09_-:$' });
        const router = m.createRouter({ api: { get: { path, method: 'GET', request: probe(S, t, 'r', { decode: () => t.success({}) }), response: {} } } });
        router.get('api', [() => {}]);
        S.observe('path', log[0].path);
        S.check('each {name} becomes a parameter and nothing else changes', log[0].path === convert(S, path));
      },
    },
    {
      name: 'well-formed paths',
      bounds: 'paths of 1-3 segments, each a literal or a parameter, of 1-3 (thorough: 4) characters of the word alphabet',
      labels: ['each segment is kept or becomes a parameter'],
      cases: { quick: [{ n: 1, len: 3 }, { n: 2, len: 2 }, { n: 3, len: 1 }], thorough: [{ n: 1, len: 4 }, { n: 2, len: 3 }, { n: 3, len: 2 }] },
      run(S, p) {
        const { m, t, log } = setup(S);
        let path = '';
        let want = '';
        for (let i = 0; i < p.n; i++) {
          const s = S.str('seg' + i, { min: 1, max: p.len, alphabet: 'azZ9_' });
          const how = S.pick('how' + i, ['literal', 'param', 'mixed']);
          path += '/' + (how === 'literal' ? s : how === 'param' ? `{${s}}` : `v{${s}}.json`);
          want += '/' + (how === 'literal' ? s : how === 'param' ? `:${s}` : `v:${s}.json`);
        }
        const router = m.createRouter({ api: { get: { path, method: 'GET', request: probe(S, t, 'r', { decode: () => t.success({}) }), response: {} } } });
        router.getUnchecked('api', [() => {}]);
        S.observe('path', log[0].path);
        S.check('each segment is kept or becomes a parameter', log[0].path === want);
      },
    },
  ],
};
