'use strict';
const { build, input, expected } = require('./lib/request');

const ONE = [{ params: ['a'] }, { query: ['a'] }, { headers: ['a'] }, { body: ['a'] }];
const TWO = [
  { params: ['a'], query: ['b'] },
  { params: ['a'], headers: ['b'] },
  { params: ['a'], body: ['b'] },
  { query: ['a'], headers: ['b'] },
  { query: ['a'], body: ['b'] },
  { headers: ['a'], body: ['b'] },
  { params: ['a', 'b'] },
  { query: ['a', 'b'] },
  { headers: ['a', 'b'] },
  { body: ['a', 'b'] },
];
const THREE = [
  { params: ['a'], query: ['b'], headers: ['c'] },
  { params: ['a'], headers: ['b'], body: ['c'] },
  { query: ['a', 'b'], body: ['c'] },
  { params: ['a'], query: ['b'], headers: ['c'], body: ['d'] },
];
const focused = (shapes) => [].concat(...shapes.map((s) => ['params', 'query', 'headers', 'body'].map((focus) => ({ shape: s, focus }))));

module.exports = {
  assumptions: [
    'codecs of the declared properties are integer-interval codecs with symbolic bounds and a symbolic offset between the wire value and the decoded value',
    'property names are ordinary names (not members of Object.prototype)',
  ],
  scenarios: [
    {
      name: 'decode',
      bounds: '1-2 (thorough: up to 4) declared properties over the four parts, required / optional / union-with-undefined; each declared property absent, undefined, null, a number in [-5,5] or an object; one part at a time missing or not an object; every part carries stray properties, including those declared for other parts',
      labels: ['accepts exactly when every declared part is accepted', 'decoded has exactly the declared properties', 'a rejection names at least one error'],
      cases: {
        quick: [...focused(ONE), ...TWO.map((shape) => ({ shape }))],
        thorough: [...focused(ONE), ...focused(TWO), ...THREE.map((shape) => ({ shape }))],
      },
      run(S, p) {
        const { codec, specs } = build(S, p.shape, ['required', 'optional', 'union', 'defaulted']);
        const inp = input(S, p.shape, { focus: p.focus });
        const decoded = codec.decode(inp);
        S.observe('result', decoded._tag === 'Right' ? decoded.right : 'Left');
        const e = expected(S, p.shape, specs, inp);
        S.check('accepts exactly when every declared part is accepted', (decoded._tag === 'Right') === e.ok);
        if (decoded._tag === 'Right') S.check('decoded has exactly the declared properties', S.eq(decoded.right, e.value));
        else S.check('a rejection names at least one error', Array.isArray(decoded.left) && decoded.left.length > 0);
      },
    },
    require('./lib/ioseveral'),
  ],
};
