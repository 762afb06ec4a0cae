'use strict';
// Codec expressions: their text in a specification and the codec they evaluate to.
//   shape: a list of leaf kinds | 'leaf kind' | { type: [shape...] } | { partial } | { strict } | { exact } | { exactp: exact of partial } | { array } | { rarray } | { rec } | { reck } | { union } | { inter } | { optionalized }
const MARKS = ['~', '^', '!', '#', '%', '&', '?'];
const KEYS = ['a', 'b'];
const LEAVES = {
  string: (t) => t.string, number: (t) => t.number, boolean: (t) => t.boolean, null: (t) => t.null, undefined: (t) => t.undefined, unknown: (t) => t.unknown,
};
const ALL = ['string', 'number', 'boolean', 'null', 'undefined', 'slit', 'nlit', 'blit', 'keyof', 'ref'];

function expr(S, env, name, shape) {
  const { t, h, subst } = env;
  if (typeof shape === 'string') shape = [shape];
  if (Array.isArray(shape)) {
    const k = S.pick(name, shape);
    if (k === 'slit') {
      const mark = MARKS[Object.keys(subst).length];
      subst[mark] = S.str(name + '.s', { min: 1, max: 1, alphabet: 'ab' });
      return { text: `t.literal('${mark}')`, codec: t.literal(subst[mark]) };
    }
    if (k === 'nlit') { const v = S.pick(name + '.v', [0, 1]); return { text: `t.literal(${v})`, codec: t.literal(v) }; }
    if (k === 'blit') { const v = S.pick(name + '.t', [true, false]); return { text: `t.literal(${v})`, codec: t.literal(v) }; }
    if (k === 'keyof') {
      const mark = MARKS[Object.keys(subst).length];
      const key = S.str(name + '.k', { min: 1, max: 1, alphabet: 'ab' });
      subst[mark] = key;
      const o = {};
      S.def(o, key, null);
      o.c = null;
      return { text: `t.keyof({ '${mark}': null, c: null })`, codec: t.keyof(o) };
    }
    if (k === 'ref') return { text: 'R', codec: env.R };
    return { text: 't.' + k, codec: LEAVES[k](t) };
  }
  const [k] = Object.keys(shape);
  const sub = shape[k];
  if (['type', 'partial', 'strict', 'exact', 'exactp', 'optionalized'].includes(k)) {
    const o = {}, texts = [];
    sub.forEach((s, i) => {
      const key = (shape.keys || KEYS)[i];
      const x = expr(S, env, name + '.' + key, s);
      o[key] = x.codec;
      texts.push(`${key}: ${x.text}`);
    });
    const props = `{ ${texts.join(', ')} }`;
    if (k === 'exact') return { text: `t.exact(t.type(${props}))`, codec: t.exact(t.type(o)) };
    if (k === 'exactp') return { text: `t.exact(t.partial(${props}))`, codec: t.exact(t.partial(o)) };
    if (k === 'optionalized') return { text: `h.optionalized(${props})`, codec: h.optionalized(o) };
    return { text: `t.${k}(${props})`, codec: t[k](o) };
  }
  if (k === 'union' || k === 'inter') {
    const xs = sub.map((s, i) => expr(S, env, name + '.' + i, s));
    const f = k === 'inter' ? 'intersection' : 'union';
    return { text: `t.${f}([${xs.map((x) => x.text).join(', ')}])`, codec: t[f](xs.map((x) => x.codec)) };
  }
  const x = expr(S, env, name + '.e', sub);
  if (k === 'array') return { text: `t.array(${x.text})`, codec: t.array(x.codec) };
  if (k === 'rarray') return { text: `t.readonlyArray(${x.text})`, codec: t.readonlyArray(x.codec) };
  if (k === 'rec') return { text: `t.record(t.string, ${x.text})`, codec: t.record(t.string, x.codec) };
  if (k === 'reck') return { text: `t.record(t.keyof({ a: null, b: null }), ${x.text})`, codec: t.record(t.keyof({ a: null, b: null }), x.codec) };
  if (k === 'optional') return { text: `h.optional(${x.text})`, codec: h.optional(x.codec) };
  throw new Error('shape ' + k);
}
module.exports = { expr, ALL };
