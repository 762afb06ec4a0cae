'use strict';
// The vocabulary harnesses are written in, once over symbolic values and once over the concrete values of a model.
const { defaultOf } = require('./term');

function alphabetRanges(a) {
  const cs = [...new Set([...a].flatMap((c) => (c.length === 1 ? [c.charCodeAt(0)] : [c.charCodeAt(0), c.charCodeAt(1)])))].sort((x, y) => x - y);
  const out = [];
  for (const c of cs) {
    if (out.length && out[out.length - 1][1] === c - 1) out[out.length - 1][1] = c;
    else out.push([c, c]);
  }
  return out;
}
const ASCII = Array.from({ length: 95 }, (_, i) => String.fromCharCode(32 + i)).join('');

// one description of an arbitrary JSON-like value, shared by both modes
function anyAlts(S, name, o) {
  o = Object.assign({ depth: 1, keys: ['a'], arr: 1, str: { max: 1, alphabet: 'ab' }, int: [-2, 2], kinds: ['undefined', 'null', 'boolean', 'number', 'string', 'array', 'object'], extra: [] }, o);
  const sub = Object.assign({}, o, { depth: o.depth - 1 });
  const alts = [];
  for (const k of o.kinds) {
    if (k === 'undefined') alts.push({ type: 'undefined', make: () => undefined });
    if (k === 'null') alts.push({ type: 'object', nul: true, make: () => null });
    if (k === 'boolean') alts.push({ type: 'boolean', make: () => S.bool(name + '.b') });
    if (k === 'number') alts.push({ type: 'number', make: () => S.int(name + '.n', o.int[0], o.int[1]) });
    if (k === 'string') alts.push({ type: 'string', make: () => S.str(name + '.s', o.str) });
    if (k === 'array') alts.push({ type: 'object', arr: true, make: () => {
      const n = o.depth > 0 ? S.pick(name + '.len', Array.from({ length: o.arr + 1 }, (_, i) => i)) : 0;
      return Array.from({ length: n }, (_, i) => S.any(`${name}.${i}`, sub));
    } });
    if (k === 'object') alts.push({ type: 'object', make: () => {
      const r = {};
      if (o.depth > 0) for (const key of o.keys) if (S.is(S.bool(`${name}.has_${keyId(key)}`))) S.def(r, key, S.any(`${name}.${keyId(key)}`, sub));
      return r;
    } });
  }
  for (const x of o.extra) alts.push(x);
  return alts;
}
const keyId = (k) => (typeof k === 'string' ? k.replace(/\W/g, (c) => '_' + c.charCodeAt(0)) : 'k');
const san = (n) => n.replace(/[^A-Za-z0-9_.]/g, (c) => '_' + c.charCodeAt(0));

function symApi(R, loader) {
  const { T } = R;
  const E = () => R.explorer();
  const term = (x) => {
    x = R.force(x);
    if (x instanceof R.SymBool) return x.term;
    if (typeof x === 'boolean') return T.bool(x);
    return T.bool(R.t(x));
  };
  const S = {
    sym: true,
    ASCII,
    bool: (n) => R.mkBool(E().variable(san(n), 'B')),
    int: (n, lo, hi) => R.mkNum(E().variable(san(n), 'I', lo, hi)),
    chr(n, alphabet) {
      const rs = alphabetRanges(alphabet || ASCII);
      const v = E().variable(san(n), 'I', rs[0][0], rs[rs.length - 1][1]);
      if (rs.length > 1) E().assume(T.or(...rs.map(([a, b]) => (a === b ? T.eq(v, T.int(a)) : T.and(T.le(T.int(a), v), T.le(v, T.int(b)))))));
      return v;
    },
    // string of length min..max over an alphabet; the length is decided when the string is first inspected
    str(n, o) {
      o = Object.assign({ min: 0, max: 2, alphabet: ASCII }, o);
      const mk = (len) => R.mkStr(Array.from({ length: len }, (_, i) => S.chr(`${n}_${i}`, o.alphabet)));
      if (o.min === o.max) return mk(o.min);
      const alts = [];
      for (let l = o.min; l <= o.max; l++) alts.push({ type: 'string', make: () => mk(l) });
      return new R.SymLazy(san(n + '.len'), alts);
    },
    // one of finitely many constants, undecided until inspected
    choice: (n, xs) => new R.SymLazy(san(n), xs.map((x) => ({ type: typeof x, nul: x === null, arr: Array.isArray(x), konst: x, make: () => x }))),
    // one of finitely many values, decided now
    pick: (n, xs) => (xs.length === 1 ? xs[0] : R.force(S.choice(n, xs))),
    any: (n, o) => new R.SymLazy(san(n + '.kind'), anyAlts(S, n, o)),
    def: (o, k, v) => R.def(o, k, v),
    // decide a condition now
    is: (x) => R.t(x),
    assume: (x) => E().assume(term(x)),
    check(label, x, known) {
      const E_ = E();
      const tm = term(x);
      E_.observed.push(['check', label]);
      E_.check(label, tm, (known || []).filter((k) => loader.knownIds.has(k.id)).map((k) => ({ id: k.id, when: term(k.when) })));
    },
    and: (...xs) => R.mkBool(T.and(...xs.map(term))),
    or: (...xs) => R.mkBool(T.or(...xs.map(term))),
    not: (x) => R.mkBool(T.not(term(x))),
    implies: (a, b) => R.mkBool(T.implies(term(a), term(b))),
    ite: (c, a, b) => { const tc = term(c); if (T.isC(tc)) return tc.v ? a : b; return R.t(R.mkBool(tc)) ? a : b; },
    // deep structural equality (own enumerable string keys, arrays by element, Object.is on primitives), as one condition
    eq: (a, b) => R.mkBool(eqTerm(a, b)),
    observe: (label, v) => { E().observed.push([label, v]); },
    settle: async () => { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); if (E().aborted) throw E().aborted; },
    stub: (name, m) => loader.stubs.set(name, m),
    stubMissing: (name) => loader.stubs.set(name, { __throws: true }),
    load: (name, from) => loader.load(name, from),
    forget: () => loader.forget(),
    native: (x) => R.concDeep(x, 'harness'),
    force: (x) => R.force(x),
    abortedRethrow: (e) => R.ops.c(e),
  };
  function eqTerm(a, b) {
    a = R.force(a);
    b = R.force(b);
    if (R.isSym(a) || R.isSym(b)) return R.strictEqTerm(a, b);
    if (Object.is(a, b)) return T.TRUE;
    if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return T.FALSE;
    if (Array.isArray(a) !== Array.isArray(b)) return T.FALSE;
    if (Array.isArray(a)) {
      if (a.length !== b.length) return T.FALSE;
      return T.and(...a.map((x, i) => eqTerm(x, b[i])));
    }
    const ka = Object.keys(a), kb = Object.keys(b);
    if (ka.length !== kb.length) return T.FALSE;
    const out = [];
    for (const k of ka) {
      const kk = R.ownKey(b, R.keyStr(k));
      if (kk === undefined) return T.FALSE;
      const c = eqTerm(a[k], b[kk]);
      if (c === T.FALSE) return c;
      out.push(c);
    }
    return T.and(...out);
  }
  return S;
}

class CheckFailed extends Error {}
class AssumeFailed extends Error {}

function nativeApi(model, loader, log) {
  const val = (n, sort, lo, hi) => {
    n = san(n);
    if (Object.prototype.hasOwnProperty.call(model, n)) return model[n];
    return sort === 'B' ? false : defaultOf({ lo, hi });
  };
  const S = {
    sym: false,
    ASCII,
    bool: (n) => val(n, 'B'),
    int: (n, lo, hi) => val(n, 'I', lo, hi),
    chr(n, alphabet) {
      const rs = alphabetRanges(alphabet || ASCII);
      const x = val(n, 'I', rs[0][0], rs[rs.length - 1][1]);
      return rs.some(([a, b]) => a <= x && x <= b) ? x : rs[0][0];
    },
    str(n, o) {
      o = Object.assign({ min: 0, max: 2, alphabet: ASCII }, o);
      const len = o.min === o.max ? o.min : o.min + val(n + '.len', 'I', 0, o.max - o.min);
      return String.fromCharCode(...Array.from({ length: len }, (_, i) => S.chr(`${n}_${i}`, o.alphabet)));
    },
    choice: (n, xs) => xs[val(n, 'I', 0, xs.length - 1)],
    pick: (n, xs) => (xs.length === 1 ? xs[0] : S.choice(n, xs)),
    any(n, o) { const alts = anyAlts(S, n, o); return alts[val(n + '.kind', 'I', 0, alts.length - 1)].make(); },
    def: (o, k, v) => { Object.defineProperty(o, k, { value: v, writable: true, enumerable: true, configurable: true }); return v; },
    is: (x) => !!x,
    assume: (x) => { if (!x) { log.assumeFailed = true; throw new AssumeFailed('assumption does not hold natively'); } },
    check(label, x) {
      log.observed.push(['check', label]);
      if (!x) log.failed.push(label);
    },
    and: (...xs) => xs.every(Boolean),
    or: (...xs) => xs.some(Boolean),
    not: (x) => !x,
    implies: (a, b) => !a || !!b,
    ite: (c, a, b) => (c ? a : b),
    eq: eqNative,
    observe: (label, v) => { log.observed.push([label, canon(v)]); },
    settle: async () => { for (let i = 0; i < 3; i++) await new Promise((r) => setImmediate(r)); },
    stub: (name, m) => loader.stubs.set(name, m),
    stubMissing: (name) => loader.stubs.set(name, { __throws: true }),
    load: (name, from) => loader.load(name, from),
    forget: () => loader.forget(),
    native: (x) => x,
    force: (x) => x,
    abortedRethrow: (e) => { if (e instanceof CheckFailed || e instanceof AssumeFailed) throw e; },
  };
  return S;
}
function eqNative(a, b) {
  if (Object.is(a, b)) return true;
  if (a === 0 && b === 0) return true;
  if (typeof a !== 'object' || typeof b !== 'object' || a === null || b === null) return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => eqNative(x, b[i]));
  const ka = Object.keys(a);
  if (ka.length !== Object.keys(b).length) return false;
  return ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && eqNative(a[k], b[k]));
}

// canonical text of a native value
function canon(v, seen) {
  seen = seen || [];
  if (v === undefined) return 'undefined';
  if (v === null) return 'null';
  if (typeof v === 'string') return JSON.stringify(v);
  if (typeof v === 'number') return Object.is(v, -0) ? '0' : String(v);
  if (typeof v === 'function') return '<fn>';
  if (typeof v === 'bigint' || typeof v === 'boolean') return String(v);
  if (typeof v === 'symbol') return '<symbol>';
  if (seen.includes(v)) return '<cycle>';
  seen = seen.concat([v]);
  if (v instanceof Error) return `<${v.constructor.name}>`;
  if (Array.isArray(v)) return '[' + v.map((x) => canon(x, seen)).join(',') + ']';
  if (v instanceof Set) return 'Set' + canon([...v], seen);
  if (v instanceof Map) return 'Map' + canon([...v], seen);
  return '{' + Object.keys(v).map((k) => JSON.stringify(k) + ':' + canon(v[k], seen)).join(',') + '}';
}
// canonical text of a symbolic value under a model
function canonSym(R, v, model, seen) {
  const { T } = R;
  seen = seen || [];
  if (R.isSym(v)) {
    if (v instanceof R.SymLazy) {
      if (v.done) return canonSym(R, v.val, model, seen);
      const i = v.idx ? T.evalTerm(v.idx, model) : v.live[0];
      const a = v.alts[v.live.includes(i) ? i : v.live[0]];
      return { undecided: a };
    }
    if (v instanceof R.SymBool || v instanceof R.SymNum) return canon(T.evalTerm(v.term, model));
    return JSON.stringify(String.fromCharCode(...v.ch.map((c) => (typeof c === 'number' ? c : T.evalTerm(c, model)))));
  }
  if (v === null || typeof v !== 'object' || v instanceof Error) return canon(v);
  if (seen.includes(v)) return '<cycle>';
  seen = seen.concat([v]);
  const go = (x) => { const r = canonSym(R, x, model, seen); if (typeof r !== 'string') throw new Undecided(); return r; };
  if (Array.isArray(v)) return '[' + v.map(go).join(',') + ']';
  if (v instanceof Set) return 'Set[' + [...v].map(go).join(',') + ']';
  if (v instanceof Map) return 'Map[' + [...v].map(go).join(',') + ']';
  return '{' + Object.keys(v).map((k) => { const ks = R.keyStr(k); return go(ks) + ':' + go(v[k]); }).join(',') + '}';
}
class Undecided extends Error {}

module.exports = { symApi, nativeApi, canon, canonSym, CheckFailed, AssumeFailed, Undecided };
