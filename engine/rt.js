'use strict';
// Runtime of the symbolic executor: the meaning of every JavaScript operation on symbolic values.
const T = require('./term');
const { Explorer, PathAbort } = require('./explore');

let E = null; // the explorer of this process
const setExplorer = (e) => (E = e);

class Sym {
  [Symbol.toPrimitive]() {
    if (E && E.aborted) throw E.aborted;
    const e = new Error('symbolic value reached native coercion');
    E.nativeLeak = e.stack;
    return E.abort('native coercion: ' + e.stack.split('\n').slice(2, 5).join('|'));
  }
}
class SymBool extends Sym { constructor(t) { super(); this.term = t; } }
class SymNum extends Sym { constructor(t) { super(); this.term = t; } }
class SymStr extends Sym { constructor(ch) { super(); this.ch = ch; } }
// a value whose kind/alternative has not been inspected yet
class SymLazy extends Sym {
  constructor(name, alts) {
    super();
    this.lname = name;
    this.alts = alts; // [{type, nul?, arr?, make()}]
    this.live = alts.map((_, i) => i);
    this.done = false;
    this.val = undefined;
    this.idx = null;
  }
}

const mkBool = (t) => (T.isC(t) ? t.v : new SymBool(t));
const mkNum = (t) => (T.isC(t) ? t.v : new SymNum(t));
const mkStr = (ch) => {
  for (let i = 0; i < ch.length; i++) if (typeof ch[i] !== 'number') {
    if (!T.isC(ch[i])) return new SymStr(ch.map((c) => (typeof c !== 'number' && T.isC(c) ? c.v : c)));
  }
  let s = '';
  for (const c of ch) s += String.fromCharCode(typeof c === 'number' ? c : c.v);
  return s;
};
const chars = (s) => {
  if (s instanceof SymStr) return s.ch;
  const out = new Array(s.length);
  for (let i = 0; i < s.length; i++) out[i] = s.charCodeAt(i);
  return out;
};
const chT = (c) => (typeof c === 'number' ? T.int(c) : c);
const fork = (t) => E.fork(t);
const isSym = (x) => x instanceof Sym;

// ---- lazies -------------------------------------------------------------------------------------
function unwrap(x) {
  while (x instanceof SymLazy && x.done) x = x.val;
  return x;
}
function narrow(l, pred) {
  const yes = l.live.filter((i) => pred(l.alts[i]));
  if (yes.length === 0) return false;
  if (yes.length === l.live.length) return true;
  const idx = l.idx || (l.idx = E.variable(l.lname, 'I', 0, l.alts.length - 1));
  const no = l.live.filter((i) => !pred(l.alts[i]));
  const small = yes.length <= no.length ? yes : no;
  const cond = T.or(...small.map((i) => T.eq(idx, T.int(i))));
  const r = fork(cond);
  const isYes = small === yes ? r : !r;
  l.live = isYes ? yes : no;
  return isYes;
}
function settle1(l) {
  // all live alternatives but the last are tried one by one
  while (l.live.length > 1) {
    const i = l.live[0];
    const a = l.alts[i];
    if (narrow(l, (x) => x === a)) break;
  }
  const a = l.alts[l.live[0]];
  l.done = true;
  l.val = a.make();
  return l.val;
}
function force(x) {
  while (x instanceof SymLazy) x = x.done ? x.val : settle1(x);
  return x;
}

// ---- conversions --------------------------------------------------------------------------------
function t(x) {
  if (!isSym(x)) {
    if (E.aborted) throw E.aborted;
    return !!x;
  }
  x = force(x);
  if (!isSym(x)) return !!x;
  if (x instanceof SymBool) return fork(x.term);
  if (x instanceof SymNum) return !fork(T.eq(x.term, T.int(0)));
  return x.ch.length > 0;
}
function not(x) {
  x = unwrap(x);
  if (x instanceof SymBool) return mkBool(T.not(x.term));
  return !t(x);
}
function typeof_(x) {
  x = unwrap(x);
  if (!isSym(x)) return typeof x;
  if (x instanceof SymBool) return 'boolean';
  if (x instanceof SymNum) return 'number';
  if (x instanceof SymStr) return 'string';
  const types = [...new Set(x.live.map((i) => x.alts[i].type))];
  for (const ty of types) if (narrow(x, (a) => a.type === ty)) return ty;
}
function numToStr(x) {
  // exact decimal digits of an integer term
  let v = x.term;
  const neg = fork(T.lt(v, T.int(0)));
  if (neg) v = T.sub(T.int(0), v);
  let n = 1;
  let p = 10;
  while (n < 16 && !fork(T.lt(v, T.int(p)))) {
    n++;
    p *= 10;
  }
  const ch = [];
  if (neg) ch.push(45);
  for (let i = n - 1; i >= 0; i--) ch.push(T.add(T.mod(T.div(v, Math.pow(10, i)), 10), T.int(48)));
  return mkStr(ch);
}
function toStr(x) {
  x = force(x);
  if (typeof x === 'string' || x instanceof SymStr) return x;
  if (x instanceof SymBool) return fork(x.term) ? 'true' : 'false';
  if (x instanceof SymNum) return numToStr(x);
  if (x === null || (typeof x !== 'object' && typeof x !== 'function')) return String(x);
  const p = toPrim(x, 'string');
  if (typeof p === 'string' || p instanceof SymStr) return p;
  return toStr(p);
}
function toPrim(x, hint) {
  x = force(x);
  if (isSym(x) || x === null || (typeof x !== 'object' && typeof x !== 'function')) return x;
  const ex = x[Symbol.toPrimitive];
  if (ex != null) return force(callFn(ex, x, [hint]));
  for (const m of hint === 'string' ? ['toString', 'valueOf'] : ['valueOf', 'toString']) {
    const f = g(x, m);
    if (typeof f === 'function') {
      const r = force(callFn(f, x, []));
      if (isSym(r) || r === null || (typeof r !== 'object' && typeof r !== 'function')) return r;
    }
  }
  throw new TypeError('Cannot convert object to primitive value');
}
const isWs = (c) => T.or(...[9, 10, 11, 12, 13, 32, 160, 0xfeff, 0x2028, 0x2029, 0x1680, 0x202f, 0x205f, 0x3000].map((w) => T.eq(chT(c), T.int(w))),
  T.and(T.le(T.int(0x2000), chT(c)), T.le(chT(c), T.int(0x200a))));
const isDigit = (c) => T.and(T.le(T.int(48), chT(c)), T.le(chT(c), T.int(57)));
function toNum(x) {
  x = force(x);
  if (x instanceof SymNum) return x;
  if (x instanceof SymBool) return mkNum(T.ite(x.term, T.int(1), T.int(0)));
  if (x instanceof SymStr) return strToNum(x);
  if (x !== null && (typeof x === 'object' || typeof x === 'function')) return toNum(toPrim(x, 'number'));
  return Number(x);
}
function strToNum(s) {
  let ch = s.ch;
  let a = 0, b = ch.length;
  while (a < b && fork(isWs(ch[a]))) a++;
  while (b > a && fork(isWs(ch[b - 1]))) b--;
  ch = ch.slice(a, b);
  if (ch.length === 0) return 0;
  let i = 0, sign = 1;
  if (fork(T.eq(chT(ch[0]), T.int(45)))) { sign = -1; i = 1; }
  else if (fork(T.eq(chT(ch[0]), T.int(43)))) i = 1;
  if (i === ch.length) return NaN;
  let v = T.int(0);
  let allDigits = ch.length - i <= 15;
  for (let k = i; k < ch.length && allDigits; k++) {
    if (!fork(isDigit(ch[k]))) allDigits = false;
    else v = T.add(T.mul(v, T.int(10)), T.sub(chT(ch[k]), T.int(48)));
  }
  if (allDigits) {
    if (sign < 0) {
      if (!T.isC(v) && fork(T.eq(v, T.int(0)))) return -0;
      return T.isC(v) ? -v.v : mkNum(T.sub(T.int(0), v));
    }
    return mkNum(v);
  }
  // letters that cannot occur in any numeric literal decide it; the rest (hex, decimals, exponents, Infinity) is concretised
  const ok = (c) => T.or(isDigit(c), ...[...'+-.eEInfityxXoObBaAcCdDF'].map((q) => T.eq(chT(c), T.int(q.charCodeAt(0)))));
  for (let k = i; k < ch.length; k++) if (!fork(ok(ch[k]))) return NaN;
  return Number(conc(mkStr(ch), 'strToNum'));
}

// ---- concretisation: a value without a symbolic model is split off one model value at a time --------
function concTerm(term) {
  for (let n = 0; ; n++) {
    if (T.isC(term)) return term.v;
    const v = E.candidate(term);
    const eq = term.sort === 'B' ? (v ? term : T.not(term)) : T.eq(term, T.int(v));
    E.stats.concretised++;
    // the remaining values are explored too while the budget lasts
    const r = T.range(term);
    const small = term.sort === 'B' || r[1] - r[0] <= 128;
    if (small) { if (E.fork(eq, { term, v })) return v; continue; }
    E.incomplete = (E.incomplete || 0) + 1;
    E.assume(eq);
    return v;
  }
}
function conc(x, site) {
  x = force(x);
  if (!isSym(x)) return x;
  E.concreteSites.set(site || '?', (E.concreteSites.get(site || '?') || 0) + 1);
  // enumerate exhaustively only through the solver: each value returned is a fork on equality
  if (x instanceof SymBool) return fork(x.term);
  if (x instanceof SymNum) return concTerm(x.term);
  let s = '';
  for (const c of x.ch) s += String.fromCharCode(typeof c === 'number' ? c : concTerm(c));
  return s;
}
function concDeep(x, site, seen) {
  x = conc(x, site);
  if (x === null || typeof x !== 'object') return x;
  seen = seen || new Set();
  if (seen.has(x)) return x;
  seen.add(x);
  if (Array.isArray(x)) for (let i = 0; i < x.length; i++) x[i] = concDeep(x[i], site, seen);
  else if (Object.getPrototypeOf(x) === Object.prototype || Object.getPrototypeOf(x) === null) {
    if (symKeyed.has(x)) {
      for (const k of Object.keys(x)) if (place.has(k)) { const v = x[k]; const kk = conc(place.get(k), site); delete x[k]; x[kk] = v; }
      symKeyed.delete(x);
    }
    for (const k of Object.keys(x)) x[k] = concDeep(x[k], site, seen);
  }
  return x;
}

// ---- equality and order -----------------------------------------------------------------------------
function eqChars(a, b) {
  if (a.length !== b.length) return T.FALSE;
  const cs = [];
  for (let i = 0; i < a.length; i++) {
    const c = T.eq(chT(a[i]), chT(b[i]));
    if (c === T.FALSE) return T.FALSE;
    cs.push(c);
  }
  return T.and(...cs);
}
function strictEqTerm(a, b) {
  // a, b: not lazies; at least one symbolic
  if (a instanceof SymBool) {
    if (b instanceof SymBool) return T.eq(a.term, b.term);
    return typeof b === 'boolean' ? T.eq(a.term, T.bool(b)) : T.FALSE;
  }
  if (a instanceof SymNum) {
    if (b instanceof SymNum) return T.eq(a.term, b.term);
    return typeof b === 'number' && Number.isSafeInteger(b) ? T.eq(a.term, T.int(b)) : T.FALSE;
  }
  if (a instanceof SymStr) {
    if (b instanceof SymStr) return eqChars(a.ch, b.ch);
    return typeof b === 'string' ? (a.ch.length === b.length ? eqChars(a.ch, chars(b)) : T.FALSE) : T.FALSE;
  }
  return strictEqTerm(b, a);
}
function seq(a, b) {
  if (!isSym(a) && !isSym(b)) return a === b;
  a = unwrap(a);
  b = unwrap(b);
  if (a === b && a instanceof SymLazy) {
    a = b = force(a);
    return isSym(a) ? true : a === b;
  }
  if (a instanceof SymLazy && !isSym(b)) {
    if (b === undefined) return narrow(a, (x) => x.type === 'undefined');
    if (b === null) return narrow(a, (x) => !!x.nul);
    if (!narrow(a, (x) => x.type === typeof b && !x.nul)) return false;
    if (typeof b !== 'object') {
      // constants among the alternatives decide directly
      if (a.live.every((i) => 'konst' in a.alts[i])) return narrow(a, (x) => x.konst === b);
    }
  } else if (b instanceof SymLazy && !isSym(a)) return seq(b, a);
  a = force(a);
  b = force(b);
  if (!isSym(a) && !isSym(b)) return a === b;
  return mkBool(strictEqTerm(a, b));
}
const sne = (a, b) => not(seq(a, b));
function leq(a, b) {
  if (!isSym(a) && !isSym(b)) return a == b;
  a = unwrap(a);
  b = unwrap(b);
  if (b === null || b === undefined) {
    if (a instanceof SymLazy) return narrow(a, (x) => x.type === 'undefined' || !!x.nul);
    return isSym(a) ? false : a == b;
  }
  if (a === null || a === undefined) return leq(b, a);
  a = force(a);
  b = force(b);
  if (!isSym(a) && !isSym(b)) return a == b;
  if (a === null || a === undefined || b === null || b === undefined) return false;
  const ta = typeof_(a), tb = typeof_(b);
  if (ta === tb) return seq(a, b);
  if (ta === 'object' || ta === 'function') return leq(toPrim(a, 'default'), b);
  if (tb === 'object' || tb === 'function') return leq(a, toPrim(b, 'default'));
  return seq(toNum(a), toNum(b));
}
const lne = (a, b) => not(leq(a, b));
function ltStr(a, b, orEq) {
  // lexicographic order of code units
  let r = T.bool(orEq ? a.length <= b.length : a.length < b.length);
  for (let i = Math.min(a.length, b.length) - 1; i >= 0; i--) {
    const x = chT(a[i]), y = chT(b[i]);
    r = T.or(T.lt(x, y), T.and(T.eq(x, y), r));
  }
  return r;
}
function cmp(a, b, orEq, nativeOp) {
  a = force(a);
  b = force(b);
  if (!isSym(a) && !isSym(b)) return nativeOp(a, b);
  a = toPrim(a, 'number');
  b = toPrim(b, 'number');
  const sa = typeof a === 'string' || a instanceof SymStr;
  const sb = typeof b === 'string' || b instanceof SymStr;
  if (sa && sb) return mkBool(ltStr(chars(a), chars(b), orEq));
  if (typeof a === 'bigint' || typeof b === 'bigint') return nativeOp(conc(a), conc(b));
  a = toNum(a);
  b = toNum(b);
  if (!isSym(a) && !isSym(b)) return nativeOp(a, b);
  const bound = (n, dir) => T.int(dir === 'up' ? Math.ceil(n) : Math.floor(n));
  if (typeof a === 'number') {
    if (Number.isNaN(a)) return false;
    if (a === Infinity) return false;
    if (a === -Infinity) return true;
    if (Number.isInteger(a)) return mkBool(orEq ? T.le(T.int(a), b.term) : T.lt(T.int(a), b.term));
    return mkBool(T.le(bound(a, 'up'), b.term));
  }
  if (typeof b === 'number') {
    if (Number.isNaN(b)) return false;
    if (b === Infinity) return true;
    if (b === -Infinity) return false;
    if (Number.isInteger(b)) return mkBool(orEq ? T.le(a.term, T.int(b)) : T.lt(a.term, T.int(b)));
    return mkBool(T.le(a.term, bound(b, 'down')));
  }
  return mkBool(orEq ? T.le(a.term, b.term) : T.lt(a.term, b.term));
}
const lt = (a, b) => (isSym(a) || isSym(b) ? cmp(a, b, false, (x, y) => x < y) : a < b);
const le = (a, b) => (isSym(a) || isSym(b) ? cmp(a, b, true, (x, y) => x <= y) : a <= b);
const gt = (a, b) => lt(b, a);
const ge = (a, b) => le(b, a);

// ---- arithmetic -----------------------------------------------------------------------------------
function safe(term) {
  const r = T.range(term);
  if (r[0] >= -Number.MAX_SAFE_INTEGER && r[1] <= Number.MAX_SAFE_INTEGER) return mkNum(term);
  if (T.isC(term)) return term.v;
  const ok = T.and(T.le(T.int(-Number.MAX_SAFE_INTEGER), term), T.le(term, T.int(Number.MAX_SAFE_INTEGER)));
  if (fork(ok)) return mkNum(term);
  return concTerm(term);
}
function add(a, b) {
  if (!isSym(a) && !isSym(b) && (typeof a !== 'object' || a === null) && (typeof b !== 'object' || b === null)) return a + b;
  a = toPrim(a, 'default');
  b = toPrim(b, 'default');
  if (!isSym(a) && !isSym(b)) return a + b;
  const sa = typeof a === 'string' || a instanceof SymStr;
  const sb = typeof b === 'string' || b instanceof SymStr;
  if (sa || sb) return mkStr(chars(toStr(a)).concat(chars(toStr(b))));
  return ar('+', a, b);
}
function ar(op, a, b) {
  if (!isSym(a) && !isSym(b) && (typeof a === 'number' || typeof a === 'bigint') && (typeof b === 'number' || typeof b === 'bigint')) return arNative(op, a, b);
  a = toPrim(a, 'number');
  b = toPrim(b, 'number');
  if (typeof a !== 'bigint') a = toNum(a);
  if (typeof b !== 'bigint') b = toNum(b);
  if (!isSym(a) && !isSym(b)) return arNative(op, a, b);
  const lin = (x) => isSym(x) || Number.isSafeInteger(x);
  const tm = (x) => (isSym(x) ? x.term : T.int(x));
  if (lin(a) && lin(b)) {
    if (op === '+') return safe(T.add(tm(a), tm(b)));
    if (op === '-') return safe(T.sub(tm(a), tm(b)));
    if (op === '*' && (!isSym(a) || !isSym(b))) return safe(T.mul(tm(a), tm(b)));
    if ((op === '%' || op === '/') && !isSym(b) && b > 0) {
      const nonneg = fork(T.le(T.int(0), a.term));
      if (op === '%') {
        if (nonneg) return mkNum(T.mod(a.term, b));
        const m = T.mod(T.sub(T.int(0), a.term), b);
        if (fork(T.eq(m, T.int(0)))) return -0;
        return mkNum(T.sub(T.int(0), m));
      }
      if (fork(T.eq(T.mod(a.term, b), T.int(0)))) return mkNum(T.div(a.term, b));
    }
  } else if (typeof (isSym(a) ? b : a) === 'number' && Number.isNaN(isSym(a) ? b : a)) return NaN;
  return arNative(op, conc(a, 'arith ' + op), conc(b, 'arith ' + op));
}
function arNative(op, a, b) {
  switch (op) {
    case '+': return a + b;
    case '-': return a - b;
    case '*': return a * b;
    case '/': return a / b;
    case '%': return a % b;
    case '**': return a ** b;
    case '&': return a & b;
    case '|': return a | b;
    case '^': return a ^ b;
    case '<<': return a << b;
    case '>>': return a >> b;
    case '>>>': return a >>> b;
  }
}
function un(op, a) {
  a = force(a);
  if (op === '+') return isSym(a) ? toNum(a) : a !== null && typeof a === 'object' ? toNum(a) : +a;
  if (op === '-') {
    if (!isSym(a)) return -a;
    a = toNum(a);
    if (!isSym(a)) return -a;
    if (fork(T.eq(a.term, T.int(0)))) return -0;
    return mkNum(T.sub(T.int(0), a.term));
  }
  return ~conc(a, '~');
}
const num = (x) => (isSym(x) ? toNum(x) : typeof x === 'bigint' ? x : Number(x));
function inc(x, d) {
  if (!isSym(x)) return typeof x === 'bigint' ? x + BigInt(d) : Number(x) + d;
  return ar('+', toNum(x), d);
}

// ---- property keys and access ------------------------------------------------------------------------
const place = new Map(); // placeholder -> SymStr
const placeOf = new Map(); // char-identity -> placeholder
let placeN = 0;
let symKeyed = new WeakSet();
const isPlace = (k) => typeof k === 'string' && k.charCodeAt(0) === 1 && place.has(k);
function newPlace(s) {
  const id = s.ch.map((c) => (typeof c === 'number' ? c : 't' + c.id)).join(',');
  let p = placeOf.get(id);
  if (!p) {
    p = '\u0001K' + placeN++;
    placeOf.set(id, p);
    place.set(p, s);
  }
  return p;
}
// property key: native string/symbol/number, or SymStr
function toKey(k) {
  k = force(k);
  if (!isSym(k)) {
    if (k !== null && typeof k === 'object') return toStr(k);
    return k;
  }
  return toStr(k);
}
const keyStr = (k) => (isPlace(k) ? place.get(k) : k);
function sameKey(k, s) {
  // k: own key (native or placeholder), s: SymStr or native string
  const kk = keyStr(k);
  if (typeof kk !== 'string' && !(kk instanceof SymStr)) return false;
  if (!isSym(kk) && !isSym(s)) return kk === s;
  const a = chars(kk), b = chars(s);
  if (a.length !== b.length) return false;
  return fork(eqChars(a, b));
}
// the own key of o that equals s, or undefined (forks)
function ownKey(o, s) {
  if (typeof s === 'symbol') return Object.prototype.hasOwnProperty.call(o, s) ? s : undefined;
  if (!isSym(s)) {
    if (Object.prototype.hasOwnProperty.call(o, s)) return s;
    if (!symKeyed.has(o)) return undefined;
    s = String(s);
    for (const k of Object.keys(o)) if (isPlace(k) && sameKey(k, s)) return k;
    return undefined;
  }
  if (o.length > 64 && Array.isArray(o)) return undefined;
  for (const k of Object.getOwnPropertyNames(o)) if (sameKey(k, s)) return k;
  return undefined;
}
function chainKey(o, s) {
  for (let p = o; p !== null && p !== undefined; p = Object.getPrototypeOf(p)) {
    const k = ownKey(p, s);
    if (k !== undefined) return k;
  }
  return undefined;
}
function boxed(o) {
  return o !== null && (typeof o === 'object' || typeof o === 'function') ? o : Object(o);
}
function needObj(o, k) {
  if (o === undefined || o === null)
    throw new TypeError(`Cannot read properties of ${o}${isSym(k) ? '' : ` (reading '${String(k)}')`}`);
}
function g(o, k) {
  if (!isSym(o) && !isSym(k)) {
    if (typeof o === 'object' && o !== null && typeof k === 'string' && symKeyed.has(o)) {
      const kk = ownKey(o, k);
      return kk === undefined ? o[k] : o[kk];
    }
    if (k !== null && typeof k === 'object') k = toKey(k);
    return o[k];
  }
  o = force(o);
  if (k instanceof SymLazy) k = force(k);
  if (isSym(o)) return symGet(o, k);
  if (!isSym(k)) return g(o, k);
  needObj(o, k);
  if (k instanceof SymNum && (Array.isArray(o) || typeof o === 'string')) {
    for (let i = 0; i < o.length; i++) if (fork(T.eq(k.term, T.int(i)))) return o[i];
    return undefined;
  }
  const s = toKey(k);
  if (!isSym(s)) return g(o, s);
  const kk = chainKey(boxed(o), s);
  return kk === undefined ? undefined : o[kk];
}
function symGet(o, k) {
  if (o instanceof SymStr) {
    if (k === 'length') return o.ch.length;
    if (k instanceof SymNum) {
      for (let i = 0; i < o.ch.length; i++) if (fork(T.eq(k.term, T.int(i)))) return mkStr([o.ch[i]]);
      return undefined;
    }
    if (isSym(k)) k = conc(k, 'string property');
    if (typeof k === 'number' || (typeof k === 'string' && /^\d+$/.test(k))) {
      const i = Number(k);
      return i < o.ch.length ? mkStr([o.ch[i]]) : undefined;
    }
    return String.prototype[k];
  }
  if (isSym(k)) k = conc(k, 'primitive property');
  return o instanceof SymNum ? Number.prototype[k] : Boolean.prototype[k];
}
function s(o, k, v) {
  if (E.aborted) throw E.aborted;
  o = force(o);
  if (isSym(o)) return v;
  if (isSym(k) || (k !== null && typeof k === 'object')) k = toKey(k);
  if (o === undefined || o === null) throw new TypeError(`Cannot set properties of ${o}`);
  if (isSym(k) && Array.isArray(o)) k = conc(k, 'array index');
  if (isSym(k)) {
    const kk = ownKey(o, k);
    if (kk !== undefined) {
      o[kk] = v;
      return v;
    }
    if (k.ch.length === 9 && Object.prototype.isPrototypeOf(o) && fork(eqChars(k.ch, chars('__proto__')))) {
      o.__proto__ = force(v);
      return v;
    }
    o[newPlace(k)] = v;
    symKeyed.add(o);
    return v;
  }
  if (typeof k !== 'symbol' && symKeyed.has(o)) {
    const kk = ownKey(o, String(k));
    o[kk === undefined ? k : kk] = v;
    return v;
  }
  if (k === '__proto__') {
    o[k] = force(v);
    return v;
  }
  // natively stored values may be symbolic except where the engine reads them
  if (k === 'length' && Array.isArray(o)) v = conc(v, 'array length');
  o[k] = v;
  return v;
}
function def(o, k, v) {
  k = toKey(k);
  if (isSym(k)) {
    const kk = ownKey(o, k);
    if (kk !== undefined) { Object.defineProperty(o, kk, { value: v, writable: true, enumerable: true, configurable: true }); return v; }
    o[newPlace(k)] = v;
    symKeyed.add(o);
    return v;
  }
  const kk = symKeyed.has(o) ? ownKey(o, k) : undefined;
  Object.defineProperty(o, kk === undefined ? k : kk, { value: v, writable: true, enumerable: true, configurable: true });
  return v;
}
function del(o, k) {
  o = force(o);
  k = toKey(k);
  if (isSym(k) || (o !== null && typeof o === 'object' && symKeyed.has(o) && typeof k !== 'symbol')) {
    const kk = ownKey(o, isSym(k) ? k : String(k));
    return kk === undefined ? true : delete o[kk];
  }
  if (isSym(o)) return true;
  return delete o[k];
}
function in_(k, o) {
  o = force(o);
  if (isSym(o) || o === null || (typeof o !== 'object' && typeof o !== 'function'))
    throw new TypeError("Cannot use 'in' operator to search for a key in " + (isSym(o) ? 'a primitive' : String(o)));
  if (k instanceof SymNum && Array.isArray(o)) return mkBool(T.and(T.le(T.int(0), k.term), T.lt(k.term, T.int(o.length))));
  if (k instanceof SymNum) {
    // a number names the same property as its canonical decimal string
    for (let p = o; p; p = Object.getPrototypeOf(p)) {
      if (symKeyed.has(p)) break;
      for (const q of Object.getOwnPropertyNames(p)) {
        const n = Number(q);
        if (String(n) === q && Number.isSafeInteger(n) && fork(T.eq(k.term, T.int(n)))) return true;
      }
      if (Object.getPrototypeOf(p) === null) return false;
    }
  }
  k = toKey(k);
  if (isSym(k)) return chainKey(o, k) !== undefined;
  if (k in o) return true;
  return symKeyed.has(o) && typeof k !== 'symbol' ? ownKey(o, k) !== undefined : false;
}
function iof(a, C) {
  a = force(a);
  C = force(C);
  if (isSym(a)) return false;
  return a instanceof C;
}
function keysIn(o) {
  o = force(o);
  if (o === null || o === undefined) return [];
  const out = [];
  if (o instanceof SymStr) { for (let i = 0; i < o.ch.length; i++) out.push(String(i)); out.src = null; return out; }
  if (isSym(o)) return out;
  for (const k in o) out.push(keyStr(k));
  out.src = o;
  out.raw = [];
  for (const k in o) out.raw.push(k);
  return out;
}
const stillIn = (l, i) => !l.src || l.raw[i] in Object(l.src);

// ---- calls ---------------------------------------------------------------------------------------------
const models = new Map();
const nativeCache = new WeakMap();
const foreign = new WeakSet(); // uninstrumented functions that are not [native code] (node core modules)
function isNative(f) {
  let r = nativeCache.get(f);
  if (r === undefined) {
    r = foreign.has(f) || /\{\s*\[native code\]\s*\}\s*$/.test(Function.prototype.toString.call(f));
    nativeCache.set(f, r);
  }
  return r;
}
const transparent = new Set();
// built-ins without a model decide on the answers of their callbacks: these have to be concrete
const CALLBACK = new Set();
for (const P of [Array.prototype, Object.getPrototypeOf(Int8Array.prototype), typeof Iterator === 'function' ? Iterator.prototype : {}, Map, Object])
  for (const n of Object.getOwnPropertyNames(P)) {
    const d = Object.getOwnPropertyDescriptor(P, n);
    if (typeof d.value === 'function' && n !== 'constructor') CALLBACK.add(d.value);
  }
const answering = (cb, f) => function (...a) { return conc(cb.apply(this, a), 'callback of ' + f.name); };
function callFn(f, self, args) {
  if (f instanceof SymLazy) f = force(f);
  if (typeof f !== 'function') {
    if (E.aborted) throw E.aborted;
    throw new TypeError((isSym(f) || f === null || typeof f === 'object' ? 'object' : String(f)) + ' is not a function');
  }
  const m = models.get(f);
  if (m) return m(self, args);
  let touched = isSym(self);
  if (!touched) for (let i = 0; i < args.length; i++) if (isSym(args[i])) { touched = true; break; }
  if (touched && isNative(f) && !transparent.has(f) && f.name !== '' && !f.name.startsWith('bound ')) {
    const site = 'native ' + f.name;
    self = conc(self, site);
    args = args.map((a) => conc(a, site));
  }
  if (isNative(f) && !transparent.has(f) && !f.name.startsWith('bound ')) args = args.map((a) => (typeof a === 'function' && CALLBACK.has(f) ? answering(a, f) : a));
  return f.apply(self, args);
}
function inv(o, k, args) {
  const f = g(o, k);
  if (typeof f !== 'function' && !(f instanceof SymLazy)) {
    if (E.aborted) throw E.aborted;
    throw new TypeError(`${typeof k === 'symbol' ? String(k) : isSym(k) ? 'value' : 'x.' + k} is not a function`);
  }
  return callFn(f, unwrap(o), args);
}
const call = (f, args) => callFn(f, undefined, args);
const ctorModels = new Map();
function new_(C, args) {
  C = force(C);
  const m = ctorModels.get(C);
  if (m) return m(args);
  if (typeof C === 'function' && isNative(C) && args.some(isSym)) args = args.map((a) => conc(a, 'new ' + C.name));
  return new C(...args);
}
function c(e) {
  if (E.aborted) throw E.aborted;
  if (e && e.__internal) throw e;
}
const loop = () => {
  E.tick();
  return true;
};
const covered = new Set();
const f = (id) => { covered.add(id); };

// ---- helpers the TypeScript compiler expects ---------------------------------------------------------------
function ownEnumKeys(o) {
  return Object.keys(o);
}
function copyInto(target, src, viaSet) {
  src = force(src);
  if (src === null || src === undefined) return;
  if (src instanceof SymStr || typeof src === 'string') {
    chars(src).forEach((ch, i) => { target[i] = mkStr([ch]); });
    return;
  }
  if (isSym(src)) return;
  for (const k of Object.keys(src)) {
    const v = src[k];
    if (viaSet) s(target, keyStr(k), v);
    else def(target, keyStr(k), v);
  }
  for (const k of Object.getOwnPropertySymbols(src)) if (Object.prototype.propertyIsEnumerable.call(src, k)) target[k] = src[k];
}
const helpers = {
  __classPrivateFieldGet(o, state, kind, f) {
    if (kind === 'a' && !f) throw new TypeError('Private accessor was defined without a getter');
    if (typeof state === 'function' ? o !== state || !f : !state.has(o)) throw new TypeError('Cannot read private member from an object whose class did not declare it');
    return kind === 'm' ? f : kind === 'a' ? callFn(f, o, []) : f ? f.value : state.get(o);
  },
  __classPrivateFieldSet(o, state, value, kind, f) {
    if (kind === 'm') throw new TypeError('Private method is not writable');
    if (kind === 'a' && !f) throw new TypeError('Private accessor was defined without a setter');
    if (typeof state === 'function' ? o !== state || !f : !state.has(o)) throw new TypeError('Cannot write private member to an object whose class did not declare it');
    if (kind === 'a') callFn(f, o, [value]); else if (f) f.value = value; else state.set(o, value);
    return value;
  },
  __classPrivateFieldIn(state, o) {
    o = force(o);
    if (o === null || isSym(o) || (typeof o !== 'object' && typeof o !== 'function')) throw new TypeError("Cannot use 'in' operator on non-object");
    return typeof state === 'function' ? o === state : state.has(o);
  },
  __await: function __await(v) { return this instanceof __await ? ((this.v = v), this) : new __await(v); },
  __asyncValues(o) {
    const m = g(o, Symbol.asyncIterator);
    if (m) return callFn(m, o, []);
    const it = iter(o)[Symbol.iterator]();
    const settle = (resolve, reject, d, v) => Promise.resolve(v).then((x) => resolve({ value: x, done: d }), reject);
    const i = { [Symbol.asyncIterator]() { return this; } };
    for (const n of ['next', 'throw', 'return']) if (it[n]) i[n] = (v) => new Promise((resolve, reject) => { v = it[n](v); settle(resolve, reject, v.done, v.value); });
    return i;
  },
  __asyncGenerator(thisArg, _args, generator) {
    const gen = generator.apply(thisArg, _args || []), q = [];
    const Aw = helpers.__await;
    const i = { [Symbol.asyncIterator]() { return this; } };
    for (const n of ['next', 'throw', 'return']) i[n] = (v) => new Promise((a, b) => { q.push([n, v, a, b]) > 1 || resume(n, v); });
    function resume(n, v) {
      try {
        const r = n === 'return' && !gen.return ? { value: v, done: true } : gen[n](v);
        if (r.value instanceof Aw) Promise.resolve(r.value.v).then((x) => resume('next', x), (x) => resume('throw', x));
        else settle(q[0][2], r);
      } catch (e) { settle(q[0][3], e); }
    }
    function settle(f, v) { f(v); q.shift(); if (q.length) resume(q[0][0], q[0][1]); }
    return i;
  },
  __assign(target, ...srcs) {
    for (const x of srcs) copyInto(target, x, false);
    return target;
  },
  __rest(src, exclude) {
    src = force(src);
    const out = {};
    if (src === null || src === undefined) throw new TypeError('Cannot destructure ' + src);
    if (isSym(src)) { copyInto(out, src, false); for (const e of exclude) delete out[e]; return out; }
    for (const k of Object.keys(src)) {
      const ks = keyStr(k);
      let skip = false;
      for (const e of exclude) if (isSym(ks) || isSym(e) ? sameKeyVal(ks, e) : ks === String(e)) { skip = true; break; }
      if (!skip) def(out, ks, src[k]);
    }
    for (const k of Object.getOwnPropertySymbols(src)) if (!exclude.includes(k) && Object.prototype.propertyIsEnumerable.call(src, k)) out[k] = src[k];
    return out;
  },
  __values(o) {
    return iter(o)[Symbol.iterator]();
  },
  __read(o, n) {
    o = force(o);
    if (Array.isArray(o)) return n === undefined ? o.slice() : o.slice(0, n);
    const it = iter(o)[Symbol.iterator]();
    const out = [];
    let r;
    while ((n === undefined || n-- > 0) && !(r = it.next()).done) out.push(r.value);
    if (r && !r.done && it.return) it.return();
    return out;
  },
  __spreadArray(to, from) {
    return to.concat(Array.from(iter(from)));
  },
  __spread(...args) {
    let out = [];
    for (const a of args) out = out.concat(Array.from(iter(a)));
    return out;
  },
  __makeTemplateObject(cooked, raw) {
    cooked.raw = raw;
    return cooked;
  },
  __importDefault: (m) => (m && m.__esModule ? m : { default: m }),
  __importStar(m) {
    if (m && m.__esModule) return m;
    const r = {};
    if (m != null) for (const k of Object.keys(m)) if (k !== 'default') Object.defineProperty(r, k, { enumerable: true, configurable: true, get: () => m[k] });
    r.default = m;
    return r;
  },
  __exportStar(m, exports) {
    for (const k in m) if (k !== 'default' && !Object.prototype.hasOwnProperty.call(exports, k)) Object.defineProperty(exports, k, { enumerable: true, configurable: true, get: () => m[k] });
  },
  __createBinding(o, m, k, k2) {
    Object.defineProperty(o, k2 === undefined ? k : k2, { enumerable: true, configurable: true, get: () => m[k] });
  },
  __setModuleDefault(o, v) { o.default = v; },
  __extends(d, b) {
    Object.setPrototypeOf(d, b);
    function __() { this.constructor = d; }
    d.prototype = b === null ? Object.create(b) : ((__.prototype = b.prototype), new __());
    Object.defineProperty(d.prototype, 'constructor', { value: d, enumerable: false, writable: true, configurable: true });
  },
  __awaiter(thisArg, _args, P, generator) {
    return new Promise((resolve, reject) => {
      let gen;
      function step(r) {
        if (r.done) resolve(r.value);
        else Promise.resolve(r.value).then(fulfilled, rejected);
      }
      function fulfilled(v) { try { step(gen.next(v)); } catch (e) { reject(e); } }
      function rejected(v) { try { step(gen['throw'](v)); } catch (e) { reject(e); } }
      try {
        gen = generator.apply(thisArg, _args || []);
        step(gen.next());
      } catch (e) { reject(e); }
    });
  },
  __generator: (0, eval)(`(function (thisArg, body) {
    var _ = { label: 0, sent: function () { if (t[0] & 1) throw t[1]; return t[1]; }, trys: [], ops: [] }, f, y, t, g = Object.create((typeof Iterator === "function" ? Iterator : Object).prototype);
    return g.next = verb(0), g["throw"] = verb(1), g["return"] = verb(2), typeof Symbol === "function" && (g[Symbol.iterator] = function () { return this; }), g;
    function verb(n) { return function (v) { return step([n, v]); }; }
    function step(op) {
      if (f) throw new TypeError("Generator is already executing.");
      while (g && (g = 0, op[0] && (_ = 0)), _) try {
        if (f = 1, y && (t = op[0] & 2 ? y["return"] : op[0] ? y["throw"] || ((t = y["return"]) && t.call(y), 0) : y.next) && !(t = t.call(y, op[1])).done) return t;
        if (y = 0, t) op = [op[0] & 2, t.value];
        switch (op[0]) {
          case 0: case 1: t = op; break;
          case 4: _.label++; return { value: op[1], done: false };
          case 5: _.label++; y = op[1]; op = [0]; continue;
          case 7: op = _.ops.pop(); _.trys.pop(); continue;
          default:
            if (!(t = _.trys, t = t.length > 0 && t[t.length - 1]) && (op[0] === 6 || op[0] === 2)) { _ = 0; continue; }
            if (op[0] === 3 && (!t || (op[1] > t[0] && op[1] < t[3]))) { _.label = op[1]; break; }
            if (op[0] === 6 && _.label < t[1]) { _.label = t[1]; t = op; break; }
            if (t && _.label < t[2]) { _.label = t[2]; _.ops.push(op); break; }
            if (t[2]) _.ops.pop();
            _.trys.pop(); continue;
        }
        op = body.call(thisArg, _);
      } catch (e) { op = [6, e]; y = 0; } finally { f = t = 0; }
      if (op[0] & 5) throw op[1]; return { value: op[0] ? op[1] : void 0, done: true };
    }
  })`),
};
const sameKeyVal = (a, b) => {
  const x = chars(toStr(a)), y = chars(toStr(b));
  return x.length === y.length && fork(eqChars(x, y));
};
// an object natively iterable with the elements of o
function iter(o) {
  o = force(o);
  if (o instanceof SymStr) return codePoints(o);
  if (isSym(o) || o === null || o === undefined || typeof o[Symbol.iterator] !== 'function')
    throw new TypeError((isSym(o) ? 'value' : String(o)) + ' is not iterable');
  return o;
}
function codePoints(str) {
  const out = [];
  const ch = str.ch;
  for (let i = 0; i < ch.length; i++) {
    const hi = T.and(T.le(T.int(0xd800), chT(ch[i])), T.le(chT(ch[i]), T.int(0xdbff)));
    if (i + 1 < ch.length && fork(hi) && fork(T.and(T.le(T.int(0xdc00), chT(ch[i + 1])), T.le(chT(ch[i + 1]), T.int(0xdfff))))) {
      out.push(mkStr([ch[i], ch[i + 1]]));
      i++;
    } else out.push(mkStr([ch[i]]));
  }
  return out;
}

function resetPath() {
  symKeyed = new WeakSet();
}

const ops = {
  t, not, typeof_, seq, sne, leq, lne, lt, le, gt, ge, add, ar, un, num, inc, g, s, def, del, in_, iof, keysIn, stillIn,
  inv, call, new_, c, loop, f,
  preInc: (o, k, d) => { const v = inc(g(o, k), d); s(o, k, v); return v; },
  postInc: (o, k, d) => { const v = num(g(o, k)); s(o, k, inc(v, d)); return v; },
};

ops.H = helpers;
module.exports = {
  T, ops, helpers, models, ctorModels, transparent, foreign, covered, setExplorer, explorer: () => E, resetPath,
  Sym, SymBool, SymNum, SymStr, SymLazy, mkBool, mkNum, mkStr, chars, chT, fork, isSym, unwrap, force, narrow,
  toStr, toNum, toPrim, toKey, conc, concDeep, concTerm, eqChars, seq, t, iter, codePoints, isWs, isDigit, callFn, g, s, def, del,
  keyStr, isPlace, ownKey, sameKeyVal, copyInto, ltStr, symKeyedHas: (o) => symKeyed.has(o), leq, isNative, PathAbort, strictEqTerm, lt,
};
