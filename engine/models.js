'use strict';
// Models of the JavaScript built-ins on symbolic operands. Every model reduces to the built-in itself when no operand
// is symbolic.
const R = require('./rt');
const { T, models, ctorModels, transparent, SymBool, SymNum, SymStr, SymLazy, mkBool, mkNum, mkStr, chars, chT, fork, isSym,
  force, toStr, toNum, conc, concDeep, eqChars, seq, t, iter, callFn, g, s, def, keyStr, isPlace, ownKey, toKey, isWs, isDigit } = R;
const RX = require('./regex');

const model = (f, m) => models.set(f, m);
const AP = Array.prototype, SP = String.prototype, OP = Object.prototype;

// ---- Function ------------------------------------------------------------------------------------------
const NATIVE_ERRORS = new Set([Error, TypeError, RangeError, SyntaxError, ReferenceError, EvalError, URIError]);
function makeError(C, args, newTarget) {
  const msg = args.length ? force(args[0]) : undefined;
  const e = Reflect.construct(C, [], newTarget || C);
  if (msg !== undefined) Object.defineProperty(e, 'message', { value: isSym(msg) || typeof msg === 'object' ? toStr(msg) : String(msg), writable: true, enumerable: false, configurable: true });
  return e;
}
for (const C of NATIVE_ERRORS) {
  model(C, (self, args) => makeError(C, args));
  ctorModels.set(C, (args) => makeError(C, args));
}
const NATIVE_CLASSES = new Set([Map, Set, WeakMap, WeakSet, Promise, RegExp, Array, Date]);
function superCall(f, self, args) {
  // `_super.call(this, ...)` of a lowered class: the native constructor must create the instance
  if (NATIVE_ERRORS.has(f) && self instanceof f) return makeError(f, args, self.constructor);
  if (NATIVE_CLASSES.has(f) && self instanceof f) return Object.setPrototypeOf(R.ops.new_(f, args), Object.getPrototypeOf(self));
  return callFn(f, self, args);
}
model(Function.prototype.call, (f, args) => superCall(f, args[0], args.slice(1)));
model(Function.prototype.apply, (f, args) => superCall(f, args[0], args[1] == null ? [] : Array.from(force(args[1]))));
model(Function.prototype.bind, (f, args) => {
  if (!isSym(args[0]) && R.isNative(f) && !models.has(f)) return Function.prototype.bind.apply(f, args);
  const [self, ...pre] = args;
  return function bound(...rest) { return callFn(f, self, pre.concat(rest)); };
});
transparent.add(Function.prototype.toString);
model(Error.prototype.toString, (self) => {
  const n = g(self, 'name'), m = g(self, 'message');
  const name = n === undefined ? 'Error' : toStr(n), msg = m === undefined ? '' : toStr(m);
  const a = chars(name), b = chars(msg);
  return a.length === 0 ? msg : b.length === 0 ? name : mkStr(a.concat(chars(': '), b));
});
if (typeof structuredClone === 'function') {
  const clone = (x, seen) => {
    x = x instanceof SymLazy ? force(x) : x;
    if (isSym(x) || x === null || typeof x !== 'object') {
      if (typeof x === 'function' || typeof x === 'symbol') throw new DOMException('could not be cloned', 'DataCloneError');
      return x;
    }
    if (seen.has(x)) return seen.get(x);
    if (Array.isArray(x)) { const r = []; seen.set(x, r); for (let i = 0; i < x.length; i++) r[i] = clone(x[i], seen); return r; }
    if (x instanceof Map) { const r = new Map(); seen.set(x, r); for (const [k, v] of x) r.set(clone(k, seen), clone(v, seen)); return r; }
    if (x instanceof Set) { const r = new Set(); seen.set(x, r); for (const v of x) r.add(clone(v, seen)); return r; }
    const p = Object.getPrototypeOf(x);
    if (p !== Object.prototype && p !== null && (x instanceof Date || x instanceof RegExp || x instanceof Error || ArrayBuffer.isView(x))) return structuredClone(x);
    const r = {};
    seen.set(x, r);
    for (const k of Object.keys(x)) def(r, keyStr(k), clone(x[k], seen));
    return r;
  };
  model(structuredClone, (_, [x]) => clone(x, new Map()));
}

// ---- Object ----------------------------------------------------------------------------------------------
const objArg = (o) => {
  o = force(o);
  if (o === null || o === undefined) throw new TypeError('Cannot convert undefined or null to object');
  return o;
};
const keysOf = (o) => {
  o = objArg(o);
  if (o instanceof SymStr) return o.ch.map((_, i) => String(i));
  if (isSym(o)) return [];
  return Object.keys(o).map(keyStr);
};
model(Object.keys, (_, [o]) => keysOf(o));
model(Reflect.ownKeys, (_, [o]) => Reflect.ownKeys(objArg(o)).map(keyStr));
model(Object.values, (_, [o]) => {
  o = objArg(o);
  if (isSym(o)) return o instanceof SymStr ? o.ch.map((c) => mkStr([c])) : [];
  return Object.values(o);
});
model(Object.entries, (_, [o]) => {
  o = objArg(o);
  if (isSym(o)) return o instanceof SymStr ? o.ch.map((c, i) => [String(i), mkStr([c])]) : [];
  return Object.entries(o).map(([k, v]) => [keyStr(k), v]);
});
model(Object.getOwnPropertyNames, (_, [o]) => (isSym(force(o)) ? keysOf(o) : Object.getOwnPropertyNames(objArg(o)).map(keyStr)));
model(Object.assign, (_, [target, ...srcs]) => {
  target = force(target);
  for (const x of srcs) R.copyInto(target, x, true);
  return target;
});
model(Object.fromEntries, (_, [it]) => {
  const out = {};
  for (const e of iter(it)) { const p = force(e); def(out, g(p, 0), g(p, 1)); }
  return out;
});
const hasOwn = (o, k) => {
  o = objArg(o);
  k = toKey(k);
  if (isSym(o)) return o instanceof SymStr ? k === 'length' || (/^\d+$/.test(k) && Number(k) < o.ch.length) : false;
  if (!isSym(k) && !R.symKeyedHas(o)) return OP.hasOwnProperty.call(o, k);
  return ownKey(Object(o), typeof k === 'number' ? String(k) : k) !== undefined;
};
model(OP.hasOwnProperty, (o, [k]) => hasOwn(o, k));
model(Object.hasOwn, (_, [o, k]) => hasOwn(o, k));
model(OP.propertyIsEnumerable, (o, [k]) => {
  o = objArg(o);
  k = toKey(k);
  if (isSym(o)) return hasOwn(o, k) && k !== 'length';
  const kk = ownKey(o, k);
  return kk !== undefined && OP.propertyIsEnumerable.call(o, kk);
});
model(Object.defineProperty, (_, [o, k, d]) => {
  o = objArg(o);
  k = toKey(k);
  if (isSym(k)) {
    def(o, k, undefined);
    k = ownKey(o, k);
  }
  const dd = {};
  d = force(d);
  for (const q of ['value', 'get', 'set']) if (q in d) dd[q] = d[q];
  for (const q of ['writable', 'enumerable', 'configurable']) if (q in d) dd[q] = t(d[q]);
  if (k === 'name' && isSym(dd.value)) dd.value = conc(dd.value, 'function name');
  return Object.defineProperty(o, k, dd);
});
model(Object.getOwnPropertyDescriptor, (_, [o, k]) => {
  o = objArg(o);
  if (isSym(o)) return undefined;
  const kk = ownKey(Object(o), toKey(k));
  return kk === undefined ? undefined : Object.getOwnPropertyDescriptor(o, kk);
});
model(Object.is, (_, [a, b]) => {
  a = force(a);
  b = force(b);
  return isSym(a) || isSym(b) ? (Object.is(a, -0) || Object.is(b, -0) ? false : seq(a, b)) : Object.is(a, b);
});
model(OP.toString, (o) => {
  o = force(o);
  if (o instanceof SymStr) return '[object String]';
  if (o instanceof SymNum) return '[object Number]';
  if (o instanceof SymBool) return '[object Boolean]';
  return OP.toString.call(o);
});
model(OP.valueOf, (o) => (isSym(o) ? force(o) : OP.valueOf.call(o)));
for (const f of [Object.freeze, Object.isFrozen, Object.seal, Object.preventExtensions, Object.getPrototypeOf, Object.getOwnPropertySymbols])
  model(f, (_, [o]) => { o = force(o); return isSym(o) ? (f === Object.getPrototypeOf ? Object.getPrototypeOf(Object(conc(o, 'proto'))) : f === Object.getOwnPropertySymbols ? [] : f === Object.isFrozen ? true : o) : f(o); });
model(Object.create, (_, [p, d]) => Object.create(force(p), d));
model(Object.setPrototypeOf, (_, [o, p]) => Object.setPrototypeOf(force(o), force(p)));
model(Object, (_, [o]) => { o = force(o); return isSym(o) ? o : Object(o); });
model(OP.isPrototypeOf, (o, [x]) => { x = force(x); return isSym(x) ? false : OP.isPrototypeOf.call(o, x); });
model(Reflect.has, (_, [o, k]) => R.ops.in_(k, o));
model(Reflect.apply, (_, [f, self, args]) => superCall(f, self, Array.from(force(args))));
model(Reflect.set, (_, [o, k, v]) => { s(o, k, v); return true; });
model(Reflect.deleteProperty, (_, [o, k]) => R.del(o, k));
model(Reflect.get, (_, [o, k]) => g(o, k));

// ---- Array -----------------------------------------------------------------------------------------------
model(Array.isArray, (_, [x]) => {
  if (x instanceof SymLazy && !x.done) {
    if (!R.narrow(x, (a) => !!a.arr)) return false;
    return Array.isArray(force(x));
  }
  return Array.isArray(R.unwrap(x));
});
model(Array.from, (_, [x, fn]) => {
  x = force(x);
  let out;
  if (x !== null && x !== undefined && (x instanceof SymStr || typeof x[Symbol.iterator] === 'function')) out = Array.from(iter(x));
  else if (isSym(x)) out = [];
  else out = Array.from(x);
  return fn === undefined ? out : out.map((e, i) => callFn(fn, undefined, [e, i]));
});
for (const f of [AP.push, AP.unshift, AP.pop, AP.shift, AP.reverse, AP.keys, AP.values, AP.entries, AP.fill, Array.of,
  Promise.resolve, Promise.reject, Promise.all, Promise.allSettled, Promise.race, Promise.prototype.then, Promise.prototype.catch, Promise.prototype.finally,
  Map.prototype.forEach, Map.prototype.values, Map.prototype.keys, Map.prototype.entries, Map.prototype.clear, Set.prototype.forEach, Set.prototype.values,
  Set.prototype.clear, WeakMap.prototype.get, WeakMap.prototype.set, WeakMap.prototype.has, WeakSet.prototype.add, WeakSet.prototype.has])
  transparent.add(f);
const arrThis = (a) => {
  a = force(a);
  if (a === null || a === undefined) throw new TypeError('Array.prototype method called on null or undefined');
  if (a instanceof SymStr) return a.ch.map((c) => mkStr([c]));
  return a;
};
const each = (name, fn) => model(AP[name], (self, args) => fn(arrThis(self), ...args));
each('map', (a, f, self) => { const r = new Array(a.length); for (let i = 0; i < a.length; i++) if (i in a) r[i] = callFn(f, self, [a[i], i, a]); return r; });
each('forEach', (a, f, self) => { for (let i = 0; i < a.length; i++) if (i in a) callFn(f, self, [a[i], i, a]); });
each('filter', (a, f, self) => { const r = []; for (let i = 0; i < a.length; i++) if (i in a) { const x = a[i]; if (t(callFn(f, self, [x, i, a]))) r.push(x); } return r; });
each('find', (a, f, self) => { for (let i = 0; i < a.length; i++) { const x = a[i]; if (t(callFn(f, self, [x, i, a]))) return x; } });
each('findIndex', (a, f, self) => { for (let i = 0; i < a.length; i++) if (t(callFn(f, self, [a[i], i, a]))) return i; return -1; });
each('findLast', (a, f, self) => { for (let i = a.length - 1; i >= 0; i--) { const x = a[i]; if (t(callFn(f, self, [x, i, a]))) return x; } });
each('findLastIndex', (a, f, self) => { for (let i = a.length - 1; i >= 0; i--) if (t(callFn(f, self, [a[i], i, a]))) return i; return -1; });
each('some', (a, f, self) => { for (let i = 0; i < a.length; i++) if (i in a && t(callFn(f, self, [a[i], i, a]))) return true; return false; });
each('every', (a, f, self) => { for (let i = 0; i < a.length; i++) if (i in a && !t(callFn(f, self, [a[i], i, a]))) return false; return true; });
model(AP.reduce, (self, args) => {
  const a = arrThis(self);
  let i = 0, acc;
  if (args.length > 1) acc = args[1];
  else { if (a.length === 0) throw new TypeError('Reduce of empty array with no initial value'); acc = a[0]; i = 1; }
  for (; i < a.length; i++) acc = callFn(args[0], undefined, [acc, a[i], i, a]);
  return acc;
});
model(AP.reduceRight, (self, args) => {
  const a = arrThis(self);
  let i = a.length - 1, acc;
  if (args.length > 1) acc = args[1];
  else { if (a.length === 0) throw new TypeError('Reduce of empty array with no initial value'); acc = a[i--]; }
  for (; i >= 0; i--) acc = callFn(args[0], undefined, [acc, a[i], i, a]);
  return acc;
});
const idxArg = (x, n) => { x = x === undefined ? undefined : conc(toNum(x), 'index'); return x; };
each('slice', (a, x, y) => AP.slice.call(a, idxArg(x), idxArg(y)));
model(AP.splice, (self, args) => { const a = arrThis(self); const [x, y, ...r] = args; return args.length < 2 ? AP.splice.call(a, idxArg(x)) : AP.splice.call(a, idxArg(x), idxArg(y), ...r); });
each('at', (a, i) => { i = idxArg(i); return a[i < 0 ? a.length + i : i]; });
each('indexOf', (a, x, from) => { for (let i = Math.max(0, idxArg(from) || 0); i < a.length; i++) if (i in a && t(seq(a[i], x))) return i; return -1; });
each('lastIndexOf', (a, x) => { for (let i = a.length - 1; i >= 0; i--) if (t(seq(a[i], x))) return i; return -1; });
each('includes', (a, x) => { for (let i = 0; i < a.length; i++) if (t(same0(a[i], x))) return true; return false; });
const same0 = (a, b) => { if (typeof a === 'number' && a !== a) { const f = force(b); return typeof f === 'number' && f !== f; } return seq(a, b); };
each('join', (a, sep) => {
  sep = sep === undefined ? ',' : toStr(sep);
  let ch = [];
  for (let i = 0; i < a.length; i++) {
    if (i) ch = ch.concat(chars(sep));
    const x = force(a[i]);
    if (x !== undefined && x !== null) ch = ch.concat(chars(toStr(x)));
  }
  return mkStr(ch);
});
model(AP.toString, (self) => models.get(AP.join)(self, []));
model(AP.concat, (self, args) => {
  let r = AP.slice.call(arrThis(self));
  for (const x of args) {
    const f = x instanceof SymLazy && !t(models.get(Array.isArray)(null, [x])) ? x : R.unwrap(x);
    if (Array.isArray(f)) r = r.concat(f);
    else r.push(x);
  }
  return r;
});
const flat = (a, d) => { const r = []; for (const x of a) { const f = x instanceof SymLazy && !t(models.get(Array.isArray)(null, [x])) ? x : R.unwrap(x); if (d > 0 && Array.isArray(f)) r.push(...flat(f, d - 1)); else r.push(x); } return r; };
each('flat', (a, d) => flat(a, d === undefined ? 1 : conc(d)));
each('flatMap', (a, f, self) => flat(models.get(AP.map)(a, [f, self]), 1));
each('sort', (a, f) => {
  const xs = [], und = [];
  for (let i = 0; i < a.length; i++) (force(a[i]) === undefined ? und : xs).push(a[i]);
  const before = (x, y) => (f === undefined ? t(R.lt(toStr(x), toStr(y))) : t(R.lt(callFn(f, undefined, [x, y]), 0)));
  // binary-insertion, stable
  const out = [];
  for (const x of xs) {
    let lo = 0, hi = out.length;
    while (lo < hi) { const m = (lo + hi) >> 1; if (before(x, out[m])) hi = m; else lo = m + 1; }
    out.splice(lo, 0, x);
  }
  out.push(...und);
  for (let i = 0; i < out.length; i++) a[i] = out[i];
  return a;
});
if (AP.toSorted) each('toSorted', (a, f) => models.get(AP.sort)([...a], f === undefined ? [] : [f]));
if (AP.toSpliced) model(AP.toSpliced, (self, args) => { const a = [...arrThis(self)]; models.get(AP.splice)(a, args); return a; });
if (AP.with) each('with', (a, i, x) => { i = idxArg(i); const r = [...a]; if (i < 0) i += r.length; if (i < 0 || i >= r.length) throw new RangeError('Invalid index'); r[i] = x; return r; });
if (Object.groupBy) model(Object.groupBy, (_, [xs, f]) => {
  const r = Object.create(null);
  let i = 0;
  for (const x of iter(xs)) { const k = toKey(callFn(f, undefined, [x, i++])); if (!t(R.ops.in_(k, r))) s(r, k, []); g(r, k).push(x); }
  return r;
});
ctorModels.set(Array, (args) => new Array(...args.map((x) => (args.length === 1 ? conc(x) : x))));

// ---- Map / Set -----------------------------------------------------------------------------------------------
const symColl = new WeakSet();
function collKey(m, k) {
  k = force(k);
  if (!isSym(k) && !symColl.has(m)) return k;
  if (!isSym(k)) { if (m.has(k)) return k; if (k !== null && (typeof k === 'object' || typeof k === 'function')) return k; }
  for (const q of m.keys()) if (t(seq(q, k))) return q;
  return k;
}
const note = (m, k) => { if (isSym(k)) symColl.add(m); };
for (const P of [Map.prototype, Set.prototype]) {
  const { has, delete: del } = P;
  model(has, (m, [k]) => has.call(m, collKey(m, k)));
  model(del, (m, [k]) => del.call(m, collKey(m, k)));
}
model(Map.prototype.get, (m, [k]) => Map.prototype.get.call(m, collKey(m, k)));
model(Map.prototype.set, (m, [k, v]) => { const q = collKey(m, k); note(m, q); return Map.prototype.set.call(m, q, v); });
model(Set.prototype.add, (m, [k]) => { const q = collKey(m, k); note(m, q); return Set.prototype.add.call(m, q); });
ctorModels.set(Map, ([it]) => { const m = new Map(); it = force(it); if (it !== undefined && it !== null) for (const e of iter(it)) models.get(Map.prototype.set)(m, [g(e, 0), g(e, 1)]); return m; });
ctorModels.set(Set, ([it]) => { const m = new Set(); it = force(it); if (it !== undefined && it !== null) for (const e of iter(it)) models.get(Set.prototype.add)(m, [e]); return m; });
model(Map.prototype.forEach, (m, [f, self]) => { for (const [k, v] of m) callFn(f, self, [v, k, m]); });
model(Set.prototype.forEach, (m, [f, self]) => { for (const v of m) callFn(f, self, [v, v, m]); });
ctorModels.set(Promise, ([f]) => new Promise((res, rej) => callFn(f, undefined, [res, rej])));

// ---- primitives -----------------------------------------------------------------------------------------------
model(String, (_, args) => (args.length ? (typeof force(args[0]) === 'symbol' ? String(force(args[0])) : toStr(args[0])) : ''));
model(Number, (_, args) => (args.length ? (typeof force(args[0]) === 'bigint' ? Number(force(args[0])) : toNum(args[0])) : 0));
model(Boolean, (_, [x]) => (x instanceof SymBool ? x : t(x)));
model(Number.isInteger, (_, [x]) => { x = force(x); return isSym(x) ? x instanceof SymNum : Number.isInteger(x); });
model(Number.isSafeInteger, (_, [x]) => { x = force(x); return isSym(x) ? x instanceof SymNum : Number.isSafeInteger(x); });
model(Number.isFinite, (_, [x]) => { x = force(x); return isSym(x) ? x instanceof SymNum : Number.isFinite(x); });
model(Number.isNaN, (_, [x]) => { x = force(x); return isSym(x) ? false : Number.isNaN(x); });
model(isNaN, (_, [x]) => { x = toNum(x); return isSym(x) ? false : isNaN(x); });
model(isFinite, (_, [x]) => { x = toNum(x); return isSym(x) ? true : isFinite(x); });
for (const k of ['floor', 'ceil', 'round', 'trunc']) model(Math[k], (_, [x]) => { x = toNum(x); return isSym(x) ? x : Math[k](x); });
model(Math.abs, (_, [x]) => { x = toNum(x); return isSym(x) ? mkNum(T.ite(T.lt(x.term, T.int(0)), T.sub(T.int(0), x.term), x.term)) : Math.abs(x); });
for (const k of ['max', 'min']) model(Math[k], (_, xs) => {
  xs = xs.map(toNum);
  if (!xs.some(isSym)) return Math[k](...xs);
  let r = xs[0];
  for (const x of xs.slice(1)) { if (typeof x === 'number' && x !== x) return NaN; if (t(k === 'max' ? R.lt(r, x) : R.lt(x, r))) r = x; }
  return r;
});
model(Number.prototype.toString, (x, [radix]) => { x = force(x); return isSym(x) && (radix === undefined || radix === 10) ? toStr(x) : Number.prototype.toString.call(conc(x, 'toString radix'), radix); });
model(Boolean.prototype.toString, (x) => toStr(x));
model(Number.prototype.valueOf, (x) => force(x));
model(Boolean.prototype.valueOf, (x) => force(x));
const parseIntModel = (_, [x, radix]) => {
  const str = toStr(x);
  radix = radix === undefined ? undefined : conc(radix);
  if (!isSym(str)) return parseInt(str, radix);
  if (radix !== undefined && radix !== 10) return parseInt(conc(str, 'parseInt'), radix);
  let ch = str.ch, i = 0;
  while (i < ch.length && fork(isWs(ch[i]))) i++;
  let neg = false;
  if (i < ch.length && fork(T.eq(chT(ch[i]), T.int(45)))) { neg = true; i++; }
  else if (i < ch.length && fork(T.eq(chT(ch[i]), T.int(43)))) i++;
  if (radix === undefined && i + 1 < ch.length && fork(T.eq(chT(ch[i]), T.int(48))) && fork(T.or(T.eq(chT(ch[i + 1]), T.int(120)), T.eq(chT(ch[i + 1]), T.int(88)))))
    return parseInt(conc(str, 'parseInt hex'));
  let v = T.int(0), n = 0;
  for (; i < ch.length && fork(isDigit(ch[i])); i++, n++) v = T.add(T.mul(v, T.int(10)), T.sub(chT(ch[i]), T.int(48)));
  if (n === 0) return NaN;
  if (n > 15) return parseInt(conc(str, 'parseInt long'), radix);
  if (neg) { if (!T.isC(v) && fork(T.eq(v, T.int(0)))) return -0; return mkNum(T.sub(T.int(0), v)); }
  return mkNum(v);
};
model(parseInt, parseIntModel);
model(Number.parseInt, parseIntModel);
const pf = (_, [x]) => { const str = toStr(x); if (!isSym(str)) return parseFloat(str); const n = R.toNum(str); return isSym(n) ? n : parseFloat(conc(str, 'parseFloat')); };
model(parseFloat, pf);
model(BigInt, (_, [x]) => BigInt(conc(x, 'BigInt')));
model(Symbol, (_, args) => Symbol(...args.map((x) => conc(toStr(x)))));
model(Symbol.for, (_, [x]) => Symbol.for(conc(toStr(x))));

// ---- String ----------------------------------------------------------------------------------------------------
const strThis = (x, name) => {
  x = force(x);
  if (x === null || x === undefined) throw new TypeError(`String.prototype.${name} called on null or undefined`);
  return toStr(x);
};
// strMethod(name, f): f receives this as string (native or SymStr) and the raw args; only used when something is symbolic
function strMethod(name, f) {
  const nat = SP[name];
  model(nat, (self, args) => {
    if (typeof self === 'string' && !args.some((a) => isSym(a)) && !args.some((a) => typeof a === 'function' || (a !== null && typeof a === 'object' && !(a instanceof RegExp) && name !== 'split'))) return nat.apply(self, args);
    const str = strThis(self, name);
    args = args.map((a) => (a instanceof SymLazy ? force(a) : a));
    return f(str, args, nat);
  });
}
const intArg = (x, dflt) => { if (x === undefined) return dflt; x = conc(toNum(x), 'string index'); return x !== x ? 0 : Math.trunc(x); };
const clampRel = (i, n) => (i < 0 ? Math.max(n + i, 0) : Math.min(i, n));
strMethod('charAt', (str, [i]) => { i = intArg(i, 0); const ch = chars(str); return i >= 0 && i < ch.length ? mkStr([ch[i]]) : ''; });
strMethod('at', (str, [i]) => { i = intArg(i, 0); const ch = chars(str); if (i < 0) i += ch.length; return i >= 0 && i < ch.length ? mkStr([ch[i]]) : undefined; });
strMethod('charCodeAt', (str, [i]) => { i = intArg(i, 0); const ch = chars(str); return i >= 0 && i < ch.length ? (typeof ch[i] === 'number' ? ch[i] : mkNum(ch[i])) : NaN; });
strMethod('codePointAt', (str, [i]) => {
  i = intArg(i, 0);
  const ch = chars(str);
  if (i < 0 || i >= ch.length) return undefined;
  const a = chT(ch[i]);
  if (i + 1 < ch.length && fork(T.and(T.le(T.int(0xd800), a), T.le(a, T.int(0xdbff))))) {
    const b = chT(ch[i + 1]);
    if (fork(T.and(T.le(T.int(0xdc00), b), T.le(b, T.int(0xdfff)))))
      return mkNum(T.add(T.add(T.mul(T.sub(a, T.int(0xd800)), T.int(0x400)), T.sub(b, T.int(0xdc00))), T.int(0x10000)));
  }
  return mkNum(a);
});
const matchAtTerm = (ch, i, pat) => { const cs = []; for (let k = 0; k < pat.length; k++) { const c = T.eq(chT(ch[i + k]), chT(pat[k])); if (c === T.FALSE) return c; cs.push(c); } return T.and(...cs); };
function indexOfCh(ch, pat, from) {
  for (let i = Math.max(from, 0); i + pat.length <= ch.length; i++) if (fork(matchAtTerm(ch, i, pat))) return i;
  return -1;
}
strMethod('indexOf', (str, [p, from]) => indexOfCh(chars(str), chars(toStr(p)), Math.min(intArg(from, 0), chars(str).length)));
strMethod('lastIndexOf', (str, [p, from]) => {
  const ch = chars(str), pat = chars(toStr(p));
  const start = from === undefined ? ch.length : intArg(from, ch.length);
  for (let i = Math.min(start, ch.length - pat.length); i >= 0; i--) if (fork(matchAtTerm(ch, i, pat))) return i;
  return -1;
});
strMethod('includes', (str, [p, from]) => {
  const ch = chars(str), pat = chars(toStr(p));
  const ds = [];
  for (let i = Math.max(0, intArg(from, 0)); i + pat.length <= ch.length; i++) ds.push(matchAtTerm(ch, i, pat));
  return mkBool(T.or(...ds));
});
strMethod('startsWith', (str, [p, from]) => { const ch = chars(str), pat = chars(toStr(p)); const i = Math.max(0, intArg(from, 0)); return i + pat.length > ch.length ? false : mkBool(matchAtTerm(ch, i, pat)); });
strMethod('endsWith', (str, [p, end]) => { const ch = chars(str), pat = chars(toStr(p)); const i = Math.min(intArg(end, ch.length), ch.length) - pat.length; return i < 0 ? false : mkBool(matchAtTerm(ch, i, pat)); });
strMethod('slice', (str, [a, b]) => { const ch = chars(str), n = ch.length; return mkStr(ch.slice(clampRel(intArg(a, 0), n), clampRel(intArg(b, n), n))); });
strMethod('substring', (str, [a, b]) => { const ch = chars(str), n = ch.length; let i = Math.min(Math.max(intArg(a, 0), 0), n), j = Math.min(Math.max(intArg(b, n), 0), n); if (i > j) [i, j] = [j, i]; return mkStr(ch.slice(i, j)); });
strMethod('substr', (str, [a, len]) => { const ch = chars(str), n = ch.length; const i = clampRel(intArg(a, 0), n); return mkStr(ch.slice(i, Math.min(n, i + Math.max(0, intArg(len, n))))); });
strMethod('concat', (str, args) => mkStr(args.reduce((acc, x) => acc.concat(chars(toStr(x))), chars(str))));
strMethod('repeat', (str, [n]) => { n = intArg(n, 0); let r = []; for (let i = 0; i < n; i++) r = r.concat(chars(str)); return mkStr(r); });
const trimS = (ch) => { let i = 0; while (i < ch.length && fork(isWs(ch[i]))) i++; return ch.slice(i); };
const trimE = (ch) => { let i = ch.length; while (i > 0 && fork(isWs(ch[i - 1]))) i--; return ch.slice(0, i); };
strMethod('trim', (str) => mkStr(trimE(trimS(chars(str)))));
strMethod('trimStart', (str) => mkStr(trimS(chars(str))));
strMethod('trimEnd', (str) => mkStr(trimE(chars(str))));
const between = (c, a, b) => T.and(T.le(T.int(a), chT(c)), T.le(chT(c), T.int(b)));
const caseMap = (lo, d, name) => (str) => mkStr(chars(str).flatMap((c) => {
  if (typeof c === 'number') return chars(String.fromCharCode(c)[name]());
  if (T.range(c)[1] > 127 && fork(T.lt(T.int(127), c))) return chars(String.fromCharCode(conc(mkNum(c), name + ' non-ascii'))[name]());
  return [T.ite(between(c, lo, lo + 25), T.add(c, T.int(d)), c)];
}));
strMethod('toLowerCase', caseMap(65, 32, 'toLowerCase'));
strMethod('toUpperCase', caseMap(97, -32, 'toUpperCase'));
strMethod('padStart', (str, [n, p]) => { const ch = chars(str); n = intArg(n, 0); const pc = p === undefined ? [32] : chars(toStr(p)); const pad = []; for (let i = 0; pad.length < n - ch.length; i++) pad.push(pc[i % pc.length]); return mkStr(pad.concat(ch)); });
strMethod('padEnd', (str, [n, p]) => { const ch = chars(str); n = intArg(n, 0); const pc = p === undefined ? [32] : chars(toStr(p)); const pad = []; for (let i = 0; pad.length < n - ch.length; i++) pad.push(pc[i % pc.length]); return mkStr(ch.concat(pad)); });
strMethod('normalize', (str, a) => { for (const c of str.ch) if (typeof c !== 'number' && fork(T.lt(T.int(127), c))) return conc(str, 'normalize').normalize(...a); return str; });
strMethod('localeCompare', (str, [o]) => conc(str, 'localeCompare').localeCompare(conc(toStr(o), 'localeCompare')));
model(SP.toString, (x) => force(x));
model(SP.valueOf, (x) => force(x));
model(SP[Symbol.iterator], (x) => { x = strThis(x, 'iterator'); return (isSym(x) ? R.codePoints(x) : x)[Symbol.iterator](); });
model(String.fromCharCode, (_, xs) => mkStr(xs.map((x) => { x = toNum(x); return isSym(x) ? T.mod(x.term, 65536) : x & 0xffff; })));
model(String.fromCodePoint, (_, xs) => mkStr(xs.flatMap((x) => {
  x = toNum(x);
  if (!isSym(x)) return chars(String.fromCodePoint(x));
  if (fork(T.and(T.le(T.int(0), x.term), T.le(x.term, T.int(0xffff))))) return [x.term];
  if (!fork(T.and(T.le(T.int(0), x.term), T.le(x.term, T.int(0x10ffff))))) throw new RangeError('Invalid code point');
  const y = T.sub(x.term, T.int(0x10000));
  return [T.add(T.div(y, 1024), T.int(0xd800)), T.add(T.mod(y, 1024), T.int(0xdc00))];
})));
const isRx = (x) => x instanceof RegExp;
strMethod('split', (str, [sep, lim], nat) => {
  lim = lim === undefined ? Infinity : conc(toNum(lim));
  const ch = chars(str);
  if (sep === undefined) return [str];
  const out = [];
  if (isRx(sep)) {
    if (!isSym(str)) return nat.call(str, sep, lim === Infinity ? undefined : lim);
    if (ch.length === 0) return RX.exec(sep, ch, 0, true) ? [] : [str];
    let p = 0, q = 0;
    while (q < ch.length) {
      const m = RX.exec(sep, ch, q, true);
      if (!m || m.end === p) { q++; continue; }
      out.push(mkStr(ch.slice(p, q)));
      for (const c of m.caps) out.push(c === undefined ? undefined : mkStr(ch.slice(c[0], c[1])));
      p = m.end;
      q = p;
    }
    out.push(mkStr(ch.slice(p)));
    return out.slice(0, lim);
  }
  const pat = chars(toStr(sep));
  if (pat.length === 0) return ch.map((c) => mkStr([c])).slice(0, lim);
  let p = 0;
  for (;;) {
    const i = indexOfCh(ch, pat, p);
    if (i < 0) break;
    out.push(mkStr(ch.slice(p, i)));
    p = i + pat.length;
  }
  out.push(mkStr(ch.slice(p)));
  return out.slice(0, lim);
});
// GetSubstitution of ECMA-262, forking on '$' in a symbolic template
function expand(tpl, ch, pos, end, caps, groups) {
  const tc = chars(tpl);
  const is = (i, c) => i < tc.length && fork(T.eq(chT(tc[i]), T.int(c.charCodeAt(0))));
  let out = [];
  for (let i = 0; i < tc.length; i++) {
    if (!is(i, '$') || i + 1 >= tc.length) { out.push(tc[i]); continue; }
    if (is(i + 1, '$')) { out.push(36); i++; continue; }
    if (is(i + 1, '&')) { out = out.concat(ch.slice(pos, end)); i++; continue; }
    if (is(i + 1, '`')) { out = out.concat(ch.slice(0, pos)); i++; continue; }
    if (is(i + 1, "'")) { out = out.concat(ch.slice(end)); i++; continue; }
    if (caps.length && fork(isDigit(tc[i + 1]))) {
      const d1 = R.concTerm(T.sub(chT(tc[i + 1]), T.int(48)));
      let n = d1, w = 1;
      if (i + 2 < tc.length && fork(isDigit(tc[i + 2]))) {
        const d2 = R.concTerm(T.sub(chT(tc[i + 2]), T.int(48)));
        if (d1 * 10 + d2 >= 1 && d1 * 10 + d2 <= caps.length) { n = d1 * 10 + d2; w = 2; }
      }
      if (n >= 1 && n <= caps.length) {
        const cp = caps[n - 1];
        if (cp) out = out.concat(ch.slice(cp[0], cp[1]));
        i += w;
        continue;
      }
    }
    if (groups && is(i + 1, '<')) {
      let j = i + 2;
      while (j < tc.length && !is(j, '>')) j++;
      if (j < tc.length) {
        const cp = groups[conc(mkStr(tc.slice(i + 2, j)))];
        if (cp) out = out.concat(ch.slice(cp[0], cp[1]));
        i = j;
        continue;
      }
    }
    out.push(tc[i]);
  }
  return out;
}
function replaceGen(all) {
  return (str, [pat, rep]) => {
    const ch = chars(str);
    const sub = (pos, end, caps, groups) => {
      if (typeof rep === 'function') {
        const args = [mkStr(ch.slice(pos, end)), ...caps.map((c) => (c ? mkStr(ch.slice(c[0], c[1])) : undefined)), pos, str];
        if (groups && Object.keys(groups).length) { const go = {}; for (const k of Object.keys(groups)) go[k] = groups[k] ? mkStr(ch.slice(groups[k][0], groups[k][1])) : undefined; args.push(go); }
        return chars(toStr(callFn(rep, undefined, args)));
      }
      return expand(toStr(rep), ch, pos, end, caps, groups);
    };
    let out = [];
    let last = 0;
    if (isRx(pat)) {
      const global = pat.global;
      if (all && !global) throw new TypeError('replaceAll must be called with a global RegExp');
      let from = !global && pat.sticky ? pat.lastIndex : 0;
      for (;;) {
        const m = RX.search(pat, ch, from);
        if (!m) break;
        out = out.concat(ch.slice(last, m.start), sub(m.start, m.end, m.caps, m.groups));
        last = m.end;
        if (!global) break;
        from = m.end === m.start ? m.end + 1 : m.end;
        if (from > ch.length) break;
      }
      if (global) pat.lastIndex = 0;
    } else {
      const p = chars(toStr(pat));
      let from = 0;
      for (;;) {
        const i = from > ch.length ? -1 : indexOfCh(ch, p, from);
        if (i < 0) break;
        out = out.concat(ch.slice(last, i), sub(i, i + p.length, [], null));
        last = i + p.length;
        from = p.length === 0 ? i + 1 : last;
        if (!all) break;
      }
    }
    return mkStr(out.concat(ch.slice(last)));
  };
}
strMethod('replace', replaceGen(false));
strMethod('replaceAll', replaceGen(true));
function matchArray(m, ch, str) {
  const r = [mkStr(ch.slice(m.start, m.end)), ...m.caps.map((c) => (c ? mkStr(ch.slice(c[0], c[1])) : undefined))];
  r.index = m.start;
  r.input = str;
  r.groups = undefined;
  if (m.groups && Object.keys(m.groups).length) { r.groups = {}; for (const k of Object.keys(m.groups)) r.groups[k] = m.groups[k] ? mkStr(ch.slice(m.groups[k][0], m.groups[k][1])) : undefined; }
  return r;
}
function rxExec(re, str) {
  const ch = chars(str);
  const stateful = re.global || re.sticky;
  const from = stateful ? re.lastIndex : 0;
  const m = from > ch.length ? null : re.sticky ? RX.exec(re, ch, from, true) : RX.search(re, ch, from);
  if (stateful) re.lastIndex = m ? m.end : 0;
  return m ? matchArray(m, ch, str) : null;
}
model(RegExp.prototype.exec, (re, [x]) => { const str = toStr(x); return isSym(str) ? rxExec(re, str) : RegExp.prototype.exec.call(re, str); });
model(RegExp.prototype.test, (re, [x]) => { const str = toStr(x); return isSym(str) ? rxExec(re, str) !== null : RegExp.prototype.test.call(re, str); });
ctorModels.set(RegExp, (args) => new RegExp(...args.map((x) => conc(x, 'new RegExp'))));
const asRx = (x, fl) => (isRx(x) ? x : new RegExp(x === undefined ? '' : conc(toStr(x), 'match pattern'), fl));
strMethod('match', (str, [p], nat) => {
  const re = asRx(p, '');
  if (!isSym(str)) return nat.call(str, re);
  if (!re.global) return rxExec(re, str);
  const out = [];
  re.lastIndex = 0;
  for (let m; (m = rxExec(re, str)); ) { out.push(m[0]); if (g(m[0], 'length') === 0) re.lastIndex++; }
  return out.length ? out : null;
});
strMethod('matchAll', (str, [p], nat) => {
  const re = new RegExp(asRx(p, 'g'));
  if (!isSym(str)) return nat.call(str, re);
  const out = [];
  re.lastIndex = 0;
  for (let m; (m = rxExec(re, str)); ) { out.push(m); if (g(m[0], 'length') === 0) re.lastIndex++; }
  return out[Symbol.iterator]();
});
strMethod('search', (str, [p], nat) => { const re = asRx(p, ''); if (!isSym(str)) return nat.call(str, re); const m = RX.search(re, str.ch, 0); return m ? m.start : -1; });

// ---- bytes and URIs -----------------------------------------------------------------------------------------------
function utf8Len(str) {
  let n = T.int(0);
  for (const c of R.codePoints(str)) {
    const cc = chars(c);
    if (cc.length === 2) { n = T.add(n, T.int(4)); continue; }
    const x = chT(cc[0]);
    n = T.add(n, T.ite(T.lt(x, T.int(0x80)), T.int(1), T.ite(T.lt(x, T.int(0x800)), T.int(2), T.int(3))));
  }
  return n;
}
model(Buffer.byteLength, (_, [x, enc]) => { x = force(x); return x instanceof SymStr && (enc === undefined || /^utf-?8$/i.test(enc)) ? mkNum(utf8Len(x)) : Buffer.byteLength(conc(x, 'byteLength'), enc); });
const hexd = (d) => T.ite(T.lt(d, T.int(10)), T.add(d, T.int(48)), T.add(d, T.int(55)));
const pct = (b) => [37, hexd(T.div(b, 16)), hexd(T.mod(b, 16))];
function encodeURIModel(keep, nat) {
  return (_, [x]) => {
    const str = toStr(x);
    if (!isSym(str)) return nat(str);
    let out = [];
    for (const cp of R.codePoints(str)) {
      const cc = chars(cp);
      if (cc.length === 2) { out = out.concat(chars(nat(conc(cp, 'encodeURI astral')))); continue; }
      const c = chT(cc[0]);
      const keepT = T.or(between(c, 65, 90), between(c, 97, 122), between(c, 48, 57), ...[...keep].map((k) => T.eq(c, T.int(k.charCodeAt(0)))));
      if (fork(keepT)) out.push(cc[0]);
      else if (fork(T.lt(c, T.int(0x80)))) out = out.concat(pct(c));
      else if (fork(between(c, 0xd800, 0xdfff))) throw new URIError('URI malformed');
      else if (fork(T.lt(c, T.int(0x800)))) out = out.concat(pct(T.add(T.div(c, 64), T.int(0xc0))), pct(T.add(T.mod(c, 64), T.int(0x80))));
      else out = out.concat(pct(T.add(T.div(c, 4096), T.int(0xe0))), pct(T.add(T.mod(T.div(c, 64), 64), T.int(0x80))), pct(T.add(T.mod(c, 64), T.int(0x80))));
    }
    return mkStr(out);
  };
}
model(TextEncoder.prototype.encode, (self, [x]) => {
  const str = toStr(x);
  if (!isSym(str)) return self.encode(str);
  const out = [];
  for (const cp of R.codePoints(str)) {
    const cc = chars(cp);
    if (cc.length === 2) { out.push(...self.encode(conc(cp, 'TextEncoder astral'))); continue; }
    const c = chT(cc[0]);
    if (fork(T.lt(c, T.int(0x80)))) out.push(c);
    else if (fork(T.lt(c, T.int(0x800)))) out.push(T.add(T.div(c, 64), T.int(0xc0)), T.add(T.mod(c, 64), T.int(0x80)));
    else if (fork(between(c, 0xd800, 0xdfff))) out.push(0xef, 0xbf, 0xbd);
    else out.push(T.add(T.div(c, 4096), T.int(0xe0)), T.add(T.mod(T.div(c, 64), 64), T.int(0x80)), T.add(T.mod(c, 64), T.int(0x80)));
  }
  return out.map((b) => (typeof b === 'number' ? b : mkNum(b)));
});
model(encodeURIComponent, encodeURIModel("-_.!~*'()", encodeURIComponent));
model(encodeURI, encodeURIModel("-_.!~*'();/?:@&=+$,#", encodeURI));
for (const nat of [decodeURIComponent, decodeURI]) model(nat, (_, [x]) => {
  const str = toStr(x);
  if (!isSym(str)) return nat(str);
  for (const c of str.ch) if (fork(T.eq(chT(c), T.int(37)))) return nat(conc(str, 'decodeURI'));
  return str;
});

// ---- JSON ------------------------------------------------------------------------------------------------------------
function quoteCh(str) {
  const out = [34];
  const ch = chars(str);
  for (let i = 0; i < ch.length; i++) {
    const c = ch[i];
    if (typeof c === 'number') {
      if (c >= 0xd800 && c <= 0xdfff) out.push(c); else out.push(...chars(JSON.stringify(String.fromCharCode(c)).slice(1, -1)));
      continue;
    }
    if (fork(T.or(T.eq(c, T.int(34)), T.eq(c, T.int(92))))) { out.push(92, c); continue; }
    if (T.range(c)[0] < 32 && fork(T.lt(c, T.int(32)))) { out.push(...chars(JSON.stringify(String.fromCharCode(R.concTerm(c))).slice(1, -1))); continue; }
    if (T.range(c)[1] >= 0xd800 && fork(between(c, 0xd800, 0xdfff))) R.explorer().abort('surrogate in JSON.stringify');
    out.push(c);
  }
  out.push(34);
  return out;
}
function hasSym(x, seen) {
  if (isSym(x)) return true;
  if (x === null || typeof x !== 'object') return false;
  seen = seen || new Set();
  if (seen.has(x)) return false;
  seen.add(x);
  if (R.symKeyedHas(x)) return true;
  if (x instanceof Map || x instanceof Set) return false;
  if (typeof x.toJSON === 'function' && !R.isNative(x.toJSON)) return true;
  for (const k of Object.keys(x)) {
    const d = Object.getOwnPropertyDescriptor(x, k);
    if (d && d.get) return true;
    if (d && 'value' in d && hasSym(d.value, seen)) return true;
  }
  return false;
}
function jsonStr(holder, key, value, replacer, keep, indent, gap, stack) {
  value = force(value);
  if (value !== null && (typeof value === 'object' || typeof value === 'bigint')) {
    const tj = value.toJSON;
    if (typeof tj === 'function') value = force(callFn(tj, value, [key]));
  }
  if (replacer) value = force(callFn(replacer, holder, [key, value]));
  if (value === null) return chars('null');
  if (value instanceof SymBool) return chars(toStr(value));
  if (typeof value === 'boolean') return chars(String(value));
  if (typeof value === 'string' || value instanceof SymStr) return quoteCh(value);
  if (value instanceof SymNum) return chars(toStr(value));
  if (typeof value === 'number') return chars(Number.isFinite(value) ? String(value) : 'null');
  if (typeof value === 'bigint') throw new TypeError('Do not know how to serialize a BigInt');
  if (typeof value !== 'object') return undefined;
  if (value instanceof String || value instanceof Number || value instanceof Boolean) return chars(JSON.stringify(value));
  if (stack.includes(value)) throw new TypeError('Converting circular structure to JSON');
  stack.push(value);
  const inner = indent + gap;
  const parts = [];
  const isArr = Array.isArray(value);
  if (isArr) for (let i = 0; i < value.length; i++) parts.push(jsonStr(value, String(i), value[i], replacer, keep, inner, gap, stack) || chars('null'));
  else for (const k of keep || Object.keys(value)) {
    const ks = keyStr(k);
    const v = jsonStr(value, ks, keep ? g(value, k) : value[k], replacer, keep, inner, gap, stack);
    if (v) parts.push(quoteCh(ks).concat(chars(gap ? ': ' : ':'), v));
  }
  stack.pop();
  const [o, c] = isArr ? [91, 93] : [123, 125];
  if (!parts.length) return [o, c];
  let out = [o];
  parts.forEach((p, i) => { if (i) out.push(44); if (gap) out = out.concat(chars('\n' + inner)); out = out.concat(p); });
  if (gap) out = out.concat(chars('\n' + indent));
  out.push(c);
  return out;
}
model(JSON.stringify, (_, [v, rep, sp]) => {
  v = force(v);
  rep = force(rep);
  if (!hasSym(v) && typeof rep !== 'function') return JSON.stringify(v, rep, sp);
  const gap = typeof sp === 'number' ? ' '.repeat(Math.min(10, sp)) : typeof sp === 'string' ? sp.slice(0, 10) : '';
  const r = jsonStr({ '': v }, '', v, typeof rep === 'function' ? rep : undefined, Array.isArray(rep) ? rep.map((k) => conc(toStr(k))) : undefined, '', gap, []);
  return r === undefined ? undefined : mkStr(r);
});
function jsonParse(ch) {
  let i = 0;
  const is = (c) => i < ch.length && fork(T.eq(chT(ch[i]), T.int(c.charCodeAt(0))));
  const bad = () => { throw new SyntaxError('Unexpected token in JSON'); };
  const ws = () => { while (i < ch.length && fork(T.or(...[32, 9, 10, 13].map((w) => T.eq(chT(ch[i]), T.int(w)))))) i++; };
  const word = (w, v) => { for (const c of w) { if (!is(c)) bad(); i++; } return v; };
  function str() {
    const out = [];
    i++;
    for (;;) {
      if (i >= ch.length) bad();
      if (is('"')) { i++; return mkStr(out); }
      if (is('\\')) {
        i++;
        if (i >= ch.length) bad();
        const e = conc(mkStr([ch[i]]), 'json escape');
        i++;
        const map = { '"': 34, '\\': 92, '/': 47, b: 8, f: 12, n: 10, r: 13, t: 9 };
        if (e in map) out.push(map[e]);
        else if (e === 'u') { const h = conc(mkStr(ch.slice(i, i + 4)), 'json escape'); if (!/^[0-9a-fA-F]{4}$/.test(h)) bad(); out.push(parseInt(h, 16)); i += 4; }
        else bad();
        continue;
      }
      if (fork(T.lt(chT(ch[i]), T.int(32)))) bad();
      out.push(ch[i++]);
    }
  }
  function number() {
    const st = i;
    if (is('-')) i++;
    if (i >= ch.length) bad();
    if (is('0')) i++;
    else { if (!fork(isDigit(ch[i]))) bad(); while (i < ch.length && fork(isDigit(ch[i]))) i++; }
    if (is('.')) { i++; let n = 0; while (i < ch.length && fork(isDigit(ch[i]))) { i++; n++; } if (!n) bad(); }
    if (i < ch.length && (is('e') || is('E'))) { i++; if (is('+') || is('-')) i++; let n = 0; while (i < ch.length && fork(isDigit(ch[i]))) { i++; n++; } if (!n) bad(); }
    return toNum(mkStr(ch.slice(st, i)));
  }
  function val() {
    ws();
    if (i >= ch.length) bad();
    if (is('{')) {
      i++;
      const o = {};
      ws();
      if (is('}')) { i++; return o; }
      for (;;) {
        ws();
        if (!is('"')) bad();
        const k = str();
        ws();
        if (!is(':')) bad();
        i++;
        def(o, k, val());
        ws();
        if (is(',')) { i++; continue; }
        if (is('}')) { i++; return o; }
        bad();
      }
    }
    if (is('[')) {
      i++;
      const a = [];
      ws();
      if (is(']')) { i++; return a; }
      for (;;) {
        a.push(val());
        ws();
        if (is(',')) { i++; continue; }
        if (is(']')) { i++; return a; }
        bad();
      }
    }
    if (is('"')) return str();
    if (is('t')) return word('true', true);
    if (is('f')) return word('false', false);
    if (is('n')) return word('null', null);
    return number();
  }
  const v = val();
  ws();
  if (i < ch.length) bad();
  return v;
}
model(JSON.parse, (_, [x, rev]) => {
  const str = toStr(x);
  if (!isSym(str) || rev) return JSON.parse(conc(str, 'JSON.parse reviver'), rev);
  return jsonParse(str.ch);
});

// ---- console: silent, and never a reason to inspect a value -------------------------------------------------------------
for (const k of ['log', 'warn', 'error', 'info', 'debug', 'trace']) model(console[k], () => undefined);

module.exports = { hasSym, indexOfCh };
