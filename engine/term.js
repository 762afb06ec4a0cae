'use strict';
// Hash-consed first-order terms over Int and Bool with light simplification.
const table = new Map();
let nextId = 1;

class Term {
  constructor(op, args, sort, v) {
    this.op = op;
    this.args = args;
    this.sort = sort;
    this.v = v; // constant value, or {name, lo, hi} for variables
    this.id = nextId++;
    this._s = undefined;
  }
  get str() {
    if (this._s === undefined) this._s = print(this);
    return this._s;
  }
}

function print(t) {
  switch (t.op) {
    case 'c':
      if (t.sort === 'B') return t.v ? 'true' : 'false';
      return t.v < 0 ? `(- ${-t.v})` : String(t.v);
    case 'v':
      return t.v.name;
    default:
      return `(${t.op} ${t.args.map((a) => a.str).join(' ')})`;
  }
}

function cons(op, args, sort, v) {
  const key =
    op === 'c' ? `c${sort}${v}` : op === 'v' ? `v${v.name}` : op + '|' + args.map((a) => a.id).join(',');
  let t = table.get(key);
  if (!t) {
    t = new Term(op, args, sort, v);
    table.set(key, t);
  }
  return t;
}

const TRUE = cons('c', [], 'B', true);
const FALSE = cons('c', [], 'B', false);
const bool = (b) => (b ? TRUE : FALSE);
const int = (n) => {
  if (!Number.isSafeInteger(n)) throw new Error('not a safe integer constant: ' + n);
  return cons('c', [], 'I', Object.is(n, -0) ? 0 : n);
};
const isC = (t) => t.op === 'c';

function variable(name, sort, lo, hi) {
  const t = cons('v', [], sort, { name, lo, hi });
  t.v.lo = lo;
  t.v.hi = hi;
  return t;
}

function range(t) {
  if (t.op === 'c') return [t.v, t.v];
  if (t.op === 'v') return [t.v.lo === undefined ? -Infinity : t.v.lo, t.v.hi === undefined ? Infinity : t.v.hi];
  if (t.op === 'ite') {
    const a = range(t.args[1]);
    const b = range(t.args[2]);
    return [Math.min(a[0], b[0]), Math.max(a[1], b[1])];
  }
  if (t.op === '+') {
    let lo = 0,
      hi = 0;
    for (const x of t.args) {
      const r = range(x);
      lo += r[0];
      hi += r[1];
    }
    return [lo, hi];
  }
  return [-Infinity, Infinity];
}

function not(a) {
  if (isC(a)) return bool(!a.v);
  if (a.op === 'not') return a.args[0];
  return cons('not', [a], 'B');
}
function nary(op, unit, xs) {
  const out = [];
  const seen = new Set();
  for (const x of xs) {
    if (isC(x)) {
      if (x.v === unit) continue;
      return bool(!unit);
    }
    const parts = x.op === op ? x.args : [x];
    for (const p of parts) {
      if (seen.has(p.id)) continue;
      if (seen.has(not(p).id)) return bool(!unit);
      seen.add(p.id);
      out.push(p);
    }
  }
  if (out.length === 0) return bool(unit);
  if (out.length === 1) return out[0];
  return cons(op, out, 'B');
}
const and = (...xs) => nary('and', true, xs);
const or = (...xs) => nary('or', false, xs);
const implies = (a, b) => or(not(a), b);

function eq(a, b) {
  if (a === b) return TRUE;
  if (isC(a) && isC(b)) return bool(a.v === b.v);
  if (a.sort === 'B') {
    if (isC(a)) return a.v ? b : not(b);
    if (isC(b)) return b.v ? a : not(a);
  } else {
    const ra = range(a);
    const rb = range(b);
    if (ra[1] < rb[0] || rb[1] < ra[0]) return FALSE;
    if (isC(b) && a.op === 'ite' && (isC(a.args[1]) || isC(a.args[2])))
      return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b));
    if (isC(a) && b.op === 'ite') return eq(b, a);
    if (isC(b) && a.op === '+' && a.args.length === 2 && isC(a.args[1]))
      return eq(a.args[0], int(b.v - a.args[1].v));
  }
  return a.id < b.id ? cons('=', [a, b], 'B') : cons('=', [b, a], 'B');
}
function ite(c, a, b) {
  if (isC(c)) return c.v ? a : b;
  if (a === b) return a;
  if (a.sort === 'B') {
    if (isC(a)) return a.v ? or(c, b) : and(not(c), b);
    if (isC(b)) return b.v ? or(not(c), a) : and(c, a);
  }
  return cons('ite', [c, a, b], a.sort);
}
function le(a, b) {
  if (isC(a) && isC(b)) return bool(a.v <= b.v);
  if (a === b) return TRUE;
  const ra = range(a);
  const rb = range(b);
  if (ra[1] <= rb[0]) return TRUE;
  if (ra[0] > rb[1]) return FALSE;
  return cons('<=', [a, b], 'B');
}
const lt = (a, b) => not(le(b, a));
function add(a, b) {
  if (isC(a) && isC(b)) return int(a.v + b.v);
  if (isC(a)) [a, b] = [b, a];
  if (isC(b)) {
    if (b.v === 0) return a;
    if (a.op === '+' && a.args.length === 2 && isC(a.args[1])) return add(a.args[0], int(a.args[1].v + b.v));
  }
  return cons('+', [a, b], 'I');
}
function sub(a, b) {
  if (isC(b)) return add(a, int(-b.v));
  if (a === b) return int(0);
  return cons('-', [a, b], 'I');
}
function mul(a, b) {
  if (isC(a) && isC(b)) return int(a.v * b.v);
  if (isC(a)) [a, b] = [b, a];
  if (isC(b)) {
    if (b.v === 0) return int(0);
    if (b.v === 1) return a;
  }
  return cons('*', [a, b], 'I');
}
// floor division / modulo by a positive constant, SMT-LIB semantics
const div = (a, k) => (isC(a) ? int(Math.floor(a.v / k)) : cons('div', [a, int(k)], 'I'));
const mod = (a, k) => (isC(a) ? int(((a.v % k) + k) % k) : cons('mod', [a, int(k)], 'I'));

function evalTerm(t, model, memo) {
  switch (t.op) {
    case 'c':
      return t.v;
    case 'v': {
      const x = model.get(t.v.name);
      if (x !== undefined) return x;
      if (t.sort === 'B') return false;
      return defaultOf(t.v);
    }
  }
  memo = memo || new Map();
  if (memo.has(t)) return memo.get(t);
  const e = (x) => evalTerm(x, model, memo);
  let r;
  const a = t.args;
  switch (t.op) {
    case 'not':
      r = !e(a[0]);
      break;
    case 'and':
      r = a.every(e);
      break;
    case 'or':
      r = a.some(e);
      break;
    case '=':
      r = e(a[0]) === e(a[1]);
      break;
    case '<=':
      r = e(a[0]) <= e(a[1]);
      break;
    case 'ite':
      r = e(a[0]) ? e(a[1]) : e(a[2]);
      break;
    case '+':
      r = a.reduce((s, x) => s + e(x), 0);
      break;
    case '-':
      r = e(a[0]) - e(a[1]);
      break;
    case '*':
      r = e(a[0]) * e(a[1]);
      break;
    case 'div':
      r = Math.floor(e(a[0]) / e(a[1]));
      break;
    case 'mod': {
      const k = e(a[1]);
      r = ((e(a[0]) % k) + k) % k;
      break;
    }
    default:
      throw new Error('evalTerm: ' + t.op);
  }
  memo.set(t, r);
  return r;
}
function defaultOf(v) {
  if (v.lo !== undefined && v.lo > 0) return v.lo;
  if (v.hi !== undefined && v.hi < 0) return v.hi;
  return 0;
}

module.exports = {
  Term, TRUE, FALSE, bool, int, variable, not, and, or, implies, eq, ite, le, lt, add, sub, mul, div, mod,
  evalTerm, isC, defaultOf, range,
};
