'use strict';
// A backtracking regular-expression matcher over strings with symbolic characters. Pattern syntax and matching order
// follow ECMA-262 (non-unicode mode plus \p-free unicode patterns); every character test is a solver-decided branch.
const R = require('./rt');
const { T, chT, fork } = R;

const cache = new Map();
function parse(src, flags) {
  const key = flags + '/' + src;
  if (cache.has(key)) return cache.get(key);
  let i = 0, ncap = 0;
  const names = {};
  const nGroups = (src.match(/\((?!\?)|\(\?<(?![=!])/g) || []).length;
  const eat = (s) => { if (src.startsWith(s, i)) { i += s.length; return true; } return false; };
  const fail = (m) => { throw new Error(`regex /${src}/: ${m} at ${i}`); };
  function disj() {
    const alts = [seqp()];
    while (eat('|')) alts.push(seqp());
    return alts.length === 1 ? alts[0] : { k: 'alt', alts };
  }
  function seqp() {
    const items = [];
    while (i < src.length && src[i] !== '|' && src[i] !== ')') items.push(term());
    return { k: 'seq', items };
  }
  function term() {
    if (eat('^')) return { k: 'bol' };
    if (eat('$')) return { k: 'eol' };
    if (eat('\\b')) return { k: 'wb', neg: false };
    if (eat('\\B')) return { k: 'wb', neg: true };
    if (eat('(?=')) return look(false, false);
    if (eat('(?!')) return look(true, false);
    if (eat('(?<=')) return look(false, true);
    if (eat('(?<!')) return look(true, true);
    const cap0 = ncap;
    let a = atom();
    const cap1 = ncap;
    let min, max;
    if (eat('*')) { min = 0; max = Infinity; }
    else if (eat('+')) { min = 1; max = Infinity; }
    else if (eat('?')) { min = 0; max = 1; }
    else {
      const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i));
      if (m) { i += m[0].length; min = Number(m[1]); max = m[2] === undefined ? min : m[3] === '' ? Infinity : Number(m[3]); }
    }
    if (min !== undefined) a = { k: 'rep', a, min, max, lazy: eat('?'), caps: [cap0, cap1] };
    return a;
  }
  function look(neg, behind) { const d = disj(); if (!eat(')')) fail('expected )'); return { k: 'look', a: d, neg, behind }; }
  function atom() {
    if (eat('(?:')) { const d = disj(); if (!eat(')')) fail('expected )'); return d; }
    if (src.startsWith('(?<', i)) {
      const m = /^\(\?<([A-Za-z_$][\w$]*)>/.exec(src.slice(i));
      if (!m) fail('group');
      i += m[0].length;
      const n = ncap++;
      names[m[1]] = n;
      const d = disj();
      if (!eat(')')) fail('expected )');
      return { k: 'cap', n, a: d };
    }
    if (eat('(')) { const n = ncap++; const d = disj(); if (!eat(')')) fail('expected )'); return { k: 'cap', n, a: d }; }
    if (eat('.')) return { k: 'set', set: flags.includes('s') ? { neg: true, r: [] } : { neg: true, r: [[10, 10], [13, 13], [0x2028, 0x2029]] } };
    if (src[i] === '[') return { k: 'set', set: cls() };
    if (src[i] === '\\') {
      const m = /^\\([1-9]\d*)/.exec(src.slice(i));
      if (m && Number(m[1]) <= nGroups) { i += m[0].length; return { k: 'ref', n: Number(m[1]) - 1 }; }
      const kn = /^\\k<([^>]+)>/.exec(src.slice(i));
      if (kn) { i += kn[0].length; return { k: 'nref', name: kn[1] }; }
      const e = escape(false);
      return { k: 'set', set: e };
    }
    const c = src.charCodeAt(i++);
    return { k: 'set', set: { neg: false, r: [[c, c]] } };
  }
  const D = [[48, 57]], W = [[48, 57], [65, 90], [95, 95], [97, 122]];
  const S = [[9, 13], [32, 32], [160, 160], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
  function escape() {
    i++;
    const c = src[i++];
    switch (c) {
      case 'd': return { neg: false, r: D };
      case 'D': return { neg: true, r: D };
      case 'w': return { neg: false, r: W };
      case 'W': return { neg: true, r: W };
      case 's': return { neg: false, r: S };
      case 'S': return { neg: true, r: S };
      case 'n': return one(10);
      case 'r': return one(13);
      case 't': return one(9);
      case 'v': return one(11);
      case 'f': return one(12);
      case '0': return one(0);
      case 'x': { const h = src.slice(i, i + 2); i += 2; return one(parseInt(h, 16)); }
      case 'u': {
        const m = /^\{([0-9a-fA-F]+)\}/.exec(src.slice(i));
        if (m) { i += m[0].length; const v = parseInt(m[1], 16); if (v > 0xffff) fail('astral escape'); return one(v); }
        const h = src.slice(i, i + 4);
        i += 4;
        return one(parseInt(h, 16));
      }
      case 'c': { const v = src.charCodeAt(i++) % 32; return one(v); }
      case 'p': case 'P': fail('property escape'); break;
      default: return one(c.charCodeAt(0));
    }
  }
  const one = (c) => ({ neg: false, r: [[c, c]], single: c });
  function neg(r) {
    const s = [...r].sort((a, b) => a[0] - b[0]);
    const out = [];
    let p = 0;
    for (const [a, b] of s) { if (a > p) out.push([p, a - 1]); p = Math.max(p, b + 1); }
    if (p <= 0xffff) out.push([p, 0xffff]);
    return out;
  }
  function cls() {
    i++;
    const ng = eat('^');
    let r = [];
    while (src[i] !== ']') {
      if (i >= src.length) fail('class');
      const atomc = () => {
        if (src[i] === '\\') { if (src[i + 1] === 'b') { i += 2; return one(8); } return escape(); }
        return one(src.charCodeAt(i++));
      };
      const a = atomc();
      if (a.single !== undefined && src[i] === '-' && src[i + 1] !== ']') {
        const save = i;
        i++;
        const b = atomc();
        if (b.single !== undefined) { r.push([a.single, b.single]); continue; }
        i = save;
      }
      r = r.concat(a.neg ? neg(a.r) : a.r);
    }
    i++;
    return { neg: ng, r };
  }
  const node = disj();
  if (i < src.length) fail('trailing');
  const out = { node, ncap, names };
  cache.set(key, out);
  return out;
}

function setTerm(set, c, icase) {
  let rs = set.r;
  const inR = (x) => T.or(...rs.map(([a, b]) => (a === b ? T.eq(x, T.int(a)) : T.and(T.le(T.int(a), x), T.le(x, T.int(b))))));
  let x = chT(c);
  let r = inR(x);
  if (icase) {
    const up = T.and(T.le(T.int(65), x), T.le(x, T.int(90))), lo = T.and(T.le(T.int(97), x), T.le(x, T.int(122)));
    r = T.or(r, T.and(up, inR(T.add(x, T.int(32)))), T.and(lo, inR(T.sub(x, T.int(32)))));
  }
  return set.neg ? T.not(r) : r;
}
const W = { neg: false, r: [[48, 57], [65, 90], [95, 95], [97, 122]] };

function run(prog, ch, start, flags) {
  const icase = flags.includes('i'), multi = flags.includes('m');
  const test = (set, c) => fork(setTerm(set, c, icase));
  const isNl = (c) => fork(setTerm({ neg: false, r: [[10, 10], [13, 13], [0x2028, 0x2029]] }, c, false));
  const isW = (p) => p >= 0 && p < ch.length && fork(setTerm(W, ch[p], false));
  // m(node, pos, caps, dir, k): dir 1 forward, -1 backward; k(pos, caps) -> result|null
  function m(n, p, caps, dir, k) {
    R.explorer().tick();
    switch (n.k) {
      case 'seq': {
        const items = n.items;
        const step = (j, q, cs) => (j === items.length ? k(q, cs) : m(items[dir > 0 ? j : items.length - 1 - j], q, cs, dir, (q2, c2) => step(j + 1, q2, c2)));
        return step(0, p, caps);
      }
      case 'alt':
        for (const a of n.alts) { const r = m(a, p, caps, dir, k); if (r) return r; }
        return null;
      case 'set': {
        const q = dir > 0 ? p : p - 1;
        if (q < 0 || q >= ch.length || !test(n.set, ch[q])) return null;
        return k(p + dir, caps);
      }
      case 'cap':
        return m(n.a, p, caps, dir, (q, cs) => { const c2 = cs.slice(); c2[n.n] = dir > 0 ? [p, q] : [q, p]; return k(q, c2); });
      case 'rep': {
        const go = (count, q, cs) => {
          const clear = cs.slice();
          for (let x = n.caps[0]; x < n.caps[1]; x++) clear[x] = undefined;
          const more = () => (count >= n.max ? null : m(n.a, q, clear, dir, (q2, c2) => (q2 === q && count >= n.min ? null : go(count + 1, q2, c2))));
          if (count < n.min) return more();
          if (n.lazy) return k(q, cs) || more();
          return more() || k(q, cs);
        };
        return go(0, p, caps);
      }
      case 'bol': return p === 0 || (multi && isNl(ch[p - 1])) ? k(p, caps) : null;
      case 'eol': return p === ch.length || (multi && isNl(ch[p])) ? k(p, caps) : null;
      case 'wb': return (isW(p - 1) !== isW(p)) !== n.neg ? k(p, caps) : null;
      case 'look': {
        const r = m(n.a, p, caps, n.behind ? -1 : 1, (q, cs) => ({ cs }));
        if (n.neg) return r ? null : k(p, caps);
        return r ? k(p, r.cs) : null;
      }
      case 'ref': case 'nref': {
        const c = caps[n.k === 'ref' ? n.n : prog.names[n.name]];
        if (!c) return k(p, caps);
        const len = c[1] - c[0];
        const from = dir > 0 ? p : p - len;
        if (from < 0 || from + len > ch.length) return null;
        if (!fork(R.eqChars(ch.slice(c[0], c[1]), ch.slice(from, from + len)))) return null;
        return k(p + dir * len, caps);
      }
    }
    throw new Error('regex node ' + n.k);
  }
  return m(prog.node, start, new Array(prog.ncap).fill(undefined), 1, (end, caps) => {
    const groups = {};
    for (const nm of Object.keys(prog.names)) groups[nm] = caps[prog.names[nm]];
    return { start, end, caps, groups };
  });
}
function exec(re, ch, at) {
  return run(parse(re.source, re.flags), ch, at, re.flags);
}
function search(re, ch, from) {
  const prog = parse(re.source, re.flags);
  if (re.sticky) return run(prog, ch, from, re.flags);
  for (let i = from; i <= ch.length; i++) {
    const r = run(prog, ch, i, re.flags);
    if (r) return r;
  }
  return null;
}
module.exports = { exec, search, parse };
