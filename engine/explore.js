'use strict';
// Path exploration: depth-first, by deterministic re-execution. Every fork point hands its condition to the solver;
// a side of a branch is entered only when the solver has a model for it, so the set of completed paths covers every
// value of the symbolic inputs within the declared domains.
const T = require('./term');
const { Solver } = require('./solver');

class PathAbort extends Error {
  constructor(why) {
    super('path abort: ' + why);
    this.why = why;
    this.__internal = true;
  }
}

class Explorer {
  constructor(opts) {
    this.opts = Object.assign({ maxPaths: Infinity, maxMs: Infinity, maxLoop: 200000 }, opts || {});
    this.solver = new Solver(this.opts.solver);
    this.second = null;
    this.trail = []; // {kind:'fork'|'assume', term, taken, forced, level}
    this.vars = new Map(); // name -> {name, sort, lo, hi}
    this.stats = { paths: 0, pruned: 0, forks: 0, forced: 0, concretised: 0, crossChecked: 0 };
    this.findings = []; // violations
    this.known = new Map();
    this.labels = new Map(); // label -> {reached, solver, structural}
    this.concreteSites = new Map();
    this.model = new Map();
    this.beginPath();
  }
  beginPath() {
    this.pos = 0;
    this.facts = new Map(); // term id -> bool
    this.aborted = null;
    this.usedVars = [];
    this.usedSet = new Set();
    this.loops = 0;
    this.observed = [];
  }
  level() {
    for (let i = this.trail.length - 1; i >= 0; i--) return this.trail[i].level;
    return 0;
  }
  abort(why) {
    const e = new PathAbort(why);
    this.aborted = e;
    throw e;
  }
  tick() {
    if (this.aborted) throw this.aborted;
    if (++this.loops > this.opts.maxLoop) this.abort('step bound');
  }
  variable(name, sort, lo, hi) {
    const t = T.variable(name, sort, lo, hi);
    if (!this.usedSet.has(name)) {
      this.usedSet.add(name);
      this.usedVars.push(t.v);
      t.v.sort = sort;
      if (!this.solver.declared.has(name)) {
        this.solver.declare(name, sort);
        this.vars.set(name, { name, sort, lo, hi });
      } else {
        const w = this.vars.get(name);
        if (w.lo !== lo || w.hi !== hi || w.sort !== sort) throw new Error('variable redeclared differently: ' + name);
      }
      if (sort === 'I') {
        if (lo !== undefined) this.assume(this.rangeTerm(t, lo, undefined), true);
        if (hi !== undefined) this.assume(this.rangeTerm(t, undefined, hi), true);
      }
    }
    return t;
  }
  // bounds as raw constraints (term-level simplification would fold them away using the declared range)
  rangeTerm(t, lo, hi) {
    return { raw: true, str: lo !== undefined ? `(>= ${t.str} ${lo < 0 ? `(- ${-lo})` : lo})` : `(<= ${t.str} ${hi < 0 ? `(- ${-hi})` : hi})`,
      ok: (m) => { const v = T.evalTerm(t, m); return lo !== undefined ? v >= lo : v <= hi; } };
  }
  holds(term) {
    return term.raw ? term.ok(this.model) : T.evalTerm(term, this.model);
  }
  getModel() {
    this.model = this.solver.values([...this.vars.values()]);
  }
  note(term, val) {
    if (term.raw) return;
    this.facts.set(term.id, val);
    this.facts.set(T.not(term).id, !val);
    if (val && term.op === 'and') for (const a of term.args) this.note(a, true);
    if (!val && term.op === 'or') for (const a of term.args) this.note(a, false);
  }
  assume(term, raw) {
    if (this.aborted) throw this.aborted;
    if (!term.raw) {
      if (T.isC(term)) {
        if (!term.v) {
          this.stats.pruned++;
          this.abort('assume');
        }
        return;
      }
      if (this.facts.get(term.id) === true) return;
    }
    if (this.pos < this.trail.length) {
      const ev = this.trail[this.pos++];
      if (ev.kind !== 'assume' || ev.term.str !== term.str) throw new Error(`nondeterministic replay: ${ev.kind} ${ev.term.str} vs assume ${term.str}`);
      this.note(term, true);
      return;
    }
    this.solver.push();
    this.solver.assert(term.str);
    this.trail.push({ kind: 'assume', term, level: this.solver.level });
    this.pos++;
    if (!this.holds(term)) {
      if (this.solver.check()) this.getModel();
      else {
        this.stats.pruned++;
        this.abort('assume');
      }
    }
    this.note(term, true);
  }
  // the value tried next for a term that has to become concrete; the same one when the path is executed again
  candidate(term) {
    const ev = this.pos < this.trail.length ? this.trail[this.pos] : null;
    return ev && ev.conc && ev.conc.term === term ? ev.conc.v : T.evalTerm(term, this.model);
  }
  fork(term, conc) {
    if (this.aborted) throw this.aborted;
    if (T.isC(term)) return term.v;
    const f = this.facts.get(term.id);

    if (f !== undefined) return f;
    if (this.pos < this.trail.length) {
      const ev = this.trail[this.pos++];
      if (ev.kind !== 'fork' || ev.term !== term) throw new Error(`nondeterministic replay: ${ev.kind} ${ev.term.str} vs fork ${term.str}`);
      this.note(term, ev.taken);
      return ev.taken;
    }
    const taken = this.holds(term);
    this.solver.push();
    this.solver.assert(taken ? term.str : T.not(term).str);
    this.trail.push({ kind: 'fork', term, taken, done: false, level: this.solver.level, conc });
    this.pos++;
    this.note(term, taken);
    if (process.env.VD2) console.error('FORK', term.str, taken);
    this.stats.forks++;
    return taken;
  }
  // move to the next unexplored branch; false when the tree is exhausted
  advance() {
    for (;;) {
      while (this.trail.length && (this.trail[this.trail.length - 1].kind !== 'fork' || this.trail[this.trail.length - 1].done)) this.trail.pop();
      if (this.trail.length === 0) {
        this.solver.popTo(0);
        return false;
      }
      const ev = this.trail[this.trail.length - 1];
      const prev = this.trail.length > 1 ? this.trail[this.trail.length - 2].level : 0;
      this.solver.popTo(prev);
      ev.taken = !ev.taken;
      ev.done = true;
      this.solver.push();
      this.solver.assert(ev.taken ? ev.term.str : T.not(ev.term).str);
      ev.level = this.solver.level;
      if (this.solver.check()) {
        this.getModel();
        return true;
      }
      this.stats.forced++;
      this.trail.pop();
    }
  }
  pathConstraints() {
    return this.trail.slice(0, this.pos).map((ev) => (ev.kind === 'assume' || ev.taken ? ev.term.str : T.not(ev.term).str));
  }
  // is `path /\ term` satisfiable? returns the model or null; the current model is kept
  query(term) {
    if (!term.raw && T.isC(term) && !term.v) return null;
    if (this.holds(term)) return this.model;
    this.solver.push();
    this.solver.assert(term.str);
    const saved = this.model;
    let res = null;
    const sat = this.solver.check();
    if (sat) {
      this.getModel();
      res = this.model;
      this.model = saved;
    }
    this.solver.popTo(this.solver.level - 1);
    if (!sat && this.opts.cross) this.crossCheck(term);
    return res;
  }
  crossCheck(term) {
    if (!this.second) this.second = new Solver(this.opts.cross);
    const s = this.second;
    for (const v of this.vars.values()) s.declare(v.name, v.sort);
    s.push();
    for (const c of this.pathConstraints()) s.assert(c);
    s.assert(term.str);
    const sat = s.check();
    s.popTo(s.level - 1);
    this.stats.crossChecked++;
    if (sat) throw new Error('solvers disagree on ' + term.str);
  }
  check(label, cond, known) {
    if (this.aborted) throw this.aborted;
    let l = this.labels.get(label);
    if (!l) this.labels.set(label, (l = { reached: 0, solver: 0, structural: 0 }));
    l.reached++;
    const constant = T.isC(cond);
    if (constant) l.structural++;
    else l.solver++;
    let bad = T.not(cond);
    if (T.isC(bad) && !bad.v) return;
    for (const k of known || []) {
      const m = this.query(T.and(bad, k.when));
      if (m && !this.known.has(k.id)) this.known.set(k.id, { label, model: this.modelObject(m) });
    }
    for (const k of known || []) bad = T.and(bad, T.not(k.when));
    const m = this.query(bad);
    if (m) {
      if (process.env.VDEBUG) console.error(label, this.pathConstraints().join('\n'), this.observed, cond.str);
      this.findings.push({ label, model: this.modelObject(m) });
      this.abort('violation');
    }
    // known deviations: leave their region
    if (known && known.length) this.assume(T.implies(T.not(cond), T.FALSE));
    else if (!constant) this.note(cond, true);
  }
  modelObject(m) {
    const o = {};
    for (const v of this.usedVars) {
      const x = m.get(v.name);
      o[v.name] = x === undefined ? (v.sort === 'B' ? false : T.defaultOf(v)) : x;
    }
    return o;
  }
  close() {
    this.solver.close();
    if (this.second) this.second.close();
  }
}

module.exports = { Explorer, PathAbort };
