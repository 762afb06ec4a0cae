'use strict';
// Synchronous SMT-LIB2 session with an external solver process (z3 / z3-new / cvc5) over two FIFOs.
const fs = require('fs');
const os = require('os');
const path = require('path');
const { spawn, execFileSync } = require('child_process');

const COMMANDS = {
  'z3-new': 'exec z3-new -in',
  z3: 'exec z3 -in',
  cvc5: 'exec cvc5 --incremental --produce-models --lang=smt2 -q',
};

class Solver {
  constructor(kind) {
    this.kind = kind || process.env.VERIF_SOLVER || 'z3-new';
    this.stats = { queries: 0, sat: 0, unsat: 0, time_ms: 0 };
    this.dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vsolver-'));
    const fin = path.join(this.dir, 'in');
    const fout = path.join(this.dir, 'out');
    execFileSync('mkfifo', [fin, fout]);
    this.child = spawn('sh', ['-c', `${COMMANDS[this.kind]} < ${fin} > ${fout} 2>/dev/null`], {
      stdio: 'ignore',
    });
    this.child.unref();
    this.w = fs.openSync(fin, 'w');
    this.r = fs.openSync(fout, 'r');
    fs.rmSync(this.dir, { recursive: true, force: true });
    this.buf = Buffer.alloc(1 << 16);
    this.pending = '';
    this.out = [];
    this.declared = new Set();
    this.level = 0;
    this.send('(set-option :global-declarations true)');
    this.send('(set-option :produce-models true)');
    this.send(this.kind === 'cvc5' ? '(set-logic QF_UFNIA)' : '(set-option :timeout 60000)');
  }
  send(s) {
    this.out.push(s);
  }
  flush() {
    if (this.out.length === 0) return;
    const data = Buffer.from(this.out.join('\n') + '\n');
    this.out.length = 0;
    let off = 0;
    while (off < data.length) off += fs.writeSync(this.w, data, off);
  }
  // send s and read everything up to the sentinel
  ask(s) {
    this.send(s);
    this.send('(echo "@@")');
    this.flush();
    for (;;) {
      const m = /(^|\n)"?@@"?\n/.exec(this.pending);
      if (m) {
        const res = this.pending.slice(0, m.index);
        this.pending = this.pending.slice(m.index + m[0].length);
        if (res.includes('(error')) throw new Error('solver error: ' + res);
        return res.trim();
      }
      const n = fs.readSync(this.r, this.buf, 0, this.buf.length, null);
      if (n === 0) throw new Error('solver process ended');
      this.pending += this.buf.toString('utf8', 0, n);
    }
  }
  declare(name, sort) {
    if (this.declared.has(name)) return;
    this.declared.add(name);
    this.send(`(declare-const ${name} ${sort === 'B' ? 'Bool' : 'Int'})`);
  }
  push() {
    this.level++;
    this.send('(push 1)');
  }
  popTo(level) {
    if (level < this.level) {
      this.send(`(pop ${this.level - level})`);
      this.level = level;
    }
  }
  assert(str) {
    this.send(`(assert ${str})`);
  }
  check() {
    const t0 = process.hrtime.bigint();
    const r = this.ask('(check-sat)');
    this.stats.time_ms += Number(process.hrtime.bigint() - t0) / 1e6;
    this.stats.queries++;
    if (r === 'sat') this.stats.sat++;
    else if (r === 'unsat') this.stats.unsat++;
    else throw new Error('solver answered ' + r);
    return r === 'sat';
  }
  // values of the given variables ({name, sort}) in the current model
  values(vars) {
    const m = new Map();
    if (vars.length === 0) return m;
    const r = this.ask(`(get-value (${vars.map((v) => v.name).join(' ')}))`);
    // "((x 1) (y (- 2)) (z true))"
    const re = /\(\s*([^\s()]+)\s+(?:\(\s*-\s*(\d+)\s*\)|([^\s()]+))\s*\)/g;
    let k;
    while ((k = re.exec(r))) {
      const name = k[1];
      let v;
      if (k[2] !== undefined) v = -Number(k[2]);
      else if (k[3] === 'true') v = true;
      else if (k[3] === 'false') v = false;
      else v = Number(k[3]);
      m.set(name, v);
    }
    return m;
  }
  close() {
    try {
      this.out.length = 0;
      fs.writeSync(this.w, '(exit)\n');
    } catch (e) {}
    try {
      fs.closeSync(this.w);
      fs.closeSync(this.r);
    } catch (e) {}
    try {
      this.child.kill('SIGKILL');
    } catch (e) {}
  }
}
module.exports = { Solver };
