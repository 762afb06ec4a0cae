'use strict';
// Explores one job (scenario + parameters) to exhaustion and writes what it established.
const fs = require('fs');
const path = require('path');
const R = require('./rt');
require('./models');
const { Explorer } = require('./explore');
const { Loader } = require('./loader');
const { symApi, canonSym, Undecided } = require('./api');
const { runNative } = require('./native');
const known = require('./known');

process.on('unhandledRejection', () => {});

async function main() {
  const job = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
  const t0 = Date.now();
  const E = new Explorer({ solver: job.solver, cross: job.cross, maxLoop: job.maxLoop || 300000 });
  R.setExplorer(E);
  const loader = new Loader('sym', R);
  for (const k of known.read()) if (k.property === job.property) loader.knownIds.add(k.id);
  for (const n of job.keepNative || []) loader.keepNative.add(n);
  const res = { job: { scenario: job.scenario, params: job.params }, undecided: [], validated: 0, mismatches: [], complete: true, samples: [] };
  const S = symApi(R, loader);
  const maxMs = job.maxMs || 600000;
  let n = 0;
  for (;;) {
    E.beginPath();
    R.resetPath();
    loader.fresh();
    let status = 'done';
    let err = null;
    try {
      const mod = loader.load(job.harness);
      const sc = mod.scenarios.find((x) => x.name === job.scenario);
      const r = sc.run(S, job.params);
      if (r && typeof r.then === 'function') await r;
    } catch (e) { err = e; }
    if (E.aborted) status = E.aborted.why;
    else if (err && err.__internal) status = err.why;
    else if (err) {
      if (/nondeterministic replay|solver error|solver answered|solvers disagree|solver process|redeclared/.test(err.message)) status = 'engine: ' + err.message;
      else { status = 'uncaught'; const m = err && err.message; E.findings.push({ label: 'uncaught exception', detail: typeof m === 'string' ? m : String(err && err.name), stack: err && typeof err.stack === 'string' ? err.stack.split('\n').slice(0, 12).join('\n') : '', model: E.modelObject(E.model) }); }
    }
    if (job.trace) console.error('path', n, status, JSON.stringify(E.modelObject(E.model)), err && err.stack);
    if (status === 'done') {
      E.stats.paths++;
      n++;
      if (res.samples.length < 3) res.samples.push(E.modelObject(E.model));
      if (n <= (job.validateMax === undefined ? 250 : job.validateMax) || n % 50 === 0) {
        const model = E.modelObject(E.model);
        const mm = new Map(Object.entries(model));
        let skip = false;
        let mine;
        try {
          mine = E.observed.map(([l, v]) => { if (l === 'check') return [l, v]; const c = canonSym(R, v, mm); if (typeof c !== 'string') throw new Undecided(); return [l, c]; });
        } catch (e) { if (e instanceof Undecided) skip = true; else throw e; }
        if (!skip) {
          const log = await runNative(job.harness, job.scenario, job.params, model);
          const a = JSON.stringify(mine), b = JSON.stringify(log.observed);
          if (log.uncaught || log.assumeFailed || log.failed.length || a !== b) {
            res.mismatches.push({ model, symbolic: a.slice(0, 2000), native: b.slice(0, 2000), uncaught: log.uncaught, assume: log.assumeFailed, failed: log.failed });
            if (res.mismatches.length > 5) break;
          } else res.validated++;
        }
      }
    } else if (status === 'assume') {
      // outside the assumed inputs
    } else if (status === 'violation' || status === 'uncaught') {
      break;
    } else if (status === 'step bound') {
      E.findings.push({ label: 'does not terminate within the step bound', model: E.modelObject(E.model) });
      break;
    } else {
      res.undecided.push({ why: status, model: E.modelObject(E.model) });
      if (res.undecided.length > 20 || status.startsWith('engine')) break;
    }
    if (!E.advance()) break;
    if (Date.now() - t0 > maxMs || E.stats.paths >= (job.maxPaths || Infinity)) { res.complete = false; break; }
    // leftover microtasks of an abandoned path run against the abort flag before the next path starts
    if (job.async) { const keep = E.aborted; E.aborted = E.aborted || Object.assign(new Error('stale'), { __internal: true }); await new Promise((r) => setImmediate(r)); E.aborted = keep; }
  }
  res.findings = E.findings;
  res.known = [...E.known].map(([id, v]) => ({ id, ...v }));
  res.labels = [...E.labels].map(([label, v]) => ({ label, ...v }));
  res.stats = E.stats;
  res.incomplete = E.incomplete || 0;
  res.concreteSites = [...E.concreteSites];
  res.solver = E.solver.stats;
  res.second = E.second ? E.second.stats : null;
  res.functions = [...R.covered].map((id) => loader.fnNames[id].file + ':' + (loader.fnNames[id].name || '(anonymous)'));
  res.files = [...loader.libSet];
  res.wall_ms = Date.now() - t0;
  fs.writeFileSync(process.argv[3], JSON.stringify(res));
  E.close();
  process.exit(0);
}
main().catch((e) => {
  console.error(e && e.stack);
  process.exit(3);
});
