'use strict';
// Runs one property's check: node engine/run.js <property> [--tier quick|thorough] [--only scenario]
const fs = require('fs');
const os = require('os');
const path = require('path');
const { spawn, spawnSync } = require('child_process');
const ROOT = path.resolve(__dirname, '..');
const known = require('./known');

const args = process.argv.slice(2);
const id = args[0];
const opt = (n, d) => { const i = args.indexOf('--' + n); return i < 0 ? d : args[i + 1]; };
const tier = opt('tier', process.env.VERIF_TIER || 'quick');
const only = opt('only');
const verbose = args.includes('-v');
const first = args.includes('--first');
const seed = Number(process.env.VERIF_SEED || 1);

const harnessFile = path.join(ROOT, 'harness', id + '.js');
const H = require(harnessFile);
const t0 = Date.now();
const work = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-run-'));
const jobs = [];
for (const sc of H.scenarios) {
  if (only && sc.name !== only) continue;
  const cases = (sc.cases && (sc.cases[tier] || sc.cases.quick)) || [{}];
  cases.forEach((params, i) => {
    jobs.push({ property: id, harness: harnessFile, scenario: sc.name, params, async: true, keepNative: H.keepNative, maxLoop: sc.maxLoop,
      maxMs: tier === 'quick' ? sc.quickMs || 400000 : sc.thoroughMs || 1500000, cross: tier === 'thorough' ? 'cvc5' : undefined,
      validateMax: tier === 'quick' ? sc.validate : 1000, weight: params.weight || 1, n: i });
  });
}
jobs.forEach((j, i) => (j.idx = i));
const queue = [...jobs].sort((a, b) => b.weight - a.weight || a.idx - b.idx);
const results = new Array(jobs.length);
const errors = [];
let running = 0;
let stop = false;
const children = new Set();
function next() {
  while (running < Math.max(1, Number(process.env.VERIF_JOBS) || os.cpus().length) && queue.length && !stop) {
    const job = queue.shift();
    const jf = path.join(work, `job${job.idx}.json`), of = path.join(work, `out${job.idx}.json`);
    fs.writeFileSync(jf, JSON.stringify(job));
    running++;
    const ch = spawn(process.execPath, ['--stack-size=3000', '--max-old-space-size=3000', path.join(__dirname, 'worker.js'), jf, of], { stdio: ['ignore', 'ignore', 'pipe'], detached: true });
    children.add(ch);
    let err = '';
    ch.stderr.on('data', (d) => (err += d));
    ch.on('exit', (code, sig) => {
      children.delete(ch);
      running--;
      try { process.kill(-ch.pid, 'SIGKILL'); } catch (e) {}
      if (fs.existsSync(of)) {
        results[job.idx] = JSON.parse(fs.readFileSync(of, 'utf8'));
        if (first && results[job.idx].findings.length) { stop = true; for (const c of children) try { process.kill(-c.pid, 'SIGKILL'); } catch (e) {} }
        if (verbose) { const r = results[job.idx]; console.error(`${job.scenario}#${job.n} paths=${r.stats.paths} forks=${r.stats.forks} q=${r.solver.queries} ${r.wall_ms}ms solver=${Math.round(r.solver.time_ms)} val=${r.validated} mism=${r.mismatches.length} und=${r.undecided.length} find=${r.findings.length}`); }
      } else if (!stop) errors.push(`${job.scenario}#${job.n}: worker ended (${code ?? sig}) ${err.slice(-1500)}`);
      if (queue.length && !stop) next();
      else if (running === 0) finish();
    });
  }
  if (jobs.length === 0) finish();
}
next();

function finish() {
  fs.rmSync(work, { recursive: true, force: true });
  const rs = results.filter(Boolean);
  const evDir = path.join(ROOT, 'evidence');
  fs.mkdirSync(evDir, { recursive: true });
  for (const f of fs.readdirSync(evDir)) if (f.startsWith(id + '.replay')) fs.rmSync(path.join(evDir, f));
  const violations = [];
  const inconclusive = [...errors];
  let nrep = 0;
  const confirm = (r, finding) => {
    const file = path.join(evDir, `${id}.replay-${nrep++}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: id, harness: path.relative(ROOT, harnessFile), scenario: r.job.scenario, params: r.job.params, label: finding.label, detail: finding.detail, model: finding.model }, null, 1));
    const p = spawnSync(process.execPath, [path.join(__dirname, 'replay.js'), file], { timeout: 60000, encoding: 'utf8', maxBuffer: 1 << 26 });
    const bad = p.status === 1 || p.error || p.signal || (p.status !== 0);
    return { file, bad, out: p.stdout };
  };
  const seenLabels = new Set();
  for (const r of rs) for (const f of r.findings) {
    const key = r.job.scenario + '|' + f.label;
    if (seenLabels.has(key) && violations.length >= 5) continue;
    seenLabels.add(key);
    const c = confirm(r, f);
    if (c.bad) violations.push({ f, r, c });
    else inconclusive.push(`${r.job.scenario}: counterexample to "${f.label}" does not reproduce natively (${c.file}) ${f.detail || ''} ${f.stack || ''}`);
  }
  const listed = new Map(known.read().filter((k) => k.property === id).map((k) => [k.id, k]));
  const knownHit = new Map();
  for (const r of rs) for (const k of r.known) if (listed.has(k.id) && !knownHit.has(k.id)) {
    const c = confirm(r, { label: k.label, model: k.model });
    fs.rmSync(c.file);
    if (c.bad) knownHit.set(k.id, k);
    else inconclusive.push(`known finding ${k.id}: model does not reproduce natively`);
  }
  for (const r of rs) {
    for (const m of r.mismatches) inconclusive.push(`${r.job.scenario}: symbolic and native runs differ: ${JSON.stringify(m)}`);
    for (const u of r.undecided) inconclusive.push(`${r.job.scenario}: undecided path: ${u.why} ${JSON.stringify(u.model).slice(0, 300)}`);
  }
  // vacuity: every assertion a scenario declares has to be reached in some path
  const labels = new Map();
  for (const r of rs) for (const l of r.labels) {
    const k = r.job.scenario + ' / ' + l.label;
    const x = labels.get(k) || { reached: 0, solver: 0, structural: 0 };
    x.reached += l.reached; x.solver += l.solver; x.structural += l.structural;
    labels.set(k, x);
  }
  if (!violations.length) for (const sc of H.scenarios) {
    if (only && sc.name !== only) continue;
    for (const l of sc.labels || []) if (!labels.has(sc.name + ' / ' + l)) inconclusive.push(`${sc.name}: assertion "${l}" was never reached`);
    if (!rs.some((r) => r.job.scenario === sc.name && r.labels.length)) inconclusive.push(`${sc.name}: no assertion reached`);
  }
  const sum = (f) => rs.reduce((a, r) => a + f(r), 0);
  const functions = [...new Set(rs.flatMap((r) => r.functions))].sort();
  const complete = rs.length === jobs.length && rs.every((r) => r.complete) && errors.length === 0;
  const evidence = {
    property: id, tier, seed, level: H.level || 'model_checking',
    coverage: {
      states: Math.max(1, sum((r) => r.stats.paths)),
      transitions: Math.max(1, sum((r) => r.stats.forks)),
      traces_validated_against_impl: sum((r) => r.validated),
      samples: rs.flatMap((r) => r.samples.slice(0, 1).map((m) => ({ scenario: r.job.scenario, params: r.job.params, model: m }))).slice(0, 12),
      functions_encoded: functions,
      source_files: [...new Set(rs.flatMap((r) => r.files))].sort(),
      bounds: H.scenarios.map((s) => ({ scenario: s.name, bounds: s.bounds || '' })),
      queries: sum((r) => r.solver.queries), sat: sum((r) => r.solver.sat), unsat: sum((r) => r.solver.unsat),
      solver_ms: Math.round(sum((r) => r.solver.time_ms)), solver: 'z3-new',
      second_solver_queries: sum((r) => (r.second ? r.second.queries : 0)),
      infeasible_branches: sum((r) => r.stats.forced), paths_outside_assumptions: sum((r) => r.stats.pruned),
      assertions: Object.fromEntries(labels), exhausted: complete,
      concretised_values: sum((r) => r.stats.concretised), values_not_enumerated: sum((r) => r.incomplete),
      concretisation_sites: Object.fromEntries(rs.flatMap((r) => r.concreteSites)),
      jobs: rs.map((r) => ({ scenario: r.job.scenario, params: r.job.params, paths: r.stats.paths, wall_ms: r.wall_ms })),
    },
    assumptions: H.assumptions || [],
    violations: violations.map((v) => ({ assertion: v.f.label, scenario: v.r.job.scenario, replay: path.relative(ROOT, v.c.file), model: v.f.model })),
    inconclusive,
    wall_s: (Date.now() - t0) / 1000,
  };
  fs.writeFileSync(path.join(evDir, id + '.json'), JSON.stringify(evidence, null, 1));
  for (const k of knownHit.values()) console.log(`KNOWN-FINDING: property=${id} ${listed.get(k.id).text}`);
  for (const v of violations) {
    console.log(`VIOLATION property=${id} replay=${v.c.file}`);
    console.log(`  ${v.r.job.scenario}: ${v.f.label}${v.f.detail ? ' (' + v.f.detail + ')' : ''}`);
    console.log(`  input: ${JSON.stringify(v.f.model).slice(0, 1500)}`);
  }
  for (const s of inconclusive.slice(0, +(process.env.VERIF_SHOW || 20))) console.log('INCONCLUSIVE ' + s.slice(0, 3000));
  console.log(`${id} ${tier}: ${evidence.coverage.states} paths, ${evidence.coverage.transitions} branches, ${evidence.coverage.queries} queries (${evidence.coverage.solver_ms} ms), ${evidence.coverage.traces_validated_against_impl} traces validated, exhausted=${complete}, ${evidence.wall_s.toFixed(1)} s`);
  process.exit(violations.length ? 1 : inconclusive.length ? 2 : 0);
}
