'use strict';
// Replays a counterexample file against the real, uninstrumented code: exit 1 when the assertion fails there.
const fs = require('fs');
const { runNative } = require('./native');
process.on('unhandledRejection', () => {});
(async () => {
  const f = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
  const path = require('path');
  const log = await runNative(path.resolve(__dirname, '..', f.harness), f.scenario, f.params, f.model);
  const bad = log.failed.length || log.uncaught;
  console.log(JSON.stringify({ assertion: f.label, failed: log.failed, uncaught: log.uncaught, assumeFailed: log.assumeFailed, observed: log.observed }, null, 1));
  process.exit(bad ? 1 : 0);
})();
