'use strict';
// One concrete run of a harness scenario against the uninstrumented repository code.
const { nativeApi } = require('./api');
const { Loader } = require('./loader');
let shared = null;
async function runNative(harness, scenario, params, model) {
  const loader = shared || (shared = new Loader('native'));
  loader.fresh();
  const log = { observed: [], failed: [], assumeFailed: false, uncaught: null };
  const S = nativeApi(model, loader, log);
  const quiet = {};
  for (const k of ['log', 'warn', 'error', 'info', 'debug', 'trace']) { quiet[k] = console[k]; console[k] = () => {}; }
  try {
    const mod = loader.load(harness);
    const sc = mod.scenarios.find((x) => x.name === scenario);
    await sc.run(S, params);
  } catch (e) {
    if (!log.assumeFailed) log.uncaught = e && e.stack ? e.stack.split('\n').slice(0, 4).join(' | ') : String(e);
  } finally {
    Object.assign(console, quiet);
  }
  return log;
}
module.exports = { runNative };
