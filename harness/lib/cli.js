'use strict';
// The command line tool run on files held in memory.
const { src } = require('./oapi');
const { pieces, plant, OPTS, SWC } = require('./prog');

// files: path -> { text, subst }; gives { doc, code, log }: the printed document, the exit code
// fault(path, 'read' | 'stat'): an error to throw in place of a read, or the file to read instead
async function cli(S, { files, resolve, args, modules = {}, fault }) {
  let app = null;
  // arguments as they are given on the command line are read by the real parser
  let parser = null;
  if (Array.isArray(args)) {
    parser = S.load('cmd-ts');
    parser = parser.real || parser;
    S.stub('cmd-ts', Object.assign({}, parser, { real: parser, run: (x) => { app = x; } }));
  } else S.stub('cmd-ts', { command: (x) => x, run: (x) => { app = x; }, option: (x) => x, optional: (x) => x, positional: (x) => x, string: 'string' });
  const text = (path, op = 'read') => {
    if (!(path in files)) throw Object.assign(new Error(`ENOENT: no such file or directory, open '${path}'`), { code: 'ENOENT' });
    now = (fault && fault(path, op)) || files[path];
    if (now instanceof Error) throw now;
    return pieces(now.text, now.subst || {});
  };
  const swc = S.sym ? S.load(SWC).real || S.load(SWC) : null;
  let now = null;
  if (S.sym) S.stub(SWC, { real: swc, parseSync(s) {
    if (s === '') return swc.parseSync('');
    const tree = swc.parseSync(now.text, OPTS);
    plant(tree, now.subst || {});
    return tree;
  } });
  const promises = { stat: async (path) => { text(path, 'stat'); return { isFile: () => true }; }, readFile: async (path) => text(path), access: async (path) => { text(path, 'stat'); } };
  const fs = {
    readFile(path, enc, cb) { let t, e = null; try { t = text(path); } catch (x) { e = x; } (cb || enc)(e, t); },
    readFileSync: (path) => text(path),
    existsSync: (path) => path in files,
    statSync: (path) => { text(path, 'stat'); return { isFile: () => true }; },
    promises,
  };
  for (const at of ['fs', 'node:fs']) S.stub(at, Object.assign({ default: fs }, fs));
  for (const at of ['fs/promises', 'node:fs/promises']) S.stub(at, Object.assign({ default: promises }, promises));
  S.stub('resolve', resolve);
  for (const m of Object.keys(modules)) S.stub(m, modules[m]);
  const was = { log: console.log, error: console.error, exit: process.exit };
  const out = { printed: [], code: 0 };
  S.forget();
  src(S, 'cli');
  console.log = (x) => { out.printed.push(x); };
  console.error = (x) => { out.printed.push(x); };
  process.exit = (c) => { out.code = c; throw new Error('process.exit'); };
  try {
    await (parser ? parser.run(app, args) : app.handler(args));
  } catch (e) {
    S.abortedRethrow(e);
    if (out.code === 0) { out.code = 1; out.thrown = e; }
  } finally {
    console.log = was.log;
    console.error = was.error;
    process.exit = was.exit;
  }
  if (out.code === 0) out.doc = JSON.parse(out.printed[out.printed.length - 1]);
  return out;
}
module.exports = { cli };
