'use strict';
// Module loader. Symbolic mode runs instrumented code; native mode runs the same sources uninstrumented (replay and
// trace validation). Packages of the repository are always taken from their TypeScript sources in /repo.
const fs = require('fs');
const os = require('os');
const path = require('path');
const vm = require('vm');
const crypto = require('crypto');
const Module = require('module');
const REPO = process.env.VERIF_REPO || '/repo';
const INS = require('./instrument');

const engineHash = crypto.createHash('sha256').update(fs.readFileSync(path.join(__dirname, 'instrument.js'))).digest('hex').slice(0, 12);
const cacheDir = path.join(os.tmpdir(), 'verif-cache-' + engineHash);
let cacheOk = true;
try { fs.mkdirSync(cacheDir, { recursive: true }); } catch (e) { cacheOk = false; }

function cached(kind, file, text, make) {
  const key = crypto.createHash('sha256').update(kind + '\0' + file + '\0' + text).digest('hex').slice(0, 40);
  const p = path.join(cacheDir, key);
  if (cacheOk) { try { return fs.readFileSync(p, 'utf8'); } catch (e) {} }
  const out = make();
  if (cacheOk) {
    try { const tmp = p + '.' + process.pid; fs.writeFileSync(tmp, out); fs.renameSync(tmp, p); } catch (e) { cacheOk = false; }
  }
  return out;
}

const builtins = new Set(Module.builtinModules);
const repoReq = {};
function reqFrom(dir) {
  return repoReq[dir] || (repoReq[dir] = Module.createRequire(path.join(dir, 'x.js')));
}
const isRepoSrc = (f) => f.startsWith(REPO + '/packages/') && !f.slice((REPO + '/packages/').length).includes('node_modules/');
const isHarness = (f) => f.startsWith(path.resolve(__dirname, '..') + '/harness/');

class Loader {
  constructor(mode, rt) {
    this.mode = mode;
    this.rt = rt;
    this.stubs = new Map();
    this.cache = new Map(); // per path
    this.libs = new Map(); // kept across paths
    this.scripts = new Map();
    this.resolved = new Map();
    this.fnNames = [];
    this.libSet = new Set();
    this.knownIds = new Set(); // listed known findings
    this.keepNative = new Set(); // bare packages never instrumented
  }
  // forget everything that belongs to one path
  fresh() {
    this.cache = new Map();
    this.stubs = new Map();
  }
  // load the repository's modules anew, as another process would
  forget() {
    for (const f of [...this.cache.keys()]) if (isRepoSrc(f)) this.cache.delete(f);
  }
  resolve(req, from) {
    const key = req + '\0' + path.dirname(from);
    let r = this.resolved.get(key);
    if (!r) this.resolved.set(key, (r = this.resolve1(req, from)));
    return r;
  }
  resolve1(req, from) {
    if (req.startsWith('node:')) req = req.slice(5);
    if (builtins.has(req)) return { core: req };
    const m = /^@api-ts\/([\w-]+)$/.exec(req);
    if (m) {
      const p = path.join(REPO, 'packages', m[1], 'src', 'index.ts');
      if (fs.existsSync(p)) return { file: p };
    }
    if (req.startsWith('.') || path.isAbsolute(req)) {
      const base = path.resolve(path.dirname(from), req);
      for (const c of [base, base + '.ts', base + '.js', base + '.json', path.join(base, 'index.ts'), path.join(base, 'index.js')])
        if (fs.existsSync(c) && fs.statSync(c).isFile()) return { file: c };
      throw new Error(`cannot resolve ${req} from ${from}`);
    }
    let dir = path.dirname(from);
    if (isHarness(from)) dir = path.join(REPO, 'packages', 'openapi-generator', 'src');
    try { return { file: reqFrom(dir).resolve(req), bare: req }; } catch (e) {
      return { file: reqFrom(path.join(REPO, 'packages', 'express-wrapper', 'src')).resolve(req), bare: req };
    }
  }
  load(req, from) {
    if (this.stubs.has(req)) {
      const s = this.stubs.get(req);
      if (s && s.__throws) throw Object.assign(new Error(`Cannot find module '${req}'`), { code: 'MODULE_NOT_FOUND' });
      return s;
    }
    const r = this.resolve(req, from || path.join(__dirname, '..', 'harness', 'x.js'));
    if (r.core) return this.core(r.core);
    if (this.mode === 'native' && !isRepoSrc(r.file) && !isHarness(r.file)) return require(r.file);
    if (r.bare && this.keepNative.has(r.bare)) return require(r.file);
    const repo = isRepoSrc(r.file) || isHarness(r.file);
    const cache = repo ? this.cache : this.libs;
    let mod = cache.get(r.file);
    if (mod) return mod.exports;
    mod = { exports: {} };
    cache.set(r.file, mod);
    try {
      if (r.file.endsWith('.json')) { mod.exports = JSON.parse(fs.readFileSync(r.file, 'utf8')); return mod.exports; }
      const fn = this.script(r.file, repo);
      const require_ = (q) => this.load(typeof q === 'string' ? q : String(q), r.file);
      if (this.mode === 'sym') fn.call(mod.exports, mod.exports, require_, mod, r.file, path.dirname(r.file), this.rt.ops, ...INS.HELPERS.map((h) => this.rt.helpers[h]));
      else fn.call(mod.exports, mod.exports, require_, mod, r.file, path.dirname(r.file));
    } catch (e) {
      cache.delete(r.file);
      throw e;
    }
    return mod.exports;
  }
  source(file) {
    return fs.readFileSync(file, 'utf8').replace(/^#!.*/, '');
  }
  script(file, repo) {
    let s = this.scripts.get(file);
    if (s) return s;
    const text = this.source(file);
    if (this.mode === 'native') {
      const js = cached('native', file, text, () => INS.lower(text, file, true));
      s = new vm.Script(`(function (exports, require, module, __filename, __dirname) {${js}\n})`, { filename: file }).runInThisContext();
    } else {
      const track = isRepoSrc(file);
      const packed = cached('sym' + (track ? '1' : '0'), file, text, () => {
        const names = [];
        const js = INS.instrument(text, file, { onFunction: track ? (n) => { names.push(n); return '@@' + (names.length - 1) + '@@'; } : undefined });
        return JSON.stringify({ names, js, strict: /^\s*["']use strict["']/.test(js) || /\.ts$/.test(file) });
      });
      const { names, js, strict } = JSON.parse(packed);
      const base = this.fnNames.length;
      for (const n of names) this.fnNames.push({ file: path.relative(REPO, file), name: n });
      const body = names.length ? js.replace(/@@(\d+)@@/g, (_, n) => String(base + Number(n))) : js;
      s = new vm.Script(`(function (exports, require, module, __filename, __dirname, __S, ${INS.HELPERS.join(', ')}) {${strict ? '"use strict";' : ''}${body}\n})`, { filename: file }).runInThisContext();
      if (track) this.libSet.add(path.relative(REPO, file));
    }
    this.scripts.set(file, s);
    return s;
  }
  core(name) {
    if (this.mode === 'native') return require(name);
    if (name === 'path') return this.corePath();
    const m = require(name);
    this.markForeign(m);
    return m;
  }
  // node's own path module, executed symbolically from its source text
  corePath() {
    const hit = this.libs.get('core:path');
    if (hit) return hit.exports;
    const mod = { exports: {} };
    this.libs.set('core:path', mod);
    const warn = process.emitWarning;
    process.emitWarning = () => {};
    const text = process.binding('natives').path;
    process.emitWarning = warn;
    const js = cached('core', 'path.js', text, () => INS.instrument(text.replace(/\bprimordials\b/g, '__primordials'), 'path.js', {}));
    const R = this.rt;
    const prim = {
      FunctionPrototypeBind: (f, self, ...pre) => (...a) => f.apply(self, pre.concat(a)),
      StringPrototypeCharCodeAt: (x, i) => R.callFn(String.prototype.charCodeAt, x, [i]),
      StringPrototypeIndexOf: (x, ...a) => R.callFn(String.prototype.indexOf, x, a),
      StringPrototypeLastIndexOf: (x, ...a) => R.callFn(String.prototype.lastIndexOf, x, a),
      StringPrototypeReplace: (x, ...a) => R.callFn(String.prototype.replace, x, a),
      StringPrototypeSlice: (x, ...a) => R.callFn(String.prototype.slice, x, a),
      StringPrototypeToLowerCase: (x) => R.callFn(String.prototype.toLowerCase, x, []),
      StringPrototypeRepeat: (x, n) => R.callFn(String.prototype.repeat, x, [n]),
      StringPrototypeSplit: (x, ...a) => R.callFn(String.prototype.split, x, a),
      StringPrototypeIncludes: (x, ...a) => R.callFn(String.prototype.includes, x, a),
      ArrayPrototypeJoin: (x, sp) => R.callFn(Array.prototype.join, x, [sp]),
      ArrayPrototypeSlice: (x, ...a) => R.callFn(Array.prototype.slice, x, a),
      ArrayPrototypeIncludes: (x, ...a) => R.callFn(Array.prototype.includes, x, a),
    };
    const req = (q) => {
      if (q === 'internal/validators') return { validateObject() {}, validateString() {} };
      if (q === 'internal/constants') return { CHAR_UPPERCASE_A: 65, CHAR_LOWERCASE_A: 97, CHAR_UPPERCASE_Z: 90, CHAR_LOWERCASE_Z: 122, CHAR_DOT: 46, CHAR_FORWARD_SLASH: 47, CHAR_BACKWARD_SLASH: 92, CHAR_COLON: 58, CHAR_QUESTION_MARK: 63 };
      if (q === 'internal/util') return { emitExperimentalWarning() {}, getLazy: (f) => f, isWindows: false, lazy: (f) => f };
      return {};
    };
    const names = INS.HELPERS;
    const fn = new vm.Script(`(function (exports, require, module, __filename, __dirname, __S, ${names.join(', ')}, __primordials) {"use strict";${js}\n})`, { filename: 'core-path.js' }).runInThisContext();
    fn.call(mod.exports, mod.exports, req, mod, 'path.js', '/', R.ops, ...names.map((h) => R.helpers[h]), prim);
    return mod.exports;
  }
  markForeign(m) {
    const seen = new Set();
    const go = (o, d) => {
      if (o === null || (typeof o !== 'object' && typeof o !== 'function') || seen.has(o) || d > 2) return;
      seen.add(o);
      if (typeof o === 'function') this.rt.foreign.add(o);
      for (const k of Object.getOwnPropertyNames(o)) {
        const d1 = Object.getOwnPropertyDescriptor(o, k);
        if (d1 && 'value' in d1) go(d1.value, d + 1);
      }
    };
    go(m, 0);
  }
}
module.exports = { Loader, REPO, isRepoSrc };
