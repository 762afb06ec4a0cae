'use strict';
// A stand-in for superagent/supertest that records the requests made and answers them as told, and the reading of a URL
// the way an HTTP server reads it.
function transport(answer) {
  const reqs = [];
  const agent = {};
  for (const m of ['get', 'post', 'put', 'delete', 'patch']) agent[m] = function (url) {
    const r = { method: m, url, query_: [], headers: {}, sent: [], okCalls: [], agent: this === agent };
    const p = new Promise((resolve, reject) => { r.resolve = resolve; r.reject = reject; });
    r.thens = 0;
    r.then = (a, b) => { r.thens++; if (r.thens === 1 && answer) answer(r); return p.then(a, b); };
    r.catch = (b) => r.then(undefined, b);
    r.query = (q) => { r.query_.push(q); return r; };
    r.set = (n, v) => { r.headers[n] = v; r.sets = (r.sets || 0) + 1; return r; };
    r.send = (b) => { r.sent.push(b); return r; };
    r.ok = (f) => { r.okCalls.push(f); return r; };
    reqs.push(r);
    return r;
  };
  return { agent, reqs };
}
// percent-decoding as servers do it (UTF-8), undefined if malformed
function pctDecode(s) {
  let out = '';
  let i = 0;
  const hex = (k) => {
    if (k >= s.length) return -1;
    const c = s.charCodeAt(k);
    if (c >= 48 && c <= 57) return c - 48;
    if (c >= 65 && c <= 70) return c - 55;
    if (c >= 97 && c <= 102) return c - 87;
    return -1;
  };
  const byte = () => {
    const a = hex(i + 1), b = hex(i + 2);
    if (a < 0 || b < 0) return -1;
    i += 3;
    return a * 16 + b;
  };
  while (i < s.length) {
    if (s[i] !== '%') { out += s[i]; i++; continue; }
    const b = byte();
    if (b < 0) return undefined;
    if (b < 128) { out += String.fromCharCode(b); continue; }
    const n = b >= 192 && b < 224 ? 1 : b >= 224 && b < 240 ? 2 : -1;
    if (n < 0) return undefined;
    let v = n === 1 ? b - 192 : b - 224;
    for (let k = 0; k < n; k++) {
      if (i >= s.length || s[i] !== '%') return undefined;
      const x = byte();
      if (x < 128 || x > 191) return undefined;
      v = v * 64 + (x - 128);
    }
    out += String.fromCharCode(v);
  }
  return out;
}
// path segments, decoded; undefined where malformed
function segments(path) {
  const out = [];
  let cur = '';
  for (let i = 0; i < path.length; i++) {
    if (path[i] === '/') { out.push(cur); cur = ''; } else cur += path[i];
  }
  out.push(cur);
  return out.map(pctDecode);
}
// the part of a URL before ? and #
function pathOf(url) {
  for (let i = 0; i < url.length; i++) if (url[i] === '?' || url[i] === '#') return url.slice(0, i);
  return url;
}
// whatwg-url's URL over its own parser, without the generated WebIDL wrappers (symbolic runs only: replays use the real one)
function urlModel(S) {
  if (!S.sym) return;
  const usm = S.load('whatwg-url/lib/url-state-machine');
  class URL {
    constructor(s) { this.u = usm.basicURLParse(s); if (this.u === null) throw new TypeError('Invalid URL'); }
    get href() { return usm.serializeURL(this.u); }
    get pathname() { return usm.serializePath(this.u); }
    set pathname(v) { this.u.path = []; usm.basicURLParse(v, { url: this.u, stateOverride: 'path start' }); }
    get origin() { return usm.serializeURLOrigin(this.u); }
    get protocol() { return this.u.scheme + ':'; }
    get host() { return usm.serializeHost(this.u.host) + (this.u.port === null ? '' : ':' + this.u.port); }
    get search() { return this.u.query === null || this.u.query === '' ? '' : '?' + this.u.query; }
    get hash() { return this.u.fragment === null || this.u.fragment === '' ? '' : '#' + this.u.fragment; }
    toString() { return this.href; }
  }
  S.stub('whatwg-url', { URL });
}
function wrapper(S) { urlModel(S); return S.load('@api-ts/superagent-wrapper'); }
module.exports = { urlModel, wrapper, transport, pctDecode, segments, pathOf };
