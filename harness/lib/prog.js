'use strict';
// TypeScript programs with symbolic names and literals. The text is parsed by the real swc with markers in place of the
// symbolic strings; the syntax tree then gets the symbolic strings where the markers were. On replay the text holds the
// concrete strings and is parsed as it is.
const { src } = require('./oapi');
const SWC = '@swc/core';
const OPTS = { syntax: 'typescript', target: 'esnext', comments: true, decorators: true };

// `subst`: marker -> string of the marker's own length
function pieces(text, subst) {
  // concrete text -> concatenation of literal pieces and substituted strings, without inspecting the latter
  const ms = Object.keys(subst);
  let out = '', i = 0, lit = '';
  while (i < text.length) {
    const m = ms.find((k) => text.startsWith(k, i));
    if (m === undefined) { lit += text[i++]; continue; }
    out = out + lit + subst[m];
    lit = '';
    i += m.length;
  }
  return out + lit;
}
function plant(node, subst) {
  if (node === null || typeof node !== 'object') return;
  for (const k of Object.keys(node)) {
    const v = node[k];
    if (typeof v === 'string') { if (k !== 'type') { const ms = Object.keys(subst); if (ms.some((m) => v.includes(m))) node[k] = pieces(v, subst); } }
    else plant(v, subst);
  }
}
// files: path -> { text, subst }; gives path -> SourceFile, made by the generator's own parseSource
async function sources(S, files) {
  const swc = S.sym ? S.load(SWC) : null;
  let now = null;
  if (S.sym) S.stub(SWC, { parseSync(s) {
    if (s === '') return swc.parseSync('');
    const tree = swc.parseSync(now.text, OPTS);
    plant(tree, now.subst || {});
    return tree;
  } });
  const { parseSource } = src(S, 'sourceFile');
  const out = {};
  for (const path of Object.keys(files)) {
    const { text, subst } = files[path];
    now = files[path];
    out[path] = await parseSource(path, pieces(text, subst || {}));
    if (out[path] === undefined) throw new Error('the program does not parse: ' + path);
  }
  return out;
}
module.exports = { sources, pieces, plant, OPTS, SWC };
