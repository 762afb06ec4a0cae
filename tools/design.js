'use strict';
// fills the generated sections of DESIGN.md from the claims, the harnesses and seeded/
const fs = require('fs');
const path = require('path');
const root = path.join(__dirname, '..');
const { P } = require('./props.js');
const HOW = fs.existsSync(path.join(__dirname, 'how.json')) ? JSON.parse(fs.readFileSync(path.join(__dirname, 'how.json'), 'utf8')) : {};
let d = fs.readFileSync(path.join(root, 'DESIGN.md'), 'utf8');
const put = (a, b, text) => { const i = d.indexOf(a) + a.length, j = d.indexOf(b); d = d.slice(0, i) + '\n' + text + '\n' + d.slice(j); };
let out = '';
for (const p of P) {
  out += `\n### ${p.id} — ${p.title}\n`;
  const f = path.join(root, 'harness', p.id + '.js');
  if (!fs.existsSync(f)) { out += `Not applicable: ${p.na || 'no check'}\n`; continue; }
  const h = require(f);
  if (HOW[p.id]) out += HOW[p.id] + '\n';
  if (p.note) out += p.note + '\n';
  out += '\n';
  for (const s of h.scenarios) out += `* *${s.name}* — asserted: ${s.labels.join('; ')}. Bounds: ${s.bounds}. Jobs: ${(s.cases && s.cases.quick || [0]).length} quick, ${(s.cases && (s.cases.thorough || s.cases.quick) || [0]).length} thorough.\n`;
  if (h.assumptions && h.assumptions.length) out += `\nAssumed: ${h.assumptions.join('; ')}.\n`;
}
put('<!-- generated by tools/props.js -->', '<!-- end -->', out);
let t = '| bug | breaks | needs | caught by |\n|---|---|---|---|\n';
const C = fs.existsSync(path.join(__dirname, 'caught.json')) ? JSON.parse(fs.readFileSync(path.join(__dirname, 'caught.json'), 'utf8')) : {};
for (const s of fs.readdirSync(path.join(root, 'seeded')).sort()) {
  const mj = JSON.parse(fs.readFileSync(path.join(root, 'seeded', s, 'meta.json'), 'utf8'));
  t += `| ${s} | ${mj.property}: ${mj.what_it_breaks} | ${mj.needs} | ${C[s] || mj.property} |\n`;
}
put('<!-- seeds -->', '<!-- seeds end -->', t);
fs.writeFileSync(path.join(root, 'DESIGN.md'), d);
