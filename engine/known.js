'use strict';
const fs = require('fs');
const path = require('path');
// known-findings.txt: lines `known: property=<id> id=<finding> <what fails>` and `fixed: property=<id> <commit> <what failed>`
function read() {
  const f = path.join(__dirname, '..', 'known-findings.txt');
  const out = [];
  if (!fs.existsSync(f)) return out;
  for (const l of fs.readFileSync(f, 'utf8').split('\n')) {
    const m = /^known: property=(\S+) id=(\S+) (.*)$/.exec(l);
    if (m) out.push({ property: m[1], id: m[2], text: m[3] });
  }
  return out;
}
module.exports = { read };
