'use strict';
// Access to the OpenAPI generator's sources and to its real comment parser.
const SRC = (process.env.VERIF_REPO || '/repo') + '/packages/openapi-generator/src/';
const src = (S, f) => S.load(SRC + f + '.ts');
// the comment block the generator makes of a comment's text
function block(S, text) {
  const b = src(S, 'comments').leadingComment(text, 0, 0, utf8(text));
  return b[b.length - 1];
}
// number of UTF-8 bytes; conditions on symbolic characters are decided by the solver
function utf8(s) {
  let n = 0;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c < 0x80) n += 1;
    else if (c < 0x800) n += 2;
    else if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.length) { n += 4; i++; } else n += 3;
  }
  return n;
}
module.exports = { SRC, src, block, utf8 };
