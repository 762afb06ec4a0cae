'use strict';
const { src, block } = require('./lib/oapi');

const LAYOUT = {
  usual: (ls) => '/**\n' + ls.map((l) => ' * ' + l + '\n').join('') + ' */',
  indented: (ls) => '/**\n' + ls.map((l) => '     * ' + l + '\n').join('') + '     */',
  'closed on the last line': (ls) => '/**\n * ' + ls.join('\n * ') + ' */',
  'opened on the first line': (ls) => '/** ' + ls.join('\n * ') + '\n */',
  'without stars': (ls) => '/**\n' + ls.map((l) => '   ' + l + '\n').join('') + '*/',
  crlf: (ls) => '/**\r\n' + ls.map((l) => ' * ' + l + '\r\n').join('') + ' */',
  compact: (ls) => '/** ' + ls.join('\n * ') + '*/',
};
const word = (S, n, alphabet) => S.str(n, { min: 1, max: 1, alphabet });
// text without blanks around it: first and last are no blanks
function text(S, n, first, inner, max) {
  const a = word(S, n + '.1', first);
  if (n.endsWith('1') || n.endsWith('2')) return a;
  if (!S.is(S.bool(n + '.long'))) return a;
  return a + S.str(n + '.2', { min: 0, max, alphabet: inner + ' ' }) + word(S, n + '.3', first);
}
// a line: its text and what it adds
const LINES = {
  text: (S, n, max) => { const t = text(S, n, 'a{', 'a*@-', max); return { lines: [t], text: t }; },
  blank: () => ({ lines: [''], text: '' }),
  tag: (S, n, max) => { const v = text(S, n, 'a[{}"', 'a*[{}]@', max); const k = S.pick(n + '.tag', ['title', 'tag']); return { lines: [`@${k} ${v}`], tag: [k, v] }; },
  flag: () => ({ lines: ['@private'], tag: ['private', ''] }),
  example: (S, n, max) => { const v = text(S, n, 'a"', 'a*@', max); return { lines: ['@example ' + v], tag: ['example', v] }; },
  json: (S, n, max) => {
    const s = S.str(n, { min: 0, max: n.endsWith('0') ? max : 1, alphabet: 'a*@ {' });
    const v = { object: { k: s, l: [1, { m: null }] }, array: [s, 1], nested: { a: { b: s } } };
    const w = S.pick(n + '.shape', ['object', 'array', 'nested']);
    const q = JSON.stringify(v[w]);
    const at = S.pick(n + '.layout', ['one', 'lines', 'split']);
    let lines = ['@example ' + q];
    if (at === 'lines') lines = w === 'object' ? ['@example {', `  "k": "${s}",`, '  "l": [1, { "m": null }]', '}'] : w === 'array' ? ['@example [', `  "${s}",`, '', '  1', ']'] : ['@example {', '"a": {', `    "b": "${s}"`, '}}'];
    if (at === 'split') lines = w === 'object' ? [`@example {"k": "${s}",`, '"l": [1, {"m": null}]}'] : w === 'array' ? ['@example [', `"${s}",1]`] : ['@example {"a":', `{ "b": "${s}" } }`];
    return { lines, tag: ['example', v[w]] };
  },
  broken: (S, n) => ({ lines: S.is(S.bool(n + '.lines')) ? ['@example {', ' "a": 1'] : ['@example [1'], broken: true }),
};
const KINDS = Object.keys(LINES);
module.exports = {
  assumptions: ['the first line of text is the summary, the other lines of text are the description, a tag extends to the end of its line and a JSON example to its closing bracket'],
  scenarios: [
    {
      name: 'comment text',
      bounds: 'comments of two (thorough: three) lines, each text, blank, a tag with or without value, an example that is plain or JSON of three shapes on one or several lines, or incomplete JSON; seven layouts, CRLF and missing asterisks included; symbolic text of up to 3 (thorough: 4) characters with blanks, asterisks, brackets and at signs',
      labels: ['summary, description and tags are those written', 'incomplete JSON is refused'],
      cases: { quick: Object.keys(LAYOUT).flatMap((layout) => KINDS.map((k) => ({ layout, k: [k], n: 2 }))), thorough: Object.keys(LAYOUT).flatMap((layout) => KINDS.flatMap((k) => KINDS.map((l) => ({ layout, k: [k, l], n: 3 })))) },
      run(S, p) {
        const { parseCommentBlock } = src(S, 'jsdoc');
        const items = [];
        for (let i = 0; i < p.n; i++) { const k = i < p.k.length ? p.k[i] : S.pick('l' + i, KINDS); items.push(LINES[k](S, k + i, p.n === 2 ? 1 : 2)); }
        const lines = [].concat(...items.map((x) => x.lines));
        const comment = block(S, LAYOUT[p.layout](lines));
        let got, threw = false;
        try { got = parseCommentBlock(comment); } catch (e) { S.abortedRethrow(e); threw = true; }
        // an incomplete example takes in what follows
        const b = items.findIndex((x) => x.broken);
        if (b >= 0) { if (b === p.n - 1 || items[b + 1].tag !== undefined) S.check('incomplete JSON is refused', threw); return; }
        S.observe('doc', got);
        const want = {};
        const texts = items.filter((x) => x.text !== undefined).map((x) => x.text);
        while (texts.length > 0 && texts[0] === '') texts.shift();
        while (texts.length > 0 && texts[texts.length - 1] === '') texts.pop();
        if (texts.length > 0) want.summary = texts[0];
        const more = texts.slice(1);
        while (more.length > 0 && more[0] === '') more.shift();
        if (more.length > 0) want.description = more.join('\n');
        const tags = {};
        for (const x of items) if (x.tag) tags[x.tag[0]] = x.tag[1];
        if (Object.keys(tags).length > 0) want.tags = tags;
        S.check('summary, description and tags are those written', S.and(!threw, !threw && S.eq(got, want)));
      },
    },
  ],
};
