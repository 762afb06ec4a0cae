'use strict';
// Single source of /verif/properties.jsonl and /verif/MANIFEST.json:  node tools/props.js
const fs = require('fs');
const path = require('path');
const P = [];
const claim = (id, title, statement, over, text, why, files, mechanism, observe_at, note) => P.push({ id, title, statement, over, text, why, files, mechanism, observe_at, note });
const m = (...xs) => xs.map((x) => ({ name: x[0], where: x[1] }));
const IO = 'packages/io-ts-http/src/';

claim('H01', 'Requests survive the trip from client value to wire and back',
  'Encoding a value with a request codec puts each declared property into exactly the part (path, query, headers, body) it was declared in, encoded by its own codec, and sends nothing else; decoding the result gives the original value back. Conversely, re-encoding an accepted request reproduces its declared content. The documented compositions (an intersection with a whole-body codec, a union of request codecs) keep this.',
  ['inputs', 'configurations'], 'every declaration over the four parts and every value of the declared types',
  'Tests encode and decode a handful of fixed objects; the guarantee is about every declaration, every codec and every value.',
  [IO + 'combinators.ts', IO + 'httpRequest.ts'], m(['flattened', IO + 'combinators.ts'], ['httpRequest', IO + 'httpRequest.ts']), ['codec.encode / codec.decode of httpRequest(...)']);
claim('H02', 'A request is accepted exactly when every part matches its declaration',
  'A request codec accepts an input exactly when every part it reads is an object and each declared property in it is accepted by its own codec (optional ones may be missing); what it returns has exactly the declared properties, each decoded from its own part, whatever else the input carries. A rejection reports at least one error.',
  ['inputs', 'configurations'], 'every declaration over the four parts and every input, including missing parts, wrong kinds and stray or same-named properties elsewhere',
  'Tests decode a few fixed inputs; a property read from the wrong part, or a stray one leaking through, shows only on inputs they do not have.',
  [IO + 'combinators.ts', IO + 'httpRequest.ts'], m(['flattened', IO + 'combinators.ts'], ['httpRequest', IO + 'httpRequest.ts']), ['codec.decode of httpRequest(...)']);
claim('H03', 'Missing and undefined optional properties mean the same, and stay missing',
  'In an object with optional properties, a property may be missing exactly when its codec admits undefined, missing and explicitly undefined are treated alike, and neither decoding nor encoding ever leaves an explicitly undefined optional property in its result, whatever the other properties are. A codec that supplies a default for a missing value still does so.',
  ['inputs', 'configurations'], 'every combination of required, optional, defaulted, nullable and any-accepting properties, each absent, undefined, null or present',
  'Tests check a few fixed objects with one optional property; interactions between properties (one transformed, another undefined) are not sampled.',
  [IO + 'combinators.ts'], m(['optionalized', IO + 'combinators.ts'], ['optional', IO + 'combinators.ts'], ['flattened', IO + 'combinators.ts']), ['codec.decode, encode and is of optionalized(...) and httpRequest(...)']);
claim('H04', 'Decoding and encoding never modify what they are given',
  'Decoding, encoding or testing a value with a request or object codec leaves the value, and everything reachable from it, exactly as it was, and doing it again gives the same answer. Building a codec leaves its declaration unchanged.',
  ['inputs', 'configurations'], 'every declaration and every accepted or rejected input, nested objects and undefined properties included',
  'Tests look at results only; a modified input shows when the caller uses it again.',
  [IO + 'combinators.ts'], m(['optionalized', IO + 'combinators.ts'], ['flattened', IO + 'combinators.ts']), ['the input objects after codec.decode / encode / is']);
claim('H05', 'Membership tests agree with decoding',
  'A value passes a request codec\'s membership test exactly when all its required properties are present with members of their own types and every optional one is missing, undefined or a member. Whatever decoding returns passes the test, and whatever passes the test can be encoded and decoded back; the test never throws.',
  ['inputs', 'configurations'], 'every declaration and every candidate value, objects and non-objects',
  'Tests call the membership test on two fixed values.',
  [IO + 'combinators.ts'], m(['flattened', IO + 'combinators.ts'], ['optionalized', IO + 'combinators.ts']), ['codec.is of httpRequest(...)']);
claim('H06', 'Status names and codes correspond one to one, everywhere',
  'Every status name stands for the HTTP status code the standards assign to it, in every table and every response constructor of the library, and the code leads back to the name; no other code has a name. A response constructor yields its own status and the payload itself, whatever the payload.',
  ['inputs'], 'every integer code, every name and every payload',
  'No test looks at the tables; routes under test use three or four statuses.',
  [IO + 'statusCode.ts', IO + 'httpResponse.ts', 'packages/response/src/response.ts', 'packages/response/src/keyed-response.ts'], m(['HttpToKeyStatus', IO + 'statusCode.ts'], ['KeyToHttpStatus', IO + 'statusCode.ts'], ['Response', IO + 'httpResponse.ts']), ['the exported tables and constructors']);

module.exports = { claim, m, P };
for (const f of ['props-servers.js', 'props-client.js', 'props-openapi.js']) if (fs.existsSync(path.join(__dirname, f))) require('./' + f);

const TECH = 'symbolic execution of the TypeScript source with an SMT solver (z3), bounded';
const NOTE = 'Exhaustive within the stated bounds: every branch of the real code over the symbolic inputs is decided by the solver and every assertion discharged on every path; counterexamples and sampled paths are replayed on the real code. Trusted: the models of JavaScript built-ins and the harness oracle. ';
if (require.main === module) {
  const root = path.join(__dirname, '..');
  fs.writeFileSync(path.join(root, 'properties.jsonl'), P.map((p) => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mechanism, observe_at: p.observe_at, hook_needed: null } })).join('\n') + '\n');
  const checks = P.filter((p) => fs.existsSync(path.join(root, 'harness', p.id + '.js'))).map((p) => ({
    property: p.id, quick_cmd: `node engine/run.js ${p.id} --tier quick`, thorough_cmd: `node engine/run.js ${p.id} --tier thorough`, technique: TECH, level: 'model_checking', level_note: NOTE + (p.note || ''),
  }));
  const na = P.filter((p) => !checks.some((c) => c.property === p.id)).map((p) => ({ property: p.id, reason: p.na || 'check not built yet' }));
  fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node engine/run.js SMOKE --tier quick', checks, not_applicable: na }, null, 1) + '\n');
  for (const p of P) if (p.title.length > 80) throw new Error('title too long: ' + p.id);
  for (const p of P) if (p.statement.split(/[.?!](?:\s|$)/).filter((x) => x.trim()).length > 3) console.error('more than three sentences: ' + p.id);
  console.log(P.length + ' properties, ' + checks.length + ' checks');
}
