'use strict';
const { sources } = require('./lib/prog');
const { src } = require('./lib/oapi');
const { accepts } = require('./lib/ir');

const HEAD = "import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\nimport * as T from 'io-ts-types';\n";
async function read(S, text, extra) {
  const sf = await sources(S, { '/types.ts': { text: `${HEAD}${extra || ''}export const X = ${text};\n`, subst: {} } });
  const { Project } = src(S, 'project');
  const { parseCodecInitializer } = src(S, 'codec');
  const file = sf['/types.ts'];
  return parseCodecInitializer(new Project(sf), file, file.symbols.declarations.find((d) => d.name === 'X').init);
}
// does the schema with its bounds describe the value
function fits(s, v) {
  if (s.type === 'union') return s.schemas.some((m) => fits(m, v));
  if (s.type === 'object' && typeof v === 'object' && v !== null && !Array.isArray(v)) return Object.keys(s.properties).every((k) => (v[k] === undefined && !s.required.includes(k)) || fits(s.properties[k], v[k]));
  if (s.type === 'array' && Array.isArray(v)) return (s.minItems === undefined || v.length >= s.minItems) && (s.maxItems === undefined || v.length <= s.maxItems) && v.every((x) => fits(s.items, x));
  if (!accepts(s, v, true)) return false;
  if (typeof v === 'string') return (s.minLength === undefined || v.length >= s.minLength) && (s.maxLength === undefined || v.length <= s.maxLength);
  return typeof v !== 'number' || within(s, v);
}
const within = (s, n) => (s.minimum === undefined || (s.exclusiveMinimum ? n > s.minimum : n >= s.minimum)) && (s.maximum === undefined || (s.exclusiveMaximum ? n < s.maximum : n <= s.maximum));
const ANY = { keys: ['a'], kinds: ['null', 'boolean', 'number', 'string', 'array', 'object'], arr: 2, int: [0, 2], str: { min: 0, max: 2, alphabet: 'ab' } };
// codecs that accept exactly the values their schema describes
const EXACT = {
  NonEmptyString: ['T.NonEmptyString', (t, T) => T.NonEmptyString, 1],
  nonEmptyArray: ['T.nonEmptyArray(t.number)', (t, T) => T.nonEmptyArray(t.number), 1],
  readonlyNonEmptyArray: ['T.readonlyNonEmptyArray(t.string)', (t, T) => T.readonlyNonEmptyArray(t.string), 1],
  'nonEmptyArray of strings that are not empty': ['T.nonEmptyArray(T.NonEmptyString)', (t, T) => T.nonEmptyArray(T.NonEmptyString), 1],
  UnknownRecord: ['t.UnknownRecord', (t) => t.UnknownRecord, 1],
  void: ['t.type({ a: t.union([t.void, t.string]) })', (t) => t.type({ a: t.union([t.void, t.string]) }), 1],
  nullType: ['t.nullType', (t) => t.nullType, 1],
  brand: ["t.brand(t.string, (s): s is any => true, 'B')", (t) => t.brand(t.string, () => true, 'B'), 1],
  optional: ['t.type({ a: h.optional(t.number) })', (t, T, h) => t.type({ a: h.optional(t.number) }), 1],
  optionalized: ['h.optionalized({ a: h.optional(T.NonEmptyString) })', (t, T, h) => h.optionalized({ a: h.optional(T.NonEmptyString) }), 1],
};
// codecs with another form in JSON: a value and its JSON form
const FORMS = {
  NumberFromString: ['T.NumberFromString', (t, T) => T.NumberFromString, (S) => S.int('n', -3, 3)],
  IntFromString: ['T.IntFromString', (t, T) => T.IntFromString, (S) => S.int('n', -3, 3)],
  BigIntFromString: ['T.BigIntFromString', (t, T) => T.BigIntFromString, (S) => BigInt(S.pick('n', [-1, 0, 7]))],
  BooleanFromNumber: ['T.BooleanFromNumber', (t, T) => T.BooleanFromNumber, (S) => S.is(S.bool('b'))],
  DateFromISOString: ['T.DateFromISOString', (t, T) => T.DateFromISOString, (S) => new Date(S.pick('ms', [0, 1e12]))],
  DateFromNumber: ['T.DateFromNumber', (t, T) => T.DateFromNumber, (S) => new Date(S.pick('ms', [0, 1e12]))],
  DateFromUnixTime: ['T.DateFromUnixTime', (t, T) => T.DateFromUnixTime, (S) => new Date(S.pick('ms', [0, 1e12]))],
  JsonFromString: ['T.JsonFromString', (t, T) => T.JsonFromString, (S) => S.pick('json', [null, 1, 'a', [1], { a: 1 }])],
  Json: ['T.Json', (t, T) => T.Json, (S) => S.any('v', { depth: 1, ...ANY })],
  JsonRecord: ['T.JsonRecord', (t, T) => T.JsonRecord, (S) => ({ a: S.any('v', { depth: 1, ...ANY }) })],
  NonEmptyString: ['T.NonEmptyString', (t, T) => T.NonEmptyString, (S) => S.str('s', { min: 1, max: 2, alphabet: 'ab' })],
  UUID: ['T.UUID', (t, T) => T.UUID, (S) => S.pick('uuid', ['00000000-0000-0000-0000-000000000000'])],
  'in an object': ['t.type({ a: T.NumberFromString, b: T.DateFromISOString })', (t, T) => t.type({ a: T.NumberFromString, b: T.DateFromISOString }), (S) => ({ a: S.int('n', -3, 3), b: new Date(0) })],
  'in an array': ['t.array(T.BooleanFromNumber)', (t, T) => t.array(T.BooleanFromNumber), (S) => [S.is(S.bool('b')), S.is(S.bool('c'))]],
};
// codecs that supply values; what they decode to is described
const SUPPLY = {
  fromNullable: ['T.fromNullable(t.number, 1)', (t, T) => T.fromNullable(t.number, 1), 1],
  withFallback: ["T.withFallback(t.number, 'a')", (t, T) => T.withFallback(t.number, 'a'), 1],
  'withFallback of a constant': ["T.withFallback(t.string, D)", (t, T) => T.withFallback(t.string, 2), 1, 'const D = 2;\n'],
  'fromNullable of a union': ["T.fromNullable(t.union([t.number, t.string]), 'a')", (t, T) => T.fromNullable(t.union([t.number, t.string]), 'a'), 1],
};
const SIGNS = { Negative: (n) => n < 0, NonNegative: (n) => n >= 0, Positive: (n) => n > 0, NonPositive: (n) => n <= 0, NonZero: (n) => n !== 0, Zero: (n) => n === 0, Natural: (n) => n >= 0, Number: () => true, BigInt: () => true };
module.exports = {
  keepNative: ['@swc/core'],
  assumptions: ['the number codecs of io-ts-numbers and io-ts-bigint, which are not installed, accept the numbers their names say', 'BooleanFromString is documented as a boolean (pinned by tests)', 'a format narrows a string type in a way that is not checked'],
  scenarios: [
    {
      name: 'codecs of known packages',
      bounds: 'the codecs of io-ts-types, io-ts and io-ts-http that accept what their schema says; JSON values nested up to 1, strings and arrays up to 2',
      labels: ['the schema describes what the codec accepts', 'the codec is read'],
      cases: { quick: Object.keys(EXACT).map((k) => ({ k })), thorough: Object.keys(EXACT).map((k) => ({ k })) },
      async run(S, p) {
        const [text, codec, depth] = EXACT[p.k];
        const got = await read(S, text);
        S.check('the codec is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const c = codec(S.load('io-ts'), S.load('io-ts-types'), S.load('@api-ts/io-ts-http'));
        const v = S.any('v', { depth, ...ANY });
        S.check('the schema describes what the codec accepts', fits(got.right, v) === (c.decode(v)._tag === 'Right'));
      },
    },
    {
      name: 'codecs with another form in JSON',
      bounds: 'the codecs of io-ts-types that encode numbers, dates, booleans and JSON as strings or numbers, alone, in an object or in an array; numbers from -3 to 3, some dates',
      labels: ['the schema describes what the codec encodes to', 'the codec is read'],
      cases: { quick: Object.keys(FORMS).map((k) => ({ k })), thorough: Object.keys(FORMS).map((k) => ({ k })) },
      async run(S, p) {
        const [text, codec, value] = FORMS[p.k];
        const got = await read(S, text);
        S.check('the codec is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const c = codec(S.load('io-ts'), S.load('io-ts-types'), S.load('@api-ts/io-ts-http'));
        const v = value(S);
        S.check('the schema describes what the codec encodes to', fits(got.right, c.encode(v)));
      },
    },
    {
      name: 'codecs that supply values',
      bounds: 'fromNullable and withFallback over numbers, strings and unions; JSON values nested up to 1',
      labels: ['the schema describes what is decoded', 'the codec is read'],
      cases: { quick: Object.keys(SUPPLY).map((k) => ({ k })), thorough: Object.keys(SUPPLY).map((k) => ({ k })) },
      async run(S, p) {
        const [text, codec, depth, extra] = SUPPLY[p.k];
        const got = await read(S, text, extra);
        S.check('the codec is read', got._tag === 'Right');
        if (got._tag !== 'Right') return;
        const c = codec(S.load('io-ts'), S.load('io-ts-types'), S.load('@api-ts/io-ts-http'));
        const v = S.any('v', { depth, ...ANY });
        const d = c.decode(v);
        if (d._tag === 'Right') S.check('the schema describes what is decoded', d.right === 2 || fits(got.right, d.right));
      },
    },
    {
      name: 'numbers by their names',
      bounds: 'every codec of io-ts-numbers and io-ts-bigint in the table of the generator; every integer from -1000 to 1000',
      labels: ['the bounds are those in the name', 'the type is that in the name'],
      cases: { quick: ['io-ts-numbers', 'io-ts-bigint'].map((pkg) => ({ pkg })), thorough: ['io-ts-numbers', 'io-ts-bigint'].map((pkg) => ({ pkg })) },
      async run(S, p) {
        const { KNOWN_IMPORTS } = src(S, 'knownImports');
        const table = KNOWN_IMPORTS[p.pkg];
        const names = Object.keys(table).filter((n) => n !== 'NonEmptyString');
        const name = S.pick('name', names);
        const s = table[name](() => { throw new Error('not used'); }).right;
        const big = name.includes('BigInt'), fromString = name.endsWith('FromString');
        S.check('the type is that in the name', s.type === (fromString ? 'string' : 'number') && s.decodedType === (fromString ? (big ? 'bigint' : 'number') : undefined) && (!fromString || ['number', 'integer', 'bigint', 'int32', 'int64'].includes(s.format)));
        const sign = Object.keys(SIGNS).find((k) => name.replace('FromString', '').replace(/(Big)?Int$/, '') === k || (k === name.replace('FromString', '')));
        const n = S.int('n', -1000, 1000);
        const loose = ['NonZero', 'Zero', 'Natural', 'Number', 'BigInt'].includes(sign);
        S.check('the bounds are those in the name', loose ? S.implies(SIGNS[sign](n), within(s, n)) : within(s, n) === SIGNS[sign](n));
      },
    },
  ],
};
