'use strict';
const { src, block } = require('./lib/oapi');

const NUM = ['maxLength', 'minLength', 'minimum', 'maximum', 'minItems', 'maxItems', 'minProperties', 'maxProperties', 'multipleOf'];
const STR = ['pattern', 'format', 'title'];
const FLAG = ['exclusiveMinimum', 'exclusiveMaximum', 'uniqueItems', 'readOnly', 'writeOnly'];
const OWN = ['type', 'enum', 'properties', 'required', 'items', 'allOf', 'oneOf', 'additionalProperties', 'nullable', '$ref'];
const BASES = {
  string: { type: 'string' },
  number: { type: 'number' },
  boolean: { type: 'boolean' },
  integer: { type: 'integer' },
  enum: { type: 'string', enum: ['a', 'b'] },
  any: { type: 'any' },
  object: { type: 'object', properties: { a: { type: 'string' } }, required: ['a'] },
  record: { type: 'record', codomain: { type: 'string' } },
  ref: { type: 'ref', name: 'R', location: '/x.ts' },
  union: { type: 'union', schemas: [{ type: 'string' }, { type: 'number' }] },
  nullable: { type: 'union', schemas: [{ type: 'ref', name: 'R', location: '/x.ts' }, { type: 'null' }] },
  intersection: { type: 'intersection', schemas: [{ type: 'ref', name: 'R', location: '/x.ts' }, { type: 'ref', name: 'Q', location: '/x.ts' }] },
};
const CODEC = ['string', 'number', 'boolean', 'integer', 'enum', 'any', 'object', 'record', 'ref'];
const copy = (x) => JSON.parse(JSON.stringify(x));
const annotations = (o) => { const r = Object.assign({}, o); for (const k of OWN) delete r[k]; return r; };
const bare = (o) => { const r = {}; for (const k of Object.keys(o)) if (OWN.includes(k)) r[k] = o[k]; return r; };

module.exports = {
  assumptions: ['codec definitions give constraints the values OpenAPI allows for them'],
  scenarios: [
    {
      name: 'from the codec',
      bounds: 'string, number, boolean, integer, enumeration, unknown, object, record and reference; each of 20 keywords alone and in pairs with any value of its type (numbers -2..3, strings of up to 1 character, booleans)',
      labels: ['every keyword reaches the document with its value'],
      cases: { quick: CODEC.map((base) => ({ base, n: 1 })), thorough: CODEC.map((base) => ({ base, n: 2 })) },
      run(S, p) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const s = copy(BASES[p.base]);
        const want = {};
        const plain = schemaToOpenAPI(copy(s));
        for (let i = 0; i < p.n; i++) {
          const k = S.pick('k' + i, [...NUM, ...STR, ...FLAG, 'description', 'deprecated', 'default', 'example']);
          let v;
          if (NUM.includes(k)) v = S.int(`${k}${i}`, -2, 3);
          else if (STR.includes(k) || k === 'description') v = S.str(`${k}${i}`, { min: 1, max: 1, alphabet: 'ab0"' });
          else if (FLAG.includes(k) || k === 'deprecated') v = S.is(S.bool(`${k}${i}`));
          else v = p.base === 'boolean' ? S.is(S.bool(`${k}${i}`)) : p.base === 'number' || p.base === 'integer' ? S.int(`${k}n${i}`, -2, 3) : S.str(`${k}s${i}`, { min: 1, max: 2, alphabet: 'ab0' });
          s[k] = v;
          want[k] = v;
        }
        for (const k of [...FLAG, 'deprecated']) if (want[k] === false) delete want[k];
        const o = schemaToOpenAPI(s);
        S.observe('document', o);
        S.check('every keyword reaches the document with its value', S.eq(annotations(o), want));
        S.check('the schema itself is as without them', S.eq(bare(o), Object.keys(want).length > 0 && '$ref' in plain ? { allOf: [plain] } : bare(plain)));
      },
    },
    {
      name: 'of arrays',
      bounds: 'arrays of strings, references and objects; item bounds -1..3 from the codec',
      labels: ['the bounds are on the array'],
      cases: { quick: [{}] },
      run(S) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const items = S.pick('items', ['string', 'ref', 'object']);
        const s = { type: 'array', items: copy(BASES[items]) };
        const want = { type: 'array', items: schemaToOpenAPI(copy(BASES[items])) };
        for (const k of ['minItems', 'maxItems']) if (S.is(S.bool(k))) want[k] = s[k] = S.int(k + '.n', 0, 3);
        const nested = S.is(S.bool('nested'));
        const o = schemaToOpenAPI(nested ? { type: 'object', properties: { a: s }, required: [] } : s);
        S.observe('document', o);
        S.check('the bounds are on the array', S.eq(nested ? o.properties.a : o, want));
      },
    },
    {
      name: 'from the comment',
      bounds: 'comments of one description line and one tag (thorough: two) on twelve kinds of schema; tag values of up to 2 characters',
      labels: ['every tag reaches the document', 'the description reaches the document'],
      cases: { quick: Object.keys(BASES).map((base) => ({ base, n: 1 })), thorough: Object.keys(BASES).map((base) => ({ base, n: 2 })) },
      run(S, p) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const s = copy(BASES[p.base]);
        const plain = schemaToOpenAPI(copy(s));
        const desc = S.is(S.bool('desc')) ? S.str('d', { min: 1, max: 2, alphabet: 'xy' }) : '';
        let text = '/**\n * ' + desc + '\n';
        const want = {};
        if (desc !== '') want.description = desc;
        const used = [];
        for (let i = 0; i < p.n; i++) {
          const k = S.pick('k' + i, [...NUM, ...STR, ...FLAG, 'default', 'deprecated', 'private', 'public'].filter((x) => !used.includes(x)));
          used.push(k);
          let v = '';
          if (NUM.includes(k)) {
            v = S.str('num' + i, { min: 1, max: 2, alphabet: '0123456789' });
            want[k] = Number(v);
          } else if (STR.includes(k)) want[k] = v = S.str('str' + i, { min: 1, max: 2, alphabet: 'ab.^' });
          else if (FLAG.includes(k)) {
            v = S.is(S.bool('written' + i)) ? 'true' : '';
            want[k] = true;
          } else if (k === 'default') {
            if (p.base === 'boolean') { v = S.is(S.bool('dflt' + i)) ? 'true' : 'false'; want.default = v === 'true'; }
            else if (p.base === 'number' || p.base === 'integer') { v = S.str('num' + i, { min: 1, max: 2, alphabet: '0123456789' }); want.default = Number(v); }
            else want.default = v = S.str('dflts' + i, { min: 1, max: 2, alphabet: 'ab1' });
          } else if (k === 'deprecated') want.deprecated = true;
          else want['x-internal'] = k === 'private';
          text += ' * @' + k + (v === '' ? '' : ' ' + v) + '\n';
        }
        s.comment = block(S, text + ' */');
        if (used.includes('private') && used.includes('public')) {
          let threw = false;
          try { schemaToOpenAPI(s); } catch (e) { S.abortedRethrow(e); threw = true; }
          S.check('contradicting tags are refused', threw);
          return;
        }
        const o = schemaToOpenAPI(s);
        S.observe('document', o);
        S.check('every tag reaches the document', S.eq(annotations(o), want));
        if (desc !== '') S.check('the description reaches the document', o.description === desc);
        const described = '$ref' in plain ? { allOf: [plain] } : bare(plain);
        S.check('the schema itself is as without them', S.eq(bare(o), Object.keys(want).length === 0 ? bare(plain) : described));
      },
    },
    {
      name: 'from the codec and the comment',
      bounds: 'string, number, boolean, integer and object codecs with one keyword of their own, alone, beside null, undefined or both, as a property or not, with a comment of one description or tag, of the same keyword or another',
      labels: ['both reach the document, the comment wins'],
      cases: { quick: [[], ['null'], ['undefined'], ['undefined', 'null']].map((beside) => ({ beside })) },
      run(S, p) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const base = S.pick('base', ['string', 'number', 'boolean', 'integer', 'object']);
        const s = copy(BASES[base]);
        const plain = schemaToOpenAPI(copy(s));
        const want = {};
        const KEYS = ['title', 'format', 'pattern', 'minimum', 'maxLength', 'description'];
        const k1 = S.pick('k1', KEYS), k2 = S.pick('k2', KEYS);
        const val = (k, n) => (k === 'minimum' || k === 'maxLength' ? S.int('n' + n, 0, 9) : S.str('s' + n, { min: 1, max: 1, alphabet: 'ab' }));
        want[k1] = s[k1] = val(k1, 1);
        const v2 = val(k2, 2);
        want[k2] = v2;
        const comment = block(S, k2 === 'description' ? '/**\n * ' + v2 + '\n */' : '/**\n * @' + k2 + ' ' + (typeof v2 === 'string' ? v2 : String.fromCharCode(48 + v2)) + '\n */');
        const schema = p.beside.length === 0 ? Object.assign(s, { comment }) : { type: 'union', schemas: S.is(S.bool('swap')) ? [...p.beside.map((type) => ({ type })), s] : [s, ...p.beside.map((type) => ({ type }))], comment };
        const property = S.is(S.bool('property'));
        const o = schemaToOpenAPI(property ? { type: 'object', properties: { a: schema }, required: ['a'] } : schema);
        S.observe('document', o);
        const got = property ? o.properties.a : o;
        S.check('both reach the document, the comment wins', S.eq(annotations(got), want));
        const rest = bare(got);
        if (p.beside.includes('null') && p.beside.includes('undefined')) delete rest.nullable; // left out or not, O02 says when
        S.check('the schema itself is as without them', S.eq(rest, p.beside.join() === 'null' ? Object.assign({ nullable: true }, plain) : plain));
      },
    },
    {
      name: 'of arrays from the comment',
      bounds: 'arrays of strings, references, objects, arrays or nullable strings with a comment of one description or tag (item bounds too); the items with or without a title of their own',
      labels: ['item bounds are on the array, the rest on the items'],
      cases: { quick: [{}] },
      run(S) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const items = S.pick('items', ['string', 'ref', 'object', 'nullable']);
        const inner = items === 'nullable' ? { type: 'union', schemas: [{ type: 'string' }, { type: 'null' }] } : copy(BASES[items]);
        const of = Object.assign({}, schemaToOpenAPI(copy(inner)));
        if (items !== 'nullable' && items !== 'ref' && S.is(S.bool('titled'))) inner.title = of.title = 'T';
        const k = S.pick('k', ['description', 'title', 'format', 'pattern', 'minLength', 'minItems', 'maxItems', 'deprecated', 'readOnly', 'private', 'none']);
        const number = ['minLength', 'minItems', 'maxItems'].includes(k);
        const v = number ? S.str('num', { min: 1, max: 1, alphabet: '0123456789' }) : ['deprecated', 'readOnly', 'private', 'none'].includes(k) ? '' : S.str('str', { min: 1, max: 1, alphabet: 'ab' });
        const s = { type: 'array', items: inner };
        if (k !== 'none') s.comment = block(S, '/**\n * ' + (k === 'description' ? v : '@' + k + ' ' + v) + '\n */');
        const want = { type: 'array' };
        if (k === 'minItems' || k === 'maxItems') want[k] = Number(v);
        else if (k !== 'none') {
          if (items === 'ref') { of.allOf = [{ $ref: of.$ref }]; delete of.$ref; }
          if (k === 'private') of['x-internal'] = true;
          else of[k] = number ? Number(v) : v === '' ? true : v;
        }
        want.items = of;
        const nested = S.is(S.bool('nested'));
        const o = schemaToOpenAPI(nested ? { type: 'object', properties: { a: s }, required: [] } : s);
        S.observe('document', o);
        S.check('item bounds are on the array, the rest on the items', S.eq(nested ? o.properties.a : o, want));
      },
    },
    {
      name: 'of enumerations from the codec',
      bounds: 'string, number, integer and boolean codecs with up to two values, each described, deprecated, both or neither',
      labels: ['the values are documented one by one'],
      cases: { quick: [{}] },
      run(S) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const type = S.pick('type', ['string', 'number', 'integer', 'boolean']);
        const values = { string: ['a', 'b'], number: [1, 2], integer: [1, 2], boolean: [true, false] }[type].slice(0, S.pick('n', [1, 2]));
        const s = { type, enum: values };
        const want = { type: type === 'integer' ? 'number' : type, enum: values };
        const descriptions = {}, deprecated = [];
        for (const v of values) {
          if (S.is(S.bool('described' + v))) descriptions[v] = S.str('d' + v, { min: 1, max: 1, alphabet: 'xy' });
          if (S.is(S.bool('deprecated' + v))) deprecated.push(String(v));
        }
        if (Object.keys(descriptions).length > 0) want['x-enumDescriptions'] = s.enumDescriptions = descriptions;
        if (deprecated.length > 0) want['x-enumsDeprecated'] = s.enumsDeprecated = deprecated;
        const o = schemaToOpenAPI(S.is(S.bool('property')) ? { type: 'object', properties: { a: s }, required: [] } : { type: 'array', items: s });
        S.observe('document', o);
        S.check('the values are documented one by one', S.eq(o.items || o.properties.a, want));
      },
    },
    {
      name: 'of enumerated keys and alternatives',
      bounds: 'an enumeration of up to three keys, each with a comment or none: a description of up to 2 characters, deprecated, both; alone or beside a number, a literal with or without a comment, or another such enumeration; comments of up to three lines',
      labels: ['the keys are documented one by one', 'every alternative keeps its own documentation'],
      cases: { quick: [{ n: 1 }, { n: 2 }], thorough: [{ n: 1 }, { n: 2 }, { n: 3 }] },
      run(S, p) {
        const { schemaToOpenAPI } = src(S, 'openapi');
        const { KNOWN_IMPORTS } = src(S, 'knownImports');
        const keyof = KNOWN_IMPORTS['io-ts'].keyof;
        const keys = (name, letters) => {
          const properties = {};
          const descriptions = {}, deprecated = [];
          for (const k of letters) {
            const c = S.pick(name + k, ['none', 'plain', 'described', 'deprecated', 'both']);
            properties[k] = { type: 'null' };
            if (c === 'none') continue;
            let text = '/**\n * Key\n';
            if (c === 'described' || c === 'both') text += ' * @description ' + (descriptions[k] = S.str(name + k + '.d', { min: 1, max: 2, alphabet: 'xy' })) + '\n';
            if (c === 'deprecated' || c === 'both') { text += ' * @deprecated\n'; deprecated.push(k); }
            properties[k].comment = block(S, text + ' */');
          }
          const want = { type: 'string', enum: letters };
          if (Object.keys(descriptions).length > 0) want['x-enumDescriptions'] = descriptions;
          if (deprecated.length > 0) want['x-enumsDeprecated'] = deprecated;
          return [keyof(null, { type: 'object', properties, required: letters }).right, want, 'x-enumDescriptions' in want || 'x-enumsDeprecated' in want];
        };
        const comment = (name) => {
          const lines = Array.from({ length: S.pick(name + '.n', [1, 2, 3]) }, (_, i) => S.str(name + i, { min: 1, max: 1, alphabet: 'vw' }));
          return [block(S, '/**\n' + lines.map((l) => ' * ' + l + '\n').join('') + ' */'), lines.join('\n')];
        };
        const first = keys('k', ['a', 'b', 'c'].slice(0, p.n));
        const beside = S.pick('beside', ['nothing', 'number', 'literal', 'commented literal', 'commented number', 'keys', 'commented reference']);
        if (beside === 'nothing') {
          const o = schemaToOpenAPI(first[0]);
          S.observe('document', o);
          S.check('the keys are documented one by one', S.eq(o, first[1]));
          return;
        }
        let second;
        if (beside === 'number') second = [{ type: 'number', primitive: true }, { type: 'number' }, true];
        else if (beside === 'literal') second = [{ type: 'string', enum: ['z'] }, { type: 'string', enum: ['z'] }, false];
        else if (beside === 'keys') second = keys('l', ['y', 'z']);
        else {
          const [c, description] = comment('c');
          second = beside === 'commented literal' ? [{ type: 'string', enum: ['z'], comment: c }, { type: 'string', enum: ['z'], description }, true]
            : beside === 'commented number' ? [{ type: 'number', primitive: true, comment: c }, { type: 'number', description }, true]
            : [{ type: 'ref', name: 'R', location: '/x.ts', comment: c }, { allOf: [{ $ref: '#/components/schemas/R' }], description }, true];
        }
        const o = schemaToOpenAPI({ type: 'union', schemas: S.is(S.bool('swap')) ? [second[0], first[0]] : [first[0], second[0]] });
        S.observe('document', o);
        const alternatives = o.oneOf || [o];
        // what is documented stays an alternative of its own; what is not may be merged with its like
        for (const [, want, own] of [first, second]) if (own) S.check('every alternative keeps its own documentation', S.or(...alternatives.map((x) => S.eq(x, want))));
        const plain = [first, second].filter((x) => !x[2] && x[1].enum).flatMap((x) => x[1].enum);
        S.check('there is nothing else', S.and(alternatives.length === [first, second].filter((x) => x[2]).length + (plain.length > 0 ? 1 : 0), plain.length === 0 || S.or(...alternatives.map((x) => S.and(x.enum !== undefined, x.enum !== undefined && S.eq(x.enum.slice().sort(), plain.slice().sort()), Object.keys(x).length === 2)))));
      },
    },
  ],
};
