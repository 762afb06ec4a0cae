'use strict';
// Arbitrary schemas of the generator's intermediate form and what they, and the OpenAPI schemas made of them, say about JSON values.
//   shape: a list of leaf kinds ('string', 'slit', ...; one is chosen symbolically)
//          | {o: [shape...], keys?}   object; whether each property is required is symbolic
//          | {reck: shape}: a record whose keys are literals
//          | {u: [shape...]} | {i: [shape...]} | {arr: shape} | {rec: shape} | {recd: shape}
const LEAVES = ['string', 'number', 'boolean', 'null', 'undefined', 'any', 'slit', 'nlit', 'blit', 'ref'];
const KEYS = ['a', 'b'];
const REF = { R: { type: 'object', properties: { r: { type: 'number' } }, required: ['r'] } };
const REFLOC = '/types.ts';

function leaf(S, name, kinds) {
  const k = S.pick(name, kinds);
  if (k === 'slit') return { type: 'string', enum: [S.str(name + '.s', { min: 1, max: 1, alphabet: 'ab' })] };
  if (k === 'nlit') return { type: 'number', enum: [S.int(name + '.v', 0, 2)] };
  if (k === 'blit') return { type: 'boolean', enum: [S.is(S.bool(name + '.t'))] };
  if (k === 'ref') return { type: 'ref', name: 'R', location: REFLOC };
  return { type: k };
}
function gen(S, name, shape) {
  if (shape === 'L') return leaf(S, name, LEAVES);
  if (typeof shape === 'string') return leaf(S, name, [shape]);
  if (Array.isArray(shape)) return leaf(S, name, shape);
  if (shape.o) {
    const keys = shape.keys || KEYS;
    const properties = {}, required = [];
    shape.o.forEach((s, i) => {
      properties[keys[i]] = gen(S, name + '.' + keys[i], s);
      if (S.is(S.bool(name + '.' + keys[i] + '.req'))) required.push(keys[i]);
    });
    return { type: 'object', properties, required };
  }
  if (shape.u) return { type: 'union', schemas: shape.u.map((s, i) => gen(S, name + '.u' + i, s)) };
  if (shape.i) return { type: 'intersection', schemas: shape.i.map((s, i) => gen(S, name + '.i' + i, s)) };
  if (shape.arr) return { type: 'array', items: gen(S, name + '.e', shape.arr) };
  if (shape.rec) return { type: 'record', domain: { type: 'string' }, codomain: gen(S, name + '.c', shape.rec) };
  if (shape.recd) return { type: 'record', domain: { type: 'union', schemas: [{ type: 'string', enum: ['a'] }, { type: 'string', enum: ['b'] }] }, codomain: gen(S, name + '.c', shape.recd) };
  // the keys are literals, in any of the forms a domain of literals has
  if (shape.reck) {
    const key = (n) => S.str(name + '.k' + n, { min: 1, max: 1, alphabet: 'ab' });
    const form = S.pick(name + '.dom', ['literal', 'enum of one', 'enum', 'union of one', 'nested union']);
    const domain = form === 'literal' || form === 'enum of one' ? { type: 'string', enum: [key(0)] } : form === 'enum' ? { type: 'string', enum: ['a', 'b'] }
      : form === 'union of one' ? { type: 'union', schemas: [{ type: 'string', enum: [key(0)] }] } : { type: 'union', schemas: [{ type: 'string', enum: [key(0)] }, { type: 'union', schemas: [{ type: 'string', enum: ['a'] }, { type: 'string', enum: [key(1)] }] }] };
    return { type: 'record', domain, codomain: gen(S, name + '.c', shape.reck) };
  }
  throw new Error('shape');
}
const isObj = (v) => typeof v === 'object' && v !== null && !Array.isArray(v);
const has = (o, k) => Object.prototype.hasOwnProperty.call(o, k);
const oneOf = (v, xs) => xs.some((x) => x === v);

// says nothing but "absent": undefined, and unions of nothing else
const onlyUndefined = (s) => s.type === 'undefined' || (s.type === 'union' && s.schemas.length > 0 && s.schemas.every(onlyUndefined));

// does the schema describe this value (undefined: the property is absent); strict: undefined is the only value of an
// undefined property, which a document cannot say
function accepts(s, v, strict) {
  switch (s.type) {
    case 'any': return v !== undefined;
    case 'undefined': return v === undefined;
    case 'null': return v === null;
    case 'string': case 'boolean': return typeof v === s.type && (s.enum === undefined || oneOf(v, s.enum));
    case 'number': case 'integer': return typeof v === 'number' && (s.enum === undefined || oneOf(v, s.enum));
    case 'ref': return isObj(v) && accepts(REF[s.name], v, strict);
    case 'array': return Array.isArray(v) && v.every((x) => accepts(s.items, x, strict));
    case 'union': return s.schemas.some((m) => accepts(m, v, strict));
    case 'intersection': return s.schemas.every((m) => accepts(m, v, strict));
    case 'object': {
      if (!isObj(v)) return false;
      for (const k of Object.keys(s.properties)) {
        const p = s.properties[k];
        if (!strict && onlyUndefined(p)) continue; // JSON has no way of saying "undefined": such a property is not described
        if (v[k] === undefined && !s.required.includes(k)) continue;
        if (!accepts(p, v[k], strict)) return false;
      }
      return true;
    }
    case 'record': {
      if (!isObj(v)) return false;
      const dom = domainKeys(s.domain);
      if (dom) return dom.every((k) => accepts(s.codomain, v[k], strict));
      return Object.keys(v).every((k) => v[k] === undefined || accepts(s.codomain, v[k], strict));
    }
    default: throw new Error('accepts: ' + s.type);
  }
}
function domainKeys(d) {
  if (!d) return undefined;
  if (d.type === 'string' && d.enum) return d.enum;
  if (d.type === 'union') {
    const ks = d.schemas.map(domainKeys);
    return ks.some((k) => !k) ? undefined : [].concat(...ks);
  }
  return undefined;
}

// does the OpenAPI schema describe this value; alternatives are inclusive and `nullable` adds null
function acceptsOA(o, v, components) {
  if (v === undefined) return false;
  if ('$ref' in o) return acceptsOA(components[o.$ref.slice('#/components/schemas/'.length)], v, components);
  if (v === null && o.nullable === true) return true;
  if (o.enum && !oneOf(v, o.enum)) return false;
  if (o.allOf && !o.allOf.every((m) => acceptsOA(m, v, components))) return false;
  if (o.oneOf && !o.oneOf.some((m) => acceptsOA(m, v, components))) return false;
  if (o.anyOf && !o.anyOf.some((m) => acceptsOA(m, v, components))) return false;
  switch (o.type) {
    case undefined: return true;
    case 'string': case 'number': case 'boolean': return typeof v === o.type;
    case 'array': return Array.isArray(v) && v.every((x) => acceptsOA(o.items, x, components));
    case 'object': {
      if (!isObj(v)) return false;
      const props = o.properties || {};
      if ((o.required || []).some((k) => v[k] === undefined)) return false;
      for (const k of Object.keys(v)) {
        if (v[k] === undefined) continue;
        if (has(props, k)) { if (!acceptsOA(props[k], v[k], components)) return false; } else if (o.additionalProperties && !acceptsOA(o.additionalProperties, v[k], components)) return false;
      }
      return true;
    }
    default: throw new Error('acceptsOA: ' + o.type);
  }
}
// structural rules of OpenAPI 3.0 documents
function wellFormed(o) {
  if (typeof o !== 'object' || o === null || Array.isArray(o)) return false;
  if ('$ref' in o) return Object.keys(o).length === 1 && typeof o.$ref === 'string';
  if ('type' in o && !['string', 'number', 'boolean', 'array', 'object'].includes(o.type)) return false;
  if (o.type === 'array' && !wellFormed(o.items)) return false;
  for (const k of ['allOf', 'oneOf', 'anyOf']) if (k in o && !(o[k].length > 0 && o[k].every(wellFormed))) return false;
  if ('required' in o) for (let i = 0; i < o.required.length; i++) for (let j = 0; j < i; j++) if (o.required[i] === o.required[j]) return false;
  if ('required' in o && o.required.length === 0) return false;
  if ('enum' in o && o.nullable !== true && o.enum.length === 0) return false;
  if (o.properties && !Object.keys(o.properties).every((k) => wellFormed(o.properties[k]))) return false;
  if (o.additionalProperties && !wellFormed(o.additionalProperties)) return false;
  return true;
}
module.exports = { LEAVES, REF, REFLOC, gen, accepts, acceptsOA, onlyUndefined, wellFormed, isObj, has };
