'use strict';
// Programs of several modules and what ECMAScript says their names mean; names are symbolic letters behind markers.
//   imports: [local marker, imported marker | 'default' | '*', module]   exports: [exported marker | 'default', local marker]
//   re: [exported, imported, module]   stars: module
// A module whose name is a capital letter is the main module of a package.
const D = (o) => Object.assign({ imports: [], decls: [], inline: [], exports: [], re: [], stars: [] }, o);
const isPackage = (f) => /^[A-Z]$/.test(f);
const path = (f) => (isPackage(f[0]) ? `/src/node_modules/${pkg(f)}/src/${f.length > 1 ? f.slice(1) : 'index'}.ts` : `/src/${f}.ts`);
const pkg = (f) => '@p/' + f[0].toLowerCase();
const from = (f, to) => (isPackage(to) ? pkg(to) : `./${isPackage(to[0]) ? to.slice(1) : to}`);
const VALUE = (f, i) => `v${f}${i}`;

// markers as they stand in the text
const $ = (x) => (/^[A-Z]$/.test(x) ? '$' + x : x);
const subst = (N) => Object.fromEntries(Object.keys(N).map((k) => [$(k), N[k]]));
// text of a module; together: one statement for all that is imported from a module, declared or exported
function print(f, m, init = (v) => `'${v}'`, extra = '', together = false) {
  const out = [];
  if (together) {
    for (const to of new Set(m.imports.map((x) => x[2]))) {
      const own = m.imports.filter((x) => x[2] === to);
      const dflt = own.find((x) => x[1] === 'default'), star = own.find((x) => x[1] === '*');
      const named = own.filter((x) => x !== dflt && x !== star).map(([l, i]) => (i === 'default' ? `default as ${$(l)}` : i === l ? $(l) : `${$(i)} as ${$(l)}`));
      const parts = [];
      if (dflt) parts.push($(dflt[0]));
      if (star && named.length === 0) parts.push(`* as ${$(star[0])}`);
      else if (named.length > 0) parts.push(`{ ${named.join(', ')} }`);
      out.push(`import ${parts.join(', ')} from '${from(f, to)}';`);
      if (star && named.length > 0) out.push(`import * as ${$(star[0])} from '${from(f, to)}';`);
    }
    const item = (d) => `${$(d)} = ${init(VALUE(f, m.decls.indexOf(d)), f, d, m.decls.indexOf(d))}`;
    const own = m.decls.filter((d) => !m.inline.includes(d)), exported = m.decls.filter((d) => m.inline.includes(d));
    if (exported.length > 0) out.push(`export const ${exported.map(item).join(', ')};`);
    if (own.length > 0) out.push(`const ${own.map(item).join(', ')};`);
    const e = m.exports.map(([x, l]) => (x === l ? $(l) : `${$(l)} as ${$(x)}`));
    if (e.length > 0) out.push(`export { ${e.join(', ')} };`);
    for (const to of new Set(m.re.map((x) => x[2]))) out.push(`export { ${m.re.filter((x) => x[2] === to).map(([x, i]) => (x === i ? $(i) : `${$(i)} as ${$(x)}`)).join(', ')} } from '${from(f, to)}';`);
    for (const to of m.stars) out.push(`export * from '${from(f, to)}';`);
    return out.join('\n') + '\n' + extra;
  }
  for (const [l, i, to] of m.imports) {
    const s = from(f, to);
    out.push(i === '*' ? `import * as ${$(l)} from '${s}';` : i === 'default' ? `import ${$(l)} from '${s}';` : i === l ? `import { ${$(l)} } from '${s}';` : `import { ${$(i)} as ${$(l)} } from '${s}';`);
  }
  m.decls.forEach((d, i) => out.push(`${m.inline.includes(d) ? 'export ' : ''}const ${$(d)} = ${init(VALUE(f, i), f, d, i)};`));
  for (const [e, l] of m.exports) out.push(e === 'default' ? `export default ${$(l)};` : e === l ? `export { ${$(l)} };` : `export { ${$(l)} as ${$(e)} };`);
  for (const [e, i, to] of m.re) out.push(e === i ? `export { ${$(i)} } from '${from(f, to)}';` : `export { ${$(i)} as ${$(e)} } from '${from(f, to)}';`);
  for (const to of m.stars) out.push(`export * from '${from(f, to)}';`);
  return out.join('\n') + '\n' + extra;
}

// what a name means: { f, d, i } of the declaration, null if nothing, 'ambiguous'
function oracle(mods, N) {
  const nm = (k) => (k in N ? N[k] : k);
  function exported(f, name, seen) {
    // `name` is a string, not a marker
    const m = mods[f];
    for (const d of m.inline || []) if (N[d] === name) return { f, d, i: m.decls.indexOf(d) };
    for (const [e, l] of m.exports) if (nm(e) === name) return local(f, nm(l), seen);
    for (const [e, i, to] of m.re) if (nm(e) === name) return exported(to, nm(i), seen);
    if (name === 'default') return null;
    const found = [];
    for (const to of m.stars) {
      if (seen.includes(to)) continue;
      const r = exported(to, name, seen.concat(to));
      if (r !== null && !found.some((x) => x.f === r.f && x.d === r.d)) found.push(r);
    }
    return found.length === 0 ? null : found.length === 1 ? found[0] : 'ambiguous';
  }
  function local(f, name, seen) {
    const m = mods[f];
    for (let i = 0; i < m.decls.length; i++) if (N[m.decls[i]] === name) return { f, d: m.decls[i], i };
    for (const [l, imp, to] of m.imports) if (imp !== '*' && N[l] === name) return exported(to, nm(imp), seen);
    return null;
  }
  function member(f, ns, name) {
    for (const [l, imp, to] of mods[f].imports) if (imp === '*' && N[l] === ns) return exported(to, name, [to]);
    return null;
  }
  return { exported: (f, n) => exported(f, n, [f]), local: (f, n) => local(f, n, [f]), member };
}
// a program: no name is declared twice in a module, none exported twice, what is exported exists
function legal(S, mods, N) {
  const nm = (k) => (k in N ? N[k] : k);
  for (const f of Object.keys(mods)) {
    const m = mods[f];
    const locals = m.imports.map((x) => x[0]).concat(m.decls);
    for (let i = 0; i < locals.length; i++) for (let j = 0; j < i; j++) S.assume(S.not(S.eq(N[locals[i]], N[locals[j]])));
    const exps = (m.inline || []).concat(m.exports.map((x) => x[0]), m.re.map((x) => x[0]));
    for (let i = 0; i < exps.length; i++) for (let j = 0; j < i; j++) S.assume(S.not(S.eq(nm(exps[i]), nm(exps[j]))));
    for (const [, l] of m.exports) S.assume(S.or(...locals.map((x) => S.eq(N[x], N[l]))));
  }
}
// the markers of a program as symbolic letters
function names(S, mods, letters, max = 1) {
  const N = {};
  for (const f of Object.keys(mods)) {
    const m = mods[f];
    for (const l of [].concat(m.imports.map((x) => x.slice(0, 2)), m.decls, m.inline, m.exports, m.re.map((x) => x.slice(0, 2))).flat()) if (/^[A-Z]$/.test(l) && !(l in N)) {
      N[l] = S.str(l, { min: 1, max, alphabet: letters });
      if (max > 1) S.assume(S.eq(N[l][0], letters[0]));
    }
  }
  return N;
}
// what `resolve` finds: relative modules, package.json files of packages, their main modules
function resolver(mods) {
  return { sync(q, o) {
    const known = Object.keys(mods).map(path);
    let f;
    if (q[0] === '.') f = `${o.basedir}/${q.replace(/^\.\//, '')}`;
    else {
      // packages are in the node_modules of the directory of the program or of one above
      if (!(o.basedir + '/').startsWith('/src/')) throw new Error(`Cannot find module '${q}' from '${o.basedir}'`);
      f = '/src/node_modules/' + q;
      if (f.endsWith('/package.json') && known.some((k) => k.startsWith(f.slice(0, -12)))) return f;
    }
    if (known.includes(f)) return f;
    if (known.includes(f + '.ts')) return f + '.ts';
    throw new Error(`Cannot find module '${q}' from '${o.basedir}'`);
  } };
}
module.exports = { D, $, subst, isPackage, path, pkg, VALUE, print, oracle, legal, names, resolver };
