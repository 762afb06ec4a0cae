'use strict';
// Self-test of the engine: each scenario evaluates one JavaScript form on symbolic operands; the run compares it
// with the native evaluation on every path. Not a property: run it by hand with `node engine/run.js SELF`.
module.exports = { scenarios: [
{ name: "e000 s.at(0)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.at(0)); S.observe('r', r); } },
{ name: "e001 s.at(-1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.at(-1)); S.observe('r', r); } },
{ name: "e002 s.charAt(1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.charAt(1)); S.observe('r', r); } },
{ name: "e003 s.charCodeAt(0)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.charCodeAt(0)); S.observe('r', r); } },
{ name: "e004 s.codePointAt(0)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.codePointAt(0)); S.observe('r', r); } },
{ name: "e005 s.concat('x', s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.concat('x', s)); S.observe('r', r); } },
{ name: "e006 s.endsWith('b')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.endsWith('b')); S.observe('r', r); } },
{ name: "e007 s.startsWith('a', 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.startsWith('a', 1)); S.observe('r', r); } },
{ name: "e008 s.includes('ab')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.includes('ab')); S.observe('r', r); } },
{ name: "e009 s.indexOf('b', 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.indexOf('b', 1)); S.observe('r', r); } },
{ name: "e010 s.lastIndexOf('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.lastIndexOf('a')); S.observe('r', r); } },
{ name: "e011 s.localeCompare('ab')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.localeCompare('ab')); S.observe('r', r); } },
{ name: "e012 [...s.matchAll(/a(b)?/g)].map((m) => [m.index, m[0], m[1]])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...s.matchAll(/a(b)?/g)].map((m) => [m.index, m[0], m[1]])); S.observe('r', r); } },
{ name: "e013 s.match(/a/g)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.match(/a/g)); S.observe('r', r); } },
{ name: "e014 s.match(/(?<x>a)b/)?.groups?.x", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.match(/(?<x>a)b/)?.groups?.x); S.observe('r', r); } },
{ name: "e015 s.normalize()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.normalize()); S.observe('r', r); } },
{ name: "e016 s.padEnd(4, '-')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.padEnd(4, '-')); S.observe('r', r); } },
{ name: "e017 s.padStart(4)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.padStart(4)); S.observe('r', r); } },
{ name: "e018 s.repeat(2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.repeat(2)); S.observe('r', r); } },
{ name: "e019 s.replaceAll('a', 'c')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.replaceAll('a', 'c')); S.observe('r', r); } },
{ name: "e020 s.replaceAll(/a/g, (m, o) => m + o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.replaceAll(/a/g, (m, o) => m + o)); S.observe('r', r); } },
{ name: "e021 s.replace('a', '$&$&')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.replace('a', '$&$&')); S.observe('r', r); } },
{ name: "e022 s.search(/b/)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.search(/b/)); S.observe('r', r); } },
{ name: "e023 s.slice(-2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.slice(-2)); S.observe('r', r); } },
{ name: "e024 s.split('')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.split('')); S.observe('r', r); } },
{ name: "e025 s.split('a', 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.split('a', 2)); S.observe('r', r); } },
{ name: "e026 s.split(/(a)/)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.split(/(a)/)); S.observe('r', r); } },
{ name: "e027 s.substring(2, 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.substring(2, 1)); S.observe('r', r); } },
{ name: "e028 s.substr(1, 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.substr(1, 2)); S.observe('r', r); } },
{ name: "e029 s.toLowerCase()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.toLowerCase()); S.observe('r', r); } },
{ name: "e030 s.toUpperCase()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.toUpperCase()); S.observe('r', r); } },
{ name: "e031 s.toLocaleUpperCase()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.toLocaleUpperCase()); S.observe('r', r); } },
{ name: "e032 s.trim()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.trim()); S.observe('r', r); } },
{ name: "e033 s.trimStart()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.trimStart()); S.observe('r', r); } },
{ name: "e034 s.valueOf()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.valueOf()); S.observe('r', r); } },
{ name: "e035 [...s]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...s]); S.observe('r', r); } },
{ name: "e036 Array.from(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from(s)); S.observe('r', r); } },
{ name: "e037 Array.from(s, (c) => c + c)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from(s, (c) => c + c)); S.observe('r', r); } },
{ name: "e038 String(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (String(s)); S.observe('r', r); } },
{ name: "e039 String.raw`x${s}`", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (String.raw`x${s}`); S.observe('r', r); } },
{ name: "e040 `${s}`", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (`${s}`); S.observe('r', r); } },
{ name: "e041 s > 'ab'", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s > 'ab'); S.observe('r', r); } },
{ name: "e042 s.length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.length); S.observe('r', r); } },
{ name: "e043 s == 1", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s == 1); S.observe('r', r); } },
{ name: "e044 +s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (+s); S.observe('r', r); } },
{ name: "e045 Number(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number(s)); S.observe('r', r); } },
{ name: "e046 parseInt(s, 10)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (parseInt(s, 10)); S.observe('r', r); } },
{ name: "e047 parseFloat(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (parseFloat(s)); S.observe('r', r); } },
{ name: "e048 isNaN(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (isNaN(s)); S.observe('r', r); } },
{ name: "e049 Number.isInteger(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.isInteger(s)); S.observe('r', r); } },
{ name: "e050 Number.isNaN(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.isNaN(n)); S.observe('r', r); } },
{ name: "e051 Number.isFinite(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.isFinite(n)); S.observe('r', r); } },
{ name: "e052 isFinite(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (isFinite(n)); S.observe('r', r); } },
{ name: "e053 Number.isSafeInteger(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.isSafeInteger(n)); S.observe('r', r); } },
{ name: "e054 n.toString()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n.toString()); S.observe('r', r); } },
{ name: "e055 n.toFixed(0)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n.toFixed(0)); S.observe('r', r); } },
{ name: "e056 String(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (String(n)); S.observe('r', r); } },
{ name: "e057 Math.max(n, 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.max(n, 2)); S.observe('r', r); } },
{ name: "e058 Math.min(n, 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.min(n, 2)); S.observe('r', r); } },
{ name: "e059 Math.abs(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.abs(n)); S.observe('r', r); } },
{ name: "e060 Math.floor(n / 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.floor(n / 2)); S.observe('r', r); } },
{ name: "e061 Math.trunc(n / 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.trunc(n / 2)); S.observe('r', r); } },
{ name: "e062 Math.ceil(n / 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.ceil(n / 2)); S.observe('r', r); } },
{ name: "e063 Math.round(n / 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.round(n / 2)); S.observe('r', r); } },
{ name: "e064 Math.sign(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.sign(n)); S.observe('r', r); } },
{ name: "e065 n % 3", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n % 3); S.observe('r', r); } },
{ name: "e066 n ** 2", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n ** 2); S.observe('r', r); } },
{ name: "e067 n | 0", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n | 0); S.observe('r', r); } },
{ name: "e068 n >> 1", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n >> 1); S.observe('r', r); } },
{ name: "e069 n & 1", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n & 1); S.observe('r', r); } },
{ name: "e070 ~n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (~n); S.observe('r', r); } },
{ name: "e071 ~s.indexOf('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (~s.indexOf('a')); S.observe('r', r); } },
{ name: "e072 !!~s.indexOf('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (!!~s.indexOf('a')); S.observe('r', r); } },
{ name: "e073 -n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (-n); S.observe('r', r); } },
{ name: "e075 [1,2,3][n]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([1,2,3][n]); S.observe('r', r); } },
{ name: "e076 [1,2,3].at(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([1,2,3].at(n)); S.observe('r', r); } },
{ name: "e077 encodeURIComponent(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (encodeURIComponent(s)); S.observe('r', r); } },
{ name: "e078 decodeURIComponent(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (decodeURIComponent(s)); S.observe('r', r); } },
{ name: "e079 encodeURI(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (encodeURI(s)); S.observe('r', r); } },
{ name: "e080 JSON.stringify({s, n, b})", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (JSON.stringify({s, n, b})); S.observe('r', r); } },
{ name: "e081 JSON.stringify([s, n, v], null, 2)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (JSON.stringify([s, n, v], null, 2)); S.observe('r', r); } },
{ name: "e082 JSON.parse(JSON.stringify({s, n}))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (JSON.parse(JSON.stringify({s, n}))); S.observe('r', r); } },
{ name: "e083 Object.keys(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.keys(o)); S.observe('r', r); } },
{ name: "e084 Object.values(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.values(o)); S.observe('r', r); } },
{ name: "e085 Object.entries(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries(o)); S.observe('r', r); } },
{ name: "e086 Object.fromEntries(Object.entries(o).map(([k, x]) => [x, k]))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.fromEntries(Object.entries(o).map(([k, x]) => [x, k]))); S.observe('r', r); } },
{ name: "e087 Object.fromEntries([[s, 1], ['a', 2]])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.fromEntries([[s, 1], ['a', 2]])); S.observe('r', r); } },
{ name: "e088 Object.fromEntries(new Map([[s, 1], ['a', 2]]))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.fromEntries(new Map([[s, 1], ['a', 2]]))); S.observe('r', r); } },
{ name: "e089 Object.assign({}, o, { a: 5 })", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.assign({}, o, { a: 5 })); S.observe('r', r); } },
{ name: "e091 Object.freeze({ ...o })", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.freeze({ ...o })); S.observe('r', r); } },
{ name: "e092 Object.is(n, 3)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.is(n, 3)); S.observe('r', r); } },
{ name: "e093 Object.is(v, undefined)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.is(v, undefined)); S.observe('r', r); } },
{ name: "e094 Object.hasOwn(o, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.hasOwn(o, s)); S.observe('r', r); } },
{ name: "e095 o.hasOwnProperty(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (o.hasOwnProperty(s)); S.observe('r', r); } },
{ name: "e096 Object.prototype.hasOwnProperty.call(o, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.prototype.hasOwnProperty.call(o, s)); S.observe('r', r); } },
{ name: "e097 s in o", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s in o); S.observe('r', r); } },
{ name: "e098 Reflect.has(o, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.has(o, s)); S.observe('r', r); } },
{ name: "e099 Reflect.get(o, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.get(o, s)); S.observe('r', r); } },
{ name: "e100 Reflect.ownKeys(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.ownKeys(o)); S.observe('r', r); } },
{ name: "e101 Object.getOwnPropertyNames(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.getOwnPropertyNames(o)); S.observe('r', r); } },
{ name: "e102 Object.create(null)[s]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.create(null)[s]); S.observe('r', r); } },
{ name: "e103 Object.getPrototypeOf(o) === Object.prototype", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.getPrototypeOf(o) === Object.prototype); S.observe('r', r); } },
{ name: "e105 v instanceof Array", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v instanceof Array); S.observe('r', r); } },
{ name: "e106 Array.isArray(v)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.isArray(v)); S.observe('r', r); } },
{ name: "e107 typeof v", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (typeof v); S.observe('r', r); } },
{ name: "e108 v == null", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v == null); S.observe('r', r); } },
{ name: "e109 v ?? 'd'", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v ?? 'd'); S.observe('r', r); } },
{ name: "e110 v?.a", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v?.a); S.observe('r', r); } },
{ name: "e111 v?.[s]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v?.[s]); S.observe('r', r); } },
{ name: "e112 structuredClone({ s, n, arr })", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (structuredClone({ s, n, arr })); S.observe('r', r); } },
{ name: "e113 arr.at(-1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.at(-1)); S.observe('r', r); } },
{ name: "e114 arr.concat([s], s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.concat([s], s)); S.observe('r', r); } },
{ name: "e115 arr.copyWithin(0, 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.copyWithin(0, 1)); S.observe('r', r); } },
{ name: "e116 [...arr.entries()]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr.entries()]); S.observe('r', r); } },
{ name: "e117 [...arr.keys()]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr.keys()]); S.observe('r', r); } },
{ name: "e118 [...arr.values()]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr.values()]); S.observe('r', r); } },
{ name: "e119 arr.every((x) => x === s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.every((x) => x === s)); S.observe('r', r); } },
{ name: "e120 new Array(2).fill(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Array(2).fill(s)); S.observe('r', r); } },
{ name: "e121 Array.from({ length: 2 }, (_, i) => s + i)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from({ length: 2 }, (_, i) => s + i)); S.observe('r', r); } },
{ name: "e122 arr.filter((x) => x.length > 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.filter((x) => x.length > 1)); S.observe('r', r); } },
{ name: "e123 arr.find((x) => x.startsWith('a'))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.find((x) => x.startsWith('a'))); S.observe('r', r); } },
{ name: "e124 arr.findIndex((x) => x === 'a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.findIndex((x) => x === 'a')); S.observe('r', r); } },
{ name: "e125 arr.findLast((x) => x.startsWith('a'))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.findLast((x) => x.startsWith('a'))); S.observe('r', r); } },
{ name: "e126 arr.findLastIndex((x) => x === 'a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.findLastIndex((x) => x === 'a')); S.observe('r', r); } },
{ name: "e127 [[s], [n]].flat()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([[s], [n]].flat()); S.observe('r', r); } },
{ name: "e128 arr.flatMap((x) => x.split(''))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.flatMap((x) => x.split(''))); S.observe('r', r); } },
{ name: "e129 arr.forEach((x) => x)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.forEach((x) => x)); S.observe('r', r); } },
{ name: "e130 arr.includes('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.includes('a')); S.observe('r', r); } },
{ name: "e131 arr.includes(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.includes(s)); S.observe('r', r); } },
{ name: "e132 arr.indexOf('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.indexOf('a')); S.observe('r', r); } },
{ name: "e133 arr.lastIndexOf('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.lastIndexOf('a')); S.observe('r', r); } },
{ name: "e134 arr.join('-')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.join('-')); S.observe('r', r); } },
{ name: "e135 arr.map((x) => x.length)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.map((x) => x.length)); S.observe('r', r); } },
{ name: "e136 [...arr].pop()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].pop()); S.observe('r', r); } },
{ name: "e137 arr.reduce((a, x) => a + x, '')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.reduce((a, x) => a + x, '')); S.observe('r', r); } },
{ name: "e138 arr.reduceRight((a, x) => a + x)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.reduceRight((a, x) => a + x)); S.observe('r', r); } },
{ name: "e139 [...arr].reverse()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].reverse()); S.observe('r', r); } },
{ name: "e140 [...arr].toReversed()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].toReversed()); S.observe('r', r); } },
{ name: "e141 [...arr].sort()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].sort()); S.observe('r', r); } },
{ name: "e142 [...arr].sort((a, b) => a.localeCompare(b))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].sort((a, b) => a.localeCompare(b))); S.observe('r', r); } },
{ name: "e143 [...arr].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].sort((a, b) => (a < b ? -1 : a > b ? 1 : 0))); S.observe('r', r); } },
{ name: "e144 [...arr].toSorted()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].toSorted()); S.observe('r', r); } },
{ name: "e145 [...arr].splice(0, 1, s, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].splice(0, 1, s, s)); S.observe('r', r); } },
{ name: "e146 [...arr].toSpliced(0, 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr].toSpliced(0, 1)); S.observe('r', r); } },
{ name: "e147 arr.with(0, 'q')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.with(0, 'q')); S.observe('r', r); } },
{ name: "e148 arr.some((x) => x === 'b')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.some((x) => x === 'b')); S.observe('r', r); } },
{ name: "e149 arr.slice(1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.slice(1)); S.observe('r', r); } },
{ name: "e150 arr.toString()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.toString()); S.observe('r', r); } },
{ name: "e151 String(arr)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (String(arr)); S.observe('r', r); } },
{ name: "e152 Array.of(s, n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.of(s, n)); S.observe('r', r); } },
{ name: "e153 arr.length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.length); S.observe('r', r); } },
{ name: "e154 (([x, ...r]) => [r, x])(arr)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((([x, ...r]) => [r, x])(arr)); S.observe('r', r); } },
{ name: "e155 (({ a, ...r }) => r)(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((({ a, ...r }) => r)(o)); S.observe('r', r); } },
{ name: "e156 ((x = s) => x)(undefined)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((x = s) => x)(undefined)); S.observe('r', r); } },
{ name: "e157 new Set(arr).size", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Set(arr).size); S.observe('r', r); } },
{ name: "e158 [...new Set(arr)]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...new Set(arr)]); S.observe('r', r); } },
{ name: "e159 new Set(arr).has('a')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Set(arr).has('a')); S.observe('r', r); } },
{ name: "e160 new Set([s]).has('ab')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Set([s]).has('ab')); S.observe('r', r); } },
{ name: "e161 new Map([[s, n]]).get('ab')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Map([[s, n]]).get('ab')); S.observe('r', r); } },
{ name: "e162 new Map(Object.entries(o)).get(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Map(Object.entries(o)).get(s)); S.observe('r', r); } },
{ name: "e163 [...new Map([[s, n], ['a', 1]])]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...new Map([[s, n], ['a', 1]])]); S.observe('r', r); } },
{ name: "e164 [...new Map([[s, n], ['a', 1]]).keys()]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...new Map([[s, n], ['a', 1]]).keys()]); S.observe('r', r); } },
{ name: "e165 new Map([[s, n], ['a', 1]]).size", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Map([[s, n], ['a', 1]]).size); S.observe('r', r); } },
{ name: "e166 ((m) => { m.delete('a'); return [...m.values()]; })(new Map([[s, n], ['a', 1]]))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((m) => { m.delete('a'); return [...m.values()]; })(new Map([[s, n], ['a', 1]]))); S.observe('r', r); } },
{ name: "e167 ((st) => { st.add(s); st.delete('a'); return st.size; })(new Set(['a']))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((st) => { st.add(s); st.delete('a'); return st.size; })(new Set(['a']))); S.observe('r', r); } },
{ name: "e168 new Map([['a', 1]]).has(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Map([['a', 1]]).has(s)); S.observe('r', r); } },
{ name: "e169 ((m) => { const r = []; m.forEach((x, k) => r.push(k, x)); return r; })(new Map([[s, n]]))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((m) => { const r = []; m.forEach((x, k) => r.push(k, x)); return r; })(new Map([[s, n]]))); S.observe('r', r); } },
{ name: "e170 /^[ab]+$/.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/^[ab]+$/.test(s)); S.observe('r', r); } },
{ name: "e171 /(a)(b)?/.exec(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/(a)(b)?/.exec(s)); S.observe('r', r); } },
{ name: "e172 /a|b{2}/i.exec(s)?.index", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/a|b{2}/i.exec(s)?.index); S.observe('r', r); } },
{ name: "e173 /\\ba/.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/\ba/.test(s)); S.observe('r', r); } },
{ name: "e174 /a(?=b)/.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/a(?=b)/.test(s)); S.observe('r', r); } },
{ name: "e175 /a(?!b)/.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/a(?!b)/.test(s)); S.observe('r', r); } },
{ name: "e176 /(?<=a)b/.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/(?<=a)b/.test(s)); S.observe('r', r); } },
{ name: "e177 new RegExp('a').test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new RegExp('a').test(s)); S.observe('r', r); } },
{ name: "e178 /a/y.test(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (/a/y.test(s)); S.observe('r', r); } },
{ name: "e179 ((r) => { const out = []; let m; while ((m = r.exec(s)) !== null) out.push(m.index); return out; })(/a/g)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((r) => { const out = []; let m; while ((m = r.exec(s)) !== null) out.push(m.index); return out; })(/a/g)); S.observe('r', r); } },
{ name: "e180 (() => { const out = []; for (const k in o) out.push(k); return out; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { const out = []; for (const k in o) out.push(k); return out; })()); S.observe('r', r); } },
{ name: "e181 (() => { const out = []; for (const c of s) out.push(c); return out; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { const out = []; for (const c of s) out.push(c); return out; })()); S.observe('r', r); } },
{ name: "e182 (() => { const out = []; for (let i = 0; i < s.length; i++) out.push(s[i]); return out; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { const out = []; for (let i = 0; i < s.length; i++) out.push(s[i]); return out; })()); S.observe('r', r); } },
{ name: "e183 (() => { switch (s) { case 'a': return 1; case 'ab': return 2; default: return 3; } })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { switch (s) { case 'a': return 1; case 'ab': return 2; default: return 3; } })()); S.observe('r', r); } },
{ name: "e184 (() => { switch (true) { case s === 'a': return 1; case n > 3: return 2; default: return 3; } })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { switch (true) { case s === 'a': return 1; case n > 3: return 2; default: return 3; } })()); S.observe('r', r); } },
{ name: "e185 ({ a: 1, ab: 2 })[s] ?? 0", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (({ a: 1, ab: 2 })[s] ?? 0); S.observe('r', r); } },
{ name: "e186 (() => { try { throw new TypeError(s); } catch (e) { return e.message; } })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { try { throw new TypeError(s); } catch (e) { return e.message; } })()); S.observe('r', r); } },
{ name: "e187 (() => { try { null.x; } catch (e) { return e instanceof TypeError; } })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { try { null.x; } catch (e) { return e instanceof TypeError; } })()); S.observe('r', r); } },
{ name: "e188 (() => { outer: for (const x of arr) { for (const c of x) { if (c === 'b') continue outer; if (c === 'c') break outer; } } return n; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { outer: for (const x of arr) { for (const c of x) { if (c === 'b') continue outer; if (c === 'c') break outer; } } return n; })()); S.observe('r', r); } },
{ name: "e189 [...(function* () { yield s; yield* arr; })()]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...(function* () { yield s; yield* arr; })()]); S.observe('r', r); } },
{ name: "e190 (class { #x = s; get x() { return this.#x; } static y = n; }).y", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((class { #x = s; get x() { return this.#x; } static y = n; }).y); S.observe('r', r); } },
{ name: "e191 new (class A { constructor(x) { this.x = x; } })(s).x", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new (class A { constructor(x) { this.x = x; } })(s).x); S.observe('r', r); } },
{ name: "e192 (() => { let x = v; x ||= 1; x &&= 2; let y; y ??= s; return [x, y]; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { let x = v; x ||= 1; x &&= 2; let y; y ??= s; return [x, y]; })()); S.observe('r', r); } },
{ name: "e193 (b && s) || n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((b && s) || n); S.observe('r', r); } },
{ name: "e194 b ? s : n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (b ? s : n); S.observe('r', r); } },
{ name: "e195 (b, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((b, s)); S.observe('r', r); } },
{ name: "e196 void s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (void s); S.observe('r', r); } },
{ name: "e197 typeof s === 'string' && s !== ''", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (typeof s === 'string' && s !== ''); S.observe('r', r); } },
{ name: "e198 [s, n, b].filter(Boolean)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([s, n, b].filter(Boolean)); S.observe('r', r); } },
{ name: "e199 [s, n].map(String)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([s, n].map(String)); S.observe('r', r); } },
{ name: "e200 ['1', s].map(Number)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (['1', s].map(Number)); S.observe('r', r); } },
{ name: "e201 [undefined, s, null].filter((x) => x != null)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([undefined, s, null].filter((x) => x != null)); S.observe('r', r); } },
{ name: "e202 Boolean(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Boolean(s)); S.observe('r', r); } },
{ name: "e203 !s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (!s); S.observe('r', r); } },
{ name: "e204 s + n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s + n); S.observe('r', r); } },
{ name: "e205 n + ''", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n + ''); S.observe('r', r); } },
{ name: "e206 n == s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n == s); S.observe('r', r); } },
{ name: "e207 b == true", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (b == true); S.observe('r', r); } },
{ name: "e208 n < 3 && n >= 1", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n < 3 && n >= 1); S.observe('r', r); } },
{ name: "e209 delete o[s]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (delete o[s]); S.observe('r', r); } },
{ name: "e210 ((q) => { delete q[s]; return q; })({ ...o })", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((q) => { delete q[s]; return q; })({ ...o })); S.observe('r', r); } },
{ name: "e211 Object.defineProperty({}, 'x', { value: s, enumerable: true })", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.defineProperty({}, 'x', { value: s, enumerable: true })); S.observe('r', r); } },
{ name: "e212 Object.getOwnPropertyDescriptor(o, 'a').value", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.getOwnPropertyDescriptor(o, 'a').value); S.observe('r', r); } },
{ name: "e213 Object.entries(o).sort(([x], [y]) => (x < y ? -1 : 1))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries(o).sort(([x], [y]) => (x < y ? -1 : 1))); S.observe('r', r); } },
{ name: "e214 Object.entries(o).reduce((acc, [k, x]) => ({ ...acc, [k]: x + s }), {})", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries(o).reduce((acc, [k, x]) => ({ ...acc, [k]: x + s }), {})); S.observe('r', r); } },
{ name: "e215 Object.entries(o).reduce((acc, [k, x]) => { acc[x] = k; return acc; }, {})", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries(o).reduce((acc, [k, x]) => { acc[x] = k; return acc; }, {})); S.observe('r', r); } },
{ name: "e218 new Date(n).getTime()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Date(n).getTime()); S.observe('r', r); } },
{ name: "e219 arr.map((x, i, all) => all.length - i)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.map((x, i, all) => all.length - i)); S.observe('r', r); } },
{ name: "e220 Array.prototype.slice.call(arr, 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.prototype.slice.call(arr, 1)); S.observe('r', r); } },
{ name: "e221 Array.prototype.concat.apply([], [arr, [s]])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.prototype.concat.apply([], [arr, [s]])); S.observe('r', r); } },
{ name: "e222 Math.max(...[n, 3, s.length])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Math.max(...[n, 3, s.length])); S.observe('r', r); } },
{ name: "e223 [].concat(...[arr, [s]])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([].concat(...[arr, [s]])); S.observe('r', r); } },
{ name: "e224 [s, 'a'].join()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([s, 'a'].join()); S.observe('r', r); } },
{ name: "e225 [s].includes('ab')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([s].includes('ab')); S.observe('r', r); } },
{ name: "e226 'abc'.includes(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.includes(s)); S.observe('r', r); } },
{ name: "e227 'abc'.indexOf(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.indexOf(s)); S.observe('r', r); } },
{ name: "e228 'abc'.startsWith(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.startsWith(s)); S.observe('r', r); } },
{ name: "e229 'abc'.split(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.split(s)); S.observe('r', r); } },
{ name: "e230 'abc'.replace(s, 'z')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.replace(s, 'z')); S.observe('r', r); } },
{ name: "e231 'abc'.localeCompare(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.localeCompare(s)); S.observe('r', r); } },
{ name: "e232 ['a', 'ab'].includes(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (['a', 'ab'].includes(s)); S.observe('r', r); } },
{ name: "e233 ['a', 'ab'].indexOf(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (['a', 'ab'].indexOf(s)); S.observe('r', r); } },
{ name: "e234 'abc'[n]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'[n]); S.observe('r', r); } },
{ name: "e235 'abc'.charAt(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.charAt(n)); S.observe('r', r); } },
{ name: "e236 'abc'.slice(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.slice(n)); S.observe('r', r); } },
{ name: "e237 'abc'.repeat(n < 0 ? 0 : n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('abc'.repeat(n < 0 ? 0 : n)); S.observe('r', r); } },
{ name: "e238 [3, 4, 5].slice(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([3, 4, 5].slice(n)); S.observe('r', r); } },
{ name: "e239 Array.from(Array(n < 0 ? 0 : n).keys())", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from(Array(n < 0 ? 0 : n).keys())); S.observe('r', r); } },
{ name: "e240 new Array(n < 0 ? 0 : n).fill(0)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Array(n < 0 ? 0 : n).fill(0)); S.observe('r', r); } },
{ name: "e241 Number(b)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number(b)); S.observe('r', r); } },
{ name: "e242 +b", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (+b); S.observe('r', r); } },
{ name: "e243 b + 1", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (b + 1); S.observe('r', r); } },
{ name: "e244 [b].includes(true)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([b].includes(true)); S.observe('r', r); } },
{ name: "e245 b.toString()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (b.toString()); S.observe('r', r); } },
{ name: "e246 n.toString(16)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n.toString(16)); S.observe('r', r); } },
{ name: "e247 n.toLocaleString()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (n.toLocaleString()); S.observe('r', r); } },
{ name: "e248 s.isWellFormed?.()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.isWellFormed?.()); S.observe('r', r); } },
{ name: "e251 Buffer.byteLength(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Buffer.byteLength(s)); S.observe('r', r); } },
{ name: "e252 new TextEncoder().encode(s).length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new TextEncoder().encode(s).length); S.observe('r', r); } },
{ name: "e255 Symbol(s).description", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Symbol(s).description); S.observe('r', r); } },
{ name: "e256 escape(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (escape(s)); S.observe('r', r); } },
{ name: "e257 Promise.resolve(s) instanceof Promise", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Promise.resolve(s) instanceof Promise); S.observe('r', r); } },
{ name: "e258 Function.prototype.call.call((x) => x, null, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Function.prototype.call.call((x) => x, null, s)); S.observe('r', r); } },
{ name: "e259 ((...a) => a.length)(...arr)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((...a) => a.length)(...arr)); S.observe('r', r); } },
{ name: "e260 (function () { return arguments.length + arguments[0]; })(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((function () { return arguments.length + arguments[0]; })(s)); S.observe('r', r); } },
{ name: "e261 (function () { return Array.prototype.slice.call(arguments); })(s, n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((function () { return Array.prototype.slice.call(arguments); })(s, n)); S.observe('r', r); } },
{ name: "e262 Object.entries({ a: s }).map(([k, x]) => `${k}=${x}`).join('&')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries({ a: s }).map(([k, x]) => `${k}=${x}`).join('&')); S.observe('r', r); } },
{ name: "e263 arr.reduce((m, x) => m.set(x, (m.get(x) ?? 0) + 1), new Map()).size", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.reduce((m, x) => m.set(x, (m.get(x) ?? 0) + 1), new Map()).size); S.observe('r', r); } },
{ name: "e264 new WeakMap([[o, s]]).get(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new WeakMap([[o, s]]).get(o)); S.observe('r', r); } },
{ name: "e265 Object.keys(o).length === 0", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.keys(o).length === 0); S.observe('r', r); } },
{ name: "e266 Number.parseInt(s, 10)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.parseInt(s, 10)); S.observe('r', r); } },
{ name: "e267 Number.parseFloat(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Number.parseFloat(s)); S.observe('r', r); } },
{ name: "e268 s.split('a').filter(Boolean).join('')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.split('a').filter(Boolean).join('')); S.observe('r', r); } },
{ name: "e269 s.split('').reverse().join('')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.split('').reverse().join('')); S.observe('r', r); } },
{ name: "e270 [...s].every((c) => 'ab'.includes(c))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...s].every((c) => 'ab'.includes(c))); S.observe('r', r); } },
{ name: "e271 s.at(0)?.toUpperCase() + s.slice(1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.at(0)?.toUpperCase() + s.slice(1)); S.observe('r', r); } },
{ name: "e272 Array.isArray(arr) && arr.length > 0", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.isArray(arr) && arr.length > 0); S.observe('r', r); } },
{ name: "e273 new Error(s).message", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Error(s).message); S.observe('r', r); } },
{ name: "e274 String(new Error(s))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (String(new Error(s))); S.observe('r', r); } },
{ name: "e275 Object.prototype.toString.call(v)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.prototype.toString.call(v)); S.observe('r', r); } },
{ name: "e276 globalThis.undefined === v", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (globalThis.undefined === v); S.observe('r', r); } },
{ name: "e277 v?.toString?.()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (v?.toString?.()); S.observe('r', r); } },
{ name: "e278 'a'.concat(s).length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('a'.concat(s).length); S.observe('r', r); } },
{ name: "e279 s.match(/^(a*)(b*)$/)?.slice(1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.match(/^(a*)(b*)$/)?.slice(1)); S.observe('r', r); } },
{ name: "e280 ((a, b2) => a.localeCompare(b2))('a', s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((a, b2) => a.localeCompare(b2))('a', s)); S.observe('r', r); } },
{ name: "e281 Object.is(-0, n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.is(-0, n)); S.observe('r', r); } },
{ name: "e282 [n, 2, 10].sort()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([n, 2, 10].sort()); S.observe('r', r); } },
{ name: "e283 [n, 2, 10].sort((x, y) => x - y)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([n, 2, 10].sort((x, y) => x - y)); S.observe('r', r); } },
{ name: "e284 arr.entries().next().value", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.entries().next().value); S.observe('r', r); } },
{ name: "e285 [...arr.entries()].filter(([i]) => i > 0).map(([, x]) => x)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...arr.entries()].filter(([i]) => i > 0).map(([, x]) => x)); S.observe('r', r); } },
{ name: "e286 Iterator.from?.(arr)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Iterator.from?.(arr)); S.observe('r', r); } },
{ name: "e287 new Set([...arr, s]).union?.(new Set(['zz'])).size", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Set([...arr, s]).union?.(new Set(['zz'])).size); S.observe('r', r); } },
{ name: "e288 arr.values().map?.((x) => x).toArray?.()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.values().map?.((x) => x).toArray?.()); S.observe('r', r); } },
{ name: "e289 Map.groupBy?.(arr, (x) => x).size", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Map.groupBy?.(arr, (x) => x).size); S.observe('r', r); } },
{ name: "e290 'a b'.split(' ', n < 0 ? 0 : n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('a b'.split(' ', n < 0 ? 0 : n)); S.observe('r', r); } },
{ name: "e291 \"a-b_c\".replace(/[-_](.)/g, (_, c) => s + c)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ("a-b_c".replace(/[-_](.)/g, (_, c) => s + c)); S.observe('r', r); } },
{ name: "e292 Reflect.apply((x) => x, null, [s])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.apply((x) => x, null, [s])); S.observe('r', r); } },
{ name: "e293 Reflect.construct(Array, [s])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.construct(Array, [s])); S.observe('r', r); } },
{ name: "e294 Reflect.set({ ...o }, s, 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.set({ ...o }, s, 1)); S.observe('r', r); } },
{ name: "e295 Reflect.deleteProperty({ ...o }, s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Reflect.deleteProperty({ ...o }, s)); S.observe('r', r); } },
{ name: "e296 Object.entries(o).flat()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.entries(o).flat()); S.observe('r', r); } },
{ name: "e297 Object.seal({ s }).s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.seal({ s }).s); S.observe('r', r); } },
{ name: "e298 Object.isFrozen(o)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object.isFrozen(o)); S.observe('r', r); } },
{ name: "e299 arr.push.apply([...arr], arr)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (arr.push.apply([...arr], arr)); S.observe('r', r); } },
{ name: "e300 ((x) => { x.length = 0; return x; })([...arr])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((x) => { x.length = 0; return x; })([...arr])); S.observe('r', r); } },
{ name: "e301 ((x) => { x.unshift(s); x.shift(); return x; })([...arr])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((x) => { x.unshift(s); x.shift(); return x; })([...arr])); S.observe('r', r); } },
{ name: "e302 ((x) => { [x[0], x[1]] = [x[1], x[0]]; return x; })([...arr])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((x) => { [x[0], x[1]] = [x[1], x[0]]; return x; })([...arr])); S.observe('r', r); } },
{ name: "e303 (() => { let i = 0; do { i++; } while (i < n); return i; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { let i = 0; do { i++; } while (i < n); return i; })()); S.observe('r', r); } },
{ name: "e304 (() => { let i = 0; while (i < s.length && s[i] !== 'b') i += 1; return i; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { let i = 0; while (i < s.length && s[i] !== 'b') i += 1; return i; })()); S.observe('r', r); } },
{ name: "e305 (() => { for (let i = s.length - 1; i >= 0; i--) if (s.charCodeAt(i) === 97) return i; return -1; })()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((() => { for (let i = s.length - 1; i >= 0; i--) if (s.charCodeAt(i) === 97) return i; return -1; })()); S.observe('r', r); } },
{ name: "e306 ((t2) => t2.tag)((x, ...y) => x.raw)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((t2) => t2.tag)((x, ...y) => x.raw)); S.observe('r', r); } },
{ name: "e307 ((x) => x[0] + x[1])(((st, ...y) => [st[0], y[0]])`a${s}b`)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (((x) => x[0] + x[1])(((st, ...y) => [st[0], y[0]])`a${s}b`)); S.observe('r', r); } },
{ name: "e308 new Proxy(o, {})[s]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new Proxy(o, {})[s]); S.observe('r', r); } },
{ name: "e309 '$1'.replace('$1', () => s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('$1'.replace('$1', () => s)); S.observe('r', r); } },
{ name: "e310 s.replace(/a/, '$$')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.replace(/a/, '$$')); S.observe('r', r); } },
{ name: "e311 s.replace(/(?<q>a)/, '[$<q>]')", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.replace(/(?<q>a)/, '[$<q>]')); S.observe('r', r); } },
{ name: "e312 'ab'.replaceAll('a', s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('ab'.replaceAll('a', s)); S.observe('r', r); } },
{ name: "e313 'a,b'.split(',').map((x) => x + s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('a,b'.split(',').map((x) => x + s)); S.observe('r', r); } },
{ name: "e314 BigInt(n).toString()", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (BigInt(n).toString()); S.observe('r', r); } },
{ name: "e315 'ab' < s", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ('ab' < s); S.observe('r', r); } },
{ name: "e316 [...\"ab\"].map((c) => c === s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([..."ab"].map((c) => c === s)); S.observe('r', r); } },
{ name: "e317 s.slice(0, s.indexOf('b'))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.slice(0, s.indexOf('b'))); S.observe('r', r); } },
{ name: "e318 s.slice(s.lastIndexOf('a') + 1)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.slice(s.lastIndexOf('a') + 1)); S.observe('r', r); } },
{ name: "e319 s.substring(0, n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.substring(0, n)); S.observe('r', r); } },
{ name: "e320 s.at(n)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (s.at(n)); S.observe('r', r); } },
{ name: "e321 isNaN(parseInt(s))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (isNaN(parseInt(s))); S.observe('r', r); } },
{ name: "e323 Object(s).length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Object(s).length); S.observe('r', r); } },
{ name: "e324 new String(s).length", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (new String(s).length); S.observe('r', r); } },
{ name: "e325 (Object.entries(o).find(([k]) => k === s) ?? [])[1]", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ((Object.entries(o).find(([k]) => k === s) ?? [])[1]); S.observe('r', r); } },
{ name: "e326 [...Object.entries(o)].map(([k]) => k).includes(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = ([...Object.entries(o)].map(([k]) => k).includes(s)); S.observe('r', r); } },
{ name: "e327 Array.from(new Map([[s, 1]]).entries())", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from(new Map([[s, 1]]).entries())); S.observe('r', r); } },
{ name: "e328 Array.from(new Set([s, 'a']))", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from(new Set([s, 'a']))); S.observe('r', r); } },
{ name: "e329 Array.from([1, 2].entries())", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Array.from([1, 2].entries())); S.observe('r', r); } },
{ name: "e331 Date.now() > 0 && n", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (Date.now() > 0 && n); S.observe('r', r); } },
{ name: "e332 require('path').join('/a', s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('path').join('/a', s)); S.observe('r', r); } },
{ name: "e333 require('path').basename(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('path').basename(s)); S.observe('r', r); } },
{ name: "e334 require('path').extname(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('path').extname(s)); S.observe('r', r); } },
{ name: "e335 require('util').inspect(s)", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('util').inspect(s)); S.observe('r', r); } },
{ name: "e336 require('util').isDeepStrictEqual([s], ['a'])", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('util').isDeepStrictEqual([s], ['a'])); S.observe('r', r); } },
{ name: "e337 require('assert').deepStrictEqual", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab1' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = (require('assert').deepStrictEqual); S.observe('r', r); } },
{ name: "s000 let r = []; for (const [k, x] of Object.entries(o)) { if (k === s) continue; r.push([k, x]); } return r;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let r = []; for (const [k, x] of Object.entries(o)) { if (k === s) continue; r.push([k, x]); } return r; })(); S.observe('r', r); } },
{ name: "s001 let r = 0; for (let i = 0, j = arr.length; i < j; i++, j--) r += arr[i].length; return r;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let r = 0; for (let i = 0, j = arr.length; i < j; i++, j--) r += arr[i].length; return r; })(); S.observe('r', r); } },
{ name: "s002 const q = { ...o }; for (const k in q) if (k === s) delete q[k]; return q;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = { ...o }; for (const k in q) if (k === s) delete q[k]; return q; })(); S.observe('r', r); } },
{ name: "s003 let x = n; x += 1; x -= 2; x *= 3; return x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let x = n; x += 1; x -= 2; x *= 3; return x; })(); S.observe('r', r); } },
{ name: "s004 let x = s; x += s; x += n; return x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let x = s; x += s; x += n; return x; })(); S.observe('r', r); } },
{ name: "s005 const { a, ...rest } = o; return rest;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const { a, ...rest } = o; return rest; })(); S.observe('r', r); } },
{ name: "s006 const { [s]: z = 'none', ...rest } = o; return [z, rest];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const { [s]: z = 'none', ...rest } = o; return [z, rest]; })(); S.observe('r', r); } },
{ name: "s007 const [p, , q = 'd'] = arr; return [p, q];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const [p, , q = 'd'] = arr; return [p, q]; })(); S.observe('r', r); } },
{ name: "s008 const f = ({ x, y = x } = { x: s }) => [x, y]; return f();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const f = ({ x, y = x } = { x: s }) => [x, y]; return f(); })(); S.observe('r', r); } },
{ name: "s009 const f = function* () { const x = yield s; return x; }; const it = f(); return [it.next().value, it.next(n).value];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const f = function* () { const x = yield s; return x; }; const it = f(); return [it.next().value, it.next(n).value]; })(); S.observe('r', r); } },
{ name: "s010 try { if (b) throw new Error(s); return 1; } catch { return 2; } finally { o.z = s; }", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { try { if (b) throw new Error(s); return 1; } catch { return 2; } finally { o.z = s; } })(); S.observe('r', r); } },
{ name: "s011 const m = new Map(); for (const x of arr) { const l = m.get(x) ?? []; l.push(x); m.set(x, l); } return [...m];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const m = new Map(); for (const x of arr) { const l = m.get(x) ?? []; l.push(x); m.set(x, l); } return [...m]; })(); S.observe('r', r); } },
{ name: "s012 const m = new Map(); for (const x of arr) m.set(x, m.has(x) ? m.get(x) + 1 : 1); return [...m.entries()];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const m = new Map(); for (const x of arr) m.set(x, m.has(x) ? m.get(x) + 1 : 1); return [...m.entries()]; })(); S.observe('r', r); } },
{ name: "s013 const seen = new Set(); return arr.filter((x) => !seen.has(x) && seen.add(x));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const seen = new Set(); return arr.filter((x) => !seen.has(x) && seen.add(x)); })(); S.observe('r', r); } },
{ name: "s014 const t = { a: () => 1, b: () => 2 }; return t[s]?.() ?? 3;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const t = { a: () => 1, b: () => 2 }; return t[s]?.() ?? 3; })(); S.observe('r', r); } },
{ name: "s015 const t = { a: 1, ab: 2 }; if (s in t) return t[s]; return 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const t = { a: 1, ab: 2 }; if (s in t) return t[s]; return 0; })(); S.observe('r', r); } },
{ name: "s016 const t = { a: 1, ab: 2 }; if (Object.prototype.hasOwnProperty.call(t, s)) return t[s]; return 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const t = { a: 1, ab: 2 }; if (Object.prototype.hasOwnProperty.call(t, s)) return t[s]; return 0; })(); S.observe('r', r); } },
{ name: "s017 const t = new Map([['a', 1], ['ab', 2]]); return t.get(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const t = new Map([['a', 1], ['ab', 2]]); return t.get(s); })(); S.observe('r', r); } },
{ name: "s018 switch (typeof v) { case 'string': case 'number': return 1; case 'object': if (v === null) break; return 2; default: return 3; } return 4;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { switch (typeof v) { case 'string': case 'number': return 1; case 'object': if (v === null) break; return 2; default: return 3; } return 4; })(); S.observe('r', r); } },
{ name: "s019 switch (n) { case 0: case 1: return 'low'; case 2: { return 'two'; } } return 'high';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { switch (n) { case 0: case 1: return 'low'; case 2: { return 'two'; } } return 'high'; })(); S.observe('r', r); } },
{ name: "s020 let i = 0; for (;;) { if (i >= n) break; i++; } return i;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let i = 0; for (;;) { if (i >= n) break; i++; } return i; })(); S.observe('r', r); } },
{ name: "s021 let c = 0; for (const ch of s) { if (ch === 'a') { c++; continue; } c += 10; } return c;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let c = 0; for (const ch of s) { if (ch === 'a') { c++; continue; } c += 10; } return c; })(); S.observe('r', r); } },
{ name: "s022 const st = [s]; const out = []; while (st.length) { const x = st.pop(); if (x === '') continue; out.push(x); st.push(x.slice(1)); } return out;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const st = [s]; const out = []; while (st.length) { const x = st.pop(); if (x === '') continue; out.push(x); st.push(x.slice(1)); } return out; })(); S.observe('r', r); } },
{ name: "s023 const rec = (x) => (x.length === 0 ? [] : [x[0], ...rec(x.slice(1))]); return rec(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const rec = (x) => (x.length === 0 ? [] : [x[0], ...rec(x.slice(1))]); return rec(s); })(); S.observe('r', r); } },
{ name: "s024 class A { constructor(x) { this.x = x; } get y() { return this.x + 1; } set y(q) { this.x = q; } static of(x) { return new A(x); } } const a = A.of(n); a.y = a.y; return a.x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { class A { constructor(x) { this.x = x; } get y() { return this.x + 1; } set y(q) { this.x = q; } static of(x) { return new A(x); } } const a = A.of(n); a.y = a.y; return a.x; })(); S.observe('r', r); } },
{ name: "s025 class A { #p; constructor(x) { this.#p = x; } eq(o2) { return #p in o2 && this.#p === o2.#p; } } return new A(s).eq(new A('a'));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { class A { #p; constructor(x) { this.#p = x; } eq(o2) { return #p in o2 && this.#p === o2.#p; } } return new A(s).eq(new A('a')); })(); S.observe('r', r); } },
{ name: "s026 class A extends Map { get2(k) { return this.get(k); } } const a = new A(); a.set(s, 1); return a.get2('ab');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { class A extends Map { get2(k) { return this.get(k); } } const a = new A(); a.set(s, 1); return a.get2('ab'); })(); S.observe('r', r); } },
{ name: "s027 class E2 extends Error { constructor(m, c) { super(m); this.c = c; } } try { throw new E2(s, n); } catch (e) { return [e instanceof E2, e instanceof Error, e.message, e.c]; }", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { class E2 extends Error { constructor(m, c) { super(m); this.c = c; } } try { throw new E2(s, n); } catch (e) { return [e instanceof E2, e instanceof Error, e.message, e.c]; } })(); S.observe('r', r); } },
{ name: "s028 return await Promise.all([s, Promise.resolve(n)]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await Promise.all([s, Promise.resolve(n)]); })(); S.observe('r', r); } },
{ name: "s029 return await Promise.race([s, Promise.resolve(n)]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await Promise.race([s, Promise.resolve(n)]); })(); S.observe('r', r); } },
{ name: "s030 return (await Promise.allSettled([Promise.resolve(s), Promise.reject(n)])).map((x) => x.status + (x.value ?? x.reason));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (await Promise.allSettled([Promise.resolve(s), Promise.reject(n)])).map((x) => x.status + (x.value ?? x.reason)); })(); S.observe('r', r); } },
{ name: "s031 return await Promise.any([Promise.reject(1), Promise.resolve(s)]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await Promise.any([Promise.reject(1), Promise.resolve(s)]); })(); S.observe('r', r); } },
{ name: "s032 return await new Promise((res) => setTimeout(() => res(s), 0));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await new Promise((res) => setTimeout(() => res(s), 0)); })(); S.observe('r', r); } },
{ name: "s033 return await Promise.resolve(s).then((x) => x + 1).finally(() => 3);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await Promise.resolve(s).then((x) => x + 1).finally(() => 3); })(); S.observe('r', r); } },
{ name: "s034 return await Promise.reject(s).catch((x) => x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return await Promise.reject(s).catch((x) => x); })(); S.observe('r', r); } },
{ name: "s035 const out = []; for await (const x of [s, Promise.resolve(n)]) out.push(x); return out;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const out = []; for await (const x of [s, Promise.resolve(n)]) out.push(x); return out; })(); S.observe('r', r); } },
{ name: "s036 async function* g() { yield s; yield n; } const out = []; for await (const x of g()) out.push(x); return out;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { async function* g() { yield s; yield n; } const out = []; for await (const x of g()) out.push(x); return out; })(); S.observe('r', r); } },
{ name: "s037 const w = new WeakMap(); w.set(o, s); return w.has(o) && w.get(o);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const w = new WeakMap(); w.set(o, s); return w.has(o) && w.get(o); })(); S.observe('r', r); } },
{ name: "s038 const arr2 = [...arr]; arr2.length = 1; return arr2;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const arr2 = [...arr]; arr2.length = 1; return arr2; })(); S.observe('r', r); } },
{ name: "s039 const arr2 = []; arr2[n < 0 ? 0 : n] = s; return arr2.length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const arr2 = []; arr2[n < 0 ? 0 : n] = s; return arr2.length; })(); S.observe('r', r); } },
{ name: "s040 const q = {}; q[s] = 1; q[s] += 1; return q[s];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = {}; q[s] = 1; q[s] += 1; return q[s]; })(); S.observe('r', r); } },
{ name: "s041 const q = Object.create(null); for (const x of arr) q[x] = (q[x] || 0) + 1; return Object.values(q).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = Object.create(null); for (const x of arr) q[x] = (q[x] || 0) + 1; return Object.values(q).length; })(); S.observe('r', r); } },
{ name: "s042 const q = { get x() { return s; } }; return q.x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = { get x() { return s; } }; return q.x; })(); S.observe('r', r); } },
{ name: "s043 const q = { a: { b: { c: s } } }; return q?.a?.b?.c + q?.z?.y;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = { a: { b: { c: s } } }; return q?.a?.b?.c + q?.z?.y; })(); S.observe('r', r); } },
{ name: "s044 const { a: { length } = [] } = { a: s }; return length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const { a: { length } = [] } = { a: s }; return length; })(); S.observe('r', r); } },
{ name: "s045 label: { if (b) break label; return 1; } return 2;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { label: { if (b) break label; return 1; } return 2; })(); S.observe('r', r); } },
{ name: "s046 var x = 1; { var x = s; } return x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { var x = 1; { var x = s; } return x; })(); S.observe('r', r); } },
{ name: "s047 const fn = (...args) => args.reduce((p, c) => p + String(c), ''); return fn(s, n, b);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const fn = (...args) => args.reduce((p, c) => p + String(c), ''); return fn(s, n, b); })(); S.observe('r', r); } },
{ name: "s048 return ((a, b2 = a) => [a, b2])(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return ((a, b2 = a) => [a, b2])(s); })(); S.observe('r', r); } },
{ name: "s049 return [1, 2, 3].map((x) => x * n).filter((x) => x > 2).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [1, 2, 3].map((x) => x * n).filter((x) => x > 2).length; })(); S.observe('r', r); } },
{ name: "s050 return Object.entries({ x: s, y: n }).map(([k, z]) => ({ [k]: z })).reduce((p, c) => Object.assign(p, c), {});", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.entries({ x: s, y: n }).map(([k, z]) => ({ [k]: z })).reduce((p, c) => Object.assign(p, c), {}); })(); S.observe('r', r); } },
{ name: "s051 return arr.map((x) => x.split('')).flat().filter((x, i, a) => a.indexOf(x) === i);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.map((x) => x.split('')).flat().filter((x, i, a) => a.indexOf(x) === i); })(); S.observe('r', r); } },
{ name: "s052 return [...arr].sort((x, y) => x.length - y.length || (x < y ? -1 : 1));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...arr].sort((x, y) => x.length - y.length || (x < y ? -1 : 1)); })(); S.observe('r', r); } },
{ name: "s053 return JSON.parse(JSON.stringify({ s, n, b, u: undefined, z: null }));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return JSON.parse(JSON.stringify({ s, n, b, u: undefined, z: null })); })(); S.observe('r', r); } },
{ name: "s054 return JSON.stringify(v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return JSON.stringify(v); })(); S.observe('r', r); } },
{ name: "s055 return JSON.stringify({ a: v, d: s }, (k, x) => (k === 'd' ? undefined : x));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return JSON.stringify({ a: v, d: s }, (k, x) => (k === 'd' ? undefined : x)); })(); S.observe('r', r); } },
{ name: "s056 return JSON.stringify({ a: { toJSON() { return s; } } });", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return JSON.stringify({ a: { toJSON() { return s; } } }); })(); S.observe('r', r); } },
{ name: "s057 return s.split('').map((c) => c.charCodeAt(0)).reduce((a, x) => a * 2 + x, 0);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.split('').map((c) => c.charCodeAt(0)).reduce((a, x) => a * 2 + x, 0); })(); S.observe('r', r); } },
{ name: "s058 return s.replace(/[ab]/g, (c) => ({ a: 'x', b: 'y' })[c]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.replace(/[ab]/g, (c) => ({ a: 'x', b: 'y' })[c]); })(); S.observe('r', r); } },
{ name: "s059 return s.replace(/^(.)(.*)$/, (_, h, tl) => tl + h);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.replace(/^(.)(.*)$/, (_, h, tl) => tl + h); })(); S.observe('r', r); } },
{ name: "s060 return /^(?:a|b)+$/.test(s) ? s : '';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return /^(?:a|b)+$/.test(s) ? s : ''; })(); S.observe('r', r); } },
{ name: "s061 return (/^(?<h>\\w)(?<t>\\w?)$/.exec(s) ?? { groups: {} }).groups.t;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (/^(?<h>\w)(?<t>\w?)$/.exec(s) ?? { groups: {} }).groups.t; })(); S.observe('r', r); } },
{ name: "s062 return s.match(/./g)?.length ?? 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.match(/./g)?.length ?? 0; })(); S.observe('r', r); } },
{ name: "s063 let x = v; if (typeof x !== 'object' || x === null || Array.isArray(x)) x = {}; return Object.keys(x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let x = v; if (typeof x !== 'object' || x === null || Array.isArray(x)) x = {}; return Object.keys(x); })(); S.observe('r', r); } },
{ name: "s064 const isObj = (x) => typeof x === 'object' && x !== null; return isObj(v) ? 'a' in v : false;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const isObj = (x) => typeof x === 'object' && x !== null; return isObj(v) ? 'a' in v : false; })(); S.observe('r', r); } },
{ name: "s065 if (v instanceof Object) return 1; return 2;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { if (v instanceof Object) return 1; return 2; })(); S.observe('r', r); } },
{ name: "s066 return v === null ? 'null' : v === undefined ? 'undef' : typeof v === 'boolean' ? !v : 'other';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return v === null ? 'null' : v === undefined ? 'undef' : typeof v === 'boolean' ? !v : 'other'; })(); S.observe('r', r); } },
{ name: "s067 return [v, v].filter((x) => x !== undefined && x !== null).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [v, v].filter((x) => x !== undefined && x !== null).length; })(); S.observe('r', r); } },
{ name: "s068 return Number(v) || 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Number(v) || 0; })(); S.observe('r', r); } },
{ name: "s069 return String(v ?? 'x');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return String(v ?? 'x'); })(); S.observe('r', r); } },
{ name: "s070 return `${v ?? ''}`;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return `${v ?? ''}`; })(); S.observe('r', r); } },
{ name: "s071 return v == undefined;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return v == undefined; })(); S.observe('r', r); } },
{ name: "s072 return v === v;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return v === v; })(); S.observe('r', r); } },
{ name: "s073 return !!v === Boolean(v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return !!v === Boolean(v); })(); S.observe('r', r); } },
{ name: "s074 return v ? 1 : 2;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return v ? 1 : 2; })(); S.observe('r', r); } },
{ name: "s075 return (v || { a: 1 }).a;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (v || { a: 1 }).a; })(); S.observe('r', r); } },
{ name: "s076 return (v && v.a) ?? 'none';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (v && v.a) ?? 'none'; })(); S.observe('r', r); } },
{ name: "s077 return { ...v };", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return { ...v }; })(); S.observe('r', r); } },
{ name: "s078 return Object.assign({ a: 0 }, v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.assign({ a: 0 }, v); })(); S.observe('r', r); } },
{ name: "s079 return Array.isArray(v) ? v.length : -1;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Array.isArray(v) ? v.length : -1; })(); S.observe('r', r); } },
{ name: "s080 return [].concat(v).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [].concat(v).length; })(); S.observe('r', r); } },
{ name: "s081 return v?.constructor?.name;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return v?.constructor?.name; })(); S.observe('r', r); } },
{ name: "s082 return typeof v?.toString;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return typeof v?.toString; })(); S.observe('r', r); } },
{ name: "s083 const d = new Map([[v, 1]]); return d.get(v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const d = new Map([[v, 1]]); return d.get(v); })(); S.observe('r', r); } },
{ name: "s084 return [v].includes(v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [v].includes(v); })(); S.observe('r', r); } },
{ name: "s085 return Object.is(v, v);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.is(v, v); })(); S.observe('r', r); } },
{ name: "s086 return [v, null, undefined].indexOf(null);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [v, null, undefined].indexOf(null); })(); S.observe('r', r); } },
{ name: "s087 return JSON.stringify([v]) === JSON.stringify([v]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return JSON.stringify([v]) === JSON.stringify([v]); })(); S.observe('r', r); } },
{ name: "s088 const c = { n: 0 }; const inc = () => ++c.n; inc(); inc(); return c.n + n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const c = { n: 0 }; const inc = () => ++c.n; inc(); inc(); return c.n + n; })(); S.observe('r', r); } },
{ name: "s089 let k = 0; const next = () => k++; return [next(), next(), n];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let k = 0; const next = () => k++; return [next(), next(), n]; })(); S.observe('r', r); } },
{ name: "s090 let x = n; const y = x++ + ++x - x-- - --x; return [x, y];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let x = n; const y = x++ + ++x - x-- - --x; return [x, y]; })(); S.observe('r', r); } },
{ name: "s091 const o2 = { k: n }; o2.k++; ++o2.k; o2.k **= 2; return o2.k;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const o2 = { k: n }; o2.k++; ++o2.k; o2.k **= 2; return o2.k; })(); S.observe('r', r); } },
{ name: "s092 const o2 = { k: null }; o2.k ??= s; o2.k &&= o2.k + '!'; o2.k ||= 1; return o2.k;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const o2 = { k: null }; o2.k ??= s; o2.k &&= o2.k + '!'; o2.k ||= 1; return o2.k; })(); S.observe('r', r); } },
{ name: "s093 const a2 = [n, 1]; [a2[0], a2[1]] = [a2[1], a2[0]]; return a2;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const a2 = [n, 1]; [a2[0], a2[1]] = [a2[1], a2[0]]; return a2; })(); S.observe('r', r); } },
{ name: "s094 let p = 1, q2 = s; [p, q2] = [q2, p]; return [p, q2];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let p = 1, q2 = s; [p, q2] = [q2, p]; return [p, q2]; })(); S.observe('r', r); } },
{ name: "s095 let z; ({ z } = { z: s }); return z;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let z; ({ z } = { z: s }); return z; })(); S.observe('r', r); } },
{ name: "s096 let z; ({ z, ...z } = { z: s, y: n }); return z;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let z; ({ z, ...z } = { z: s, y: n }); return z; })(); S.observe('r', r); } },
{ name: "s097 return (function f(k) { return k <= 0 ? [] : [k, ...f(k - 1)]; })(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (function f(k) { return k <= 0 ? [] : [k, ...f(k - 1)]; })(n); })(); S.observe('r', r); } },
{ name: "s098 const memo = {}; const f = (k) => memo[k] ?? (memo[k] = k + '!'); f(s); return f(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const memo = {}; const f = (k) => memo[k] ?? (memo[k] = k + '!'); f(s); return f(s); })(); S.observe('r', r); } },
{ name: "s099 return new Array(3).fill(null).map((_, i) => i + n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return new Array(3).fill(null).map((_, i) => i + n); })(); S.observe('r', r); } },
{ name: "s100 return Array.from({ length: 3 }, (_, i) => i * n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Array.from({ length: 3 }, (_, i) => i * n); })(); S.observe('r', r); } },
{ name: "s101 return [...Array(3).keys()].map((i) => i + n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...Array(3).keys()].map((i) => i + n); })(); S.observe('r', r); } },
{ name: "s102 return Object.keys(o).some((k) => k === s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.keys(o).some((k) => k === s); })(); S.observe('r', r); } },
{ name: "s103 return Object.keys(o).find((k) => k === s) !== undefined;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.keys(o).find((k) => k === s) !== undefined; })(); S.observe('r', r); } },
{ name: "s104 return Object.keys(o).includes(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.keys(o).includes(s); })(); S.observe('r', r); } },
{ name: "s105 return Object.entries(o).filter(([k]) => k !== s).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.entries(o).filter(([k]) => k !== s).length; })(); S.observe('r', r); } },
{ name: "s106 return Object.fromEntries(Object.entries(o).filter(([k]) => k !== s));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.fromEntries(Object.entries(o).filter(([k]) => k !== s)); })(); S.observe('r', r); } },
{ name: "s107 return new Set(Object.keys(o)).has(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return new Set(Object.keys(o)).has(s); })(); S.observe('r', r); } },
{ name: "s108 return s.length === 0 || s.charAt(0) === 'a';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.length === 0 || s.charAt(0) === 'a'; })(); S.observe('r', r); } },
{ name: "s109 return s.codePointAt(0) === 97;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.codePointAt(0) === 97; })(); S.observe('r', r); } },
{ name: "s110 return s.startsWith('a') && !s.endsWith('b');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.startsWith('a') && !s.endsWith('b'); })(); S.observe('r', r); } },
{ name: "s111 return s.slice(0, 1).toUpperCase() + s.slice(1);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.slice(0, 1).toUpperCase() + s.slice(1); })(); S.observe('r', r); } },
{ name: "s112 return s.trim().split(/\\s+/).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.trim().split(/\s+/).length; })(); S.observe('r', r); } },
{ name: "s113 return [s, 'b'].map((x) => x.toUpperCase()).join('');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [s, 'b'].map((x) => x.toUpperCase()).join(''); })(); S.observe('r', r); } },
{ name: "s114 return parseInt(s || '0', 10);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return parseInt(s || '0', 10); })(); S.observe('r', r); } },
{ name: "s115 return Number.isNaN(Number(s));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Number.isNaN(Number(s)); })(); S.observe('r', r); } },
{ name: "s116 return s === '' ? 0 : +s > 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s === '' ? 0 : +s > 0; })(); S.observe('r', r); } },
{ name: "s117 return `${s}`.concat('', n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return `${s}`.concat('', n); })(); S.observe('r', r); } },
{ name: "s118 return isNaN(+s) ? 'nan' : +s;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return isNaN(+s) ? 'nan' : +s; })(); S.observe('r', r); } },
{ name: "s119 return (+s).toString();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (+s).toString(); })(); S.observe('r', r); } },
{ name: "s120 return n.toString().padStart(3, '0');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return n.toString().padStart(3, '0'); })(); S.observe('r', r); } },
{ name: "s121 return (n + 10).toString().length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (n + 10).toString().length; })(); S.observe('r', r); } },
{ name: "s122 return n % 2 === 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return n % 2 === 0; })(); S.observe('r', r); } },
{ name: "s123 return Math.floor(n / 2) * 2 === n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Math.floor(n / 2) * 2 === n; })(); S.observe('r', r); } },
{ name: "s124 return n >= 0 ? n : -n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return n >= 0 ? n : -n; })(); S.observe('r', r); } },
{ name: "s125 return [n, 1, 5].sort((a, b2) => a - b2)[1];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [n, 1, 5].sort((a, b2) => a - b2)[1]; })(); S.observe('r', r); } },
{ name: "s126 return Math.max(...[n, 1, 5]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Math.max(...[n, 1, 5]); })(); S.observe('r', r); } },
{ name: "s127 return n > 0 && n < 3 ? 'mid' : n <= 0 ? 'lo' : 'hi';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return n > 0 && n < 3 ? 'mid' : n <= 0 ? 'lo' : 'hi'; })(); S.observe('r', r); } },
{ name: "s128 return b !== (n > 0);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return b !== (n > 0); })(); S.observe('r', r); } },
{ name: "s129 return +b + n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return +b + n; })(); S.observe('r', r); } },
{ name: "s130 return b ^ 1;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return b ^ 1; })(); S.observe('r', r); } },
{ name: "s131 return b && n > 1 || s === 'a';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return b && n > 1 || s === 'a'; })(); S.observe('r', r); } },
{ name: "s132 return b === true ? 1 : 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return b === true ? 1 : 0; })(); S.observe('r', r); } },
{ name: "s133 return [b, !b].filter((x) => x).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [b, !b].filter((x) => x).length; })(); S.observe('r', r); } },
{ name: "s134 return Reflect.ownKeys({ [s]: 1, z: 2 }).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Reflect.ownKeys({ [s]: 1, z: 2 }).length; })(); S.observe('r', r); } },
{ name: "s135 return Object.keys({ [s]: 1, ['a']: 2 }).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.keys({ [s]: 1, ['a']: 2 }).length; })(); S.observe('r', r); } },
{ name: "s136 const q = { a: 1, ...{ [s]: 2 } }; return q.a;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = { a: 1, ...{ [s]: 2 } }; return q.a; })(); S.observe('r', r); } },
{ name: "s137 const x = { ...o, a: s }; delete x.b; return x;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const x = { ...o, a: s }; delete x.b; return x; })(); S.observe('r', r); } },
{ name: "s138 const { length } = s; return length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const { length } = s; return length; })(); S.observe('r', r); } },
{ name: "s139 const [h, ...tl] = s; return [h, tl];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const [h, ...tl] = s; return [h, tl]; })(); S.observe('r', r); } },
{ name: "s140 const [h = 'none'] = [...s]; return h;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const [h = 'none'] = [...s]; return h; })(); S.observe('r', r); } },
{ name: "s141 return ((h, ...tl) => [h, tl])(...s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return ((h, ...tl) => [h, tl])(...s); })(); S.observe('r', r); } },
{ name: "s142 return [...s].map((c, i) => c + i).join('|');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...s].map((c, i) => c + i).join('|'); })(); S.observe('r', r); } },
{ name: "s143 return [...s].reverse().join('') === s;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...s].reverse().join('') === s; })(); S.observe('r', r); } },
{ name: "s144 return s === [...s].sort().join('');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s === [...s].sort().join(''); })(); S.observe('r', r); } },
{ name: "s145 return Array.prototype.map.call(s, (c) => c + c).join('');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Array.prototype.map.call(s, (c) => c + c).join(''); })(); S.observe('r', r); } },
{ name: "s146 return Array.prototype.filter.call(s, (c) => c === 'a').length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Array.prototype.filter.call(s, (c) => c === 'a').length; })(); S.observe('r', r); } },
{ name: "s147 return [].slice.call(s, 1);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [].slice.call(s, 1); })(); S.observe('r', r); } },
{ name: "s148 let out = ''; for (const i in s) out += i + s[i]; return out;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let out = ''; for (const i in s) out += i + s[i]; return out; })(); S.observe('r', r); } },
{ name: "s149 let out = ''; for (let i = s.length; i--; ) out += s[i]; return out;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { let out = ''; for (let i = s.length; i--; ) out += s[i]; return out; })(); S.observe('r', r); } },
{ name: "s150 return s.split('a').length - 1;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.split('a').length - 1; })(); S.observe('r', r); } },
{ name: "s151 return (s.match(/a/g) || []).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (s.match(/a/g) || []).length; })(); S.observe('r', r); } },
{ name: "s152 return s.indexOf('a') === s.lastIndexOf('a');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.indexOf('a') === s.lastIndexOf('a'); })(); S.observe('r', r); } },
{ name: "s153 return s.search(/[b1]/);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.search(/[b1]/); })(); S.observe('r', r); } },
{ name: "s154 return s.includes('a') !== s.includes('b');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.includes('a') !== s.includes('b'); })(); S.observe('r', r); } },
{ name: "s155 return s < 'b' ? -1 : s > 'b' ? 1 : 0;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s < 'b' ? -1 : s > 'b' ? 1 : 0; })(); S.observe('r', r); } },
{ name: "s156 return typeof s + typeof n + typeof b;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return typeof s + typeof n + typeof b; })(); S.observe('r', r); } },
{ name: "s157 return s.at(-1) ?? 'none';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.at(-1) ?? 'none'; })(); S.observe('r', r); } },
{ name: "s158 return s[s.length - 1];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s[s.length - 1]; })(); S.observe('r', r); } },
{ name: "s159 return s.substring(1).length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s.substring(1).length; })(); S.observe('r', r); } },
{ name: "s160 return s['length'];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return s['length']; })(); S.observe('r', r); } },
{ name: "s161 const k = b ? 'length' : 'x'; return s[k];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const k = b ? 'length' : 'x'; return s[k]; })(); S.observe('r', r); } },
{ name: "s162 const k = b ? 'a' : 'b'; return o[k];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const k = b ? 'a' : 'b'; return o[k]; })(); S.observe('r', r); } },
{ name: "s163 const k = b ? 'slice' : 'concat'; return s[k](1);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const k = b ? 'slice' : 'concat'; return s[k](1); })(); S.observe('r', r); } },
{ name: "s164 const fns = [() => s, () => n]; return fns[b ? 0 : 1]();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const fns = [() => s, () => n]; return fns[b ? 0 : 1](); })(); S.observe('r', r); } },
{ name: "s165 return (b ? Math.max : Math.min)(n, 2);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (b ? Math.max : Math.min)(n, 2); })(); S.observe('r', r); } },
{ name: "s166 const f = b ? (x) => x + 1 : (x) => x - 1; return f(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const f = b ? (x) => x + 1 : (x) => x - 1; return f(n); })(); S.observe('r', r); } },
{ name: "s167 return [1, 2, 3].indexOf(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [1, 2, 3].indexOf(n); })(); S.observe('r', r); } },
{ name: "s168 return [1, 2, 3].includes(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [1, 2, 3].includes(n); })(); S.observe('r', r); } },
{ name: "s169 return new Set([1, 2, 3]).has(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return new Set([1, 2, 3]).has(n); })(); S.observe('r', r); } },
{ name: "s170 return { 1: 'a', 2: 'b' }[n];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return { 1: 'a', 2: 'b' }[n]; })(); S.observe('r', r); } },
{ name: "s171 return n in [1, 2];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return n in [1, 2]; })(); S.observe('r', r); } },
{ name: "s172 return [4, 5, 6][n + 1];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [4, 5, 6][n + 1]; })(); S.observe('r', r); } },
{ name: "s173 return 'abc'.at(n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return 'abc'.at(n); })(); S.observe('r', r); } },
{ name: "s174 const q = [1, 2]; q.splice(n < 0 ? 0 : n, 1); return q;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const q = [1, 2]; q.splice(n < 0 ? 0 : n, 1); return q; })(); S.observe('r', r); } },
{ name: "s175 return [1, 2, 3].slice(0, n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [1, 2, 3].slice(0, n); })(); S.observe('r', r); } },
{ name: "s176 return 'x'.repeat(Math.max(0, n));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return 'x'.repeat(Math.max(0, n)); })(); S.observe('r', r); } },
{ name: "s177 return [].concat([n], [[s]]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [].concat([n], [[s]]); })(); S.observe('r', r); } },
{ name: "s178 return Object.values({ a: n, b: s }).map((x) => typeof x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.values({ a: n, b: s }).map((x) => typeof x); })(); S.observe('r', r); } },
{ name: "s179 return Symbol.for('x') === Symbol.for('x') && n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Symbol.for('x') === Symbol.for('x') && n; })(); S.observe('r', r); } },
{ name: "s180 return new Date(0).toISOString() + s;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return new Date(0).toISOString() + s; })(); S.observe('r', r); } },
{ name: "s181 return encodeURIComponent(s) + decodeURIComponent('%41');", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return encodeURIComponent(s) + decodeURIComponent('%41'); })(); S.observe('r', r); } },
{ name: "s182 return Object.getOwnPropertyNames(o).concat(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.getOwnPropertyNames(o).concat(s); })(); S.observe('r', r); } },
{ name: "s183 return Object.entries(Object.getOwnPropertyDescriptors(o)).map(([k, d]) => k + d.value);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.entries(Object.getOwnPropertyDescriptors(o)).map(([k, d]) => k + d.value); })(); S.observe('r', r); } },
{ name: "s184 return arr.keys().next().value + n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.keys().next().value + n; })(); S.observe('r', r); } },
{ name: "s185 return [...arr.entries()].map(([i, x]) => i + x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...arr.entries()].map(([i, x]) => i + x); })(); S.observe('r', r); } },
{ name: "s186 return Array.from(arr.entries(), ([i, x]) => i + x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Array.from(arr.entries(), ([i, x]) => i + x); })(); S.observe('r', r); } },
{ name: "s187 const it = arr[Symbol.iterator](); it.next(); return it.next();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const it = arr[Symbol.iterator](); it.next(); return it.next(); })(); S.observe('r', r); } },
{ name: "s188 const it = { *[Symbol.iterator]() { yield s; yield n; } }; return [...it];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const it = { *[Symbol.iterator]() { yield s; yield n; } }; return [...it]; })(); S.observe('r', r); } },
{ name: "s189 const it = { [Symbol.iterator]() { let i = 0; return { next: () => ({ done: i++ > 1, value: s }) }; } }; return Array.from(it);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const it = { [Symbol.iterator]() { let i = 0; return { next: () => ({ done: i++ > 1, value: s }) }; } }; return Array.from(it); })(); S.observe('r', r); } },
{ name: "s190 return Object.fromEntries(arr.map((x, i) => [i, x]));", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.fromEntries(arr.map((x, i) => [i, x])); })(); S.observe('r', r); } },
{ name: "s191 return arr.reduce((p, x, i) => ({ ...p, ['k' + i]: x }), {});", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.reduce((p, x, i) => ({ ...p, ['k' + i]: x }), {}); })(); S.observe('r', r); } },
{ name: "s192 return arr.reduceRight((p, x) => p.concat(x), []);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.reduceRight((p, x) => p.concat(x), []); })(); S.observe('r', r); } },
{ name: "s193 return [arr, [s]].flatMap((x) => x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [arr, [s]].flatMap((x) => x); })(); S.observe('r', r); } },
{ name: "s194 return [[['a']], [[s]]].flat(Infinity);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [[['a']], [[s]]].flat(Infinity); })(); S.observe('r', r); } },
{ name: "s195 return arr.map(encodeURIComponent);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.map(encodeURIComponent); })(); S.observe('r', r); } },
{ name: "s196 return arr.map((x) => [x]).map(([x]) => x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.map((x) => [x]).map(([x]) => x); })(); S.observe('r', r); } },
{ name: "s197 return arr.forEach.call(arr, () => 1) === undefined;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.forEach.call(arr, () => 1) === undefined; })(); S.observe('r', r); } },
{ name: "s198 return arr.some(Boolean) && arr.every(String);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.some(Boolean) && arr.every(String); })(); S.observe('r', r); } },
{ name: "s199 return arr.concat().fill(s, 1);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.concat().fill(s, 1); })(); S.observe('r', r); } },
{ name: "s200 return arr.join(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.join(s); })(); S.observe('r', r); } },
{ name: "s201 return arr.indexOf(s, 1);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return arr.indexOf(s, 1); })(); S.observe('r', r); } },
{ name: "s202 return [...arr, ...arr].lastIndexOf(s);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [...arr, ...arr].lastIndexOf(s); })(); S.observe('r', r); } },
{ name: "s203 return [undefined, s].findIndex((x) => x === undefined);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [undefined, s].findIndex((x) => x === undefined); })(); S.observe('r', r); } },
{ name: "s204 return [s, , 'b'].length;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [s, , 'b'].length; })(); S.observe('r', r); } },
{ name: "s205 return [3, 2, 1].sort()[0] + n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [3, 2, 1].sort()[0] + n; })(); S.observe('r', r); } },
{ name: "s206 return ['b', s].sort().reverse();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return ['b', s].sort().reverse(); })(); S.observe('r', r); } },
{ name: "s207 'use strict'; return (function () { return this === undefined; })() && n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { 'use strict'; return (function () { return this === undefined; })() && n; })(); S.observe('r', r); } },
{ name: "s208 const bound = function (x) { return this.y + x; }.bind({ y: s }, n); return bound();", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { const bound = function (x) { return this.y + x; }.bind({ y: s }, n); return bound(); })(); S.observe('r', r); } },
{ name: "s209 return (function () { return [].slice.call(arguments, 1); })(1, s, n);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (function () { return [].slice.call(arguments, 1); })(1, s, n); })(); S.observe('r', r); } },
{ name: "s210 return Reflect.apply(Math.max, null, [n, 1]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Reflect.apply(Math.max, null, [n, 1]); })(); S.observe('r', r); } },
{ name: "s211 return Object.entries(o).every(([k, x]) => o[k] === x);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return Object.entries(o).every(([k, x]) => o[k] === x); })(); S.observe('r', r); } },
{ name: "s212 return [s].concat(n).concat([b]);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [s].concat(n).concat([b]); })(); S.observe('r', r); } },
{ name: "s213 return new (class { constructor() { this.v = s; } toString() { return this.v; } })() + '';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return new (class { constructor() { this.v = s; } toString() { return this.v; } })() + ''; })(); S.observe('r', r); } },
{ name: "s214 return { valueOf: () => n } + 1;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return { valueOf: () => n } + 1; })(); S.observe('r', r); } },
{ name: "s215 return `${{ toString: () => s }}`;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return `${{ toString: () => s }}`; })(); S.observe('r', r); } },
{ name: "s216 return [s] + '';", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [s] + ''; })(); S.observe('r', r); } },
{ name: "s217 return [n] == n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return [n] == n; })(); S.observe('r', r); } },
{ name: "s218 return null ?? s;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return null ?? s; })(); S.observe('r', r); } },
{ name: "s219 return (void 0)?.x ?? n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return (void 0)?.x ?? n; })(); S.observe('r', r); } },
{ name: "s220 return o?.['a'] + o?.[s];", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return o?.['a'] + o?.[s]; })(); S.observe('r', r); } },
{ name: "s221 return delete o.a && Object.keys(o);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return delete o.a && Object.keys(o); })(); S.observe('r', r); } },
{ name: "s222 return 'a' in o && !(s in o);", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return 'a' in o && !(s in o); })(); S.observe('r', r); } },
{ name: "s223 return typeof undefinedVariable === 'undefined' && n;", bounds: 'x', labels: ['l'], async run(S) { const s = S.str('s', { max: 2, alphabet: 'ab' }); const n = S.int('n', -2, 4); const b = S.bool('b'); const v = S.any('v', { depth: 1, keys: ['a'] }); const arr = ['a', s, 'ba']; const o = { a: '1', b: '2' }; S.check('l', true); const r = await (async () => { return typeof undefinedVariable === 'undefined' && n; })(); S.observe('r', r); } },
] };
