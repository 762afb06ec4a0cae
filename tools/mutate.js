'use strict';
// Development tool: node tools/mutate.js list FILE... > mutants.json ; lists source mutants of the repository's files.
const fs = require('fs');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const REPO = '/repo/';
function mutants(file) {
  const text = fs.readFileSync(REPO + file, 'utf8');
  const sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2020, true);
  const out = [];
  const line = (n) => sf.getLineAndCharacterOfPosition(n.getStart()).line + 1;
  const add = (n, rep, what) => out.push({ file, start: n.getStart(), end: n.getEnd(), rep, what, line: line(n), old: n.getText().slice(0, 80) });
  const SWAP = { '===': '!==', '!==': '===', '&&': '||', '||': '&&', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '+': '-', '-': '+' };
  const inErr = (n) => { for (let p = n.parent; p; p = p.parent) { if (ts.isThrowStatement(p)) return true; if (ts.isCallExpression(p) && /errorLeft|logWarn|logError|console|new Error|Error\(/.test(p.expression.getText())) return true; if (ts.isStatement(p)) return false; } return false; };
  (function walk(n) {
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n)) return;
    if (ts.isBinaryExpression(n)) {
      const op = n.operatorToken.getText();
      if (SWAP[op]) add(n.operatorToken, SWAP[op], op + '→' + SWAP[op]);
      if (op === '&&' || op === '||' || op === '??') { add(n, n.left.getText(), 'keep left of ' + op); add(n, n.right.getText(), 'keep right of ' + op); }
    }
    if (ts.isConditionalExpression(n)) { add(n, '(' + n.whenTrue.getText() + ')', 'always then'); add(n, '(' + n.whenFalse.getText() + ')', 'always else'); }
    if (ts.isIfStatement(n)) { if (!n.elseStatement) add(n.expression, 'false as boolean', 'if never'); add(n.expression, 'true as boolean', 'if always'); }
    if (ts.isPrefixUnaryExpression(n) && n.operator === ts.SyntaxKind.ExclamationToken) add(n, n.operand.getText(), 'drop !');
    if (ts.isExpressionStatement(n) && !/console|logWarn|logInfo|logError/.test(n.getText())) add(n, ';', 'drop statement');
    if (ts.isBreakStatement(n) && ts.isBlock(n.parent)) add(n, ';', 'drop break');
    if (ts.isContinueStatement(n)) add(n, ';', 'drop continue');
    if (n.kind === ts.SyntaxKind.TrueKeyword && ts.isExpression(n)) add(n, 'false', 'true→false');
    if (n.kind === ts.SyntaxKind.FalseKeyword && ts.isExpression(n)) add(n, 'true', 'false→true');
    if (ts.isNumericLiteral(n) && !inErr(n)) add(n, n.text === '0' ? '1' : n.text === '1' ? '0' : String(Number(n.text) + 1), 'number');
    if (ts.isStringLiteral(n) && !inErr(n) && !ts.isCaseClause(n.parent) && n.text.length < 30) add(n, n.text === '' ? "'x'" : "''", 'string');
    if ((ts.isArrayLiteralExpression(n) || ts.isObjectLiteralExpression(n))) {
      const es = n.elements || n.properties;
      es.forEach((e, i) => { const s = e.getStart(), en = i + 1 < es.length ? es[i + 1].getStart() : e.getEnd(); out.push({ file, start: s, end: en, rep: '', what: 'drop element', line: line(e), old: e.getText().slice(0, 80) }); });
    }
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && !inErr(n)) {
      const m = n.expression.name.text;
      if (['filter', 'map', 'trim', 'sort', 'slice', 'concat', 'reverse', 'toLowerCase', 'toUpperCase', 'bind'].includes(m)) add(n, n.expression.expression.getText(), 'drop .' + m);
      if (m === 'every') add(n.expression.name, 'some', 'every→some');
      if (m === 'some') add(n.expression.name, 'every', 'some→every');
      if (m === 'push') add(n.expression.name, 'unshift', 'push→unshift');
      if (m === 'includes') add(n, '!' + n.getText(), 'negate includes');
    }
    if (ts.isCallExpression(n) && n.arguments.length === 1 && ts.isIdentifier(n.expression) && !inErr(n) && !/require|errorLeft/.test(n.expression.text)) add(n, '(' + n.arguments[0].getText() + ')', 'drop call ' + n.expression.text);
    ts.forEachChild(n, walk);
  })(sf);
  return out;
}
console.log(JSON.stringify(process.argv.slice(3).flatMap(mutants)));
