'use strict';
// Compiler front end of the symbolic executor: TypeScript/JavaScript source -> ES5 (by the TypeScript compiler) ->
// the same program with every observable operation (property access, call, operator, branch) routed through __S,
// the runtime of rt.js, which gives those operations their meaning on symbolic values.
const fs = require('fs');
const TS_PATHS = ['/opt/veriftools/node/node_modules/typescript', '/repo/node_modules/typescript'];
let ts, K;
function need() {
  if (ts) return;
  ts = require(TS_PATHS.find((p) => fs.existsSync(p)));
  K = ts.SyntaxKind;
}

const HELPERS = [
  '__extends', '__assign', '__rest', '__values', '__read', '__spreadArray', '__spread', '__awaiter', '__generator',
  '__classPrivateFieldGet', '__classPrivateFieldSet', '__classPrivateFieldIn', '__await', '__asyncValues', '__asyncGenerator', 
  '__makeTemplateObject', '__importDefault', '__importStar', '__exportStar', '__createBinding', '__setModuleDefault',
];
const RAW_CALLS = new Set([...HELPERS, 'require']);

function lower(text, fileName, nativeTarget) {
  need();
  const r = ts.transpileModule(text, {
    fileName,
    reportDiagnostics: false,
    compilerOptions: {
      target: nativeTarget ? ts.ScriptTarget.ES2019 : ts.ScriptTarget.ES5,
      module: ts.ModuleKind.CommonJS,
      downlevelIteration: true,
      esModuleInterop: true,
      allowJs: true,
      noEmitHelpers: !nativeTarget,
      removeComments: true,
      ignoreDeprecations: '5.0',
      useDefineForClassFields: false,
      isolatedModules: false,
    },
  });
  return r.outputText;
}

// instrumented text of a module body; onFunction(name, line) -> id for entry coverage, or undefined
function instrument(text, fileName, opts) {
  need();
  opts = opts || {};
  const es5 = lower(text, fileName, false);
  const sf = ts.createSourceFile(fileName + '.es5.js', es5, ts.ScriptTarget.ES2020, true, ts.ScriptKind.JS);
  let fn = null; // current function frame {n}
  const tmp = () => `__t${fn.n++}`;

  function withFrame(f) {
    const saved = fn;
    fn = { n: 0 };
    const body = f();
    let decl = '';
    if (fn.n > 0) {
      const names = [];
      for (let i = 0; i < fn.n; i++) names.push(`__t${i}`);
      decl = `var ${names.join(',')};`;
    }
    fn = saved;
    return decl + body;
  }
  const str = (s) => JSON.stringify(s);
  function unparen(n) {
    while (n.kind === K.ParenthesizedExpression || n.kind === K.PartiallyEmittedExpression) n = n.expression;
    return n;
  }
  const list = (ns) => ns.map((n) => ex(n)).join(', ');

  function keyOf(n) {
    return n.kind === K.PropertyAccessExpression ? str(n.name.text) : ex(n.argumentExpression);
  }
  const isMember = (n) => n.kind === K.PropertyAccessExpression || n.kind === K.ElementAccessExpression;

  // expression in a boolean position: yields a native boolean
  function test(n) {
    const u = unparen(n);
    if (u.kind === K.PrefixUnaryExpression && u.operator === K.ExclamationToken) return `!${test(u.operand)}`;
    if (u.kind === K.BinaryExpression) {
      if (u.operatorToken.kind === K.AmpersandAmpersandToken) return `(${test(u.left)} && ${test(u.right)})`;
      if (u.operatorToken.kind === K.BarBarToken) return `(${test(u.left)} || ${test(u.right)})`;
    }
    if (u.kind === K.TrueKeyword) return 'true';
    if (u.kind === K.FalseKeyword) return 'false';
    return `__S.t(${ex(u)})`;
  }

  const BIN = {
    [K.EqualsEqualsEqualsToken]: 'seq', [K.ExclamationEqualsEqualsToken]: 'sne',
    [K.EqualsEqualsToken]: 'leq', [K.ExclamationEqualsToken]: 'lne',
    [K.LessThanToken]: 'lt', [K.LessThanEqualsToken]: 'le', [K.GreaterThanToken]: 'gt', [K.GreaterThanEqualsToken]: 'ge',
    [K.PlusToken]: 'add', [K.InKeyword]: 'in_', [K.InstanceOfKeyword]: 'iof',
  };
  const ARITH = {
    [K.MinusToken]: '-', [K.AsteriskToken]: '*', [K.SlashToken]: '/', [K.PercentToken]: '%',
    [K.AsteriskAsteriskToken]: '**', [K.AmpersandToken]: '&', [K.BarToken]: '|', [K.CaretToken]: '^',
    [K.LessThanLessThanToken]: '<<', [K.GreaterThanGreaterThanToken]: '>>',
    [K.GreaterThanGreaterThanGreaterThanToken]: '>>>',
  };
  const COMPOUND = {
    [K.PlusEqualsToken]: K.PlusToken, [K.MinusEqualsToken]: K.MinusToken, [K.AsteriskEqualsToken]: K.AsteriskToken,
    [K.SlashEqualsToken]: K.SlashToken, [K.PercentEqualsToken]: K.PercentToken, [K.AmpersandEqualsToken]: K.AmpersandToken,
    [K.BarEqualsToken]: K.BarToken, [K.CaretEqualsToken]: K.CaretToken, [K.LessThanLessThanEqualsToken]: K.LessThanLessThanToken,
    [K.GreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanToken,
    [K.GreaterThanGreaterThanGreaterThanEqualsToken]: K.GreaterThanGreaterThanGreaterThanToken,
    [K.AsteriskAsteriskEqualsToken]: K.AsteriskAsteriskToken,
  };
  function binop(kind, a, b) {
    if (BIN[kind]) return `__S.${BIN[kind]}(${a}, ${b})`;
    if (ARITH[kind]) return `__S.ar(${str(ARITH[kind])}, ${a}, ${b})`;
    throw new Error('operator ' + K[kind] + ' in ' + fileName);
  }

  function fnParts(n, name) {
    const params = n.parameters.map((p) => p.name.text).join(', ');
    const body = withFrame(() => {
      let s = '';
      if (opts.onFunction) {
        const nm = name || (n.name && n.name.text) || nameFromContext(n);
        const id = opts.onFunction(nm);
        if (id !== undefined) s += `__S.f(${id});`;
      }
      return s + n.body.statements.map(st).join('\n');
    });
    let directives = '';
    for (const s of n.body.statements) {
      if (s.kind === K.ExpressionStatement && s.expression.kind === K.StringLiteral) directives += ex(s.expression) + ';';
      else break;
    }
    return `(${params}) {${directives}${body}}`;
  }
  function nameFromContext(n) {
    const p = n.parent;
    if (!p) return '';
    if (p.kind === K.VariableDeclaration && p.name.text) return p.name.text;
    if (p.kind === K.PropertyAssignment) return p.name.text || '';
    if (p.kind === K.BinaryExpression && p.operatorToken.kind === K.EqualsToken) {
      const l = p.left;
      if (l.kind === K.PropertyAccessExpression) return l.name.text;
      if (l.kind === K.Identifier) return l.text;
    }
    return '';
  }
  const propName = (n) => {
    if (n.kind === K.Identifier) return n.text;
    if (n.kind === K.StringLiteral || n.kind === K.NumericLiteral) return n.getText(sf);
    throw new Error('property name ' + K[n.kind]);
  };

  function ex(n) {
    switch (n.kind) {
      case K.Identifier:
        return n.text;
      case K.NumericLiteral: case K.StringLiteral: case K.RegularExpressionLiteral: case K.BigIntLiteral:
      case K.NoSubstitutionTemplateLiteral:
        return n.getText(sf);
      case K.NullKeyword: return 'null';
      case K.TrueKeyword: return 'true';
      case K.FalseKeyword: return 'false';
      case K.ThisKeyword: return 'this';
      case K.OmittedExpression: return '';
      case K.ParenthesizedExpression: {
        const u = unparen(n);
        return `(${ex(u)})`;
      }
      case K.PropertyAccessExpression:
      case K.ElementAccessExpression:
        return `__S.g(${ex(n.expression)}, ${keyOf(n)})`;
      case K.CallExpression: {
        const c = unparen(n.expression);
        if (c.kind === K.Identifier && RAW_CALLS.has(c.text)) return `${c.text === 'require' ? c.text : '__S.H.' + c.text}(${list(n.arguments)})`;
        if (isMember(c)) return `__S.inv(${ex(c.expression)}, ${keyOf(c)}, [${list(n.arguments)}])`;
        return `__S.call(${ex(c)}, [${list(n.arguments)}])`;
      }
      case K.NewExpression:
        return `__S.new_(${ex(n.expression)}, [${list(n.arguments || [])}])`;
      case K.FunctionExpression:
        return `(function ${n.name ? n.name.text : ''}${fnParts(n)})`;
      case K.ArrayLiteralExpression: {
        let s = '[' + n.elements.map((e) => ex(e)).join(', ');
        if (n.elements.length && n.elements[n.elements.length - 1].kind === K.OmittedExpression) s += ',';
        return s + ']';
      }
      case K.ObjectLiteralExpression:
        return (
          '({' +
          n.properties
            .map((p) => {
              switch (p.kind) {
                case K.PropertyAssignment:
                  // keep __proto__: as a real property only when TypeScript meant it so (it never emits that form)
                  return `${propName(p.name)}: ${ex(p.initializer)}`;
                case K.ShorthandPropertyAssignment:
                  return `${p.name.text}: ${p.name.text}`;
                case K.GetAccessor:
                  return `get ${propName(p.name)}${fnParts(p, propName(p.name))}`;
                case K.SetAccessor:
                  return `set ${propName(p.name)}${fnParts(p, propName(p.name))}`;
                case K.MethodDeclaration:
                  return `${propName(p.name)}: function ${fnParts(p, propName(p.name))}`;
                default:
                  throw new Error('object member ' + K[p.kind]);
              }
            })
            .join(', ') +
          '})'
        );
      case K.VoidExpression:
        return n.expression.kind === K.NumericLiteral ? 'void 0' : `void (${ex(n.expression)})`;
      case K.TypeOfExpression: {
        const u = unparen(n.expression);
        if (u.kind === K.Identifier) return `(typeof ${u.text} === "undefined" ? "undefined" : __S.typeof_(${u.text}))`;
        return `__S.typeof_(${ex(u)})`;
      }
      case K.DeleteExpression: {
        const u = unparen(n.expression);
        return `__S.del(${ex(u.expression)}, ${keyOf(u)})`;
      }
      case K.PrefixUnaryExpression: {
        if (n.operator === K.ExclamationToken) return `__S.not(${ex(n.operand)})`;
        if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) {
          const d = n.operator === K.PlusPlusToken ? 1 : -1;
          const u = unparen(n.operand);
          if (u.kind === K.Identifier) return `(${u.text} = __S.inc(${u.text}, ${d}))`;
          return `__S.preInc(${ex(u.expression)}, ${keyOf(u)}, ${d})`;
        }
        const op = { [K.MinusToken]: '-', [K.PlusToken]: '+', [K.TildeToken]: '~' }[n.operator];
        if (unparen(n.operand).kind === K.NumericLiteral) return `${op}${ex(n.operand)}`;
        return `__S.un(${str(op)}, ${ex(n.operand)})`;
      }
      case K.PostfixUnaryExpression: {
        const d = n.operator === K.PlusPlusToken ? 1 : -1;
        const u = unparen(n.operand);
        if (u.kind === K.Identifier) {
          const t = tmp();
          return `(${t} = __S.num(${u.text}), ${u.text} = __S.inc(${t}, ${d}), ${t})`;
        }
        return `__S.postInc(${ex(u.expression)}, ${keyOf(u)}, ${d})`;
      }
      case K.ConditionalExpression:
        return `(${test(n.condition)} ? ${ex(n.whenTrue)} : ${ex(n.whenFalse)})`;
      case K.BinaryExpression:
        return binary(n);
      case K.CommaListExpression:
        return '(' + n.elements.map(ex).join(', ') + ')';
      case K.SpreadElement:
        return '...' + ex(n.expression);
      default:
        throw new Error(`expression ${K[n.kind]} in ${fileName}`);
    }
  }

  function commaParts(n, out) {
    if (n.kind === K.BinaryExpression && n.operatorToken.kind === K.CommaToken) {
      commaParts(n.left, out);
      out.push(n.right);
    } else out.push(n);
    return out;
  }

  function binary(n) {
    const k = n.operatorToken.kind;
    if (k === K.CommaToken) {
      const parts = commaParts(n, []);
      // ( _a = {..}, _a[k] = v, ..., _a ): lowered computed keys define own properties
      const first = parts[0];
      if (
        first.kind === K.BinaryExpression && first.operatorToken.kind === K.EqualsToken &&
        first.left.kind === K.Identifier && first.right.kind === K.ObjectLiteralExpression &&
        /^_[a-z]+(_\d+)?$/.test(first.left.text) &&
        parts[parts.length - 1].kind === K.Identifier && parts[parts.length - 1].text === first.left.text
      ) {
        const name = first.left.text;
        return '(' + parts.map((p) => {
          if (p !== first && p.kind === K.BinaryExpression && p.operatorToken.kind === K.EqualsToken && isMember(p.left) &&
              p.left.expression.kind === K.Identifier && p.left.expression.text === name)
            return `__S.def(${name}, ${keyOf(p.left)}, ${ex(p.right)})`;
          return ex(p);
        }).join(', ') + ')';
      }
      return '(' + parts.map(ex).join(', ') + ')';
    }
    if (k === K.AmpersandAmpersandToken) {
      const t = tmp();
      return `(__S.t(${t} = ${ex(n.left)}) ? ${ex(n.right)} : ${t})`;
    }
    if (k === K.BarBarToken) {
      const t = tmp();
      return `(__S.t(${t} = ${ex(n.left)}) ? ${t} : ${ex(n.right)})`;
    }
    if (k === K.EqualsToken) {
      const l = unparen(n.left);
      if (l.kind === K.Identifier) return `(${l.text} = ${ex(n.right)})`;
      if (isMember(l)) return `__S.s(${ex(l.expression)}, ${keyOf(l)}, ${ex(n.right)})`;
      throw new Error('assignment target ' + K[l.kind]);
    }
    if (COMPOUND[k] !== undefined) {
      const l = unparen(n.left);
      if (l.kind === K.Identifier) return `(${l.text} = ${binop(COMPOUND[k], l.text, ex(n.right))})`;
      const o = tmp(), key = tmp();
      return `(${o} = ${ex(l.expression)}, ${key} = ${keyOf(l)}, __S.s(${o}, ${key}, ${binop(COMPOUND[k], `__S.g(${o}, ${key})`, ex(n.right))}))`;
    }
    return binop(k, ex(n.left), ex(n.right));
  }

  const block = (n) => (n.kind === K.Block ? st(n) : `{${st(n)}}`);
  const varList = (dl) =>
    'var ' + dl.declarations.map((d) => d.name.text + (d.initializer ? ' = ' + ex(d.initializer) : '')).join(', ');

  function st(n) {
    switch (n.kind) {
      case K.ExpressionStatement:
        if (n.expression.kind === K.StringLiteral) return ex(n.expression) + ';';
        return ex(n.expression).replace(/^\(?\(function/, (m) => ';' + m) + ';';
      case K.VariableStatement:
        return varList(n.declarationList) + ';';
      case K.FunctionDeclaration:
        return `function ${n.name.text}${fnParts(n)}`;
      case K.ReturnStatement:
        return n.expression ? `return ${ex(n.expression)};` : 'return;';
      case K.IfStatement:
        return `if (${test(n.expression)}) ${block(n.thenStatement)}${n.elseStatement ? ' else ' + block(n.elseStatement) : ''}`;
      case K.Block:
        return '{' + n.statements.map(st).join('\n') + '}';
      case K.WhileStatement:
        return `while (__S.loop() && ${test(n.expression)}) ${block(n.statement)}`;
      case K.DoStatement:
        return `do ${block(n.statement)} while (__S.loop() && ${test(n.expression)});`;
      case K.ForStatement: {
        const init = !n.initializer ? '' : n.initializer.kind === K.VariableDeclarationList ? varList(n.initializer) : ex(n.initializer);
        return `for (${init}; __S.loop() && ${n.condition ? test(n.condition) : 'true'}; ${n.incrementor ? ex(n.incrementor) : ''}) ${block(n.statement)}`;
      }
      case K.ForInStatement: {
        const l = tmp(), i = tmp();
        const target = n.initializer.kind === K.VariableDeclarationList ? n.initializer.declarations[0].name : unparen(n.initializer);
        const decl = n.initializer.kind === K.VariableDeclarationList ? `var ${target.text};` : '';
        const assign = target.kind === K.Identifier
          ? `${target.text} = ${l}[${i}]`
          : `__S.s(${ex(target.expression)}, ${keyOf(target)}, ${l}[${i}])`;
        // temps of nested loops are distinct; recursion is per function frame; the saved list survives the body
        return `${decl}for (${l} = __S.keysIn(${ex(n.expression)}), ${i} = 0; ${i} < ${l}.length; ${i}++) { if (!__S.stillIn(${l}, ${i})) continue; ${assign}; ${st(n.statement)} }`;
      }
      case K.SwitchStatement: {
        const t = tmp();
        return `${t} = ${ex(n.expression)}; switch (true) {` +
          n.caseBlock.clauses.map((c) =>
            (c.kind === K.CaseClause ? `case __S.t(__S.seq(${t}, ${ex(c.expression)})):` : 'default:') + c.statements.map(st).join('\n')
          ).join('\n') + '}';
      }
      case K.BreakStatement:
        return n.label ? `break ${n.label.text};` : 'break;';
      case K.ContinueStatement:
        return n.label ? `continue ${n.label.text};` : 'continue;';
      case K.LabeledStatement: {
        // keep the label directly on the loop
        const inner = st(n.statement);
        if (n.statement.kind === K.SwitchStatement || n.statement.kind === K.ForInStatement) {
          const m = /^((?:var \w+;)?(?:__t\d+ = [\s\S]*?; )?)((?:for|switch) \([\s\S]*)$/.exec(inner);
          return `${m[1]}${n.label.text}: ${m[2]}`;
        }
        return `${n.label.text}: ${inner}`;
      }
      case K.ThrowStatement:
        return `throw ${ex(n.expression)};`;
      case K.TryStatement: {
        let s = 'try ' + st(n.tryBlock);
        if (n.catchClause) {
          const v = n.catchClause.variableDeclaration ? n.catchClause.variableDeclaration.name.text : '__e';
          s += ` catch (${v}) { __S.c(${v}); ${n.catchClause.block.statements.map(st).join('\n')} }`;
        }
        if (n.finallyBlock) s += ' finally ' + st(n.finallyBlock);
        return s;
      }
      case K.EmptyStatement:
        return ';';
      case K.DebuggerStatement:
      case K.NotEmittedStatement:
        return '';
      default:
        throw new Error(`statement ${K[n.kind]} in ${fileName}`);
    }
  }

  const body = withFrame(() => sf.statements.map(st).join('\n'));
  return body;
}

module.exports = { instrument, lower, HELPERS };
