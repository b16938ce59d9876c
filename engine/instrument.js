"use strict";
// TypeScript source -> plain CommonJS -> instrumented JavaScript in which every operator, branch,
// element access and method call goes through the symbolic runtime (__rt).
const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
const BIN = {
  [K.PlusToken]: "add", [K.MinusToken]: "sub", [K.AsteriskToken]: "mul", [K.SlashToken]: "div", [K.PercentToken]: "rem", [K.AsteriskAsteriskToken]: "pow",
  [K.AmpersandToken]: "and", [K.BarToken]: "or", [K.CaretToken]: "xor", [K.LessThanLessThanToken]: "shl", [K.GreaterThanGreaterThanToken]: "sar", [K.GreaterThanGreaterThanGreaterThanToken]: "shr",
  [K.LessThanToken]: "lt", [K.LessThanEqualsToken]: "le", [K.GreaterThanToken]: "gt", [K.GreaterThanEqualsToken]: "ge",
  [K.EqualsEqualsEqualsToken]: "seq", [K.ExclamationEqualsEqualsToken]: "sne", [K.EqualsEqualsToken]: "eq", [K.ExclamationEqualsToken]: "ne",
};
const COMPOUND = {
  [K.PlusEqualsToken]: "add", [K.MinusEqualsToken]: "sub", [K.AsteriskEqualsToken]: "mul", [K.SlashEqualsToken]: "div", [K.PercentEqualsToken]: "rem", [K.AsteriskAsteriskEqualsToken]: "pow",
  [K.AmpersandEqualsToken]: "and", [K.BarEqualsToken]: "or", [K.CaretEqualsToken]: "xor", [K.LessThanLessThanEqualsToken]: "shl", [K.GreaterThanGreaterThanEqualsToken]: "sar", [K.GreaterThanGreaterThanGreaterThanEqualsToken]: "shr",
};
function instrument(jsText, fileName) {
  const sf = ts.createSourceFile(fileName, jsText, ts.ScriptTarget.ESNext, true, ts.ScriptKind.JS);
  const functions = [];
  const result = ts.transform(sf, [(ctx) => {
    const f = ctx.factory;
    const RT = (name, args) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier("__rt"), name), undefined, args);
    const thunk = (e) => f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(K.EqualsGreaterThanToken), f.createParenthesizedExpression(e));
    const str = (s) => f.createStringLiteral(s);
    const isBoolish = (e) => e.kind === K.TrueKeyword || e.kind === K.FalseKeyword;
    const strip = (n) => { while (ts.isParenthesizedExpression(n)) n = n.expression; return n; };
    // expression without calls, assignments, awaits, yields: may be evaluated speculatively
    function pure(n) {
      n = strip(n);
      switch (n.kind) {
        case K.Identifier: case K.ThisKeyword: case K.NumericLiteral: case K.BigIntLiteral: case K.StringLiteral: case K.NoSubstitutionTemplateLiteral:
        case K.TrueKeyword: case K.FalseKeyword: case K.NullKeyword: return true;
        case K.PropertyAccessExpression: return !n.questionDotToken && pure(n.expression) && !ts.isOptionalChain(n);
        case K.ElementAccessExpression: return !ts.isOptionalChain(n) && pure(n.expression) && pure(n.argumentExpression);
        case K.PrefixUnaryExpression: return n.operator !== K.PlusPlusToken && n.operator !== K.MinusMinusToken && pure(n.operand);
        case K.BinaryExpression: return (BIN[n.operatorToken.kind] !== undefined || n.operatorToken.kind === K.AmpersandAmpersandToken || n.operatorToken.kind === K.BarBarToken) && pure(n.left) && pure(n.right);
        case K.ConditionalExpression: return pure(n.condition) && pure(n.whenTrue) && pure(n.whenFalse);
        case K.CallExpression: {
          const c = strip(n.expression);
          if (ts.isIdentifier(c) && (c.text === "Number" || c.text === "BigInt") && n.arguments.length === 1) return pure(n.arguments[0]);
          if (ts.isPropertyAccessExpression(c) && ts.isIdentifier(c.expression) && (c.expression.text === "Math") && c.name.text !== "random") return n.arguments.every(pure);
          return false;
        }
      }
      return false;
    }
    const simpleRef = (n) => { n = strip(n); return n.kind === K.Identifier || n.kind === K.ThisKeyword || n.kind === K.SuperKeyword || ts.isPropertyAccessExpression(n) && !ts.isOptionalChain(n) && simpleRef(n.expression); };
    const cond = (e) => isBoolish(e) ? e : RT("cond", [e]);
    function test(n) { // condition position: && and || can branch directly
      const s = strip(n);
      if (ts.isBinaryExpression(s) && (s.operatorToken.kind === K.AmpersandAmpersandToken || s.operatorToken.kind === K.BarBarToken) && !pure(s.right)) {
        return f.createParenthesizedExpression(f.createBinaryExpression(test(s.left), s.operatorToken, test(s.right)));
      }
      if (ts.isPrefixUnaryExpression(s) && s.operator === K.ExclamationToken) return f.createPrefixUnaryExpression(K.ExclamationToken, f.createParenthesizedExpression(test(s.operand)));
      return cond(visit(n));
    }
    function visitArgs(args) { return args.map((a) => visit(a)); }
    function isAssignTarget(n) { // destructuring assignment patterns keep native element targets
      return false;
    }
    function lhs(n) { // visit an assignment target without turning it into a get
      n = strip(n);
      if (ts.isPropertyAccessExpression(n)) return f.createPropertyAccessExpression(n.expression.kind === K.SuperKeyword ? n.expression : visit(n.expression), n.name);
      if (ts.isElementAccessExpression(n)) return f.createElementAccessExpression(visit(n.expression), visit(n.argumentExpression));
      return n;
    }
    function assignTo(target, valueOf) { // target := valueOf(current value expression)
      target = strip(target);
      if (ts.isIdentifier(target)) return f.createAssignment(target, valueOf(target));
      if (ts.isPropertyAccessExpression(target)) {
        if (simpleRef(target.expression)) { const a = lhs(target); return f.createAssignment(a, valueOf(lhs(target))); }
        if (ts.isPrivateIdentifier(target.name)) throw new Error(`${fileName}: compound assignment to private field of complex object`);
        return RT("updp", [visit(target.expression), str(target.name.text), thunkOf1(valueOf)]);
      }
      if (ts.isElementAccessExpression(target)) {
        return RT("updp", [visit(target.expression), visit(target.argumentExpression), thunkOf1(valueOf)]);
      }
      throw new Error(`${fileName}: assignment target ${K[target.kind]}`);
    }
    let tmpCount = 0;
    function thunkOf1(valueOf) {
      const id = f.createIdentifier("__v" + tmpCount++);
      const e = valueOf(id);
      if (containsAwait(e)) throw new Error(`${fileName}: await inside compound element assignment`);
      return f.createArrowFunction(undefined, undefined, [f.createParameterDeclaration(undefined, undefined, id)], undefined, f.createToken(K.EqualsGreaterThanToken), f.createParenthesizedExpression(e));
    }
    function containsAwait(n) {
      let found = false;
      (function walk(x) { if (found) return; if (x.kind === K.AwaitExpression || x.kind === K.YieldExpression) { found = true; return; } if (ts.isFunctionLike(x)) return; ts.forEachChild(x, walk); })(n);
      return found;
    }
    // optional chains
    function chain(n) {
      // collect links from the outermost inwards
      const links = [];
      let c = n;
      for (;;) {
        if (ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c) || ts.isCallExpression(c)) {
          if (c !== n && !ts.isOptionalChain(c) ) break;
          links.unshift(c);
          c = c.expression;
          if (ts.isNonNullExpression(c)) c = c.expression;
        } else break;
      }
      // c is the base; a method called optionally (o.m?.()) keeps its receiver
      if (links[0] && ts.isCallExpression(links[0]) && links[0].questionDotToken && (ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c)) && c.expression.kind !== K.SuperKeyword) {
        links.unshift(c);
        c = c.expression;
      }
      function build2(base, i) { // links[i] is the optional link, base its (non-null) receiver
        const l = links[i];
        let [cur, recv] = apply(base, null, l);
        return buildFrom(cur, recv, i + 1);
      }
      function buildFrom(cur, recv, i) {
        for (; i < links.length; i++) {
          const l = links[i];
          if (l.questionDotToken) {
            if (ts.isCallExpression(l) && recv) {
              const [o, m] = recv;
              if (ts.isPrivateIdentifier(m)) return f.createParenthesizedExpression(f.createConditionalExpression(RT("isNull", [f.createPropertyAccessExpression(o, m)]), undefined, f.createVoidZero(), undefined, buildFrom(f.createCallExpression(f.createPropertyAccessExpression(o, m), undefined, visitArgs(l.arguments)), null, i + 1)));
              return f.createParenthesizedExpression(f.createConditionalExpression(RT("nullM", [o, m]), undefined, f.createVoidZero(), undefined, buildFrom(RT("callLastM", [f.createArrayLiteralExpression(visitArgs(l.arguments))]), null, i + 1)));
            }
            return f.createParenthesizedExpression(f.createConditionalExpression(RT("isNull", [realize(cur, recv)]), undefined, f.createVoidZero(), undefined, build2(RT("last", []), i)));
          }
          [cur, recv] = apply(cur, recv, l);
        }
        return realize(cur, recv);
      }
      // cur may be deferred as a member (recv = [object, keyExpr]) so that a following call keeps its receiver
      function realize(cur, recv) {
        if (!recv) return cur;
        const [o, m] = recv;
        return ts.isPrivateIdentifier(m) ? f.createPropertyAccessExpression(o, m) : ts.isStringLiteral(m) && /^[A-Za-z_$][\w$]*$/.test(m.text) ? f.createPropertyAccessExpression(o, m.text) : RT("get", [o, m]);
      }
      function apply(cur, recv, l) {
        if (ts.isPropertyAccessExpression(l)) return [null, [realize(cur, recv), ts.isPrivateIdentifier(l.name) ? l.name : str(l.name.text)]];
        if (ts.isElementAccessExpression(l)) return [null, [realize(cur, recv), visit(l.argumentExpression)]];
        // call
        if (recv) {
          const [o, m] = recv;
          if (ts.isPrivateIdentifier(m)) return [f.createCallExpression(f.createPropertyAccessExpression(o, m), undefined, visitArgs(l.arguments)), null];
          return [RT("callm", [o, m, f.createArrayLiteralExpression(visitArgs(l.arguments))]), null];
        }
        return [f.createCallExpression(cur, undefined, visitArgs(l.arguments)), null];
      }
      const base = c.kind === K.SuperKeyword ? c : visit(c);
      return f.createParenthesizedExpression(buildFrom(base, null, 0));
    }
    function fnMark(node, body) {
      const nm = node.name ? node.name.getText(sf) : (node.parent && (ts.isVariableDeclaration(node.parent) || ts.isPropertyAssignment(node.parent) || ts.isPropertyDeclaration(node.parent)) ? node.parent.name.getText(sf) : null);
      if (ts.isConstructorDeclaration(node) || nm) {
        let cls = node.parent; while (cls && !ts.isClassLike(cls)) cls = ts.isFunctionLike(cls) ? null : cls.parent;
        const name = (cls && cls.name ? cls.name.text + "." : "") + (ts.isConstructorDeclaration(node) ? "constructor" : nm);
        const id = functions.push(name) - 1;
        const mark = f.createExpressionStatement(RT("fn", [f.createIdentifier("__file"), f.createNumericLiteral(id)]));
        // keep super() first where required is not needed: the mark does not touch this
        return f.updateBlock(body, [mark, ...body.statements]);
      }
      return body;
    }
    function visit(node) {
      switch (node.kind) {
        case K.BinaryExpression: {
          const op = node.operatorToken.kind;
          if (BIN[op] !== undefined) {
            if (ts.isPrivateIdentifier(node.left)) return ts.visitEachChild(node, visit, ctx);
            return RT(BIN[op], [visit(node.left), visit(node.right)]);
          }
          if (COMPOUND[op] !== undefined) {
            const r = () => visit(node.right);
            return f.createParenthesizedExpression(assignTo(node.left, (cur) => RT(COMPOUND[op], [cur, r()])));
          }
          if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
            const isAnd = op === K.AmpersandAmpersandToken;
            if (pure(node.right)) return RT(isAnd ? "land" : "lor", [visit(node.left), thunk(visit(node.right))]);
            const l = RT("c1", [visit(node.left)]);
            return f.createParenthesizedExpression(isAnd ? f.createConditionalExpression(l, undefined, visit(node.right), undefined, RT("last", [])) : f.createConditionalExpression(l, undefined, RT("last", []), undefined, visit(node.right)));
          }
          if (op === K.InKeyword) {
            if (ts.isPrivateIdentifier(node.left)) return f.createBinaryExpression(node.left, node.operatorToken, visit(node.right));
            return RT("isin", [visit(node.left), visit(node.right)]);
          }
          if (op === K.InstanceOfKeyword) return RT("inst", [visit(node.left), visit(node.right)]);
          if (op === K.EqualsToken) {
            const l = strip(node.left);
            if (ts.isElementAccessExpression(l) && l.expression.kind !== K.SuperKeyword) return RT("set", [visit(l.expression), visit(l.argumentExpression), visit(node.right)]);
            if (ts.isPropertyAccessExpression(l)) {
              if (!ts.isPrivateIdentifier(l.name) && l.name.text === "length") return RT("set", [visit(l.expression), str("length"), visit(node.right)]);
              return f.createAssignment(lhs(l), visit(node.right));
            }
            if (ts.isArrayLiteralExpression(l) || ts.isObjectLiteralExpression(l)) return f.createAssignment(l, visit(node.right));
            return f.createAssignment(l, visit(node.right));
          }
          if (op === K.AmpersandAmpersandEqualsToken || op === K.BarBarEqualsToken) {
            const l = strip(node.left);
            if (!(ts.isIdentifier(l) || ts.isPropertyAccessExpression(l) && simpleRef(l.expression))) throw new Error(`${fileName}: logical assignment to complex target`);
            const isAnd = op === K.AmpersandAmpersandEqualsToken;
            const asg = f.createParenthesizedExpression(f.createAssignment(lhs(l), visit(node.right)));
            const c = RT("c1", [ts.isIdentifier(l) ? l : lhs(l)]);
            return f.createParenthesizedExpression(f.createConditionalExpression(c, undefined, isAnd ? asg : RT("last", []), undefined, isAnd ? RT("last", []) : asg));
          }
          if (op === K.QuestionQuestionEqualsToken) {
            const l = strip(node.left);
            return f.createBinaryExpression(ts.isIdentifier(l) ? l : lhs(l), node.operatorToken, visit(node.right));
          }
          return ts.visitEachChild(node, visit, ctx); // , ??
        }
        case K.PrefixUnaryExpression: {
          const o = node.operator;
          if (o === K.ExclamationToken) return RT("not", [visit(node.operand)]);
          if (o === K.MinusToken) { if (ts.isNumericLiteral(node.operand) || ts.isBigIntLiteral(node.operand)) return f.createParenthesizedExpression(node); return RT("neg", [visit(node.operand)]); }
          if (o === K.PlusToken) return RT("toNum", [visit(node.operand)]);
          if (o === K.TildeToken) return RT("bnot", [visit(node.operand)]);
          return f.createParenthesizedExpression(assignTo(node.operand, (cur) => RT(o === K.PlusPlusToken ? "inc" : "dec", [cur])));
        }
        case K.PostfixUnaryExpression: {
          const t = strip(node.operand);
          const name = node.operator === K.PlusPlusToken ? "inc" : "dec";
          if (ts.isIdentifier(t)) return RT("post", [t, f.createAssignment(t, RT(name, [t]))]);
          if (ts.isPropertyAccessExpression(t) && simpleRef(t.expression)) return RT("post", [lhs(t), f.createAssignment(lhs(t), RT(name, [lhs(t)]))]);
          if (ts.isPropertyAccessExpression(t) && !ts.isPrivateIdentifier(t.name)) return RT("postp", [visit(t.expression), str(t.name.text), str(name)]);
          if (ts.isElementAccessExpression(t)) return RT("postp", [visit(t.expression), visit(t.argumentExpression), str(name)]);
          throw new Error(`${fileName}: postfix on ${K[t.kind]}`);
        }
        case K.TypeOfExpression: {
          const e = strip(node.expression);
          if (ts.isIdentifier(e)) return f.createParenthesizedExpression(f.createConditionalExpression(f.createBinaryExpression(f.createTypeOfExpression(e), K.EqualsEqualsEqualsToken, str("object")), undefined, RT("tof", [e]), undefined, f.createTypeOfExpression(e)));
          return RT("tof", [visit(node.expression)]);
        }
        case K.ConditionalExpression: {
          if (pure(node.whenTrue) && pure(node.whenFalse)) return RT("ite", [visit(node.condition), thunk(visit(node.whenTrue)), thunk(visit(node.whenFalse))]);
          return f.createParenthesizedExpression(f.createConditionalExpression(test(node.condition), undefined, visit(node.whenTrue), undefined, visit(node.whenFalse)));
        }
        case K.IfStatement: return f.updateIfStatement(node, test(node.expression), visitStmt(node.thenStatement), node.elseStatement ? visitStmt(node.elseStatement) : undefined);
        case K.WhileStatement: return f.updateWhileStatement(node, test(node.expression), visitStmt(node.statement));
        case K.DoStatement: return f.updateDoStatement(node, visitStmt(node.statement), test(node.expression));
        case K.ForStatement: return f.updateForStatement(node, node.initializer ? visit(node.initializer) : undefined, node.condition ? test(node.condition) : undefined, node.incrementor ? visit(node.incrementor) : undefined, visitStmt(node.statement));
        case K.ForOfStatement: {
          let init = node.initializer;
          if (ts.isVariableDeclarationList(init)) init = visit(init);
          return f.updateForOfStatement(node, node.awaitModifier, init, node.awaitModifier ? visit(node.expression) : RT("iter", [visit(node.expression)]), visitStmt(node.statement));
        }
        case K.ForInStatement: return f.updateForInStatement(node, ts.isVariableDeclarationList(node.initializer) ? visit(node.initializer) : node.initializer, visit(node.expression), visitStmt(node.statement));
        case K.SwitchStatement: {
          const clauses = node.caseBlock.clauses;
          const exprs = [];
          const newClauses = clauses.map((c) => {
            if (c.kind === K.DefaultClause) return f.createDefaultClause(ts.visitNodes(c.statements, visit));
            const i = exprs.push(thunk(visit(c.expression))) - 1;
            return f.createCaseClause(f.createNumericLiteral(i), ts.visitNodes(c.statements, visit));
          });
          return f.createSwitchStatement(RT("sw", [visit(node.expression), f.createArrayLiteralExpression(exprs)]), f.createCaseBlock(newClauses));
        }
        case K.TemplateExpression: {
          const strs = [node.head.text, ...node.templateSpans.map((s) => s.literal.text)];
          return RT("tpl", [f.createArrayLiteralExpression(strs.map(str)), f.createArrayLiteralExpression(node.templateSpans.map((s) => visit(s.expression)))]);
        }
        case K.PropertyAccessExpression:
          if (ts.isOptionalChain(node)) return chain(node);
          if (node.expression.kind === K.SuperKeyword) return node;
          return f.createPropertyAccessExpression(visit(node.expression), node.name);
        case K.ElementAccessExpression:
          if (ts.isOptionalChain(node)) return chain(node);
          if (node.expression.kind === K.SuperKeyword) return ts.visitEachChild(node, visit, ctx);
          return RT("get", [visit(node.expression), visit(node.argumentExpression)]);
        case K.CallExpression: {
          if (ts.isOptionalChain(node)) return chain(node);
          const c = strip(node.expression);
          if (c.kind === K.SuperKeyword || c.kind === K.ImportKeyword) return ts.visitEachChild(node, visit, ctx);
          if (ts.isPropertyAccessExpression(c) && !ts.isOptionalChain(c) && c.expression.kind !== K.SuperKeyword && !ts.isPrivateIdentifier(c.name)) {
            return RT("callm", [visit(c.expression), str(c.name.text), f.createArrayLiteralExpression(visitArgs(node.arguments))]);
          }
          if (ts.isElementAccessExpression(c) && !ts.isOptionalChain(c) && c.expression.kind !== K.SuperKeyword) {
            return RT("callm", [visit(c.expression), visit(c.argumentExpression), f.createArrayLiteralExpression(visitArgs(node.arguments))]);
          }
          if (ts.isPropertyAccessExpression(c) && ts.isOptionalChain(c)) return f.createCallExpression(chain(c), undefined, visitArgs(node.arguments));
          return f.createCallExpression(visit(node.expression), undefined, visitArgs(node.arguments));
        }
        case K.NewExpression: return f.createNewExpression(visit(node.expression), undefined, node.arguments ? visitArgs(node.arguments) : []);
        case K.SpreadElement: return f.createSpreadElement(RT("iter", [visit(node.expression)]));
        case K.CatchClause: {
          const id = f.createIdentifier("__e" + tmpCount++);
          const block = visit(node.block);
          const stmts = [f.createExpressionStatement(RT("caught", [id]))];
          if (node.variableDeclaration) stmts.push(f.createVariableStatement(undefined, f.createVariableDeclarationList([f.createVariableDeclaration(node.variableDeclaration.name, undefined, undefined, id)], ts.NodeFlags.Let)));
          return f.createCatchClause(f.createVariableDeclaration(id), f.createBlock([...stmts, block], true));
        }
        case K.TaggedTemplateExpression: return ts.visitEachChild(node, visit, ctx);
        case K.FunctionDeclaration: case K.FunctionExpression: case K.ArrowFunction: case K.MethodDeclaration: case K.Constructor: case K.GetAccessor: case K.SetAccessor: {
          const n = ts.visitEachChild(node, visit, ctx);
          if (n.body && ts.isBlock(n.body)) {
            const body = fnMark(node, n.body);
            if (body !== n.body) {
              switch (n.kind) {
                case K.FunctionDeclaration: return f.updateFunctionDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, n.parameters, undefined, body);
                case K.FunctionExpression: return f.updateFunctionExpression(n, n.modifiers, n.asteriskToken, n.name, undefined, n.parameters, undefined, body);
                case K.ArrowFunction: return f.updateArrowFunction(n, n.modifiers, undefined, n.parameters, undefined, n.equalsGreaterThanToken, body);
                case K.MethodDeclaration: return f.updateMethodDeclaration(n, n.modifiers, n.asteriskToken, n.name, undefined, undefined, n.parameters, undefined, body);
                case K.Constructor: return f.updateConstructorDeclaration(n, n.modifiers, n.parameters, body);
                case K.GetAccessor: return f.updateGetAccessorDeclaration(n, n.modifiers, n.name, n.parameters, undefined, body);
                case K.SetAccessor: return f.updateSetAccessorDeclaration(n, n.modifiers, n.name, n.parameters, body);
              }
            }
          }
          return n;
        }
        case K.ObjectBindingPattern: case K.ArrayBindingPattern: return ts.visitEachChild(node, visit, ctx);
        case K.VariableDeclaration: {
          if (node.initializer && ts.isArrayBindingPattern(node.name)) return f.updateVariableDeclaration(node, visit(node.name), undefined, undefined, RT("iter", [visit(node.initializer)]));
          return ts.visitEachChild(node, visit, ctx);
        }
      }
      return ts.visitEachChild(node, visit, ctx);
    }
    function visitStmt(s) { return visit(s); }
    return (root) => ts.visitEachChild(root, visit, ctx);
  }]);
  const printer = ts.createPrinter({ removeComments: true });
  const text = printer.printFile(result.transformed[0]);
  result.dispose();
  return { text, functions };
}
function transpile(tsText, fileName) {
  return ts.transpileModule(tsText, { fileName, compilerOptions: { module: ts.ModuleKind.CommonJS, target: ts.ScriptTarget.ESNext, useDefineForClassFields: true, removeComments: true, esModuleInterop: false, verbatimModuleSyntax: false } }).outputText;
}
module.exports = { instrument, transpile, ts };
