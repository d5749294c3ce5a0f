// Reads the deployment tools' TypeScript with the compiler's type checker and lists, for every message they hand to a contract,
// the contract, the message's inferred type as a JSON-like shape, and where its leaf values come from.
// usage: node deploy.cjs <repo> <typescript module>
const ts = require(process.argv[3]);
const path = require('path');
const fs = require('fs');
const repo = process.argv[2];

const files = [];
const walk = (d) => {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    if (e.name === 'node_modules' || e.name.startsWith('.')) continue;
    const p = path.join(d, e.name);
    if (e.isDirectory()) walk(p);
    else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name)) files.push(p);
  }
};
walk(path.join(repo, 'script'));

const program = ts.createProgram(files, {
  target: ts.ScriptTarget.ES2021, lib: ['lib.es2021.d.ts'], module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10,
  strict: true, esModuleInterop: true, experimentalDecorators: true, resolveJsonModule: true, noEmit: true, types: [], skipLibCheck: true,
});
const ck = program.getTypeChecker();
const F = ts.TypeFlags;
const own = (f) => files.includes(path.resolve(f.fileName));

// ---- expressions -> where they come from
const unwrap = (e) => {
  while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e) || ts.isAwaitExpression(e) ||
    (ts.isSatisfiesExpression && ts.isSatisfiesExpression(e)))) e = e.expression;
  return e;
};
const decl = (e) => {
  let s = ck.getSymbolAtLocation(e);
  if (s && s.flags & ts.SymbolFlags.Alias) s = ck.getAliasedSymbol(s);
  return s && s.valueDeclaration;
};
const initOf = (d) => d && ts.isVariableDeclaration(d) && d.initializer && ts.isVariableDeclarationList(d.parent) && d.parent.flags & ts.NodeFlags.Const ? d.initializer : undefined;
// the property path an expression reads: ['config', 'deploy', 'ism']; null when it is not a plain read
const origin = (e, n = 0) => {
  e = unwrap(e);
  if (!e || n > 12) return null;
  if (ts.isPropertyAccessExpression(e)) {
    const b = origin(e.expression, n + 1);
    return b && b.concat(e.name.text);
  }
  if (ts.isElementAccessExpression(e) && ts.isStringLiteralLike(e.argumentExpression)) {
    const b = origin(e.expression, n + 1);
    return b && b.concat(e.argumentExpression.text);
  }
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ['toString', 'trim'].includes(e.expression.name.text) && !e.arguments.length)
    return origin(e.expression.expression, n + 1);
  if (ts.isCallExpression(e) && ts.isIdentifier(e.expression) && ['String', 'Number', 'parseInt', 'BigInt'].includes(e.expression.text) && e.arguments.length >= 1)
    return origin(e.arguments[0], n + 1);
  if (ts.isTemplateExpression(e) && !e.head.text && e.templateSpans.length === 1 && !e.templateSpans[0].literal.text) return origin(e.templateSpans[0].expression, n + 1);
  if (ts.isIdentifier(e)) {
    const d = decl(e);
    if (!d) return null;
    const i = initOf(d);
    if (i) return origin(i, n + 1) || ['?'];
    if (ts.isBindingElement(d) && ts.isObjectBindingPattern(d.parent)) {
      const k = d.propertyName ? d.propertyName.getText() : d.name.getText();
      const v = d.parent.parent;
      const b = ts.isVariableDeclaration(v) && v.initializer ? origin(v.initializer, n + 1) : ts.isParameter(v) ? ['param'] : null;
      return (b || ['?']).concat(k);
    }
    return ['?'];
  }
  return null;
};

// ---- types -> shapes
const EMPTY = F.Undefined | F.Null | F.Void | F.Never;
const shape = (t, at, depth = 0) => {
  if (depth > 14) return { k: 'any' };
  if (t.flags & (F.Any | F.Unknown)) return { k: 'any' };
  if (t.flags & F.Union && !(t.flags & (F.Boolean | F.Enum))) {
    const alts = t.types.filter((x) => !(x.flags & EMPTY));
    if (alts.length && alts.every((x) => x.flags & F.StringLike)) return { k: 'str' };
    if (alts.length && alts.every((x) => x.flags & F.NumberLike)) return { k: 'number' };
    if (alts.length && alts.every((x) => x.flags & F.BooleanLike)) return { k: 'bool' };
    return { k: 'union', of: alts.map((x) => shape(x, at, depth + 1)) };
  }
  if (t.flags & F.StringLiteral) return { k: 'str', v: t.value };
  if (t.flags & F.StringLike) return { k: 'str' };
  if (t.flags & F.NumberLike) return { k: 'number' };
  if (t.flags & F.BooleanLike) return { k: 'bool' };
  if (t.flags & F.BigIntLike) return { k: 'bigint' };
  if (t.flags & EMPTY) return { k: 'none' };
  if (t.flags & F.TypeParameter) {
    const c = ck.getBaseConstraintOfType(t);
    return c ? shape(c, at, depth + 1) : { k: 'any' };
  }
  if (t.flags & F.NonPrimitive) return { k: 'any' };
  if (ck.isTupleType(t)) return { k: 'tuple', of: ck.getTypeArguments(t).map((x) => shape(x, at, depth + 1)) };
  if (ck.isArrayType(t)) return { k: 'arr', of: shape(ck.getTypeArguments(t)[0], at, depth + 1) };
  if (t.flags & (F.Object | F.Intersection)) {
    if (t.getCallSignatures().length) return { k: 'fn' };
    if (ck.getIndexInfosOfType(t).length) return { k: 'any' };
    const ps = ck.getPropertiesOfType(t);
    const sym = t.getSymbol();
    if (!ps.length && !(t.objectFlags & ts.ObjectFlags.ObjectLiteral)) return { k: 'any' };
    if (sym && sym.flags & (ts.SymbolFlags.Class) ) return { k: 'any' };
    const f = {};
    for (const p of ps) {
      const pt = ck.getTypeOfSymbolAtLocation(p, at);
      const e = p.valueDeclaration;
      const v = e && ts.isPropertyAssignment(e) ? e.initializer : e && ts.isShorthandPropertyAssignment(e) ? e.name : undefined;
      let from = null;
      if (v) from = ts.isShorthandPropertyAssignment(e) ? shorthand(e) : origin(v);
      f[p.name] = { t: shape(pt, at, depth + 1), opt: !!(p.flags & ts.SymbolFlags.Optional), from };
    }
    return { k: 'obj', f };
  }
  return { k: 'any' };
};
const shorthand = (e) => {
  const s = ck.getShorthandAssignmentValueSymbol(e);
  const d = s && s.valueDeclaration;
  if (!d) return null;
  const i = initOf(d);
  if (i) return origin(i) || ['?'];
  if (ts.isBindingElement(d)) return ['?', d.propertyName ? d.propertyName.getText() : d.name.getText()];
  return ['?'];
};

// ---- contract named by an expression of type { type: ContractNames, address }
const kinds = (e) => {
  e = unwrap(e);
  const p = ck.getPropertyOfType(ck.getNonNullableType(ck.getTypeAtLocation(e)), 'type');
  const names = new Set();
  const add = (t) => {
    if (t.flags & F.Union) t.types.forEach(add);
    else if (t.flags & F.StringLiteral) names.add(t.value);
    else names.add('*');
  };
  const lits = (x, n = 0) => {
    x = unwrap(x);
    if (!x || n > 6) return;
    if (ts.isObjectLiteralExpression(x)) {
      for (const q of x.properties)
        if (ts.isPropertyAssignment(q) && q.name.getText() === 'type' && ts.isStringLiteralLike(unwrap(q.initializer))) names.add(unwrap(q.initializer).text);
    } else if (ts.isIdentifier(x)) {
      const i = initOf(decl(x));
      if (i) lits(i, n + 1);
    }
  };
  lits(e);
  if (!names.size && p) add(ck.getTypeOfSymbolAtLocation(p, e));
  return names.size ? [...names] : ['*'];
};

const sites = [];
const site = (kind, names, node) => {
  const sf = node.getSourceFile();
  const { line } = sf.getLineAndCharacterOfPosition(node.getStart());
  let fn = node;
  while (fn && !((ts.isFunctionDeclaration(fn) || ts.isVariableDeclaration(fn)) && fn.parent && (ts.isSourceFile(fn.parent) || ts.isSourceFile(fn.parent.parent?.parent ?? fn)))) fn = fn.parent;
  sites.push({
    kind, names, file: path.relative(repo, sf.fileName), line: line + 1, fn: fn && fn.name ? fn.name.getText() : '?',
    msg: shape(ck.getTypeAtLocation(node), node),
  });
};
// a list of { contract, msg } pairs, however it is put together
const pairs = (e, n = 0) => {
  e = unwrap(e);
  if (!e || n > 8) return;
  if (ts.isArrayLiteralExpression(e)) return e.elements.forEach((x) => pair(ts.isSpreadElement(x) ? x.expression : x, ts.isSpreadElement(x), n));
  if (ts.isIdentifier(e)) {
    const i = initOf(decl(e));
    if (i) {
      pairs(i, n + 1);
      pushes(e);
      return;
    }
  }
  if (ts.isConditionalExpression(e)) return pairs(e.whenTrue, n + 1), pairs(e.whenFalse, n + 1);
  if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) {
    const m = e.expression.name.text;
    if (m === 'map' || m === 'flatMap') {
      const cb = unwrap(e.arguments[0]);
      if (cb && (ts.isArrowFunction(cb) || ts.isFunctionExpression(cb))) {
        if (!ts.isBlock(cb.body)) return pair(cb.body, m === 'flatMap', n);
        const rets = [];
        const look = (x) => { if (ts.isReturnStatement(x) && x.expression) rets.push(x.expression); else if (!ts.isFunctionLike(x)) ts.forEachChild(x, look); };
        look(cb.body);
        return rets.forEach((r) => pair(r, m === 'flatMap', n));
      }
    }
    if (m === 'concat') return pairs(e.expression.expression, n + 1), e.arguments.forEach((a) => pairs(a, n + 1));
    if (m === 'filter' || m === 'slice' || m === 'reverse') return pairs(e.expression.expression, n + 1);
  }
  const el = ck.getIndexTypeOfType ? ck.getIndexTypeOfType(ck.getTypeAtLocation(e), ts.IndexKind.Number) : undefined;
  if (el) {
    const m = ck.getPropertyOfType(el, 'msg');
    const c = ck.getPropertyOfType(el, 'contract');
    if (m && c) sites.push({ kind: 'execute', names: ['*'], file: path.relative(repo, e.getSourceFile().fileName), line: 0, fn: '?', msg: shape(ck.getTypeOfSymbolAtLocation(m, e), e) });
  }
};
const pushes = (id) => {
  const d = decl(id);
  let scope = d;
  while (scope && !ts.isFunctionLike(scope) && !ts.isSourceFile(scope)) scope = scope.parent;
  const look = (x) => {
    if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && x.expression.name.text === 'push' && ts.isIdentifier(x.expression.expression) && decl(x.expression.expression) === d)
      x.arguments.forEach((a) => pair(ts.isSpreadElement(a) ? a.expression : a, ts.isSpreadElement(a), 0));
    ts.forEachChild(x, look);
  };
  look(scope);
};
const pair = (x, many, n) => {
  if (many) return pairs(x, n + 1);
  x = unwrap(x);
  if (ts.isIdentifier(x)) {
    const i = initOf(decl(x));
    if (i) x = unwrap(i);
  }
  if (!ts.isObjectLiteralExpression(x)) {
    const t = ck.getTypeAtLocation(x);
    const m = ck.getPropertyOfType(t, 'msg');
    if (m) sites.push({ kind: 'execute', names: ['*'], file: path.relative(repo, x.getSourceFile().fileName), line: 0, fn: '?', msg: shape(ck.getTypeOfSymbolAtLocation(m, x), x) });
    return;
  }
  let c, m;
  for (const q of x.properties) {
    const k = q.name && q.name.getText();
    const v = ts.isPropertyAssignment(q) ? q.initializer : ts.isShorthandPropertyAssignment(q) ? q.name : null;
    if (k === 'contract') c = v;
    if (k === 'msg') m = v;
  }
  if (m) site('execute', c ? kinds(c) : ['*'], m);
};

const visit = (x) => {
  if (ts.isCallExpression(x)) {
    const c = x.expression;
    const name = ts.isIdentifier(c) ? c.text : ts.isPropertyAccessExpression(c) ? c.name.text : '';
    const recv = ts.isPropertyAccessExpression(c) ? c.expression.getText() : '';
    const a = x.arguments;
    if (name === 'deployContract' && ts.isIdentifier(c) && a.length >= 4) {
      const t = ck.getTypeAtLocation(a[2]);
      const ns = t.flags & F.StringLiteral ? [t.value] : t.flags & F.Union ? t.types.map((y) => y.value || '*') : ['*'];
      site('instantiate', ns, a[3]);
    } else if (name === 'executeContract' && ts.isIdentifier(c) && a.length >= 3) site('execute', kinds(a[1]), a[2]);
    else if (name === 'executeMultiMsg' && ts.isIdentifier(c) && a.length >= 2) pairs(a[1]);
    else if (name === 'fromJSON' && /MsgExecuteContract/.test(recv) && a.length) {
      const o = unwrap(a[0]);
      if (ts.isObjectLiteralExpression(o)) for (const q of o.properties) if (ts.isPropertyAssignment(q) && q.name.getText() === 'msg') site('execute', ['*'], q.initializer);
    } else if (name === 'migrate' && a.length >= 4) site('migrate', ['*'], a[3]);
  }
  ts.forEachChild(x, visit);
};
for (const f of program.getSourceFiles()) if (own(f)) visit(f);

// the contract names the tools offer, and the parse errors of the files read
const names = [];
for (const f of program.getSourceFiles()) {
  if (!own(f)) continue;
  ts.forEachChild(f, (s) => {
    if (ts.isVariableStatement(s))
      for (const d of s.declarationList.declarations)
        if (d.name.getText() === 'contractNames' && d.initializer) {
          const i = unwrap(d.initializer);
          if (ts.isArrayLiteralExpression(i)) i.elements.forEach((e) => ts.isStringLiteralLike(e) && names.push(e.text));
        }
  });
}
const bad = program.getSourceFiles().filter(own).flatMap((f) => program.getSyntacticDiagnostics(f).map((d) => path.relative(repo, f.fileName) + ': ' + ts.flattenDiagnosticMessageText(d.messageText, ' ')));
process.stdout.write(JSON.stringify({ files: files.length, sites, names, bad }));
