// Summarises what functions of the deployment tools do: a path-sensitive abstract evaluation of their TypeScript over unknown
// configurations. Loops over configured collections become comprehensions ("for every entry"); contracts deployed, messages sent and
// values returned are terms over the configuration. Nothing of the tools is run.
// usage: node plan.cjs <repo> <typescript module> <requests.json>
const ts = require(process.argv[3]);
const path = require('path');
const fs = require('fs');
const repo = process.argv[2];
const requests = JSON.parse(fs.readFileSync(process.argv[4], 'utf-8'));

const files = [];
const walk = (d) => {
  for (const e of fs.readdirSync(d, { withFileTypes: true })) {
    if (e.name === 'node_modules' || e.name.startsWith('.')) continue;
    const p = path.join(d, e.name);
    if (e.isDirectory()) walk(p);
    else if (/\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name)) files.push(p);
  }
};
walk(path.join(repo, 'script'));
const program = ts.createProgram(files, {
  target: ts.ScriptTarget.ES2021, lib: ['lib.es2021.d.ts'], module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10,
  strict: true, esModuleInterop: true, experimentalDecorators: true, resolveJsonModule: true, noEmit: true, types: [], skipLibCheck: true,
});
const ck = program.getTypeChecker();
const own = (f) => files.includes(path.resolve(f.fileName));
const S = ts.SyntaxKind;

// ---- terms
const lit = (v) => ({ k: 'lit', v });
const UNDEF = lit(undefined);
const sym = (s) => ({ k: 'sym', s });
const prop = (of, n) => ({ k: 'prop', of, n });
const ap = (f, ...args) => ({ k: 'ap', f, args });
const ANY = { k: 'any' };
class Return { constructor(v) { this.v = v; } }
class Thrown {}
class Jump { constructor(w) { this.w = w; } }
class Limit extends Error {}

let st; // state of the path being followed
const fresh = (k, parts) => ({ k, parts, at: st.loops.slice() });
const obj = (parts = []) => fresh('obj', parts);
const arr = (parts = []) => fresh('arr', parts);
const isMut = (t) => t.k === 'obj' || t.k === 'arr';

const show = (t) => {
  switch (t.k) {
    case 'lit': return t.v === undefined ? 'undefined' : typeof t.v === 'bigint' ? String(t.v) : JSON.stringify(t.v);
    case 'sym': return t.s;
    case 'prop': return show(t.of) + '.' + t.n;
    case 'idx': return show(t.of) + '[' + show(t.i) + ']';
    case 'key': return 'key(' + show(t.src) + ')';
    case 'item': return 'item(' + show(t.src) + ')';
    case 'ap': return t.f + '(' + t.args.map(show).join(', ') + ')';
    case 'sub': return 'sub(' + t.args.map(show).join(', ') + ')';
    case 'dep': return 'dep' + t.n + ':' + t.name;
    case 'cond': return '(' + show(t.c) + ' ? ' + show(t.a) + ' : ' + show(t.b) + ')';
    case 'arr': return '[' + t.parts.map((p) => (p.spread ? '...' + show(p.spread) : show(p.val)) + loopsOf(p)).join(', ') + ']';
    case 'obj': return '{' + t.parts.map((p) => (p.spread ? '...' + show(p.spread) : '[' + showKey(p.key) + ']: ' + show(p.val)) + loopsOf(p)).join(', ') + '}';
    case 'fn': return 'fn';
    case 'bad': return 'bad(' + t.why + ')';
    default: return '?';
  }
};
const loopsOf = (p) => (p.bs && p.bs.length ? ' for ' + p.bs.map((b) => show(b.src)).join(', ') : '');
const showKey = (t) => (t.k === 'lit' ? String(t.v) : t.k === 'ap' && (t.f === 'num' || t.f === 'str') ? showKey(t.args[0]) : show(t));

// structured form for the comparison: known objects and lists spelled out, everything else as text
const out = (t) => {
  if (t.k === 'arr') return { k: 'arr', parts: t.parts.filter(live).map((p) => ({ each: (p.bs || []).map((b) => show(b.src)), ...(p.spread ? { spread: out(p.spread) } : { val: out(p.val) }) })) };
  if (t.k === 'obj') return { k: 'obj', parts: t.parts.filter(live).map((p) => ({ each: (p.bs || []).map((b) => show(b.src)), ...(p.spread ? { spread: out(p.spread) } : { key: showKey(p.key), val: out(p.val) }) })) };
  return { k: 't', s: show(t) };
};
const gone = (src) => st.gone.has(show(src));
const live = (p) => !(p.bs || []).some((b) => gone(b.src));

// ---- conditions
const defined = (t) => {
  if (t.k === 'lit') return !!t.v;
  if (t.k === 'obj' || t.k === 'arr' || t.k === 'dep' || t.k === 'sub' || t.k === 'fn') return true;
  return undefined;
};
// a canonical condition: [text, polarity]
const norm = (c) => {
  if (c.k === 'ap' && c.f === 'not') { const [s, p, x] = norm(c.args[0]); return [s, !p, x]; }
  if (c.k === 'ap' && c.f === 'bool') return norm(c.args[0]);
  if (c.k === 'ap' && c.f === 'empty') return ['has ' + show(c.args[0]), false, c.args[0]];
  if (c.k === 'ap' && c.f === 'len') return ['has ' + show(c.args[0]), true, c.args[0]];
  if (c.k === 'ap' && c.f === 'eq') return [show(c), true, null];
  return ['has ' + show(c), true, c];
};
const decide = (c, quiet = false) => {
  const d = c.k === 'ap' && ['not', 'bool', 'empty', 'len'].includes(c.f) ? undefined : defined(c);
  if (d !== undefined && c.k !== 'ap') return d;
  if (c.k === 'ap' && c.f === 'not') { const x = decide(c.args[0], quiet); return x === undefined ? undefined : !x; }
  if (c.k === 'ap' && c.f === 'bool') return decide(c.args[0], quiet);
  if (c.k === 'ap' && (c.f === 'empty' || c.f === 'len') && c.args[0].k === 'arr' && !c.args[0].parts.filter(live).length) return c.f === 'empty';
  const [s, p, of] = norm(c);
  if (st.assume.has(s)) return st.assume.get(s) === p;
  if (of && s.startsWith('has ')) {
    const me = s.slice(4);
    for (const [k, v] of st.assume) {
      if (!k.startsWith('has ')) continue;
      const o = k.slice(4);
      if (!v && me.startsWith(o + '.')) return !p;
      if (v && o.startsWith(me + '.')) return p;
    }
  }
  if (quiet) return undefined;
  const n = st.taken++;
  if (n > 13) throw new Limit('too many conditions');
  if (n >= st.plan.length) st.plan.push(true);
  const v = st.plan[n];
  st.assume.set(s, v === p);
  if (v !== p && of) st.gone.add(show(of));
  return v;
};

// ---- elements of a collection
const BINDER = (src) => ({ src });
const elements = (t, how) => {
  // how: 'arr' | 'entries' | 'keys' | 'values'
  const pair = (k, v) => arr([{ val: k }, { val: v }]);
  const pick = (k, v) => (how === 'entries' ? pair(ap('str', k), v) : how === 'keys' ? ap('str', k) : v);
  if (t.k === 'arr' && how === 'arr') return t.parts.flatMap((p) => (p.spread ? elements(p.spread, how).map((e) => ({ ...e, bs: [...(p.bs || []), ...e.bs] })) : [{ bs: p.bs || [], val: p.val }]));
  if (t.k === 'obj' && how === 'arr') return elements(t, 'entries');
  if (t.k === 'obj')
    return t.parts.flatMap((p) => (p.spread ? elements(p.spread, how).map((e) => ({ ...e, bs: [...(p.bs || []), ...e.bs] })) : [{ bs: p.bs || [], val: pick(p.key, p.val) }]));
  if (t.k === 'any' || t.k === 'bad') return [{ bs: [BINDER(t)], val: how === 'arr' ? t : pick(t, t) }];
  if (t.k === 'cond') return elements(decide(t.c) ? t.a : t.b, how);
  if (t.k === 'lit') return [];
  return [{ bs: [BINDER(t)], val: how === 'arr' ? { k: 'item', src: t } : pick({ k: 'key', src: t }, { k: 'item', src: t }) }];
};
const inside = (bs, f) => {
  const n = st.loops.length;
  st.loops.push(...bs);
  try { return f(); } finally { st.loops.length = n; }
};
const over = (els, f) => arr(els.filter((e) => live(e)).map((e) => ({ bs: e.bs, val: inside(e.bs, () => f(e.val)) })));
const beyond = (t) => st.loops.slice(t.at.length);
const addPart = (t, p) => t.parts.push({ ...p, bs: [...beyond(t), ...(p.bs || [])] });

// ---- reading and writing
const get = (of, n) => {
  if (of.k === 'sym' && of.s === 'deps' && ['ctx', 'client', 'network'].includes(n)) return sym(n);
  if (of.k === 'obj') {
    let seen;
    for (let i = of.parts.length - 1; i >= 0; i--) {
      const p = of.parts[i];
      if (p.spread) { if (p.spread.k === 'dep' && ['type', 'address', 'hexed'].includes(n)) return get(p.spread, n); if (p.spread.k !== 'dep') return get(p.spread, n); }
      else if (p.key.k === 'lit' && String(p.key.v) === n && !(p.bs || []).length) return p.val;
      else if (p.key.k !== 'lit') seen = true;
    }
    return seen ? ANY : UNDEF;
  }
  if (of.k === 'arr') {
    if (n === 'length' || n === 'size') return ap('len', lenOf(of));
    if (/^\d+$/.test(n) && of.parts.every((p) => !p.spread && !(p.bs || []).length)) return of.parts[+n] ? of.parts[+n].val : UNDEF;
    if (/^\d+$/.test(n)) return { k: 'idx', of, i: lit(Number(n)) };
    return ANY;
  }
  if (of.k === 'cond') { const a = get(of.a, n), b = get(of.b, n); return show(a) === show(b) ? a : { k: 'cond', c: of.c, a, b }; }
  if (of.k === 'ap' && of.f === 'or' && n !== 'length') return prop(of, n);
  if (of.k === 'any' || of.k === 'bad') return of;
  if (of.k === 'lit' && of.v === undefined) return UNDEF;
  if (of.k === 'dep' && n === 'type') return lit(of.name);
  const t = n === 'length' ? ap('len', of) : prop(of, n);
  const o = st.overlay.get(show(t));
  if (o) return o;
  return t;
};
// what has to be non-empty for a list to be
const lenOf = (t) => {
  const ps = t.parts.filter(live);
  if (ps.length === 1 && ps[0].bs && ps[0].bs.length === 1) return ps[0].bs[0].src;
  return t;
};
const set = (of, key, v) => {
  if (of.k === 'obj') {
    if (key.k === 'lit' && !beyond(of).length) of.parts = of.parts.filter((p) => p.spread || p.key.k !== 'lit' || String(p.key.v) !== String(key.v) || (p.bs || []).length);
    return addPart(of, { key, val: v });
  }
  if (of.k === 'arr') { if (key.k === 'lit' && /^\d+$/.test(String(key.v)) && of.parts[key.v]) of.parts[key.v].val = v; else addPart(of, { val: v }); return; }
  if (key.k === 'lit') { st.overlay.set(show(prop(of, key.v)), v); st.writes.push({ at: show(prop(of, key.v)), v }); }
};

// ---- functions
const OPAQUE = new Set(['getNetwork', 'getSigningClient', 'loadContext', 'extractByte32AddrFromBech32', 'addPad', 'waitTx', 'sleep', 'askQuestion', 'getContractInfo', 'saveContext', 'saveAgentConfig', 'findHook', 'getEvmNetwork']);
const declOf = (node) => {
  let s = ck.getSymbolAtLocation(node);
  if (s && s.flags & ts.SymbolFlags.Alias) s = ck.getAliasedSymbol(s);
  return s && s.valueDeclaration;
};
const fnOf = (d) => {
  if (!d || !own(d.getSourceFile())) return null;
  if (ts.isFunctionDeclaration(d) && d.body) return d;
  if (ts.isVariableDeclaration(d) && d.initializer) {
    let e = d.initializer;
    while (ts.isParenthesizedExpression(e) || ts.isAsExpression(e)) e = e.expression;
    if (ts.isArrowFunction(e) || ts.isFunctionExpression(e)) return e;
  }
  return null;
};
const lookup = (env, name) => {
  for (let e = env; e; e = e.up) if (e.vars.has(name)) return e;
  return null;
};
const scope = (up) => ({ vars: new Map(), up });
const bind = (pat, v, env) => {
  if (ts.isIdentifier(pat)) return env.vars.set(pat.text, v);
  if (ts.isObjectBindingPattern(pat))
    return pat.elements.forEach((b) => {
      if (b.dotDotDotToken) return bind(b.name, ANY, env);
      const k = b.propertyName || b.name;
      let x = get(v, k.text !== undefined ? k.text : k.getText());
      if (b.initializer && x.k === 'lit' && x.v === undefined) x = ev(b.initializer, env);
      bind(b.name, x, env);
    });
  if (ts.isArrayBindingPattern(pat)) pat.elements.forEach((b, i) => ts.isBindingElement(b) && bind(b.name, v.k === 'arr' ? get(v, String(i)) : v.k === 'any' ? ANY : { k: 'idx', of: v, i: lit(i) }, env));
};
const call = (fn, args, env) => {
  const key = fn;
  if (!fn.parameters.some((p) => p.dotDotDotToken)) args = args.slice(0, fn.parameters.length);
  if (st.stack.includes(key)) {
    const own_ = args.flatMap((a) => (isEnv(a) ? [] : a.k === 'obj' ? a.parts.filter((p) => p.val && !isEnv(p.val)).map((p) => p.val) : [a]));
    const t = { k: 'sub', args: own_ };
    st.effects.push({ kind: 'sub', what: t, bs: st.loops.slice() });
    return t;
  }
  if (st.stack.length > 25) throw new Limit('call depth');
  st.stack.push(key);
  const made = fn.asteriskToken ? arr([]) : null;
  try {
    const e = scope(env);
    if (made) e.vars.set('yield', made);
    fn.parameters.forEach((p, i) => {
      if (p.dotDotDotToken) return bind(p.name, arr(args.slice(i).map((val) => ({ val }))), e);
      let v = i < args.length ? args[i] : UNDEF;
      if (p.initializer && v.k === 'lit' && v.v === undefined) v = ev(p.initializer, e);
      bind(p.name, v, e);
    });
    if (!ts.isBlock(fn.body)) return ev(fn.body, e);
    try { run(fn.body.statements, e); } catch (x) { if (x instanceof Return) return made || x.v; throw x; }
    return made || UNDEF;
  } finally { st.stack.pop(); }
};
const ENV = new Set(['ctx', 'client', 'networkId', 'deps', 'opts', 'network']);
const root = (t) => (t.k === 'prop' ? root(t.of) : t.k === 'sym' ? t.s : null);
const isEnv = (t) => ENV.has(root(t)) || t.k === 'obj' && t.parts.length > 0 && t.parts.every((p) => p.val && isEnv(p.val));
// the functions that reach the chain, taken for what they do
const MODELS = {
  deployContract: (a, node) => deploy(a[2], a[3] || UNDEF, node),
  executeContract: (a, node) => { exec(a[1], a[2], node); return ap('tx'); },
  executeMultiMsg: (a, node) => { elements(a[1], 'arr').forEach((e) => exec(get(e.val, 'contract'), get(e.val, 'msg'), node, e.bs)); return ap('tx'); },
};
const nameOf = (f) => (f.name && ts.isIdentifier(f.name) ? f.name.text : f.parent && ts.isVariableDeclaration(f.parent) && ts.isIdentifier(f.parent.name) && ts.isSourceFile(f.parent.parent.parent.parent) ? f.parent.name.text : null);
const apply = (f, args) => {
  if (f.k === 'fn') {
    const n = nameOf(f.node);
    if (n && !f.env && !st.wire && (MODELS[n] || st.opaque.has(n) || OPAQUE.has(n) && !(st.open || []).includes(n))) return MODELS[n] ? MODELS[n](args, f.node) : ap(n, ...args.filter((a) => !(a.k === 'sym' && a.s === 'client')));
    return call(f.node, args, f.env);
  }
  if (f.k === 'prim') return f.f(args);
  return ap('call', f, ...args);
};
// a callback given to a list method: evaluated outside the recursion guard of its own node
const cb = (f, args) => {
  if (f.k !== 'fn') return apply(f, args);
  const keep = st.stack;
  const named = ts.isFunctionDeclaration(f.node) || (f.node.parent && ts.isVariableDeclaration(f.node.parent) && ts.isSourceFile(f.node.parent.parent.parent.parent));
  if (named) return apply(f, args);
  st.stack = keep.filter((x) => x !== f.node);
  try { return call(f.node, args, f.env); } finally { st.stack = keep; }
};

const NUMF = (x) => (x.k === 'lit' && x.v !== undefined ? lit(Number(x.v)) : x.k === 'ap' && (x.f === 'num') ? x : x.k === 'ap' && x.f === 'str' ? NUMF(x.args[0]) : x.k === 'any' ? ANY : ap('num', x));
const STRF = (x) => (x.k === 'lit' && x.v !== undefined ? lit(String(x.v)) : x.k === 'ap' && x.f === 'str' ? x : x.k === 'any' ? ANY : ap('str', x));
const OR = (a, b) => (show(a) === show(b) ? a : ap('or', a, b));

const deploy = (name, init, node) => {
  const t = { k: 'dep', n: st.deps++, name: name.k === 'lit' ? name.v : '?' + show(name) };
  st.effects.push({ kind: 'deploy', name: t.name, what: t, init, bs: st.loops.slice(), line: line(node), assume: [...st.assume] });
  return t;
};
const exec = (contract, msg, node, bs = []) => {
  st.effects.push({ kind: 'exec', contract: contract.k === 'ap' && contract.f === 'at' ? contract.args[0] : get(contract, 'address'), msg, bs: [...st.loops, ...bs], line: line(node) });
};
const line = (n) => n.getSourceFile().getLineAndCharacterOfPosition(n.getStart()).line + 1;

// a condition about an element is a term of its own: the path does not divide on it
const still = (f) => { st.still++; try { return f(); } finally { st.still--; } };
// t with the element of the collection src replaced by the one found under i
const at = (t, src, i) => {
  const s = show(src);
  const go = (x) => {
    if (!x || typeof x !== 'object') return x;
    if (Array.isArray(x)) return x.map(go);
    if (x.k === 'key' && show(x.src) === s) return i;
    if (x.k === 'item' && show(x.src) === s) return { k: 'idx', of: src, i };
    if (x.k === 'ap' || x.k === 'sub') return { ...x, args: x.args.map(go) };
    if (x.k === 'prop') return get(go(x.of), x.n);
    if (x.k === 'cond') return { ...x, c: go(x.c), a: go(x.a), b: go(x.b) };
    if (x.k === 'obj' || x.k === 'arr') return { ...x, parts: x.parts.map((p) => ({ ...p, ...(p.key ? { key: go(p.key) } : {}), ...(p.val ? { val: go(p.val) } : {}), ...(p.spread ? { spread: go(p.spread) } : {}) })) };
    return x;
  };
  return go(t);
};

// what hands a transaction to the chain, and with how many arguments at least
const SENDS = { broadcast: 1, instantiate: 3, execute: 3, executeMultiple: 2 };
const LIST = (t) => (t.k === 'arr' ? { ...t, parts: t.parts.slice() } : t);
const ONE = (t) => LIST(t.k === 'arr' ? t : t.k === 'ap' && t.f === 'msg' ? arr([{ val: t }]) : t);
// a list taken off in pieces until none is left: each piece stands for all of them
const part = (l, k) => arr(elements(l, 'arr').map((e) => ({ bs: [...e.bs, { src: ap('where', ap(k)) }], val: e.val })));
const LISTS = {
  splice: (l, ...a) => {
    if (l.k !== 'arr' || a.length !== 2 || a[0].k !== 'lit' || a[0].v !== 0) return ANY;
    if (st.drain === l) { const all = LIST(l); all.parts = l.parts; l.parts = []; return all; }
    const some = part(l, 'splice');
    l.parts = part(l, 'rest').parts;
    return some;
  },
  shift: (l) => {
    if (l.k === 'arr' && st.drain === l && l.parts.length === 1 && !l.parts[0].spread) { const [p] = l.parts; l.parts = []; st.loops.push(...(p.bs || [])); return p.val; }
    return ANY;
  },
  map: (l, f) => { const p = ap('pos', l); return over(elements(l, 'arr'), (x) => cb(f, [x, p, l])); },
  forEach: (l, f) => { LISTS.map(l, f); return UNDEF; },
  flatMap: (l, f) => LISTS.flat(LISTS.map(l, f)),
  flat: (l) => arr(elements(l, 'arr').flatMap((e) => elements(e.val, 'arr').map((x) => ({ bs: [...e.bs, ...x.bs], val: x.val })))),
  filter: (l, f) => {
    const keep = elements(l, 'arr').map((e) => [e, inside(e.bs, () => still(() => cb(f, [e.val, ap('pos', l), l])))]);
    if (keep.every(([, c]) => defined(c) !== undefined && c.k === 'lit')) return arr(keep.filter(([, c]) => c.v).map(([e]) => ({ bs: e.bs, val: e.val })));
    // an equality with something outside narrows the list
    return arr(keep.map(([e, c]) => {
      const d = decide(c, true);
      if (d === false) return null;
      return { bs: d ? e.bs : [...e.bs, { src: ap('where', c) }], val: e.val };
    }).filter(Boolean));
  },
  concat: (l, ...more) => arr([l, ...more].flatMap((x) => elements(x, 'arr').map((e) => ({ bs: e.bs, val: e.val })))),
  push: (l, ...xs) => {
    if (l.k === 'arr') xs.forEach((val) => addPart(l, val.spreadOf ? { spread: val.spreadOf } : { val }));
    else xs.forEach((v) => st.writes.push({ at: show(l) + '[]', v }));
    return ANY;
  },
  add: (l, v) => { LISTS.push(l, v); return l; },
  slice: (l, ...a) => {
    const els = elements(l, 'arr');
    // xs.slice(i, i + n) with i going through xs in steps of n: every element, once
    if (a.length === 2 && a[0].k === 'ap' && a[0].f === 'step' && show(a[0].args[0]) === show(l) && a[1].k === 'ap' && a[1].f === 'add' && show(a[1].args[0]) === show(a[0]) && show(a[1].args[1]) === show(a[0].args[1]))
      return arr(els.map((e) => ({ ...e })));
    // xs.slice(from(i), to(i)) with i counting: every element, if the slices together are the list
    const h = a.map(header).find(Boolean);
    if (h && covers(h, a, l)) return arr(els.map((e) => ({ ...e })));
    if (!a.length || a.length === 1 && a[0].k === 'lit' && !a[0].v) return arr(els.map((e) => ({ ...e })));
    if (els.every((e) => !e.bs.length) && a.every((x) => x.k === 'lit')) return arr(els.slice(...a.map((x) => x.v)).map((e) => ({ ...e })));
    return arr(els.map((e) => ({ bs: [...e.bs, { src: ap('where', ap('slice', ...a)) }], val: e.val })));
  },
  reverse: (l) => l,
  sort: (l) => l,
  find: (l, f) => ap('find', l.k === 'arr' ? ANY : l, f.k === 'fn' ? inside([], () => still(() => cb(f, [{ k: 'item', src: l }]))) : f),
  reduce: (l, f, init) => {
    const els = elements(l, 'arr').filter((e) => live(e));
    if (!init) {
      if (els.length === 1 && !els[0].bs.length) return els[0].val;
      return { k: 'bad', why: 'reduce without an initial value starts from the first element itself' };
    }
    let acc = init;
    for (const e of els) {
      if (!e.bs.length) { acc = cb(f, [acc, e.val, ap('pos', l), l]); continue; }
      if (!isMut(acc)) return ANY;
      const before = acc.parts.slice();
      const hold = fresh(acc.k, before.slice());
      const r = inside(e.bs, () => cb(f, [hold, e.val, ap('pos', l), l]));
      acc = grown(acc.k, before, r, e.bs) || ANY;
      if (acc === ANY) return ANY;
    }
    return acc;
  },
};
// r is `before` with parts added in front or behind: those are added for every element
const grown = (k, before, r, bs) => {
  if (!r || r.k !== k) return null;
  const same = (a, b) => a === b || (a.key ? b.key && showKey(a.key) === showKey(b.key) : !b.key) && (a.val && b.val ? show(a.val) === show(b.val) : a.spread && b.spread && show(a.spread) === show(b.spread)) && loopsOf(a) === loopsOf(b);
  const n = r.parts.length - before.length;
  if (n < 0) return null;
  const wrap = (p) => ({ ...p, bs: bs.every((b) => (p.bs || []).includes(b)) ? p.bs : [...bs, ...(p.bs || [])] });
  if (before.every((p, i) => same(p, r.parts[i]))) return fresh(k, [...before, ...r.parts.slice(before.length).map(wrap)]);
  if (before.every((p, i) => same(p, r.parts[i + n]))) return fresh(k, [...r.parts.slice(0, n).map(wrap), ...before]);
  return null;
};

const args_ = (node, env) => (node.arguments || []).flatMap((a) => {
  if (ts.isSpreadElement(a)) {
    const l = ev(a.expression, env);
    if (l.k === 'arr' && l.parts.every((p) => !p.spread && !(p.bs || []).length)) return l.parts.map((p) => p.val);
    return [{ ...ANY, spreadOf: l }];
  }
  return [ev(a, env)];
});

const simple = (n) => {
  let ok = true;
  const look = (x) => {
    if (ts.isCallExpression(x) || ts.isObjectLiteralExpression(x) || ts.isArrayLiteralExpression(x) || ts.isAwaitExpression(x) || ts.isNewExpression(x) || ts.isBinaryExpression(x) && x.operatorToken.kind === S.EqualsToken) {
      if (!(ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ['toString', 'trim', 'toLowerCase'].includes(x.expression.name.text))) ok = false;
    }
    ts.forEachChild(x, look);
  };
  look(n);
  return ok;
};

// a call whose inside is not looked at: what it would do with a function given to it cannot be told
const calls = (n, o, a) => {
  if (a.some((x) => x.k === 'fn' || x.k === 'prim')) throw new Limit('function given to ' + n);
  return o ? ap(n, o, ...a) : ap(n, ...a);
};

const evCall = (node, env) => {
  const c = node.expression;
  if (ts.isPropertyAccessExpression(c)) {
    const m = c.name.text;
    const r = c.expression.getText();
    if (r === 'console' || r === 'logger' || r === 'colors') { args_(node, env); return UNDEF; }
    if (r === 'Object' && ['entries', 'keys', 'values'].includes(m)) { const t = ev(node.arguments[0], env); const a = arr(elements(t, m).map((e) => ({ bs: e.bs, val: e.val }))); return a; }
    if (r === 'Object' && m === 'fromEntries') {
      const l = ev(node.arguments[0], env);
      return obj(elements(l, 'arr').map((e) => (e.val.k === 'arr' && e.val.parts.length === 2 ? { bs: e.bs, key: e.val.parts[0].val, val: e.val.parts[1].val } : { bs: e.bs, spread: e.val })));
    }
    if (r === 'Object' && m === 'assign') {
      const [t, ...more] = args_(node, env);
      if (t.k === 'obj') more.forEach((x) => (x.k === 'obj' ? x.parts.forEach((p) => addPart(t, p)) : addPart(t, { spread: x })));
      return t;
    }
    if (r === 'Object' && m === 'freeze') return ev(node.arguments[0], env);
    if (r === 'Promise' && m === 'all') return ev(node.arguments[0], env);
    if (r === 'Promise' && m === 'resolve') return node.arguments.length ? ev(node.arguments[0], env) : UNDEF;
    if (r === 'Array' && m === 'from') { const a = args_(node, env); return a.length > 1 ? LISTS.map(a[0], a[1]) : LISTS.concat(a[0]); }
    if (r === 'Array' && m === 'isArray') { const x = ev(node.arguments[0], env); return x.k === 'arr' ? lit(true) : ap('isArray', x); }
    if (r === 'Math' && ['ceil', 'floor', 'trunc', 'round', 'min', 'max'].includes(m) && !node.arguments.some(ts.isSpreadElement)) return ap('math ' + m, ...node.arguments.map((x) => ev(x, env)));
    if (r === 'Number' && m === 'parseInt') return NUMF(ev(node.arguments[0], env));
    if (r === 'JSON') return ap('JSON.' + m, ...args_(node, env));
    if (st.wire && /^Msg\w+Contract/.test(r) && (m === 'fromJSON' || m === 'fromPartial')) return ap('msg', lit(r.replace(/^Msg|Contract.*$/g, '').toLowerCase()), args_(node, env)[0]);
    if (st.wire && ((SENDS[m] || 9) <= node.arguments.length)) {
      const a = args_(node, env);
      st.effects.push({ kind: m, args: m === 'broadcast' ? [ONE(get(a[0], 'msgs'))] : a.map(LIST), bs: st.loops.slice(), line: line(node) });
      return ap('receipt');
    }
    if (/^MsgExecuteContract/.test(r) && m === 'fromJSON') {
      const a = args_(node, env)[0];
      exec(ap('at', get(a, 'contractAddress')), get(a, 'msg'), node);
      return ANY;
    }
    if (m === 'get' && /^(CONTAINER|iocContainer)$/.test(r)) return sym('deps');
    const o = ev(c.expression, env);
    if (m === 'then' || m === 'catch' || m === 'finally') {
      const a = args_(node, env);
      // nothing is taken to fail
      if (m === 'then' && a.length) return cb(a[0], [o]);
      if (m === 'finally' && a.length) cb(a[0], []);
      return o;
    }
    if (o.k === 'fn' || o.k === 'prim') {
      const a = args_(node, env);
      if (m === 'bind') return { k: 'prim', f: (more) => apply(o, [...a.slice(1), ...more]) };
      if (m === 'call') return apply(o, a.slice(1));
      if (m === 'apply' && a[1] && a[1].k === 'arr' && a[1].parts.every((p) => !p.spread && !(p.bs || []).length)) return apply(o, a[1].parts.map((p) => p.val));
      throw new Limit('function method ' + m);
    }
    if (['entries', 'keys', 'values'].includes(m) && !node.arguments.length && (o.k === 'arr' || o.k === 'obj' || ck.isArrayLikeType(ck.getTypeAtLocation(c.expression)))) {
      if (o.k === 'obj') return arr(elements(o, m).map((e) => ({ bs: e.bs, val: e.val })));
      return arr(elements(o, 'arr').map((e) => { const q = { ...ap('pos', o), el: [e] }; return { bs: e.bs, val: m === 'values' ? e.val : m === 'keys' ? q : arr([{ val: q }, { val: e.val }]) }; }));
    }
    if (m === 'migrate' && node.arguments.length >= 3) { const a = args_(node, env); st.effects.push({ kind: 'migrate', args: a.slice(1), bs: st.loops.slice(), line: line(node) }); return ap('tx'); }
    if (m === 'toString' || m === 'trim' || m === 'toFixed') return STRF(o);
    if (m === 'set' || m === 'get' || m === 'has') {
      const a = args_(node, env);
      if (o.k === 'obj') { if (m === 'set') { set(o, a[0], a[1]); return o; } }
      if (o.k === 'arr') return ANY;
      return ap(m, o, ...a);
    }
    const d0 = declOf(c.name);
    const f0 = fnOf(d0);
    if (f0 && !OPAQUE.has(m)) return call(f0, args_(node, env), null);
    if (d0 && own(d0.getSourceFile()) && ts.isMethodDeclaration(d0) && ts.isClassLike(d0.parent)) {
      if (!d0.body || d0.asteriskToken) throw new Limit('method ' + m);
      const e = scope(null);
      e.vars.set('this', o);
      return call(d0, args_(node, env), e);
    }
    if (LISTS[m] && (o.k === 'arr' || o.k === 'prop' || o.k === 'item' || o.k === 'idx' || o.k === 'any' || o.k === 'bad' || o.k === 'sym' || o.k === 'cond' || o.k === 'ap')) {
      const a = args_(node, env);
      return LISTS[m](o, ...a);
    }
    const f = get(o, m);
    if (f.k === 'fn') return apply(f, args_(node, env));
    return calls('.' + m, o, args_(node, env));
  }
  if (ts.isIdentifier(c)) {
    const n = c.text;
    const local = lookup(env, n);
    if (local) return apply(local.vars.get(n), args_(node, env));
    if (MODELS[n]) return MODELS[n](args_(node, env), node);
    if (n === 'Number' || n === 'parseInt' || n === 'BigInt') return NUMF(ev(node.arguments[0], env));
    if (n === 'String') return STRF(ev(node.arguments[0], env));
    if (n === 'Boolean') return ap('bool', ev(node.arguments[0], env));
    if (n === 'saveContext' || n === 'saveAgentConfig') { const a = args_(node, env); st.effects.push({ kind: n, args: a, bs: st.loops.slice(), line: line(node) }); return ap(n); }
    const d = declOf(c);
    const f = fnOf(d);
    const real = f && d.name && d.name.text ? d.name.text : n;
    if (real === 'getNetwork') { args_(node, env); return sym('network'); }
    if (f && !(st.opaque.has(real) || OPAQUE.has(real) && !(st.open || []).includes(real))) return call(f, args_(node, env), null);
    return calls(real, null, args_(node, env).filter((a) => !(a.k === 'sym' && a.s === 'client')));
  }
  const f = ev(c, env);
  return apply(f, args_(node, env));
};

const globals = new Map();
const ev = (n, env) => {
  if (++st.steps > 20000) throw new Limit('steps');
  switch (n.kind) {
    case S.ParenthesizedExpression: case S.AsExpression: case S.NonNullExpression: case S.AwaitExpression: case S.SatisfiesExpression: case S.TypeAssertionExpression: return ev(n.expression, env);
    case S.StringLiteral: case S.NoSubstitutionTemplateLiteral: return lit(n.text);
    case S.NumericLiteral: return lit(Number(n.text));
    case S.BigIntLiteral: return lit(BigInt(n.text.slice(0, -1)));
    case S.TrueKeyword: return lit(true);
    case S.FalseKeyword: return lit(false);
    case S.NullKeyword: return UNDEF;
    case S.YieldExpression: {
      const l = lookup(env, 'yield'), v = n.expression ? ev(n.expression, env) : UNDEF;
      if (!l) throw new Limit('yield');
      addPart(l.vars.get('yield'), n.asteriskToken ? { spread: v } : { val: v });
      return UNDEF;
    }
    case S.ThisKeyword: { const l = lookup(env, 'this'); return l ? l.vars.get('this') : sym('this'); }
    case S.ArrowFunction: case S.FunctionExpression: return { k: 'fn', node: n, env };
    case S.Identifier: {
      if (n.text === 'undefined') return UNDEF;
      const l = lookup(env, n.text);
      if (l) return l.vars.get(n.text);
      const d = declOf(n);
      const f = fnOf(d);
      if (f) return { k: 'fn', node: f, env: null };
      if (d && own(d.getSourceFile()) && ts.isVariableDeclaration(d) && d.initializer && (ts.isStringLiteralLike(d.initializer) || ts.isNumericLiteral(d.initializer) || ts.isObjectLiteralExpression(d.initializer) || ts.isArrayLiteralExpression(d.initializer)))
        return ev(d.initializer, null);
      if (['Number', 'String', 'parseInt', 'Boolean'].includes(n.text)) return { k: 'prim', f: ([x]) => (n.text === 'String' ? STRF(x) : n.text === 'Boolean' ? ap('bool', x) : NUMF(x)) };
      return sym(n.text);
    }
    case S.PropertyAccessExpression: return get(ev(n.expression, env), n.name.text);
    case S.ElementAccessExpression: {
      const o = ev(n.expression, env);
      const i = ev(n.argumentExpression, env);
      if (i.k === 'lit') return get(o, String(i.v));
      if (i.k === 'ap' && i.f === 'pos') {
        // the element at the position the loop is at: of the list gone through, or of one built from the same entries
        const el = i.el || elements(i.args[0], 'arr');
        if (show(o) === show(i.args[0])) return el.length === 1 ? el[0].val : ANY;
        const mine = elements(o, 'arr');
        if (mine.length === 1 && el.length === 1 && mine[0].bs.map((b) => show(b.src)).join() === el[0].bs.map((b) => show(b.src)).join()) return mine[0].val;
        return ANY;
      }
      if (i.k === 'ap' && (i.f === 'str' || i.f === 'num') && i.args[0].k === 'key' && show(i.args[0].src) === show(o)) return { k: 'item', src: o };
      if (i.k === 'key' && show(i.src) === show(o)) return { k: 'item', src: o };
      if (o.k === 'obj') {
        for (let j = o.parts.length - 1; j >= 0; j--) {
          const p = o.parts[j];
          if (p.spread || (p.bs || []).length > beyond(o).length || showKey(p.key) !== showKey(i)) break;
          return p.val;
        }
        const hit = o.parts.filter((p) => !p.spread && showKey(p.key) === showKey(i));
        if (hit.length === 1 && o.parts.every((p) => !p.spread)) return hit[0].val;
        const [p] = o.parts;
        if (o.parts.length === 1 && !p.spread && (p.bs || []).length === 1 && showKey(p.key) === 'key(' + show(p.bs[0].src) + ')') return at(p.val, p.bs[0].src, i);
        return { k: 'idx', of: { ...o, parts: o.parts.slice() }, i };
      }
      // what a list under construction holds at this point (the list itself may come to hold the answer)
      return { k: 'idx', of: o.k === 'arr' ? { ...o, parts: o.parts.slice() } : o, i };
    }
    case S.TemplateExpression: {
      const xs = n.templateSpans.map((s) => ev(s.expression, env));
      if (!n.head.text && xs.length === 1 && !n.templateSpans[0].literal.text) return STRF(xs[0]);
      if (xs.every((x) => x.k === 'lit')) return lit(n.head.text + xs.map((x, i) => String(x.v) + n.templateSpans[i].literal.text).join(''));
      return ap('text', ...xs);
    }
    case S.ArrayLiteralExpression: {
      const a = arr();
      for (const e of n.elements) {
        if (ts.isSpreadElement(e)) {
          const x = ev(e.expression, env);
          if (x.k === 'lit' && x.v === undefined) continue;
          a.parts.push(...elements(x, 'arr').map((y) => ({ bs: y.bs, val: y.val })));
        } else a.parts.push({ val: ev(e, env) });
      }
      return a;
    }
    case S.ObjectLiteralExpression: {
      const o = obj();
      const put = (p) => {
        if (p.key && p.key.k === 'lit' && !(p.bs || []).length) o.parts = o.parts.filter((q) => q.spread || q.key.k !== 'lit' || String(q.key.v) !== String(p.key.v) || (q.bs || []).length);
        o.parts.push(p);
      };
      for (const p of n.properties) {
        if (ts.isSpreadAssignment(p)) {
          const x = ev(p.expression, env);
          if (x.k === 'obj') x.parts.forEach(put);
          else if (!(x.k === 'lit')) put({ spread: x });
        } else if (ts.isShorthandPropertyAssignment(p)) put({ key: lit(p.name.text), val: ev(p.name, env) });
        else if (ts.isPropertyAssignment(p)) {
          const k = ts.isComputedPropertyName(p.name) ? ev(p.name.expression, env) : lit(p.name.text);
          put({ key: k, val: ev(p.initializer, env) });
        } else if (ts.isMethodDeclaration(p)) put({ key: lit(p.name.getText()), val: { k: 'fn', node: p, env } });
      }
      return o;
    }
    case S.CallExpression: return evCall(n, env);
    case S.NewExpression: {
      const t = n.expression.getText();
      if (t === 'Map') { const a = n.arguments && n.arguments.length ? ev(n.arguments[0], env) : null; return a ? obj(elements(a, 'arr').map((e) => ({ bs: e.bs, key: get(e.val, '0'), val: get(e.val, '1') }))) : obj(); }
      const d = declOf(n.expression);
      if (d && own(d.getSourceFile()) && ts.isClassLike(d)) {
        if (d.heritageClauses) throw new Limit('class ' + t);
        const o = obj(), e = scope(null);
        e.vars.set('this', o);
        const c = d.members.find((x) => ts.isConstructorDeclaration(x) && x.body);
        const as = args_(n, env);
        for (const x of d.members) if (ts.isPropertyDeclaration(x) && x.initializer && !(ts.getCombinedModifierFlags(x) & ts.ModifierFlags.Static)) set(o, lit(x.name.getText()), ev(x.initializer, e));
        if (c) {
          const i = scope(e);
          c.parameters.forEach((q, k) => {
            let v = k < as.length ? as[k] : UNDEF;
            if (q.initializer && v.k === 'lit' && v.v === undefined) v = ev(q.initializer, i);
            bind(q.name, v, i);
            if (ts.isParameterPropertyDeclaration(q, c)) set(o, lit(q.name.getText()), v);
          });
          try { run(c.body.statements, i); } catch (x) { if (!(x instanceof Return)) throw x; }
        }
        return o;
      }
      // a set is taken for the list of what is put into it
      if (t === 'Set') { const a = n.arguments && n.arguments.length ? ev(n.arguments[0], env) : null; return a && !(a.k === 'lit') ? LISTS.concat(a) : arr([]); }
      const a = (n.arguments || []).map((x) => ev(x, env));
      return a.length ? ANY : ap('new ' + t);
    }
    case S.PrefixUnaryExpression: {
      const x = ev(n.operand, env);
      if (n.operator === S.ExclamationToken) { const d = defined(x); return d !== undefined && x.k !== 'ap' ? lit(!d) : ap('not', x); }
      if (n.operator === S.PlusToken) return NUMF(x);
      return ANY;
    }
    case S.PostfixUnaryExpression: return ANY;
    case S.TypeOfExpression: return ap('typeof', ev(n.expression, env));
    case S.ConditionalExpression: {
      const c = ev(n.condition, env);
      const d = decide(c, true);
      if (d !== undefined) return ev(d ? n.whenTrue : n.whenFalse, env);
      if (simple(n.whenTrue) && simple(n.whenFalse) && !(c.k === 'ap' && (c.f === 'empty' || c.f === 'len'))) {
        let [, pol] = norm(c);
        const a = ev(n.whenTrue, env), b = ev(n.whenFalse, env);
        if (show(a) === show(b)) return a;
        if (c.k === 'ap' && c.f === 'not') return { k: 'cond', c: c.args[0], a: b, b: a };
        return { k: 'cond', c, a, b };
      }
      return ev(decide(c) ? n.whenTrue : n.whenFalse, env);
    }
    case S.BinaryExpression: return bin(n, env);
    case S.VoidExpression: ev(n.expression, env); return UNDEF;
    case S.DeleteExpression: return ANY;
    default: return ANY;
  }
};
const bin = (n, env) => {
  const op = n.operatorToken.kind;
  if (op === S.EqualsToken || op === S.BarBarEqualsToken || op === S.QuestionQuestionEqualsToken) {
    if (op !== S.EqualsToken) {
      const cur = ev(n.left, env);
      if (decide(cur)) return cur;
    }
    const v = ev(n.right, env);
    assign(n.left, v, env);
    return v;
  }
  if (op === S.BarBarToken || op === S.QuestionQuestionToken) {
    const a = ev(n.left, env);
    const d = decide(a, true);
    if (d !== undefined) return d ? a : ev(n.right, env);
    if (st.still) return OR(a, ev(n.right, env));
    if (simple(n.right)) return OR(a, ev(n.right, env));
    // the result of an operation with a fallback that has effects (or is a fresh collection): both ways
    if (a.k === 'ap' && ['findHook'].includes(a.f)) return OR(a, ev(n.right, env));
    return decide(a) ? a : ev(n.right, env);
  }
  if (op === S.AmpersandAmpersandToken) {
    const a = ev(n.left, env);
    if (st.still && decide(a, true) === undefined) return ap('and', a, ev(n.right, env));
    return decide(a) ? ev(n.right, env) : a.k === 'lit' ? a : lit(false);
  }
  if (op === S.CommaToken) { ev(n.left, env); return ev(n.right, env); }
  const a = ev(n.left, env);
  const b = ev(n.right, env);
  const neg = op === S.ExclamationEqualsEqualsToken || op === S.ExclamationEqualsToken;
  if (neg || op === S.EqualsEqualsEqualsToken || op === S.EqualsEqualsToken) {
    const wrap = (t) => (neg ? (t.k === 'lit' ? lit(!t.v) : ap('not', t)) : t);
    for (const [x, y] of [[a, b], [b, a]]) {
      if (y.k === 'lit' && y.v === undefined) { const d = defined(x); return wrap(x.k === 'lit' ? lit(x.v === undefined) : d !== undefined && x.k !== 'ap' ? lit(!d) : ap('not', x)); }
      if (x.k === 'ap' && x.f === 'len' && y.k === 'lit' && y.v === 0) return wrap(x.args[0].k === 'arr' && !x.args[0].parts.filter(live).length ? lit(true) : ap('empty', x.args[0]));
    }
    if (a.k === 'lit' && b.k === 'lit') return wrap(lit(a.v === b.v));
    if (a.k === 'any' || b.k === 'any') return ANY;
    const s = [show(a), show(b)];
    if (s[0] === s[1]) return wrap(lit(true));
    const t = b.k === 'lit' ? ap('eq', a, b) : a.k === 'lit' ? ap('eq', b, a) : s[0] < s[1] ? ap('eq', a, b) : ap('eq', b, a);
    return wrap(t);
  }
  if ([S.GreaterThanToken, S.GreaterThanEqualsToken, S.LessThanToken, S.LessThanEqualsToken].includes(op)) {
    if (a.k === 'ap' && a.f === 'len' && b.k === 'lit') {
      if (op === S.GreaterThanToken && b.v === 0 || op === S.GreaterThanEqualsToken && b.v === 1) return ap('not', ap('empty', a.args[0]));
      if (op === S.LessThanToken && b.v === 1) return ap('empty', a.args[0]);
    }
    return ap('cmp' + op, a, b);
  }
  if (op === S.PlusToken && a.k === 'lit' && b.k === 'lit') return lit(a.v + b.v);
  if (op === S.PlusToken && (a.k === 'ap' && a.f === 'step' || b.k === 'ap' && b.f === 'step')) return a.k === 'ap' && a.f === 'step' ? ap('add', a, b) : ap('add', b, a);
  return ap('op' + op, a, b);
};
const assign = (l, v, env) => {
  while (ts.isParenthesizedExpression(l) || ts.isNonNullExpression(l) || ts.isAsExpression(l)) l = l.expression;
  if (ts.isIdentifier(l)) { const e = lookup(env, l.text); if (e) e.vars.set(l.text, v); return; }
  if (ts.isPropertyAccessExpression(l)) return set(ev(l.expression, env), lit(l.name.text), v);
  if (ts.isElementAccessExpression(l)) return set(ev(l.expression, env), ev(l.argumentExpression, env), v);
};

// ---- statements
const run = (ss, env) => {
  for (const s of ss) if (ts.isFunctionDeclaration(s) && s.name) env.vars.set(s.name.text, { k: 'fn', node: s, env });
  for (const s of ss) stmt(s, env);
};
const decls = (list, env) => list.declarations.forEach((d) => bind(d.name, d.initializer ? ev(d.initializer, env) : UNDEF, env));
const body = (s, env) => (ts.isBlock(s) ? run(s.statements, scope(env)) : stmt(s, scope(env)));
const loop = (els, pat, b, env) => {
  for (const e of els) {
    if (!live(e)) continue;
    const before = snapshot(env);
    const inner = scope(env);
    try {
      inside(e.bs, () => { if (pat) bind(pat, e.val, inner); body(b, inner); });
    } catch (x) { if (!(x instanceof Jump)) throw x; if (x.w === 'break' && !e.bs.length) break; }
    if (e.bs.length) settle(before, env, e.bs);
  }
};
// variables reassigned in a loop body: collections that grew grow for every element, the rest is unknown
const snapshot = (env) => { const m = []; for (let e = env; e; e = e.up) for (const [k, v] of e.vars) m.push([e, k, v, isMut(v) ? v.parts.slice() : null]); return m; };
const settle = (before, env, bs) => {
  for (const [e, k, v, parts] of before) {
    const now = e.vars.get(k);
    if (now === v) continue;
    const g = parts && grown(v.k, parts, now, bs);
    e.vars.set(k, g || ANY);
  }
};
// the list whose length is read in an expression
const counting = (n, env) => {
  let hit = null;
  const look = (x) => { if (!hit && ts.isPropertyAccessExpression(x) && x.name.text === 'length') { try { hit = ev(x.expression, env); } catch (e) { if (!(e instanceof Limit)) throw e; } } if (!hit) ts.forEachChild(x, look); };
  if (n) look(n);
  return hit;
};
// the list a loop goes on for: until it is empty, or until little of it is left
const drained = (c, env) => {
  const len = (x) => (ts.isPropertyAccessExpression(x) && x.name.text === 'length' ? ev(x.expression, env) : null);
  if (ts.isBinaryExpression(c)) {
    const l = len(c.left), k = ts.isNumericLiteral(c.right) || ts.isIdentifier(c.right) ? ev(c.right, env) : null, o = c.operatorToken.kind;
    if (!l || l.k !== 'arr' || !k || k.k !== 'lit') return [];
    const least = o === S.GreaterThanToken ? k.v + 1 : o === S.GreaterThanEqualsToken ? k.v : (o === S.ExclamationEqualsEqualsToken || o === S.ExclamationEqualsToken) && k.v === 0 ? 1 : 0;
    return least >= 1 ? [l, least === 1] : [];
  }
  const l = len(c);
  return l && l.k === 'arr' ? [l, true] : [];
};
// arithmetic over the length of a list and a counter
const calc = (t, n, i) => {
  if (t.k === 'lit') return typeof t.v === 'number' ? t.v : NaN;
  if (t.k !== 'ap') return NaN;
  if (t.f === 'len') return n;
  if (t.f === 'count') return i;
  const a = t.args.map((x) => calc(x, n, i));
  if (t.f.startsWith('math ')) return Math[t.f.slice(5)](...a);
  if (t.f === 'add') return a[0] + a[1];
  switch (t.f.startsWith('op') ? Number(t.f.slice(2)) : 0) {
    case S.PlusToken: return a[0] + a[1];
    case S.MinusToken: return a[0] - a[1];
    case S.AsteriskToken: return a[0] * a[1];
    case S.SlashToken: return a[0] / a[1];
    case S.PercentToken: return a[0] % a[1];
    default: return NaN;
  }
};
const within = (t, f) => (t && t.k === 'ap' ? (t.f === f ? t : t.args.map((x) => within(x, f)).find(Boolean)) : undefined);
const header = (t) => { const c = within(t, 'count'); return c ? c.hdr : undefined; };
const SIZES = Array.from({ length: 130 }, (_, n) => n);
// for (let i = a; i < b; i += c): the values i takes, for each length of the list b speaks of
const counted = (s, env) => {
  const c = s.condition, u = s.incrementor;
  if (!c || !u || !ts.isBinaryExpression(c) || !ts.isIdentifier(c.left)) return null;
  const name = c.left.text, start = env.vars.get(name), o = c.operatorToken.kind;
  const by = ts.isBinaryExpression(u) && ts.isIdentifier(u.left) && u.left.text === name ? u : null;
  let step = null, sign = 1;
  if ((ts.isPostfixUnaryExpression(u) || ts.isPrefixUnaryExpression(u)) && ts.isIdentifier(u.operand) && u.operand.text === name) { step = lit(1); if (u.operator === S.MinusMinusToken) sign = -1; }
  else if (by && (by.operatorToken.kind === S.PlusEqualsToken || by.operatorToken.kind === S.MinusEqualsToken)) { step = ev(by.right, env); if (by.operatorToken.kind === S.MinusEqualsToken) sign = -1; }
  else if (by && by.operatorToken.kind === S.EqualsToken && ts.isBinaryExpression(by.right) && by.right.operatorToken.kind === S.PlusToken && by.right.left.getText() === name) step = ev(by.right.right, env);
  const goes = { [S.LessThanToken]: (x, y) => x < y, [S.LessThanEqualsToken]: (x, y) => x <= y, [S.GreaterThanToken]: (x, y) => x > y, [S.GreaterThanEqualsToken]: (x, y) => x >= y, [S.ExclamationEqualsEqualsToken]: (x, y) => x !== y, [S.ExclamationEqualsToken]: (x, y) => x !== y }[o];
  if (!start || !step || !goes) return null;
  const bound = ev(c.right, env);
  const of = within(bound, 'len') || within(start, 'len');
  if (!of) return null;
  const seqs = [];
  for (const n of SIZES) {
    const seq = [], k = sign * calc(step, n), end = calc(bound, n);
    let i = calc(start, n);
    if ([k, end, i].some(Number.isNaN) || !k) return null;
    for (; goes(i, end); i += k) { seq.push(i); if (seq.length > 300) return null; }
    seqs.push(seq);
  }
  return { name, of: of.args[0], seqs };
};
const covers = (h, [from, to], l) => {
  const of = [from, to].map((t) => t && within(t, 'len')).find(Boolean);
  const me = (t) => show(t) === show(l) || l.k === 'arr' && show(t) === show(lenOf(l));
  if (!me(h.of) || of && !me(of.args[0])) return false;
  return SIZES.every((n) => {
    const all = Array.from({ length: n }, (_, i) => i);
    const got = h.seqs[n].flatMap((i) => all.slice(calc(from, n, i), to ? calc(to, n, i) : n));
    return got.length === n && got.every((x, i) => x === i);
  });
};
const stmt = (s, env) => {
  switch (s.kind) {
    case S.VariableStatement: return decls(s.declarationList, env);
    case S.ExpressionStatement: ev(s.expression, env); return;
    case S.ReturnStatement: throw new Return(s.expression ? ev(s.expression, env) : UNDEF);
    case S.ThrowStatement: throw new Thrown();
    case S.Block: return run(s.statements, scope(env));
    case S.IfStatement: {
      if (decide(ev(s.expression, env))) body(s.thenStatement, env);
      else if (s.elseStatement) body(s.elseStatement, env);
      return;
    }
    case S.SwitchStatement: {
      const v = ev(s.expression, env);
      const inner = scope(env);
      let on = false;
      const cs = s.caseBlock.clauses;
      const go = (from) => { try { for (let i = from; i < cs.length; i++) run(cs[i].statements, inner); } catch (x) { if (!(x instanceof Jump && x.w === 'break')) throw x; } };
      for (let i = 0; i < cs.length; i++) {
        if (ts.isDefaultClause(cs[i])) continue;
        const c = ev(cs[i].expression, env);
        const eq = v.k === 'lit' && v.v === true && c.k !== 'lit' ? c : v.k === 'lit' && c.k === 'lit' ? lit(v.v === c.v) : v.k === 'any' ? ANY : ap('eq', v, c);
        if (eq.k === 'lit' ? eq.v : decide(eq)) return go(i);
      }
      const d = cs.findIndex((c) => ts.isDefaultClause(c));
      if (d >= 0) go(d);
      return;
    }
    case S.ForOfStatement: {
      const l = ev(s.expression, env);
      const pat = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0].name : null;
      return loop(elements(l, 'arr'), pat, s.statement, env);
    }
    case S.ForInStatement: {
      const l = ev(s.expression, env);
      const pat = ts.isVariableDeclarationList(s.initializer) ? s.initializer.declarations[0].name : null;
      return loop(elements(l, 'keys'), pat, s.statement, env);
    }
    case S.ForStatement: {
      // for (let i = 0; i < xs.length; i++)
      const inner = scope(env);
      if (s.initializer && ts.isVariableDeclarationList(s.initializer)) decls(s.initializer, inner);
      const c = s.condition;
      const u = s.incrementor;
      if (c && u && ts.isBinaryExpression(c) && c.operatorToken.kind === S.LessThanToken && ts.isIdentifier(c.left) && ts.isBinaryExpression(u) && u.operatorToken.kind === S.PlusEqualsToken && u.left.getText() === c.left.text && ts.isPropertyAccessExpression(c.right) && c.right.name.text === 'length' && (inner.vars.get(c.left.text) || ANY).k === 'lit' && inner.vars.get(c.left.text).v === 0) {
        const l = ev(c.right.expression, inner);
        const it = scope(inner);
        it.vars.set(c.left.text, ap('step', LIST(l), ev(u.right, inner)));
        const before = snapshot(env);
        body(s.statement, it);
        settle(before, env, [BINDER(ANY)]);
        return;
      }
      const h = counted(s, inner);
      if (!h) throw new Limit('loop');
      // one element at a time (each of them, or only some), or a stretch of the list at a time
      if (h.seqs.every((q) => q.every((x, i) => !i || Math.abs(x - q[i - 1]) === 1)) && !within(ev(c.right, inner), 'math ceil') && h.seqs.some((q, n) => n > 3 && q.length > n - 3)) {
        const all = h.seqs.every((q, n) => q.length === n && q.every((x) => x >= 0 && x < n));
        const list = counting(c.right, inner) || counting(s.initializer, inner) || h.of;
        for (const e of elements(list, 'arr')) {
          if (!live(e)) continue;
          const before = snapshot(env);
          const it = scope(inner);
          const bs = all ? e.bs : [...e.bs, { src: ap('where', ap('slice', ...h.seqs[5].map((x) => lit(x)))) }];
          it.vars.set(h.name, { ...ap('pos', list), el: [{ ...e, bs }] });
          try { inside(bs, () => body(s.statement, it)); } catch (x) { if (!(x instanceof Jump)) throw x; }
          if (bs.length) settle(before, env, bs);
        }
        return;
      }
      const it = scope(inner);
      it.vars.set(h.name, { ...ap('count', h.of), hdr: h });
      const before = snapshot(env);
      body(s.statement, it);
      settle(before, env, [BINDER(ANY)]);
      return;
    }
    case S.TryStatement: {
      // the outcome of interest is the one in which nothing fails
      run(s.tryBlock.statements, scope(env));
      if (s.finallyBlock) run(s.finallyBlock.statements, scope(env));
      return;
    }
    case S.ContinueStatement: throw new Jump('continue');
    case S.BreakStatement: throw new Jump('break');
    case S.FunctionDeclaration: case S.TypeAliasDeclaration: case S.InterfaceDeclaration: case S.EmptyStatement: return;
    case S.WhileStatement: {
      // while (xs.length > 0) { … xs.splice(0, n) … }
      const [l, full] = drained(s.expression, env);
      if (!l || st.drain) throw new Limit('loop');
      const n = st.loops.length, was = l.parts;
      if (full) st.drain = l;
      try { body(s.statement, env); } finally { st.drain = null; st.loops.length = n; }
      if (full && l.parts.length || l.parts === was) throw new Limit('loop');
      return;
    }
    case S.DoStatement: throw new Limit('loop');
    default: return;
  }
};

// ---- requests
const find = (file, name) => {
  for (const f of program.getSourceFiles()) {
    if (!own(f)) continue;
    if (file && path.relative(repo, f.fileName) !== file) continue;
    let hit = null;
    ts.forEachChild(f, (s) => {
      if (ts.isFunctionDeclaration(s) && s.name && s.name.text === name && s.body) hit = s;
      if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) if (d.name.getText() === name && fnOf(d)) hit = fnOf(d);
    });
    if (hit) return hit;
  }
  return null;
};
// what a parameter stands for
const named = (t, n) => {
  const s = t.aliasSymbol || t.getSymbol();
  const y = s ? s.name : '';
  if (y === 'Context') return sym('ctx');
  if (y === 'Client') return sym('client');
  if (y === 'Dependencies') return sym('deps');
  const cfgs = t.flags & ts.TypeFlags.Union ? t.types.filter((x) => !(x.flags & EMPTYF)) : [t];
  if (cfgs.length && cfgs.every((x) => x.flags & (ts.TypeFlags.Object | ts.TypeFlags.Intersection) && ck.getPropertyOfType(x, 'type'))) return sym('cfg');
  if (cfgs.length && cfgs.every((x) => x.flags & (ts.TypeFlags.Object | ts.TypeFlags.Intersection) && ck.getPropertyOfType(x, 'hrp') && ck.getPropertyOfType(x, 'gas'))) return sym('network');
  return sym(n);
};
const EMPTYF = ts.TypeFlags.Undefined | ts.TypeFlags.Null;
const answer = (q) => {
  const fn = find(q.file, q.fn) || (q.file ? find(null, q.fn) : null);
  if (!fn) return { error: 'there is no function ' + q.fn };
  const outs = [];
  const where = { file: path.relative(repo, fn.getSourceFile().fileName), line: line(fn) };
  let plan = [];
  for (let n = 0; n < 600; n++) {
    st = { wire: q.wire, drain: null, opaque: new Set(q.opaque || []), loops: [], effects: [], overlay: new Map(), writes: [], assume: new Map(), gone: new Set(), plan, taken: 0, stack: [], steps: 0, deps: 0, at: [], open: q.open, still: 0 };
    for (const [k, v] of Object.entries(q.know || {})) st.overlay.set(k, lit(v));
    let ret = null, end = 'done', why = '';
    try {
      const args = fn.parameters.map((p) => {
        if (ts.isObjectBindingPattern(p.name)) return obj(ck.getPropertiesOfType(ck.getTypeAtLocation(p)).map((x) => ({ key: lit(x.name), val: named(ck.getTypeOfSymbolAtLocation(x, p), x.name) })));
        return named(ck.getTypeAtLocation(p), p.name.getText());
      });
      ret = call(fn, args, null);
    } catch (x) {
      if (x instanceof Thrown) end = 'throws';
      else if (x instanceof Limit) { end = 'unknown'; why = x.message; }
      else { end = 'unknown'; why = String(x && x.stack || x).slice(0, 300); }
    }
    const o = { end, why, assume: [...st.assume], ret: ret ? out(ret) : null };
    o.effects = st.effects.filter((e) => !(e.bs || []).some((b) => gone(b.src))).map((e) => ({
      kind: e.kind, name: e.name, line: e.line, each: (e.bs || []).map((b) => show(b.src)),
      ...(e.what ? { what: show(e.what) } : {}), ...(e.init ? { init: out(e.init) } : {}), ...(e.contract ? { contract: show(e.contract), msg: out(e.msg) } : {}), ...(e.args ? { args: e.args.map(out) } : {}),
    }));
    o.writes = st.writes.map((w) => ({ at: w.at, val: out(w.v) }));
    o.gone = [...st.gone];
    outs.push(o);
    plan = st.plan.slice(0, st.taken);
    while (plan.length && !plan[plan.length - 1]) plan.pop();
    if (!plan.length) break;
    plan[plan.length - 1] = false;
  }
  return { where, outs, params: fn.parameters.map((p) => (ts.isIdentifier(p.name) ? p.name.text : null)) };
};
// ---- options a command declares and the ones its handler reads
const camel = (s) => s.replace(/-([a-z])/g, (_, c) => c.toUpperCase());
const longOf = (flags) => { const m = /--(no-)?([\w-]+)/.exec(flags); return m ? camel(m[2]) : null; };
const options = () => {
  const global = new Set();
  const chain = (e, acc) => {
    // the options and the handler of a chain of calls
    while (e && (ts.isCallExpression(e) || ts.isPropertyAccessExpression(e) || ts.isParenthesizedExpression(e))) {
      if (ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression)) {
        const m = e.expression.name.text;
        const a = e.arguments[0];
        if ((m === 'option' || m === 'requiredOption') && a && ts.isStringLiteralLike(a)) acc.opts.add(longOf(a.text));
        if (m === 'addOption' && a) acc.opts.add(optionFlags(a));
        if (m === 'argument' || m === 'arguments') acc.nargs = (acc.nargs || 0) + 1;
        if (m === 'action' && a) acc.handler = acc.handler || a;
        if (m === 'command' && !acc.sub) acc.sub = a && ts.isStringLiteralLike(a) ? a.text : '?';
        e = e.expression.expression;
      } else if (ts.isCallExpression(e) || ts.isPropertyAccessExpression(e)) e = e.expression;
      else e = e.expression;
    }
    acc.base = e;
    return acc;
  };
  const optionFlags = (a) => {
    let hit = null;
    const look = (x) => {
      if (ts.isNewExpression(x) && x.expression.getText() === 'Option' && x.arguments[0] && ts.isStringLiteralLike(x.arguments[0])) hit = longOf(x.arguments[0].text);
      ts.forEachChild(x, look);
    };
    look(a);
    if (!hit && ts.isIdentifier(a)) { const d = declOf(a); if (d && d.initializer) look(d.initializer); }
    return hit;
  };
  const parent = (id) => {
    const d = id && ts.isIdentifier(id) ? declOf(id) : null;
    return d && ts.isVariableDeclaration(d) && d.initializer ? chain(d.initializer, { opts: new Set() }) : null;
  };
  const res = [];
  const cmds = [];
  for (const f of program.getSourceFiles()) {
    if (!own(f)) continue;
    const look = (x) => {
      if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ['action', 'option', 'addOption', 'requiredOption', 'command', 'hook', 'description', 'configureHelp', 'argument', 'version', 'name'].includes(x.expression.name.text)
        && !(ts.isPropertyAccessExpression(x.parent) && x.parent.expression === x)) {
        const c = chain(x, { opts: new Set() });
        const root = c.base;
        const isCmd = root && (ts.isNewExpression(root) && root.expression.getText() === 'Command' || ts.isIdentifier(root) && parent(root) && parent(root).base && ts.isNewExpression(parent(root).base) && parent(root).base.expression.getText() === 'Command');
        if (isCmd) cmds.push({ c, file: f, node: x });
      }
      ts.forEachChild(x, look);
    };
    look(f);
    if (path.basename(f.fileName) === 'index.ts' && path.dirname(path.relative(repo, f.fileName)) === 'script') {
      const g = (x) => { if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ['option', 'addOption', 'requiredOption'].includes(x.expression.name.text)) { const a = x.arguments[0]; const n = ts.isStringLiteralLike(a) ? longOf(a.text) : optionFlags(a); if (n) global.add(n); } ts.forEachChild(x, g); };
      g(f);
    }
  }
  for (const { c, file } of cmds) {
    if (!c.handler) continue;
    const known = new Set([...c.opts, ...global]);
    const p = parent(c.base);
    if (p) p.opts.forEach((o) => known.add(o));
    const reads = new Map();
    const seen = new Set();
    const scan = (fn, from) => {
      if (!fn || seen.has(fn)) return;
      seen.add(fn);
      // variables holding the options
      const vars = new Set();
      const isOpts = (e) => {
        e = strip(e);
        return e && ts.isCallExpression(e) && ts.isPropertyAccessExpression(e.expression) && ['optsWithGlobals', 'opts'].includes(e.expression.name.text);
      };
      const note = (pat) => pat.elements.forEach((b) => !b.dotDotDotToken && reads.set((b.propertyName || b.name).getText(), b));
      const po = fn.parameters[from];
      if (po) { if (ts.isObjectBindingPattern(po.name)) note(po.name); else vars.add(po); }
      const look = (x) => {
        if (ts.isVariableDeclaration(x) && x.initializer && isOpts(x.initializer)) {
          if (ts.isObjectBindingPattern(x.name)) note(x.name); else vars.add(x);
        }
        if (ts.isVariableDeclaration(x) && x.initializer && ts.isObjectBindingPattern(x.name) && ts.isIdentifier(strip(x.initializer)) && vars.has(declOf(strip(x.initializer)))) note(x.name);
        if (ts.isPropertyAccessExpression(x) && isOpts(x.expression)) reads.set(x.name.text, x);
        if (isOpts(x) && ts.isCallExpression(x)) {
          let up = x.parent;
          while (up && (ts.isParenthesizedExpression(up) || ts.isAsExpression(up) || ts.isNonNullExpression(up))) up = up.parent;
          if (!ts.isPropertyAccessExpression(up) && !ts.isVariableDeclaration(up)) reads.set('*', x);
        }
        if (ts.isIdentifier(x) && vars.has(declOf(x)) && x.parent && !(ts.isVariableDeclaration(x.parent) && x.parent.name === x) && !ts.isParameter(x.parent)) {
          let up = x.parent;
          while (up && (ts.isParenthesizedExpression(up) || ts.isAsExpression(up) || ts.isNonNullExpression(up))) up = up.parent;
          if (!(ts.isPropertyAccessExpression(up) && strip(up.expression) === x) && !(ts.isVariableDeclaration(up) && ts.isObjectBindingPattern(up.name))) reads.set('*', x);
        }
        if (ts.isPropertyAccessExpression(x) && ts.isIdentifier(strip(x.expression)) && vars.has(declOf(strip(x.expression)))) reads.set(x.name.text, x);
        ts.forEachChild(x, look);
      };
      look(fn.body);
    };
    const strip = (e) => { while (e && (ts.isParenthesizedExpression(e) || ts.isAsExpression(e) || ts.isNonNullExpression(e))) e = e.expression; return e; };
    const h = strip(c.handler);
    scan(ts.isArrowFunction(h) || ts.isFunctionExpression(h) ? h : ts.isIdentifier(h) ? fnOf(declOf(h)) : null, c.nargs || 0);
    res.push({ file: path.relative(repo, file.fileName), sub: c.sub || '', handler: ts.isIdentifier(h) ? h.text : '(inline)', declared: [...known].filter(Boolean), reads: [...reads.keys()], line: line(h) });
  }
  return res;
};
const res = {};
for (const [k, q] of Object.entries(requests)) res[k] = answer(q);
process.stdout.write(JSON.stringify({ answers: res, options: options(), files: files.length }));
