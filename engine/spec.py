"""A small expression language for writing expected values as text.

  msg@Dispatch.0.dest_domain      field of an enum payload / struct
  item(config)@Some.0             stored item, unwrapped
  at(map0(routes), k)             map lookup (an Option)
  M[5..9]  M[77..]  L[3]          slices / elements
  cat[a, b]  [a, b]               concatenation / list
  Name{f: v, ..}                  struct or enum-variant value (any path suffix, e.g. hook::QuoteDispatch{..})
  query(addr, msg)  json(x)       matched against the calls the analysed code really makes
  f(x, y)                         any other call the code makes, by last path component

Names bound by the caller are substituted.  Anything the analysed program never
builds evaluates to an `absent` term, which equals nothing the program computes.
"""
import re
from . import terms as tm
from .terms import T, mk, I, BYTES, SEQ, CAT, LEN, SLICE, IDX, UBE, BE, ADD, SUB, MUL, DIV, NOT, AND, OR, EQ, LT, LE, IS, ADT, FIELD

TOK = re.compile(r"\s*(?:(0x[0-9a-fA-F]+)|(\d+)|'([^']*)'|([A-Za-z_#%][A-Za-z_0-9]*(?:::[A-Za-z_#][A-Za-z_0-9]*)*)|(\.\.|==|!=|<=|>=|&&|\|\||[-+*/()\[\]{},:.@!<>?]))")

_idx = {"n": 0, "f": {}, "call": {}, "is": {}, "json": {}}


def reindex():
    if len(tm._tab) == _idx["n"]:
        return
    for t in list(tm._tab.values())[_idx["n"]:]:
        if t.op == "f":
            _idx["f"].setdefault((t.a[0], tm.fname(t.a[1], t.a[2], t.a[3]), tm.vname(t.a[1], t.a[2])), []).append(t)
        elif t.op in ("call", "bcall"):
            _idx["call"].setdefault(t.a[0].split("::")[-1], []).append(t)
        elif t.op == "json":
            _idx["json"].setdefault(t.a[1], t)
        elif t.op == "is":
            _idx["is"].setdefault((t.a[0], t.a[1]), t)
    _idx["n"] = len(tm._tab)


def absent(*a):
    return mk("absent", *[x if isinstance(x, T) else str(x) for x in a])


def is_absent(t):
    return any(x.op == "absent" for x in tm.subterms(t))


def adt_paths(name):
    """(path, variant index) candidates for a constructor or type name suffix"""
    out = []
    for p, vs in tm.VARIANTS.items():
        for vi, (vn, fs) in enumerate(vs):
            full = p + "::" + vn
            if len(vs) == 1 and (p == name or p.endswith("::" + name)):
                out.append((p, 0))
            elif full == name or full.endswith("::" + name):
                out.append((p, vi))
    return out


class P:
    def __init__(self, s, env):
        self.toks = []
        pos = 0
        while pos < len(s):
            m = TOK.match(s, pos)
            if not m or m.end() == pos:
                if s[pos:].strip() == "":
                    break
                raise ValueError("spec syntax at %r" % s[pos:pos + 30])
            pos = m.end()
            for k, g in zip(("hex", "int", "str", "id", "op"), m.groups()):
                if g is not None:
                    self.toks.append((k, g))
        self.i = 0
        self.env = env

    def peek(self, v=None):
        if self.i >= len(self.toks):
            return None
        t = self.toks[self.i]
        return t if v is None else (t[0] in ("op",) and t[1] == v)

    def eat(self, v):
        if not self.peek(v):
            raise ValueError("expected %s at %s" % (v, self.toks[self.i:self.i + 4]))
        self.i += 1

    def expr(self):
        a = self.conj()
        while self.peek("||"):
            self.i += 1
            a = OR(a, self.conj())
        return a

    def conj(self):
        a = self.cmp()
        while self.peek("&&"):
            self.i += 1
            a = AND(a, self.cmp())
        return a

    def cmp(self):
        a = self.sum()
        t = self.peek()
        if t and t[0] == "op" and t[1] in ("==", "!=", "<", "<=", ">", ">="):
            self.i += 1
            b = self.sum()
            return {"==": lambda: EQ(a, b), "!=": lambda: NOT(EQ(a, b)), "<": lambda: LT(a, b), "<=": lambda: LE(a, b),
                    ">": lambda: LT(b, a), ">=": lambda: LE(b, a)}[t[1]]()
        if t and t == ("id", "is"):
            self.i += 1
            vn = self.toks[self.i][1]
            self.i += 1
            return mkis(a, vn)
        return a

    def sum(self):
        a = self.prod()
        while self.peek("+") or self.peek("-"):
            op = self.toks[self.i][1]
            self.i += 1
            b = self.prod()
            a = ADD(a, b) if op == "+" else SUB(a, b)
        return a

    def prod(self):
        a = self.unary()
        while self.peek("*") or self.peek("/"):
            op = self.toks[self.i][1]
            self.i += 1
            b = self.unary()
            a = MUL(a, b) if op == "*" else DIV(a, b)
        return a

    def unary(self):
        if self.peek("!"):
            self.i += 1
            return NOT(self.unary())
        return self.post()

    def post(self):
        a = self.prim()
        var = None
        while True:
            if self.peek("@"):
                self.i += 1
                var = self.toks[self.i][1]
                self.i += 1
            elif self.peek("."):
                self.i += 1
                f = self.toks[self.i][1]
                self.i += 1
                a = field(a, var, f)
                var = None
            elif self.peek("["):
                self.i += 1
                if self.peek(".."):
                    lo = I(0)
                else:
                    lo = self.expr()
                if self.peek(".."):
                    self.i += 1
                    hi = None if self.peek("]") else self.expr()
                    a = SLICE(a, lo, hi)
                else:
                    a = IDX(a, lo)
                self.eat("]")
            else:
                return a

    def args(self, end):
        out = []
        while not self.peek(end):
            out.append(self.expr())
            if self.peek(","):
                self.i += 1
        self.eat(end)
        return out

    def prim(self):
        k, v = self.toks[self.i]
        self.i += 1
        if k == "int":
            return I(int(v))
        if k == "hex":
            return BYTES(bytes.fromhex(v[2:]))
        if k == "str":
            return BYTES(v.encode())
        if k == "op":
            if v == "(":
                e = self.expr()
                if self.peek(","):
                    self.i += 1
                    es = [e] + self.args(")")
                    return mk("tup", tuple(es))
                self.eat(")")
                return e
            if v == "[":
                return SEQ(self.args("]"))
            raise ValueError("unexpected %s" % v)
        if v == "cat" and self.peek("["):
            self.i += 1
            return CAT(self.args("]"))
        if self.peek("("):
            self.i += 1
            if v in ("item", "map0"):
                ns = []
                while not self.peek(")"):
                    ns.append(self.toks[self.i][1])
                    self.i += 1
                self.eat(")")
                return mk(v, "".join(ns))
            return call(v, self.args(")"))
        if self.peek("{"):
            self.i += 1
            fs = {}
            while not self.peek("}"):
                n = self.toks[self.i][1]
                self.i += 1
                self.eat(":")
                fs[n] = self.expr()
                if self.peek(","):
                    self.i += 1
            self.eat("}")
            return build(v, fs)
        if v in self.env:
            x = self.env[v]
            return parse(x, self.env) if isinstance(x, str) else x
        if v == "None":
            return ADT(tm.OPT, 0, ())
        if v == "true":
            return tm.TRUE
        if v == "false":
            return tm.FALSE
        if v[0] == "#":
            return mk("bv", int(v[1:]))
        c = adt_paths(v)
        if v[:1].isupper() and c:
            c2 = [x for x in c if not tm.VARIANTS[x[0]][x[1]][1]]
            if c2:
                return pick([ADT(p, vi, ()) for p, vi in c2], v)
        return mk("p", v)


def pick(cands, what):
    """of several readings keep the one the program builds"""
    u = []
    for c in cands:
        if c not in u:
            u.append(c)
    if len(u) == 1:
        return u[0]
    k = [c for c in u if c.id < _idx["n"] + 1 and c.id <= _mark[0]]
    return k[0] if k else (u[0] if u else absent(what))


_mark = [0]


def build(name, fs):
    out = []
    if name == "Some":
        return ADT(tm.OPT, 1, tuple(fs.values()))
    for p, vi in adt_paths(name):
        names = tm.VARIANTS[p][vi][1]
        if set(names) == set(fs):
            out.append(ADT(p, vi, tuple(fs[n] for n in names)))
    return pick(out, name) if out else absent(name, *fs.values())


def field(x, var, f):
    if x.op == "phi":
        alts = [(d, field(v, var, f)) for d, v in x.a[0] if not (var and v.op == "adt" and tm.vname(v.a[0], v.a[1]) != var)]
        return tm.PHI(alts)
    if x.op == "adt":
        for i, n in enumerate(tm.VARIANTS[x.a[0]][x.a[1]][1]):
            if n == f:
                return x.a[2][i]
        return absent(x, f)
    if x.op == "tup":
        return x.a[0][int(f)]
    reindex()
    if var:
        t = choose(x, _idx["f"].get((x, f, var), []))
        if t is not None:
            return t
        for p, vi in adt_paths(var):
            names = tm.VARIANTS[p][vi][1]
            if f in names and var in ("Some", "Ok"):
                return FIELD(x, p, vi, names.index(f))
        return absent(x, var, f)
    t = choose(x, [t for k, ts in _fidx(x) if k[1] == f for t in ts])
    if t is None and f.isdigit():
        return FIELD(x, "tuple", 0, int(f))
    return t if t is not None else absent(x, f)


ROOTS = {}


def choose(x, cands):
    """of same-named fields keep the one of the type the analysed entry gives to x"""
    r = ROOTS.get(x)
    for t in cands:
        if r is None or t.a[1] == r:
            return t
    return None


def _fidx(x):
    d = _idx.setdefault("byx", {})
    if _idx.get("byxn") != _idx["n"]:
        d.clear()
        for k, t in _idx["f"].items():
            d.setdefault(k[0], []).append((k, t))
        _idx["byxn"] = _idx["n"]
    return d.get(x, [])


def mkis(a, vn):
    reindex()
    if vn == "Some":
        return IS(a, tm.OPT, 1)
    if vn == "None":
        return IS(a, tm.OPT, 0)
    if vn in ("Ok", "Err"):
        return IS(a, "core::result::Result", 0 if vn == "Ok" else 1)
    r = ROOTS.get(a)
    if r is not None:
        for vi, (n, _) in enumerate(tm.VARIANTS.get(r, [])):
            if n == vn:
                return IS(a, r, vi)
    for p, vs in tm.VARIANTS.items():
        for vi, (n, _) in enumerate(vs):
            if n == vn and ((a, p) in _idx["is"] or a.op == "adt" and a.a[0] == p):
                return IS(a, p, vi)
    return mk("bcall", "absent_is", (a,))


def call(name, args):
    if name == "len":
        return LEN(args[0])
    if name == "ube":
        return UBE(args[0].a[0], args[1])
    if name == "be":
        return BE(args[0])
    if name == "at":
        from .models import lookup
        return lookup(args[0], args[1])
    if name in ("forall", "map", "storeall", "delall"):
        # forall(xs, 1, body) with #1 for the index
        n = LEN(args[0]) if args[0].op not in ("int",) else args[0]
        h = args[1].a[0]
        lv = mk("lv", -h)
        b = [tm.subst(x, {mk("bv", h): lv}) for x in args[2:]]
        if name == "forall":
            return tm.close_forall(n, lv, b[0])
        if name == "map":
            return tm.MAP(n, lv, b[0])
        h, (k, *v) = tm.close(lv, *b[1:])
        return mk(name, n, h, b[0], k, *v)
    if name in ("store", "del", "keysof", "entries", "sort", "set", "prefix"):
        return mk(name, *args)
    if name == "take":
        return tm.TAKE(*args)
    if name == "if":
        from .interp import cond_phi
        return cond_phi(args[0], args[1], args[2])
    reindex()
    if name == "json":
        return _idx["json"].get(args[0]) or absent(name, *args)
    if name == "query":
        for t in _idx["call"].get(name, []):
            a = t.a[1]
            if len(a) == 4 and a[0] is args[0] and a[1] is args[1]:
                return t
        return absent(name, *args)
    for t in _idx["call"].get(name, []):
        if list(t.a[1]) == list(args):
            return t
    if name in ("hex", "exclusive", "jsonstr", "concat") and not any(is_absent(a) for a in args):
        return mk("call", name, tuple(args))
    return absent(name, *args)


def parse(s, env=None):
    reindex()
    _mark[0] = tm._n[0]
    p = P(s, env or {})
    r = p.expr()
    if p.i != len(p.toks):
        raise ValueError("trailing spec text in %r" % s)
    return r
