"""Abstract interpreter: gated value graphs over MIR with full inlining.

One state per program point; at joins values become phi terms gated by the
branch conditions, so no paths are enumerated and no solver is used.
"""
import heapq
import json
from . import terms as tm
from .terms import (T, mk, I, TRUE, FALSE, UNIT, EMPTY, BYTES, SEQ, CAT, LEN, SLICE, IDX, ADD, SUB, ARITH, NOT, AND,
                    OR, EQ, LT, LE, IS, FIELD, ADT, PHI, CALL, BCALL, TOP, lit, LIT, dnf_and, dnf_or, dnf_term, subst,
                    free_lv, close_forall, MAP, FILTERMAP, COUNT, occurs, close, subterms)

RESULT = "core::result::Result"
# library functions deliberately kept opaque (pure, meaning not needed)
OPAQUE_OK = {"prost::message::Message::encode_to_vec", "prost::message::Message::decode",
             "cw_storage_plus::bound::Bound::<'a, K>::exclusive", "cw_storage_plus::bound::Bound::<'a, K>::inclusive",
             "core::char::methods::<impl char>::is_lowercase",
             "cosmwasm_std::traits::QuerierWrapper::<'a, C>::query_supply"}
CFLOW = "core::ops::control_flow::ControlFlow"
OPTION = "core::option::Option"
ERR = mk("sym", "err")
TRANSPARENT = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
               "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
               "core::mem::maybe_dangling::MaybeDangling", "core::pattern_type"}
NEWTYPES = {"cosmwasm_std::math::uint128::Uint128", "cosmwasm_std::math::uint64::Uint64",
            "cosmwasm_std::math::uint256::Uint256", "cosmwasm_std::addresses::Addr",
            "cosmwasm_std::hex_binary::HexBinary", "cosmwasm_std::binary::Binary"}


def OK(x):
    return ADT(RESULT, 0, (x,))


def ERRV():
    return ADT(RESULT, 1, (ERR,))


def SOME(x):
    return ADT(OPTION, 1, (x,))


NONE = ADT(OPTION, 0, ())


def cond_phi(c, a, b):
    """if c then a else b"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    return PHI([(cdnf(c, True), a), (cdnf(c, False), b)])


def cdnf(c, pol):
    if not pol:
        n = NOT(c)
        return cdnf(n, True)
    if c.op == "and":
        return frozenset([frozenset(lit(x) for x in c.a[0])])
    if c.op == "not" and c.a[0].op == "and":
        # disjunction of negated conjuncts: keep as one literal
        return frozenset([frozenset([(c.a[0], False)])])
    return frozenset([frozenset([lit(c)])])



def loop_bound(t, p, lv, views=()):
    """the number of rounds of a loop that counts lv up from 0 and goes on while t is p; views: slices the loop runs over"""
    if p and t.op == "lt" and lv not in free_lv(t.a[1]):
        e, n = t.a
        d = subst(e, {lv: I(0)})
        c = SUB(subst(e, {lv: I(1)}), d)
        if not (tm.is_int(d) and tm.is_int(c) and ADD(tm.MUL(c, lv), d) is e and d.a[0] >= 0):
            return None
        if c.a[0] == 1:
            return cond_phi(LT(n, d), I(0), SUB(n, d))
        if c.a[0] > 1 and d.a[0] == c.a[0] - 1:
            return tm.DIV(n, c)
        if c.a[0] > 1 and d.a[0] == 0:
            return tm.DIV(ADD(n, I(c.a[0] - 1)), c)
        k = I(d.a[0] - c.a[0] + 1)
        if c.a[0] > 1 and k.a[0] > 0:
            r = tm.DIV(SUB(n, k), c)
            # a view that starts at k exists, so n is not below k
            return r if any(LEN(v.a[0]) is n and subst(v.a[1], {lv: I(0)}) is k for v in views) else cond_phi(LT(n, k), I(0), r)
    if not p and t.op == "eq":
        a, b = t.a
        for x, y in ((a, b), (b, a)):
            if x is lv and lv not in free_lv(y):
                return y
            if y is I(0) and x.op == "sub" and x.a[1] is lv and lv not in free_lv(x.a[0]):
                return x.a[0]
    return None

class State:
    __slots__ = ("mem", "stor", "facts", "pc")

    def __init__(self):
        self.mem = {}
        self.stor = {}
        self.facts = {}
        self.pc = TOP

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.stor = dict(self.stor)
        s.facts = dict(self.facts)
        s.pc = self.pc
        return s


# ---------------------------------------------------------------- facts
def decide(facts, t):
    if t.op == "int":
        return bool(t.a[0])
    if t.op == "not":
        r = decide(facts, t.a[0])
        return None if r is None else not r
    r = facts.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "and":
        allt = True
        for x in t.a[0]:
            r = decide(facts, x)
            if r is False:
                return False
            if r is None:
                allt = False
        return True if allt else None
    if op == "eq":
        a, b = t.a
        va = facts.get(("v", a))
        if va is not None:
            if b.op == "int":
                return va == b.a[0]
            vb = facts.get(("v", b))
            if vb is not None:
                return va == vb
        ab, ba = facts.get(LT(a, b)), facts.get(LT(b, a))
        if ab is True or ba is True:
            return False
        if ab is False and ba is False:
            return True
        if b.op == "int":
            l, u = facts.get(("lb", a), 0), facts.get(("ub", a))
            if b.a[0] < l or (u is not None and b.a[0] > u):
                return False
            if u is not None and l == u == b.a[0]:
                return True
    elif op == "is":
        v = facts.get(("is", t.a[0]))
        if v is not None:
            return v == t.a[2]
    elif op == "lt":
        a, b = t.a
        va = facts.get(("v", a))
        if va is not None and b.op == "int":
            return va < b.a[0]
        if b.op == "int":
            u = facts.get(("ub", a))
            if u is not None and u < b.a[0]:
                return True
            l = facts.get(("lb", a))
            if l is not None and l >= b.a[0]:
                return False
        else:
            if facts.get(mk("lt", b, a)) is True:
                return False
            if a.id < b.id:
                e = mk("eq", a, b)
            else:
                e = mk("eq", b, a)
            r = facts.get(e)
            if r is True:
                return False
            if r is False and facts.get(mk("lt", b, a)) is False:
                return True
    return None


def assume(st, t, pol=True):
    """add literal to st.facts; False when contradictory"""
    f = st.facts
    if t.op == "not":
        return assume(st, t.a[0], not pol)
    if t.op == "int":
        return bool(t.a[0]) == pol
    d = decide(f, t)
    if d is not None:
        if d != pol:
            return False
        f[t] = pol
        if t.op != "and":
            return True
    f[t] = pol
    op = t.op
    if op == "and":
        if pol:
            for x in sorted(t.a[0], key=lambda x: x.id):
                if not assume(st, x, True):
                    return False
        else:
            und = [x for x in t.a[0] if decide(f, x) is None]
            if len(und) == 1:
                return assume(st, und[0], False)
            if not und and all(decide(f, x) for x in t.a[0]):
                return False
            # a disjunction of negations: common consequences
            conj = []
            for x in und:
                n = NOT(x)
                conj.append(set(n.a[0]) if n.op == "and" else {n})
            if conj:
                for x in set.intersection(*conj):
                    if not assume(st, x, True):
                        return False
    elif op == "eq" and pol:
        a, b = t.a
        if b.op == "int":
            f[("v", a)] = b.a[0]
        else:
            va, vb = f.get(("v", a)), f.get(("v", b))
            if va is not None and vb is None:
                f[("v", b)] = va
            elif vb is not None and va is None:
                f[("v", a)] = vb
    elif op == "is":
        x, p, vi = t.a
        if pol:
            f[("is", x)] = vi
        else:
            n = len(tm.VARIANTS.get(p) or ())
            if n == 2:
                f[("is", x)] = 1 - vi
            elif n:
                rest = [i for i in range(n) if f.get(mk("is", x, p, i)) is not False]
                if len(rest) == 1:
                    f[mk("is", x, p, rest[0])] = True
                    f[("is", x)] = rest[0]
    elif op == "forall" and not pol:
        w = tm._tab.get(("wit", t.a))
        if w is not None and not assume(st, subst(t.a[2], {mk("bv", t.a[1]): w}), False):
            return False
    elif op == "lt":
        a, b = t.a
        if b.op == "int":
            if pol:
                k = ("ub", a)
                f[k] = min(f.get(k, 1 << 300), b.a[0] - 1)
            else:
                k = ("lb", a)
                f[k] = max(f.get(k, 0), b.a[0])
        if pol and a.op == "lv":
            for g, gp in list(f.items()):
                if gp is True and isinstance(g, T) and g.op == "forall" and g.a[0] is b:
                    if not assume(st, subst(g.a[2], {mk("bv", g.a[1]): a}), True):
                        return False
    # re-examine disjunctions now refuted but for one
    if op in ("eq", "is", "lt", "bcall", "forall"):
        for g, gp in list(f.items()):
            if gp is False and isinstance(g, T) and g.op == "and":
                und = []
                done = False
                for x in g.a[0]:
                    r = decide(f, x)
                    if r is False:
                        done = True
                        break
                    if r is None:
                        und.append(x)
                if done:
                    continue
                if not und:
                    return False
                if len(und) == 1:
                    if not assume(st, und[0], False):
                        return False
    return True


def refuted(facts, d):
    for c in d:
        bad = False
        for t, p in c:
            r = decide(facts, t)
            if r is not None and r != p:
                bad = True
                break
        if not bad:
            return False
    return True


def simp_gate(facts, d):
    """drop the parts of a phi gate the facts already settle"""
    cs = []
    for c in d:
        keep = []
        for t, p in c:
            r = decide(facts, t)
            if r is None:
                keep.append((t, p))
            elif r != p:
                break
        else:
            cs.append(frozenset(keep))
    if not cs:
        return d
    if len(cs) == 1:
        return frozenset(cs)
    d2 = tm.dnf_simplify(cs)
    if len(d2) > 1:
        common = frozenset.intersection(*d2)
        if decide(facts, dnf_term(frozenset(c - common for c in d2))) is True:
            return frozenset([common])
    return d2


def resolve(facts, v):
    while v.op == "phi":
        alts = [(d, x) for d, x in v.a[0] if not refuted(facts, d)]
        alts2 = []
        for d, x in alts:
            if x.op == "adt":
                pass
            alts2.append((d, x))
        if len(alts2) == 1:
            v = alts2[0][1]
            continue
        if len(alts2) == len(v.a[0]) or not alts2:
            return v
        n = PHI(alts2)
        if n is v or n.op != "phi":
            return n
        v = n
        return v
    return v


def resolve_deep(facts, v, cache=None):
    if cache is None:
        cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        if x.op == "phi":
            y = resolve(facts, x)
            if y is not x and y.op != "phi":
                r = go(y)
            elif y.op == "phi":
                alts = []
                for d, z in y.a[0]:
                    alts.append((simp_gate(facts, d), go(z)))
                r = PHI(alts)
            else:
                r = go(y)
        elif x.op in tm.BOOLOPS and x.op not in ("and", "not", "forall"):
            d = decide(facts, x)
            r = tm.rebuild(x, go) if d is None else tm.B(d)
        elif x.op in tm.BINDERS:
            r = tm.rebuild(x, go)
        else:
            r = tm.rebuild(x, go)
        cache[x] = r
        return r
    return go(v)


def index_bound(e, lv, st0):
    """B if e means that the index has reached the loop-invariant bound B (chosen by loop-invariant conditions)"""
    if e.op == "eq":
        for u, v in (e.a, e.a[::-1]):
            if u is lv and not free_lv(v):
                return v
        return None
    k = NOT(e)
    alts = [NOT(x) for x in k.a[0].a[0]] if k.op == "not" and k.a[0].op == "and" else [k]
    out = []
    if k.op == "and" and e.op == "not":
        # the index equals one bound or another
        for x in [NOT(y) for y in k.a[0]]:
            xs = x.a[0] if x.op == "and" else [x]
            bs = [(y, v) for y in xs if y.op == "eq" for u, v in (y.a, y.a[::-1]) if u is lv and not free_lv(v)]
            gs = [y for y in xs if not bs or y is not bs[0][0]]
            if len(bs) != 1 or any(free_lv(y) for y in gs):
                return None
            out.append((AND(*gs), bs[0][1]))
        s = st0.fork()
        if all(assume(s, g, False) for g, _ in out):
            return None
        alts = []
    for x in alts:
        xs = x.a[0] if x.op == "and" else [x]
        bs = [y for y in xs if y.op == "lt" and y.a[0] is lv and not free_lv(y.a[1])]
        gs = [y for y in xs if y not in bs]
        if len(bs) != 1 or any(free_lv(y) for y in gs):
            return None
        out.append((AND(*gs), bs[0].a[1]))
    for i in range(len(out)):
        for j in range(i):
            s = State()
            s.facts = {}
            if assume(s, out[i][0], True) and assume(s, out[j][0], True):
                return None
    b = I(0)
    for g, v in out:
        b = cond_phi(g, v, b)
    return b


class Diverge(Exception):
    pass


class Frame:
    __slots__ = ("fn", "fid", "depth")


def elementwise(a, u, lv):
    """u updates list a at index lv only: the new element, or None"""
    if u is a:
        return mk("idx", a, lv)
    if u.op == "upd" and u.a[1] is lv and elementwise(a, u.a[0], lv) is not None:
        return u.a[2]
    if u.op == "phi":
        vs = [(d, elementwise(a, x, lv)) for d, x in u.a[0]]
        if all(x is not None for _, x in vs):
            return PHI(vs)
    return None


class Interp:
    def __init__(self, prog, boundary=(), maxdepth=70):
        from . import models
        self.p = prog
        self.models = models
        self.nfid = 0
        self.nheap = 0
        self.nlv = 0
        self.stack = []
        self.reads = {}         # (list, length it must have) -> facts of the first such read: a shorter list aborts the call
        self.sites = set()      # (op, namespace, fn path, file, line)
        self.fns_seen = set()
        self.calls = 0
        self.blocks = 0
        self.unknown = {}
        self.loopctl = []
        self.boundary = set(boundary)
        self.ncache = {}
        self.maxdepth = maxdepth
        self.line = 0
        self.opaque_loops = None    # predicate: keep this loop's state symbolic and record its recurrence
        self.loops = []

    # ------------------------------------------------------------ consts
    def const(self, c):
        k = c["c"]
        if k == "int":
            return I(int(c["v"]))
        if k == "str":
            return BYTES(c["v"].encode("utf-8", "surrogateescape") if isinstance(c["v"], str) else bytes(c["v"]))
        if k == "ref":
            return self.const(c["v"])
        if k == "arr":
            es = [self.const(x) for x in c["v"]]
            if c["v"] and c["v"][0]["c"] == "int" and self.p.types[c["v"][0]["t"]]["n"] == "u8":
                return BYTES(bytes(e.a[0] for e in es))
            return SEQ(es)
        if k == "tuple":
            return mk("tup", tuple(self.const(x) for x in c["v"]))
        if k == "adt":
            ty = self.p.types[c["t"]]
            p = ty.get("p", "")
            if p.startswith("cw_storage_plus::item::Item"):
                return mk("itemns", self.const(c["v"][0]).a[0].decode())
            if p.startswith("cw_storage_plus::map::Map"):
                return mk("mapns", self.const(c["v"][0]).a[0].decode())
            fs = [self.const(x) for x in c["v"]]
            if p in NEWTYPES and len(fs) == 1:
                if p.endswith("Uint256"):
                    return CALL("const", mk("sym", json.dumps(c)))
                return fs[0]
            return ADT(p or ty["n"], c.get("vi", 0), fs)
        if k == "fn":
            return mk("fn", json.dumps(c["f"], sort_keys=True))
        if k == "closure":
            return mk("clos", c["f"].get("key") or c["f"]["decl"], tuple(self.const(x) for x in c.get("up") or []))
        return CALL("const", mk("sym", json.dumps(c, sort_keys=True)[:200]))

    def operand(self, fr, st, o):
        if o[0] == "k":
            return self.const(o[1])
        if o[0] in ("cp", "mv"):
            return self.read_place(fr, st, o[1])
        return mk("sym", "rc")

    # ------------------------------------------------------------ places
    def note_len(self, st, v, ty):
        if ty is not None and v.op not in ("bytes", "seq", "cat", "adt", "tup", "int", "phi", "ptr") and v not in tm.TYPELEN:
            t = self.p.types[ty]
            while t["k"] == "ref":
                t = self.p.types[t["t"]]
            if t["k"] == "array" and "len" in t and decide(st.facts, EQ(mk("len", v), I(t["len"]))) is not True:
                # (a list converted to an array is the same term: its length is a fact of the path then, not of the term)
                tm.TYPELEN[v] = t["len"]

    def read_ptr(self, st, ptr):
        v = st.mem.get(ptr.a[0])
        if v is None:
            return mk("bot")
        return self.read_path(st, v, ptr.a[1])

    def read_path(self, st, v, path):
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        k = e[0]
        if v.op == "phi":
            v = resolve(st.facts, v)
        if k == "f":
            return FIELD(v, e[1], e[2], e[3])
        if k == "tf":
            if v.op == "tup":
                return v.a[0][e[1]] if e[1] < len(v.a[0]) else mk("bot")
            if v.op == "phi":
                return PHI([(d, self.proj(st, x, e)) for d, x in v.a[0]])
            return FIELD(v, "tuple", 0, e[1])
        if k == "up":
            if v.op == "clos":
                return v.a[1][e[1]]
            return FIELD(v, "closure", 0, e[1])
        if k == "i":
            return IDX(v, e[1])
        if k == "sl":
            return SLICE(v, e[1], e[2])
        if k == "bt":
            return FIELD(self.models.bt_lookup(v, e[1]), OPTION, 1, 0)
        raise AssertionError(e)

    def set_path(self, st, root, path, new):
        if not path:
            return new
        e, rest = path[0], path[1:]
        k = e[0]
        if root is None:
            root = mk("bot")
        root = resolve(st.facts, root)
        if root.op == "phi":
            return PHI([(d, self.set_path(st, x, path, new)) for d, x in root.a[0]])
        if k == "f":
            p, vi, i, n = e[1], e[2], e[3], e[4]
            fs = [FIELD(root, p, vi, j) for j in range(n)] if root.op != "bot" else [mk("bot")] * n
            fs[i] = self.set_path(st, fs[i], rest, new)
            return ADT(p, vi, fs)
        if k == "tf":
            n = e[2]
            fs = list(root.a[0]) if root.op == "tup" else [self.proj(st, root, ("tf", j, n)) if root.op != "bot" else mk("bot") for j in range(n)]
            fs[e[1]] = self.set_path(st, fs[e[1]], rest, new)
            return mk("tup", tuple(fs))
        if k == "up":
            ups = list(root.a[1])
            ups[e[1]] = self.set_path(st, ups[e[1]], rest, new)
            return mk("clos", root.a[0], tuple(ups))
        if k == "i":
            val = self.set_path(st, IDX(root, e[1]), rest, new)
            if e[1].op == "int":
                i = e[1].a[0]
                if root.op == "seq" and i < len(root.a[0]):
                    x = list(root.a[0])
                    x[i] = val
                    return SEQ(x)
                if root.op == "bytes" and i < len(root.a[0]) and val.op == "int":
                    x = bytearray(root.a[0])
                    x[i] = val.a[0]
                    return BYTES(x)
            return tm.UPD(root, e[1], val)
        if k == "bt":
            val = self.set_path(st, FIELD(self.models.bt_lookup(root, e[1]), OPTION, 1, 0), rest, new)
            return mk("btins", root, e[1], val)
        if k == "sl":
            a, b = e[1], e[2]
            val = self.set_path(st, SLICE(root, a, b), rest, new)
            parts = [SLICE(root, I(0), a), val]
            if b is not None:
                parts.append(SLICE(root, b, None))
            return CAT(parts)
        raise AssertionError(e)

    def pointer_cases(self, fr, st, place):
        """the pointers a place's first dereference may follow, when there are several"""
        if "*" not in place[1]:
            return None
        x = self.read_place(fr, st, [place[0], place[1][:place[1].index("*")]])
        x = resolve(st.facts, x)
        if x.op == "phi" and all(y.op == "ptr" for _, y in x.a[0]):
            return x.a[0]
        return None

    def lval(self, fr, st, place, pick=None):
        """location + path a place denotes (following &mut pointers)"""
        loc, path = (fr.fid, place[0]), ()
        ty = fr.fn.locals[place[0]]
        vi = 0
        for e in place[1]:
            t = self.p.types[ty] if ty is not None else {"k": "other", "n": "?"}
            if e == "*":
                v = st.mem.get(loc)
                v = self.read_path(st, v, path) if v is not None else mk("bot")
                v = resolve(st.facts, v)
                if v.op == "phi" and pick is not None:
                    v, pick = pick, None
                if v.op == "ptr":
                    loc, path = v.a[0], v.a[1]
                elif v.op == "phi" and any(x.op == "ptr" for _, x in v.a[0]):
                    k = "write through one of several pointers in " + fr.fn.path
                    self.unknown[k] = self.unknown.get(k, 0) + 1
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt" and t["a"]:
                    ty = t["a"][0]
                continue
            if e[0] == "d":
                vi = e[1]
                continue
            if e[0] == "f":
                p = t.get("p", "")
                v = st.mem.get(loc)
                if p in TRANSPARENT or t["k"] == "other" and t["n"].startswith("pattern_type"):
                    pass
                elif t["k"] == "tuple":
                    path = path + (("tf", e[1], len(t["a"])),)
                elif t["k"] == "closure":
                    path = path + (("up", e[1]),)
                elif p in NEWTYPES:
                    pass
                else:
                    n = len(t["v"][vi]["f"]) if t.get("v") else e[1] + 1
                    path = path + (("f", p or t["n"], vi, e[1], n),)
                ty = e[2]
                vi = 0
            elif e[0] == "i":
                path = path + (("i", st.mem[(fr.fid, e[1])]),)
                ty = t.get("t")
            elif e[0] == "ci":
                cur = self.read_path(st, st.mem.get(loc, mk("bot")), path)
                k = I(e[1]) if not e[2] else SUB(LEN(cur), I(e[1]))
                path = path + (("i", k),)
                ty = t.get("t")
            elif e[0] == "ss":
                cur = self.read_path(st, st.mem.get(loc, mk("bot")), path)
                b = I(e[2]) if not e[3] else SUB(LEN(cur), I(e[2]))
                if e[3] and e[2] == 0:
                    b = None
                path = path + (("sl", I(e[1]), b),)
        return loc, path

    def read_place(self, fr, st, place):
        v = st.mem.get((fr.fid, place[0]))
        ty = fr.fn.locals[place[0]]
        if v is None:
            v = mk("bot")
        if not place[1]:
            return v
        vi = 0
        down = None
        for e in place[1]:
            if v.op == "phi":
                v = resolve(st.facts, v)
            t = self.p.types[ty] if ty is not None else {"k": "other", "n": "?"}
            if e == "*":
                if v.op == "ptr":
                    v = self.read_ptr(st, v)
                elif v.op == "phi" and any(x.op == "ptr" for _, x in v.a[0]):
                    v = PHI([(d, self.read_ptr(st, x) if x.op == "ptr" else x) for d, x in v.a[0]])
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt" and t["a"]:
                    ty = t["a"][0]
                continue
            if e[0] == "d":
                vi = e[1]
                if v.op == "phi":
                    alts = [(d, x) for d, x in v.a[0] if not (x.op == "adt" and x.a[1] != vi)]
                    if alts:
                        v = PHI(alts)
                continue
            if e[0] == "f":
                p = t.get("p", "")
                if p in TRANSPARENT or (t["k"] == "other" and t["n"].startswith("pattern_type")):
                    pass
                elif t["k"] == "tuple":
                    v = self.proj(st, v, ("tf", e[1]))
                elif t["k"] == "closure":
                    v = self.proj(st, v, ("up", e[1]))
                elif p in NEWTYPES and v.op != "adt":
                    pass
                else:
                    if v.op == "ptr":
                        v = self.read_ptr(st, v)
                    v = FIELD(v, p or t["n"], vi, e[1])
                ty = e[2]
                self.note_len(st, v, ty)
                vi = 0
            elif e[0] == "i":
                v = IDX(v, st.mem[(fr.fid, e[1])])
                ty = t.get("t")
            elif e[0] == "ci":
                v = IDX(v, I(e[1]) if not e[2] else SUB(LEN(v), I(e[1])))
                ty = t.get("t")
            elif e[0] == "ss":
                b = I(e[2]) if not e[3] else SUB(LEN(v), I(e[2]))
                if e[3] and e[2] == 0:
                    b = None
                v = SLICE(v, I(e[1]), b)
        return v

    def place_ty(self, fr, place):
        ty = fr.fn.locals[place[0]]
        for e in place[1]:
            if ty is None:
                return None
            t = self.p.types[ty]
            if e == "*":
                if t["k"] in ("ref", "ptr"):
                    ty = t["t"]
                elif t["k"] == "adt" and t["a"]:
                    ty = t["a"][0]
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = t.get("t")
        return ty

    def write_place(self, fr, st, place, v):
        if not place[1]:
            st.mem[(fr.fid, place[0])] = v
            return
        if "*" in place[1]:
            x = self.read_place(fr, st, [place[0], place[1][:place[1].index("*")]])
            if x.op != "ptr" and not (x.op == "phi" and any(y.op == "ptr" for _, y in x.a[0])):
                k = "write through an unknown pointer in " + fr.fn.path
                self.unknown[k] = self.unknown.get(k, 0) + 1
        alts = self.pointer_cases(fr, st, place)
        if alts:
            first = alts[0][1]
            if all(x.a[0] == first.a[0] and x.a[1][:-1] == first.a[1][:-1] and x.a[1][-1:] and x.a[1][-1][0] == "i" for _, x in alts):
                # elements of one sequence: a single element is replaced
                k = PHI([(d, x.a[1][-1][1]) for d, x in alts])
                loc, path = self.lval(fr, st, place, mk("ptr", first.a[0], first.a[1][:-1] + (("i", k),)))
                self.write_loc(st, loc, path, v)
                return
            for d, x in alts:
                loc, path = self.lval(fr, st, place, x)
                old = self.read_path(st, st.mem.get(loc, mk("bot")), path)
                self.write_loc(st, loc, path, PHI([(d, v)] + [(d2, old) for d2, x2 in alts if x2 is not x]))
            return
        loc, path = self.lval(fr, st, place)
        self.write_loc(st, loc, path, v)

    def write_loc(self, st, loc, path, v):
        if not path:
            st.mem[loc] = v
        else:
            st.mem[loc] = self.set_path(st, st.mem.get(loc), path, v)

    def write_ptr(self, st, ptr, v):
        if ptr.op == "ptr":
            self.write_loc(st, ptr.a[0], ptr.a[1], v)
        elif ptr.op == "phi":
            for d, x in ptr.a[0]:
                if x.op == "ptr":
                    old = self.read_ptr(st, x)
                    rest = [(d2, old) for d2, x2 in ptr.a[0] if x2 is not x]
                    self.write_ptr(st, x, PHI([(d, v)] + rest))

    def deref(self, st, v):
        n = 0
        while v.op == "ptr" and n < 10:
            v = self.read_ptr(st, v)
            n += 1
        if v.op == "phi":
            v = resolve(st.facts, v)
            if v.op == "ptr":
                return self.deref(st, v)
            if v.op == "phi" and any(x.op == "ptr" for _, x in v.a[0]):
                v = PHI([(d, self.deref(st, x)) for d, x in v.a[0]])
        return v

    # ------------------------------------------------------------ rvalues
    def disc(self, fr, st, place):
        v = resolve(st.facts, self.deref(st, self.read_place(fr, st, place)))
        ty = self.p.strip(self.place_ty(fr, place))
        t = self.p.types[ty]
        p = t.get("p", t["n"])
        vs = t.get("v") or []
        if v.op == "adt" and v.a[1] < len(vs):
            return I(vs[v.a[1]]["d"])
        k = st.facts.get(("is", v))
        if k is not None and k < len(vs):
            return I(vs[k]["d"])
        return mk("disc", v, p, tuple(x["d"] for x in vs))

    INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32,
            "i64": 64, "i128": 128, "isize": 64, "bool": 1, "char": 32}

    def rvalue(self, fr, st, rv, dst):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1])
        if k == "ref":
            if rv[2]:
                v = None
                pl = rv[1]
                alts = self.pointer_cases(fr, st, pl)
                if alts:
                    return PHI([(d, mk("ptr", *self.lval(fr, st, pl, x))) for d, x in alts])
                loc, path = self.lval(fr, st, pl)
                if loc in st.mem:
                    cur = st.mem[loc]
                    if not path and cur.op == "ptr" and pl[1] and pl[1][-1] == "*":
                        return cur
                return mk("ptr", loc, path)
            v = self.read_place(fr, st, rv[1])
            return v
        if k == "agg":
            es = [self.operand(fr, st, o) for o in rv[2]]
            kind = rv[1]
            if kind == "array":
                ty = self.place_ty(fr, dst)
                if es and all(e.op == "int" for e in es) and ty is not None:
                    t = self.p.types[ty]
                    el = t.get("t")
                    if t["k"] == "adt":
                        el = None
                        if "u8" in t["n"]:
                            return BYTES(bytes(e.a[0] for e in es))
                    if el is not None and self.p.types[el]["n"] == "u8":
                        return BYTES(bytes(e.a[0] for e in es))
                return SEQ(es)
            if kind == "tuple":
                return mk("tup", tuple(es))
            if kind == "adt":
                t = self.p.types[rv[3]]
                if t.get("p") in NEWTYPES and len(es) == 1:
                    return es[0]
                if t.get("p") in TRANSPARENT and len(es) == 1:
                    return es[0]
                return ADT(t.get("p", t["n"]), rv[4], es)
            if kind == "closure":
                return mk("clos", rv[3].get("key") or rv[3]["decl"], tuple(es))
            return CALL("agg", *es)
        if k == "cast":
            v = self.operand(fr, st, rv[2])
            if v.op == "ptr" and rv[2][0] in ("cp", "mv"):
                x = self.read_ptr(st, v)
                if x is not None and x.op != "bot":
                    self.note_len(st, x, self.place_ty(fr, rv[2][1]))
            if rv[1] == "BoxDerefTransmute" and dst is not None and dst[0] in fr.fn.boxw and rv[2][0] in ("cp", "mv"):
                v = resolve(st.facts, v)
                if v.op != "ptr":
                    return mk("ptr", *self.lval(fr, st, rv[2][1]))
            if rv[1] == "IntToInt":
                tn = self.p.types[rv[3]]["n"]
                w = self.INTW.get(tn, 64)
                if v.op == "int":
                    return I(v.a[0] & ((1 << w) - 1))
                sty = None
                if rv[2][0] in ("cp", "mv"):
                    sty = self.place_ty(fr, rv[2][1])
                sw = self.INTW.get(self.p.types[sty]["n"], 64) if sty is not None else 64
                if v.op == "disc":
                    return v
                if sty is not None and self.p.types[sty]["k"] == "bool":
                    v = resolve(st.facts, v)
                    if v.op == "int":
                        return v
                    return cond_phi(v if v.op in tm.BOOLOPS else NOT(EQ(v, I(0))), I(1), I(0))
                if sw == 8 and v.op == "idx" and self.p.types[sty]["n"] == "u8":
                    tm.BYTE_BASES.add(v.a[0])
                if sw <= w:
                    return v
                return tm.TRUNC(w, v)
            return v
        if k == "bin":
            a = resolve(st.facts, self.operand(fr, st, rv[2]))
            b = resolve(st.facts, self.operand(fr, st, rv[3]))
            op = rv[1]
            if op in ("Eq", "Ne") and self.is_bool(fr, rv[2], rv[3]):
                a, b = tm.TRUTH(a), tm.TRUTH(b)
            if op in ("BitAnd", "BitOr", "BitXor") and self.is_bool(fr, rv[2], rv[3]):
                a, b = tm.TRUTH(a), tm.TRUTH(b)
                return AND(a, b) if op == "BitAnd" else OR(a, b) if op == "BitOr" else NOT(EQ(a, b))
            return self.binop(op, a, b)
        if k == "un":
            v = self.operand(fr, st, rv[2])
            if rv[1] == "PtrMetadata":
                return LEN(self.deref(st, v))
            if rv[1] == "Not":
                ty = self.place_ty(fr, dst)
                if ty is not None and self.p.types[ty]["k"] == "bool":
                    return NOT(tm.TRUTH(resolve(st.facts, v)))
            return CALL("un" + rv[1], v)
        if k == "disc":
            return self.disc(fr, st, rv[1])
        if k == "rep":
            o = self.operand(fr, st, rv[1])
            n = int(rv[2]) if rv[2] is not None else None
            ty = self.place_ty(fr, dst)
            if n is not None:
                if o.op == "int" and ty is not None and "u8" in self.p.types[ty]["n"]:
                    return BYTES(bytes([o.a[0]]) * n)
                if n <= 64:
                    return SEQ([o] * n)
            return CALL("rep", o, I(n or 0))
        return CALL("rv", mk("sym", str(rv)[:80]))

    def is_bool(self, fr, *ops):
        for o in ops:
            if o[0] in ("cp", "mv"):
                ty = self.place_ty(fr, o[1])
                return ty is not None and self.p.types[ty]["k"] == "bool"
        return False

    def binop(self, op, a, b):
        ov = False
        if op.endswith("WithOverflow"):
            ov = True
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        if op in ("Eq", "Ne"):
            if a.op == "disc" and b.op == "int":
                r = self.disc_is(a, b.a[0])
            elif b.op == "disc" and a.op == "int":
                r = self.disc_is(b, a.a[0])
            elif a.op == "disc" and b.op == "disc":
                r = BCALL("samevariant", a.a[0], b.a[0])
            else:
                r = EQ(a, b)
            return r if op == "Eq" else NOT(r)
        if op == "Lt":
            return LT(a, b)
        if op == "Gt":
            return LT(b, a)
        if op == "Le":
            return NOT(LT(b, a))
        if op == "Ge":
            return NOT(LT(a, b))
        m = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "Shl": "shl", "Shr": "shr",
             "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}
        if op in m:
            if op in ("Add", "Sub", "Mul") and (a.op in tm.BOOLOPS or b.op in tm.BOOLOPS):
                c = a if a.op in tm.BOOLOPS else b
                r = [self.binop(op + ("WithOverflow" if ov else ""), k if c is a else a, k if c is b else b) for k in (I(1), I(0))]
                return cond_phi(c, r[0], r[1])
            if op == "BitAnd" and (a.op in tm.BOOLOPS or b.op in tm.BOOLOPS):
                return AND(a, b)
            if op == "BitOr" and (a.op in tm.BOOLOPS or b.op in tm.BOOLOPS):
                return OR(a, b)
            r = ARITH(m[op], a, b)
            if ov:
                return mk("tup", (r, BCALL("overflow", mk("sym", m[op]), a, b) if r.op != "int" else FALSE))
            return r
        return CALL("bin" + op, a, b)

    def disc_is(self, d, val):
        v, p, ds = d.a
        for i, x in enumerate(ds):
            if x == val:
                return IS(v, p, i)
        return FALSE

    # ------------------------------------------------------------ execution
    def merge(self, fr, sts, live=None):
        if len(sts) == 1:
            return sts[0]
        conjs = [c for s in sts for c in s.pc]
        common = frozenset.intersection(*conjs)
        ds = [frozenset(c - common for c in s.pc) for s in sts]
        r = State()
        keys = set()
        for s in sts:
            keys.update(s.mem)
        fid = fr.fid if fr else None
        s0 = sts[0]
        for k in keys:
            if live is not None and k[0] == fid and k[1] not in live and k[1] not in fr.fn.addr_taken:
                continue
            v0 = s0.mem.get(k)
            if all(s.mem.get(k) is v0 for s in sts):
                r.mem[k] = v0
                continue
            alts = [(d, s.mem[k]) for d, s in zip(ds, sts) if k in s.mem and s.mem[k].op != "bot"]
            if alts:
                r.mem[k] = alts[0][1] if len(alts) == 1 else PHI(alts)
        ks = set()
        for s in sts:
            ks.update(s.stor)
        for k in ks:
            vals = [(d, s.stor[k] if k in s.stor else self.stor_init(k)) for d, s in zip(ds, sts)]
            if all(v is vals[0][1] for _, v in vals):
                r.stor[k] = vals[0][1]
            else:
                r.stor[k] = PHI(vals)
        f0 = min((s.facts for s in sts), key=len)
        for t, p in f0.items():
            if all(s.facts.get(t) == p for s in sts):
                r.facts[t] = p
        r.pc = dnf_or([s.pc for s in sts])
        d = dnf_or(ds)
        if frozenset() not in d:
            for c in [dnf_term(d)]:
                if decide(r.facts, c) is None:
                    assume(r, c, True)
        return r

    def stor_init(self, k):
        return mk("item", k[1]) if k[0] == "i" else mk("map0", k[1])

    def is_err(self, v, n=0):
        if v.op != "adt":
            return False
        if v.a[0] == RESULT:
            return v.a[1] == 1
        return v.a[0] == CFLOW and v.a[1] == 1

    def part(self, fr, st, live):
        """partition key of a state: the live locals that concretely hold an error"""
        fid = fr.fid
        r = []
        for l in live:
            v = st.mem.get((fid, l))
            if v is not None and v.op == "adt" and self.is_err(v):
                r.append(l)
        return frozenset(r)

    def run_fn(self, key, args, st, multi=False):
        """inline a function; with multi, error and non-error outcomes stay separate states"""
        fn = self.p.fn(key)
        self.nfid += 1
        fr = Frame()
        fr.fn = fn
        fr.fid = self.nfid
        self.fns_seen.add(fn.key)
        if len(self.stack) > self.maxdepth:
            raise RuntimeError("inline depth")
        self.stack.append(fn)
        pc0 = st.pc
        st.pc = TOP
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        try:
            exits = self.run_region(fr, None, 0, st, None)
        finally:
            self.stack.pop()
        rets = exits.get("ret", [])
        if not rets:
            return None, None
        for s in rets:
            v = s.mem.get((fr.fid, 0), UNIT)
            for k in [k for k in s.mem if k[0] == fr.fid]:
                del s.mem[k]
            s.mem[(fr.fid, 0)] = self.squash_err(resolve(s.facts, v))
        if not multi:
            r = self.merge(fr, rets, {0})
            v = r.mem.pop((fr.fid, 0))
            r.pc = pc0
            return v, r
        groups = {}
        for s in rets:
            groups.setdefault(self.is_err(s.mem[(fr.fid, 0)]), []).append(s)
        res = []
        for e in sorted(groups):
            g = groups[e]
            r = self.merge(fr, g, {0})
            v = r.mem.pop((fr.fid, 0))
            if len(groups) == 1:
                r.pc = pc0
            else:
                c = dnf_term(r.pc)
                if len(g) > 1 and not e and not assume(r, c, True):
                    continue
                r.pc = dnf_and(pc0, cdnf(c, True))
                if not r.pc:
                    continue
            res.append((v, r))
        return res

    def squash_err(self, v):
        if v.op == "adt" and v.a[0] == RESULT and v.a[1] == 1:
            return ERRV()
        if v.op == "phi" and any(x.op == "adt" and x.a[0] == RESULT and x.a[1] == 1 for _, x in v.a[0]):
            return PHI([(d, self.squash_err(x)) for d, x in v.a[0]])
        return v

    def run_region(self, fr, blocks, start, st_in, cur_header):
        fn = fr.fn
        pend = {start: [st_in]}
        heap = [fn.rpoi[start]]
        exits = {}
        first = True
        while heap:
            i = heapq.heappop(heap)
            b = fn.rpo[i]
            sts = pend.pop(b, None)
            if not sts:
                continue
            if len(sts) > 1:
                groups = {}
                for x in sts:
                    groups.setdefault(self.part(fr, x, fn.live_in[b]), []).append(x)
                sts = [self.merge(fr, g, fn.live_in[b]) for g in groups.values()]
            outs = []
            for st in sts:
                if b in fn.loops and not (b == cur_header and first):
                    outs.extend(self.run_loop(fr, b, st))
                else:
                    outs.extend(self.exec_block(fr, b, st))
            first = False
            for s, x in outs:
                if s == "ret":
                    exits.setdefault("ret", []).append(x)
                elif s == cur_header and blocks is not None:
                    exits.setdefault("back", []).append(x)
                elif blocks is not None and s not in blocks:
                    exits.setdefault(s, []).append(x)
                else:
                    if s not in pend:
                        pend[s] = []
                        heapq.heappush(heap, fn.rpoi[s])
                    pend[s].append(x)
        return exits

    def branch(self, st, t, pol):
        """st constrained by t==pol, or None"""
        d = decide(st.facts, t)
        if d is not None:
            return st if d == pol else None
        s = st.fork()
        if not assume(s, t, pol):
            return None
        x = t if pol else NOT(t)
        s.pc = dnf_and(s.pc, cdnf(x, True))
        if not s.pc:
            return None
        return s

    def exec_block(self, fr, b, st):
        fn = fr.fn
        stmts, term = fn.blocks[b]
        self.blocks += 1
        for s in stmts:
            if s[0] == "=":
                v = self.rvalue(fr, st, s[2], s[1])
                self.write_place(fr, st, s[1], v)
            elif s[0] == "sd":
                pass
        k = term[0]
        if k == "goto":
            return [(term[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "sw":
            return self.switch(fr, b, st, term)
        if k == "assert":
            c = resolve(st.facts, self.operand(fr, st, term[1]))
            exp = term[2]
            if isinstance(exp, str):
                exp = exp == "true"
            kind = term[4]
            if c.op == "bcall" and c.a[0] == "overflow":
                return [(term[3], st)]
            if c.op == "int":
                return [(term[3], st)] if bool(c.a[0]) == exp else []
            if any(x.op == "ptr" for x in subterms(c)):
                return [(term[3], st)]      # pointer alignment / null checks
            s = st.fork()
            if not assume(s, c, exp):
                return []
            return [(term[3], s)]
        if k == "call":
            self.line = term[5]
            rs = self.do_call(fr, st, term)
            if term[4] is None:
                return []
            return [(term[4], r) for r in rs]
        return []

    def switch(self, fr, b, st, term):
        v = resolve(st.facts, self.operand(fr, st, term[1]))
        tgts, other = term[2], term[3]
        outs = []
        fn = fr.fn
        if v.op == "int":
            dst = other
            for val, bb in tgts:
                if int(val) == v.a[0]:
                    dst = bb
                    break
            self.note_ctl(fr, b, dst, True)
            return [(dst, st)] if dst is not None else []
        conds = []
        isbool = v.op in tm.BOOLOPS
        for val, bb in tgts:
            val = int(val)
            if v.op == "disc":
                c = self.disc_is(v, val)
            elif isbool:
                c = v if val else NOT(v)
            else:
                c = EQ(v, I(val))
            conds.append((c, bb))
        rest = st
        for c, bb in conds:
            if rest is None:
                break
            s = self.branch(rest, c, True)
            if s is not None:
                outs.append((bb, s))
                if s is rest:
                    rest = None
                    break
            rest = self.branch(rest, c, False)
        if rest is not None and other is not None:
            outs.append((other, rest))
        if len(outs) == 1:
            self.note_ctl(fr, b, outs[0][0], True)
        else:
            self.note_ctl(fr, b, None, False)
        return outs

    def note_ctl(self, fr, b, dst, decided):
        if not self.loopctl:
            return
        ctl = self.loopctl[-1]
        if ctl["fid"] != fr.fid:
            return
        body = ctl["body"]
        out = [s for s in fr.fn.succ[b] if s not in body]
        if not out or all(s not in body for s in fr.fn.succ[b]):
            return
        if decided:
            ctl["dec"] += 1
        else:
            ctl["undec"] += 1

    # ------------------------------------------------------------ loops
    def fresh_lv(self):
        self.nlv += 1
        return mk("lv", self.nlv)

    def run_loop(self, fr, h, st0):
        body = fr.fn.loops[h]
        # an iterator over one of a few known sequences: one case per sequence
        for l in sorted(fr.fn.live_in[h] | fr.fn.addr_taken):
            v = st0.mem.get((fr.fid, l))
            if v is None:
                continue
            v = resolve(st0.facts, v)
            alts = None
            if v.op == "phi" and all(x.op == "iter" for _, x in v.a[0]):
                alts = v.a[0]
            elif v.op == "iter":
                S = tm.hoist(resolve_deep(st0.facts, v.a[0]))
                if S.op == "phi":
                    alts = [(d, mk("iter", x, v.a[1])) for d, x in S.a[0]]
                elif S is not v.a[0]:
                    st0.mem[(fr.fid, l)] = mk("iter", S, v.a[1])
            if alts and len(alts) <= 6 and all(LEN(x.a[0]).op == "int" for _, x in alts):
                outs = []
                for d, x in alts:
                    s = self.branch(st0, dnf_term(d), True)
                    if s is not None:
                        s = s.fork()
                        s.mem[(fr.fid, l)] = x
                        outs.extend(self.run_loop(fr, h, s))
                return outs
        # bounded unrolling when the iteration space is concrete
        outs = []
        cur = st0
        if self.concrete_hint(fr, h, st0):
            acc = []
            ok = True
            for n in range(80):
                self.loopctl.append({"fid": fr.fid, "body": body, "dec": 0, "undec": 0})
                ex = self.run_region(fr, body, h, cur.fork(), h)
                ctl = self.loopctl.pop()
                if ctl["dec"] == 0:
                    ok = False
                    break
                for k, v in ex.items():
                    if k != "back":
                        acc.extend((k, s) for s in v)
                if "back" not in ex:
                    break
                cur = self.merge(fr, ex["back"], fr.fn.live_in[h])
            else:
                ok = False
            if ok:
                return acc
        live = fr.fn.live_in[h] | fr.fn.addr_taken

        def step(s, lv):
            self.loopctl.append({"fid": -1, "body": body, "dec": 0, "undec": 0})
            ex = self.run_region(fr, body, h, s, h)
            self.loopctl.pop()
            back = ex.pop("back", [])
            return back, [(k, x) for k, v in ex.items() for x in v]

        return self.generic_loop(fr, st0, step, live)

    def concrete_hint(self, fr, h, st):
        """does some iterator/counter in scope have a known small bound?"""
        live = fr.fn.live_in[h] | fr.fn.addr_taken
        hit = False
        for l in live:
            v = st.mem.get((fr.fid, l))
            if v is None:
                continue
            if v.op == "iter":
                n = LEN(v.a[0])
                if n.op == "int" and n.a[0] <= 64:
                    hit = True
                else:
                    return False
            elif v.op == "int":
                hit = True
        return hit

    def generic_loop(self, fr, st0, step, live, domain=None):
        """step(state, lv) -> (back states, [(tag, exit state)]).
        Returns [(tag, state)] with closed forms substituted."""
        lv = self.fresh_lv()
        fid = fr.fid if fr else -1
        accs = {}       # acc symbol -> initial value
        cur = {}        # ('m',loc)|('s',k) -> symbolic header value

        def tracked(k):
            return k[0] == "s" or k[1][0] != fid or k[1][1] in live

        def widen(v0, c, nb):
            if c is nb:
                return c
            if c in accs:
                return c
            if v0 is not None and c.op == "adt" and nb.op == "adt" and v0.op == "adt" and c.a[:2] == nb.a[:2] == v0.a[:2]:
                return ADT(c.a[0], c.a[1], [widen(x, y, z) for x, y, z in zip(v0.a[2], c.a[2], nb.a[2])])
            if v0 is not None and c.op == "tup" and nb.op == "tup" and v0.op == "tup" and len(c.a[0]) == len(nb.a[0]):
                return mk("tup", tuple(widen(x, y, z) for x, y, z in zip(v0.a[0], c.a[0], nb.a[0])))
            if lv in free_lv(c):
                if subst(c, {lv: ADD(lv, I(1))}) is nb:
                    return c
            elif c is v0:
                if c.op == "iter" and nb.op == "iter" and c.a[0] is nb.a[0] and ADD(c.a[1], I(1)) is nb.a[1]:
                    return mk("iter", SLICE(c.a[0], c.a[1], None), lv)
                if nb.op == "iter" and nb.a[0] is c and nb.a[1] is I(1):
                    return mk("iter", c, lv)        # a collection that is its own iterator
                if ADD(c, I(1)) is nb and nb.op in ("int", "add"):
                    return ADD(c, lv)
                if nb.op == "slice" and nb.a[0] is c and tm.is_int(nb.a[1]) and nb is SLICE(c, nb.a[1], None):
                    return SLICE(c, tm.MUL(nb.a[1], lv), None)     # a view that loses its first elements
                if nb.op == "slice" and c.op == "slice" and nb.a[0] is c.a[0]:
                    k = SUB(nb.a[1], c.a[1])
                    if tm.is_int(k) and k.a[0] > 0 and nb is SLICE(c, k, None):
                        return SLICE(c, tm.MUL(k, lv), None)
                if tm.is_int(c) and tm.is_int(nb) and nb.a[0] > c.a[0]:
                    return ADD(c, tm.MUL(SUB(nb, c), lv))
            a = self.fresh_lv()
            accs[a] = v0
            return a

        for rnd in range(12):
            s = st0.fork()
            s.pc = TOP
            for k, v in cur.items():
                if k[0] == "m":
                    s.mem[k[1]] = v
                else:
                    s.stor[k[1]] = v
            if domain is not None:
                if not assume(s, LT(lv, domain), True):
                    back, exits = [], []
                    break
                s.pc = cdnf(LT(lv, domain), True) if LT(lv, domain) is not TRUE else TOP
            hdr = s.fork()
            back, exits = step(s, lv)
            if not back and domain is None:
                if not cur:
                    for _, x in exits:
                        x.pc = dnf_and(st0.pc, x.pc)
                    return exits
                break
            if not back:
                break
            sb = self.merge(fr, back, live if fr else None)
            changed = False
            keys = [("m", k) for k in sb.mem if k in st0.mem] + [("s", k) for k in sb.stor]
            for k in keys:
                if not tracked(k):
                    continue
                if k[0] == "m":
                    v0 = st0.mem[k[1]]
                    nb = sb.mem[k[1]]
                else:
                    v0 = st0.stor.get(k[1]) or self.stor_init(k[1])
                    nb = sb.stor[k[1]]
                c = cur.get(k, v0)
                w = widen(v0, c, nb)
                if w is not c:
                    cur[k] = w
                    changed = True
            if not changed:
                break
        back_ok = bool(back)
        # updates of accumulators
        upd = {}

        def collect(c, nb):
            if c in accs:
                upd[c] = nb
            elif c.op == "adt" and nb.op == "adt":
                for x, y in zip(c.a[2], nb.a[2]):
                    collect(x, y)
            elif c.op == "tup" and nb.op == "tup":
                for x, y in zip(c.a[0], nb.a[0]):
                    collect(x, y)
        rcache = {}
        if back_ok:
            for k, c in cur.items():
                nb = sb.mem.get(k[1]) if k[0] == "m" else sb.stor.get(k[1])
                if nb is not None:
                    collect(c, resolve_deep(sb.facts, nb, rcache))
        # domain
        N = domain
        if N is None and back_ok:
            cands = {}
            for cj in sb.pc:
                for t, p in cj:
                    if p and t.op == "lt" and t.a[0] is lv and not (free_lv(t.a[1]) & (set(accs) | {lv})):
                        cands[t] = cands.get(t, 0) + 1
            for t, n in sorted(cands.items(), key=lambda x: x[0].id):
                if n == len(sb.pc):
                    N = t.a[1]
                    break
            if N is None:
                # `while i != n`, `while k * i + d < n`, `while !rest.is_empty()`: the same bound in another form
                cands = {}
                for cj in sb.pc:
                    for t, p in cj:
                        b = loop_bound(t, p, lv, [x for x in cur.values() if x.op == "slice"]) if not (free_lv(t) & set(accs)) else None
                        if b is not None:
                            cands.setdefault((t, p, b), []).append(cj)
                for (t, p, b), cjs in sorted(cands.items(), key=lambda x: x[0][0].id):
                    if len(cjs) == len(sb.pc):
                        N = b
                        d2 = LT(lv, N)

                        def rw(c):
                            return frozenset((d2, q == p) if u is t else (u, q) for u, q in c)
                        sts = {id(x): x for x in [sb] + [x for _, x in exits]}
                        for x in sts.values():
                            x.pc = frozenset(rw(c) for c in x.pc)
                            if t in x.facts:
                                x.facts = dict(x.facts)
                                q = x.facts.pop(t)
                                x.facts[d2] = q == p
                        break
        elif N is None:
            pass
        if N is None:
            self.nlv += 1
            N = CALL("niter", I(self.nlv))
            nodom = True
        else:
            nodom = False
        dom = LT(lv, N)
        if back_ok:
            C = dnf_term(frozenset(frozenset(l for l in c if l != (dom, True)) for c in sb.pc))
        else:
            C = FALSE
        if self.opaque_loops is not None and accs and back_ok:
            r = self.record_loop(st0, lv, accs, upd, N, nodom, dom, sb, exits, domain, hdr)
            if r is not None:
                return r
        memo = {}

        def closed(a, n):
            """value of accumulator a after n iterations"""
            key = (a, n)
            if key in memo:
                r = memo[key]
                if r is None:
                    return CALL("accrec", accs[a] if accs[a] is not None else UNIT)
                return r
            memo[key] = None
            v0 = accs[a] if accs[a] is not None else mk("bot")
            u = upd.get(a)
            if u is None:
                r = v0
            else:
                others = (set(accs) - {a}) & free_lv(u)
                if others:
                    u = subst(u, {o: closed(o, lv) for o in others})
                r = self.close_acc(a, v0, u, n, lv)
            memo[key] = r
            return r

        def fin(t, n):
            fl = free_lv(t)
            m = {}
            for a in accs:
                if a in fl:
                    m[a] = closed(a, n)
            if m:
                t = subst(t, m)
            return t

        # an exit as soon as the index reaches a bound: the loop runs over the first elements only
        cut = {}
        if domain is None and not nodom and N.op == "len" and back_ok:
            for n, (tag, x) in enumerate(exits):
                # tested after the element is taken, or before
                if len(x.pc) == 1 and (dom, False) not in next(iter(x.pc)):
                    e = AND(*[t if p else NOT(t) for t, p in next(iter(x.pc)) if t is not dom])
                    b = index_bound(fin(e, lv), lv, st0)
                    if b is not None:
                        cut[n] = (e, b, (dom, True) not in next(iter(x.pc)))
            if len(cut) == 1:
                (k, (e, b, head)), = cut.items()
                full, N = N, LEN(tm.TAKE(N.a[0], b))
                memo.clear()
                ne = NOT(e)

                gone = {e, ne}
                if ne.op == "and" and e.op == "not":
                    for y in ne.a[0]:
                        gone |= {y, NOT(y)}

                def drop(pc):
                    return frozenset(frozenset(l for l in c if l[0] not in gone) for c in pc)
                sb.pc = drop(sb.pc)
                for n, (tag, x) in enumerate(exits):
                    x.pc = drop(x.pc)
                    x.facts = {u: v for u, v in x.facts.items() if u not in gone}
                C = dnf_term(frozenset(frozenset(l for l in c if l != (dom, True)) for c in sb.pc))
                sb.facts = {u: v for u, v in sb.facts.items() if u not in gone}
            else:
                cut = {}
        Cc = fin(C, lv)
        allok = close_forall(N, lv, Cc) if not nodom else BCALL("loopdone", N)
        h_, (cw,) = close(lv, Cc)
        wit = mk("wit", N, h_, cw)
        bodyfacts = []
        if back_ok:
            for t, p in sb.facts.items():
                if isinstance(t, T) and t not in st0.facts and t is not dom and isinstance(p, bool):
                    bodyfacts.append(t if p else NOT(t))
        res = []

        def finish(x, idx, extra, keeppc):
            m = {lv: idx}
            cache = {}

            def f(t):
                r = cache.get(t)
                if r is None:
                    fl = free_lv(t)
                    if not fl or not (fl & (set(accs) | {lv})):
                        r = t
                    else:
                        r = subst(fin2(t, idx), m)
                    cache[t] = r
                return r

            def fin2(t, n):
                fl = free_lv(t)
                mm = {a: closed(a, n) for a in accs if a in fl}
                return subst(t, mm) if mm else t
            y = State()
            y.mem = {k: f(v) for k, v in x.mem.items()}
            y.stor = {k: f(v) for k, v in x.stor.items()}
            y.facts = dict(st0.facts)
            pcs = []
            for cj in keeppc:
                z = tm.fconj(cj, f)
                if z is not None:
                    pcs.append(z)
            pc = frozenset(pcs)
            for e in extra:
                pc = dnf_and(pc, cdnf(e, True)) if e is not FALSE else frozenset()
            if not pc:
                return None
            y.pc = dnf_and(st0.pc, pc)
            for e in extra:
                if not assume(y, e, True):
                    return None
            for t, p in list(x.facts.items()):
                if isinstance(t, T) and isinstance(p, bool) and st0.facts.get(t) != p and t is not dom:
                    t2 = f(t)
                    if t2.op == "int":
                        if bool(t2.a[0]) != p:
                            return None
                        continue
                    assume(y, t2, p)
            return y

        if domain is not None:
            # closure-driven iteration: the normal exit is synthesized from the header state
            for tag, x in exits:
                pc = frozenset(frozenset(l for l in c if l != (dom, True)) for c in x.pc)
                y = finish(x, wit, [NOT(allok)], pc)
                if y is not None:
                    res.append((tag, y))
            x = hdr
            x.facts = dict(st0.facts)
            y = finish(x, N, [allok], TOP)
            if y is not None:
                for bf in bodyfacts:
                    t2 = fin(bf, lv)
                    assume(y, close_forall(N, lv, t2), True)
                res.append(("done", y))
            return res
        for n, (tag, x) in enumerate(exits):
            normal = not nodom and all((dom, False) in c for c in x.pc)
            if normal or n in cut:
                pc = frozenset(frozenset(l for l in c if l != (dom, False)) for c in x.pc)
                early = []
                if n in cut:
                    pc = TOP
                    x.facts = dict(hdr.facts)
                if cut:
                    more = NOT(LT(full, b)) if head else LT(b, full)
                    early = [more if n in cut else NOT(more)]
                y = finish(x, N, [allok] + early, pc)
                if y is not None:
                    for bf in bodyfacts:
                        t2 = fin(bf, lv)
                        assume(y, close_forall(N, lv, t2), True)
            else:
                pc = frozenset(frozenset(l for l in c if l != (dom, True)) for c in x.pc)
                y = finish(x, wit, [NOT(allok)] if not nodom else [], pc)
            if y is not None:
                res.append((tag, y))
        return res

    def record_loop(self, st0, lv, accs, upd, N, nodom, dom, sb, exits, domain, hdr):
        """state after the loop as symbols; the recurrence goes to self.loops for an inductive argument"""
        rec = {"lv": lv, "init": dict(accs), "upd": dict(upd), "n": N, "bounded": not nodom, "facts": dict(sb.facts), "exits": []}
        if not self.opaque_loops(rec):
            return None
        L = len(self.loops) + 1
        order = sorted(accs, key=lambda a: a.id)
        rec["accs"] = order
        rec["id"] = L
        self.loops.append(rec)
        res = []
        done = BCALL("loopexit", I(L))

        def leave(x, kind, i, extra, pcs):
            m = {a: mk("p", "loop%d.%s.%d" % (L, kind, j)) for j, a in enumerate(order)}
            m[lv] = i
            rec["exits"].append((kind, {j: m[a] for j, a in enumerate(order)}, i))
            cache = {}

            def f(t):
                r = cache.get(t)
                if r is None:
                    r = cache[t] = subst(t, m) if free_lv(t) & set(m) else t
                return r
            y = State()
            y.mem = {k: f(v) for k, v in x.mem.items()}
            y.stor = {k: f(v) for k, v in x.stor.items()}
            y.facts = dict(st0.facts)
            pc = frozenset(z for z in (tm.fconj(c, f) for c in pcs) if z is not None)
            for e in extra:
                pc = dnf_and(pc, cdnf(e, True))
                assume(y, e, True)
            if not pc:
                return None
            y.pc = dnf_and(st0.pc, pc)
            for t, p in list(x.facts.items()):
                if isinstance(t, T) and isinstance(p, bool) and st0.facts.get(t) != p and t is not dom:
                    t2 = f(t)
                    if t2.op == "int":
                        if bool(t2.a[0]) != p:
                            return None
                        continue
                    assume(y, t2, p)
            return y
        for n, (tag, x) in enumerate(exits):
            normal = not nodom and domain is None and all((dom, False) in c for c in x.pc)
            if normal:
                y = leave(x, "end%d" % n, N, [done], frozenset(frozenset(l for l in c if l != (dom, False)) for c in x.pc))
            else:
                y = leave(x, "brk%d" % n, mk("p", "loop%d.brk%d.i" % (L, n)), [NOT(done)], frozenset(frozenset(l for l in c if l != (dom, True)) for c in x.pc))
            if y is not None:
                res.append((tag, y))
        if domain is not None:
            x = hdr
            x.facts = dict(st0.facts)
            y = leave(x, "end", N, [done], TOP)
            if y is not None:
                res.append(("done", y))
        return res

    def close_acc(self, a, v0, u, n, lv):
        if u is a:
            return v0
        if not occurs(a, u):
            # last element wins
            return CALL("last_or", v0, MAP(n, lv, u)) if lv in free_lv(u) else cond_phi(EQ(n, I(0)), v0, u)
        if v0 is EMPTY:
            first = subst(resolve_deep({EQ(lv, I(0)): True}, u), {a: EMPTY})
            later = resolve_deep({EQ(lv, I(0)): False}, u)
            if first is not later and later.op == "cat" and later.a[0][0] is a and not any(occurs(a, x) for x in later.a[0][1:]):
                # separators between the elements
                for k in range(2, len(later.a[0])):
                    sep, e = CAT(later.a[0][1:k]), CAT(later.a[0][k:])
                    if sep.op == "bytes" and (e is first or subst(e, {lv: I(0)}) is first):
                        return CALL("concat", MAP(n, lv, e), sep)
        if u.op == "cat" and u.a[0][0] is a and not any(occurs(a, x) for x in u.a[0][1:]):
            rest = u.a[0][1:]
            if len(rest) == 1 and rest[0].op == "seq":
                es = rest[0].a[0]
                if len(es) == 1:
                    return CAT([v0, MAP(n, lv, es[0])])
            e = CAT(rest)
            h, (e2,) = close(lv, e)
            return CAT([v0, mk("flatmap", n, h, e2)])
        if u.op == "add" and a in u.a[0] and u.a[0].count(a) == 1:
            rest = ADD(I(u.a[1]), *[x for x in u.a[0] if x is not a])
            if not occurs(a, rest):
                if lv not in free_lv(rest):
                    return ADD(v0, tm.MUL(rest, n))
                h, (e2,) = close(lv, rest)
                return ADD(v0, mk("fold", n, h, I(0), ADD(mk("accb", h), e2)))
        if u.op == "phi":
            keep = [d for d, x in u.a[0] if x is a]
            ch = [(d, x) for d, x in u.a[0] if x is not a]
            if keep and len(ch) == 1 and not occurs(a, dnf_term(ch[0][0])):
                cnd = dnf_term(ch[0][0])
                x = ch[0][1]
                if x.op == "cat" and x.a[0][0] is a and len(x.a[0]) == 2 and x.a[0][1].op == "seq" and len(x.a[0][1].a[0]) == 1 and not occurs(a, x.a[0][1]):
                    return CAT([v0, FILTERMAP(n, lv, cnd, x.a[0][1].a[0][0])])
                if ADD(a, I(1)) is x:
                    return ADD(v0, COUNT(n, lv, cnd))
        if u.op in tm.BOOLOPS:
            # flag |= c   /  flag &= c
            if u.op == "and" and a in u.a[0]:
                rest = AND(*[x for x in u.a[0] if x is not a])
                if not occurs(a, rest):
                    return AND(v0, close_forall(n, lv, rest))
            nu = NOT(u)
            na = NOT(a)
            if nu.op == "and" and na in nu.a[0]:
                rest = AND(*[x for x in nu.a[0] if x is not na])
                if not occurs(a, rest):
                    return NOT(AND(NOT(v0), close_forall(n, lv, rest)))
        if u.op == "store" and u.a[0] is a and not occurs(a, u.a[1]) and not occurs(a, u.a[2]):
            h, (k2, v2) = close(lv, u.a[1], u.a[2])
            return mk("storeall", n, h, v0, k2, v2)
        if u.op == "del" and u.a[0] is a and not occurs(a, u.a[1]):
            h, (k2,) = close(lv, u.a[1])
            return mk("delall", n, h, v0, k2)
        if u.op == "btins" and u.a[0] is a and v0.op == "bt0" and not occurs(a, u.a[1]) and not occurs(a, u.a[2]):
            return mk("btcollect", MAP(n, lv, mk("tup", (u.a[1], u.a[2]))))
        if u.op == "upd" and u.a[0] is a and not occurs(a, u.a[1]) and not occurs(a, u.a[2]):
            # a run of consecutive elements overwritten in order
            off = tm.SUB(u.a[1], lv)
            if not occurs(lv, off) and tm.is_int(LEN(v0)):
                return CAT([SLICE(v0, I(0), off), MAP(n, lv, u.a[2]), SLICE(v0, ADD(off, n), None)])
        if n is LEN(v0):
            e = elementwise(a, u, lv)
            if e is not None:
                e = subst(e, {mk("idx", a, lv): IDX(v0, lv)})
                if not occurs(a, e):
                    return MAP(n, lv, e)
        if v0 is TRUE or v0 is FALSE:
            # a flag raised / lowered by some element
            s0, s1 = subst(u, {a: FALSE}), subst(u, {a: TRUE})
            if all((x is TRUE or x is FALSE or x.op in tm.BOOLOPS) and not occurs(a, x) for x in (s0, s1)):
                if s1 is TRUE:
                    return NOT(AND(NOT(v0), close_forall(n, lv, NOT(s0))))
                if s0 is FALSE:
                    return AND(v0, close_forall(n, lv, s1))
        fm = n.a[0] if n.op == "len" and n.a[0].op == "flatmap" else None
        if fm is not None:
            # a list of lists, one list after the other
            x = self.fresh_lv()
            u1 = subst(u, {mk("idx", fm, lv): x})
            if lv not in free_lv(u1):
                o, a1 = self.fresh_lv(), self.fresh_lv()
                part = subst(fm.a[2], {mk("bv", fm.a[1]): o})
                inner = self.close_acc(a, a1, subst(u1, {x: IDX(part, lv)}), LEN(part), lv)
                return self.close_acc(a1, v0, inner, fm.a[0], o)
        h = 1 + max(tm.height(u), tm.height(v0))
        ab = mk("accb", h)
        u2 = subst(u, {a: ab, lv: mk("bv", h)})
        return mk("fold", n, h, v0, u2)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, term):
        f = term[1]
        args = [self.operand(fr, st, o) for o in term[2]]
        destty = term[6] if len(term) > 6 else None
        if f[0] == "k" and f[1]["c"] == "fn":
            outs = self.call_desc(st, f[1]["f"], args, destty, True)
        else:
            fv = self.operand(fr, st, f)
            outs = self.call_value(st, fv, args, destty, True)
        if isinstance(outs, tuple):
            outs = [outs]
        res = []
        for v, s in outs:
            if s is None:
                continue
            self.note_len(s, v, destty)
            if term[4] is not None:
                self.write_place(fr, s, term[3], v)
            res.append(s)
        return res

    def call_value(self, st, fv, args, destty=None, multi=False):
        fv = self.deref(st, fv)
        if fv.op == "fn":
            return self.call_desc(st, json.loads(fv.a[0]), args, destty, multi)
        if fv.op == "clos":
            fn = self.p.fn(fv.a[0])
            if fn is not None:
                self.calls += 1
                # by-value captured mutable state lives in a heap cell for the call
                self.nheap += 1
                loc = ("h", self.nheap)
                st.mem[loc] = fv
                selfv = fv
                ty = self.p.types[fn.locals[1]]
                if ty["k"] == "ref" and ty.get("m"):
                    selfv = mk("ptr", loc, ())
                if fn.argc == 2 and len(args) != 1:
                    # rust-call abi closures taking a tuple
                    t2 = self.p.types[fn.locals[2]]
                    if t2["k"] == "tuple":
                        args = [mk("tup", tuple(args))]
                return self.run_fn(fv.a[0], [selfv] + list(args), st, multi)
        if fv.op == "phi":
            outs = []
            for d, x in fv.a[0]:
                s = self.branch(st, dnf_term(d), True)
                if s is None:
                    continue
                v, s2 = self.call_value(s, x, args, destty)
                if s2 is not None:
                    outs.append((v, s2))
            return self.join_vals(st, outs)
        return self.opaque(st, "apply", [fv] + list(args), destty)

    def join_vals(self, st, outs):
        if not outs:
            return None, None
        if len(outs) == 1:
            return outs[0]
        self.nheap += 1
        k = ("h", self.nheap)
        sts = []
        for v, s in outs:
            s.mem[k] = v
            sts.append(s)
        r = self.merge(None, sts)
        v = r.mem.pop(k)
        return v, r

    def call_desc(self, st, d, args, destty=None, multi=False):
        self.calls += 1
        if "ctor" in d:
            t = self.p.types[d["ctor"][0]]
            if t.get("p") in NEWTYPES:
                return args[0], st
            return ADT(t.get("p", t["n"]), d["ctor"][1], args), st
        if d.get("closure"):
            return self.call_value(st, mk("clos", d["key"], ()), args, destty, multi)
        m = self.models.find(d)
        if m is not None:
            r = m(self, st, d, args, destty)
            if r is not NotImplemented:
                if isinstance(r, T):
                    return r, st
                return r
        key = d.get("key")
        path = d.get("path") or d["decl"]
        if key and path not in self.boundary:
            fn = self.p.fn(key)
            if fn is not None and sum(1 for f in self.stack if f.key == key) < 2 and len(self.stack) < self.maxdepth:
                if fn.closure or (d["decl"].startswith("core::ops::function::Fn") and len(args) == 2 and fn.argc != 2):
                    pass
                return self.run_fn(key, args, st, multi)
        if path not in self.boundary and path not in OPAQUE_OK:
            self.unknown[path] = self.unknown.get(path, 0) + 1
        if path not in self.boundary and self.writes_storage(d, path, args):
            st.stor[("raw", path)] = mk("call", "rawwrite:" + path, tuple(self.deep_deref(st, a) for a in args))
        return self.opaque(st, path, args, destty)

    def writes_storage(self, d, path, args):
        """a call that is not followed and is handed writable contract storage"""
        if path in ("cosmwasm_std::traits::Storage::set", "cosmwasm_std::traits::Storage::remove"):
            return True
        fn = self.p.fn(d.get("key")) if d.get("key") else None
        if fn is not None and fn.crate.startswith("hpl") if hasattr(fn, "crate") else path.lstrip("<").startswith("hpl"):
            tys = [self.p.types[x]["n"] for x in fn.locals[1:fn.argc + 1]] if fn is not None else []
            return any("DepsMut" in n or ("mut" in n and "Storage" in n) for n in tys)
        return False

    def opaque(self, st, name, args, destty):
        vals = [self.deep_deref(st, a) for a in args]
        t = self.p.types[destty] if destty is not None else None
        op = "bcall" if (t["k"] == "bool" if t is not None else name.split("::")[-1].startswith("is_")) else "call"
        v = mk(op, name, tuple(vals))
        if op == "call":
            self.note_len(st, v, destty)
        for i, a in enumerate(args):
            if a.op == "ptr":
                cur = self.read_ptr(st, a)
                if cur.op in ("p", "sym") or cur.op == "f" and not cur.a[1].startswith("hpl"):
                    continue    # storage / api handles
                self.write_ptr(st, a, mk("call", name + "!%d" % i, tuple(vals)))
        return v, st

    def deep_deref(self, st, v, n=0):
        v = self.deref(st, v)
        if n < 4:
            if v.op == "tup":
                return mk("tup", tuple(self.deep_deref(st, x, n + 1) for x in v.a[0]))
            if v.op == "adt" and any(x.op == "ptr" for x in v.a[2]):
                return ADT(v.a[0], v.a[1], [self.deep_deref(st, x, n + 1) for x in v.a[2]])
        return v

    # iterate a closure over a sequence as a loop (used by iterator adaptors)
    def iterate(self, st, S, body):
        """body(st, elem) -> (new state or None, [(tag, state)]) ; returns [(tag,state)] with 'done' the normal exit"""
        S = tm.hoist(resolve_deep(st.facts, S))
        if S.op == "phi" and len(S.a[0]) <= 6 and all(LEN(x).op == "int" for _, x in S.a[0]):
            outs = []
            for d, x in S.a[0]:
                s = self.branch(st, dnf_term(d), True)
                if s is not None:
                    outs.extend(self.iterate(s if s is not st else st.fork(), x, body))
            return outs
        N = LEN(S)
        if N.op == "int" and N.a[0] <= 64:
            outs = []
            cur = st
            for i in range(N.a[0]):
                s, ex = body(cur, IDX(S, I(i)))
                outs.extend(ex)
                if s is None:
                    return outs
                cur = s
            outs.append(("done", cur))
            return outs

        def step(s, lv):
            s2, ex = body(s, IDX(S, lv))
            return ([s2] if s2 is not None else []), ex
        return self.generic_loop(None, st, step, None, domain=N)

    def new_cell(self, st, v):
        self.nheap += 1
        k = ("h", self.nheap)
        st.mem[k] = v
        return k


def dead_end(fn, b, n=0):
    """block that only leads to a panic"""
    if n > 6:
        return False
    t = fn.blocks[b][1]
    if t[0] == "diverge":
        return True
    if t[0] == "call" and t[4] is None:
        return True
    if t[0] in ("goto",):
        return dead_end(fn, t[1], n + 1)
    return False
