"""Hash-consed value terms and boolean formulas.

Every value the analysis computes is a term; equal terms are the same Python
object.  Boolean terms are kept in a small normal form so that two differently
written but equivalent guards give the same literals.
"""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "a", "id", "_fb", "_lv", "_h", "_sz")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]
TYPELEN = {}   # opaque term -> known byte length (arrays)


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._fb = t._lv = t._h = t._sz = None
        _tab[k] = t
    return t


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _tc(x)
        elif isinstance(x, frozenset):
            yield from _tc(x)


def _tc(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, (tuple, frozenset)):
            yield from _tc(y)


def size(t):
    if t._sz is None:
        s = 1
        for c in children(t):
            s += size(c)
        t._sz = min(s, 10 ** 9)
    return t._sz


def I(v):
    return mk("int", v)


TRUE = I(1)
FALSE = I(0)
UNIT = mk("tup", ())
EMPTY = mk("seq", ())


def B(v):
    return TRUE if v else FALSE


def BYTES(b):
    return mk("bytes", bytes(b)) if b else EMPTY


def is_int(t):
    return t.op == "int"


# ---------------------------------------------------------------- vectors
def SEQ(es):
    return mk("seq", tuple(es)) if es else EMPTY


def CAT(parts):
    out = []
    if any(p.op in ("bytes", "ube") for p in parts):
        # byte vectors: single elements pushed onto one are one-byte strings
        parts = [q for p in parts for q in ([UBE(1, x) for x in p.a[0]] if p.op == "seq" else [p])]
    stack = list(reversed(parts))
    while stack:
        p = stack.pop()
        if p.op == "cat":
            stack.extend(reversed(p.a[0]))
            continue
        if p is EMPTY:
            continue
        if out:
            q = out[-1]
            if q.op == "bytes" and p.op == "bytes":
                out[-1] = mk("bytes", q.a[0] + p.a[0])
                continue
            if q.op == "seq" and p.op == "seq":
                out[-1] = SEQ(q.a[0] + p.a[0])
                continue
            if q.op == "seq" and p.op == "slice" and q.a[0] and q.a[0][-1] is IDX(p.a[0], SUB(p.a[1], I(1))):
                # the element right before a slice joins it
                out.pop()
                stack.append(SLICE(p.a[0], SUB(p.a[1], I(1)), p.a[2]))
                if len(q.a[0]) > 1:
                    stack.append(SEQ(q.a[0][:-1]))
                continue
            if q.op == "slice" and p.op == "seq" and p.a[0] and q.a[2] is not None and p.a[0][0] is IDX(q.a[0], q.a[2]):
                out.pop()
                if len(p.a[0]) > 1:
                    stack.append(SEQ(p.a[0][1:]))
                stack.append(SLICE(q.a[0], q.a[1], ADD(q.a[2], I(1))))
                continue
            if q.op == "slice" and p.op == "slice" and q.a[0] is p.a[0] and q.a[2] is not None and q.a[2] is p.a[1]:
                r = SLICE(q.a[0], q.a[1], p.a[2])
                out.pop()
                stack.append(r)
                continue
        out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out))


FIXLEN = {"keccak": 32, "bech32_to_h256": 32}


def LEN(x):
    if x.op == "bytes":
        return I(len(x.a[0]))
    if x.op == "seq":
        return I(len(x.a[0]))
    if x.op == "cat":
        return ADD(*[LEN(p) for p in x.a[0]])
    if x.op == "slice":
        b = x.a[2] if x.a[2] is not None else LEN(x.a[0])
        return SUB(b, x.a[1])
    if x.op == "ube":
        return I(x.a[0])
    if x.op == "map":
        return x.a[0]
    if x.op == "filtermap":
        return mk("count", x.a[0], x.a[1], x.a[2])
    if x.op == "call" and x.a[0] in FIXLEN:
        return I(FIXLEN[x.a[0]])
    if x.op == "call" and x.a[0] == "rep":
        return x.a[1][1]
    if x.op == "range":
        return SUB(x.a[1], x.a[0])
    if x.op == "mref":
        return x.a[2]
    if x.op == "upd":
        return LEN(x.a[0])
    if x.op == "keysof":
        return mk("len", mk("entries", *x.a))
    if x.op == "take" and x.a[0].op == "keysof":
        return mk("len", mk("take", mk("entries", *x.a[0].a), x.a[1]))
    if x.op == "phi":
        return PHI([(d, LEN(v)) for d, v in x.a[0]])
    n = TYPELEN.get(x)
    if n is not None:
        return I(n)
    return mk("len", x)


def REP(x, n):
    """x repeated n times"""
    if is_int(n) and is_int(x) and n.a[0] <= 4096:
        return BYTES(bytes([x.a[0]]) * n.a[0]) if 0 <= x.a[0] < 256 else SEQ([x] * n.a[0])
    return mk("call", "rep", (x, n))


def SLICE(x, a, b):
    """bytes/elements a..b of x; b None means to the end."""
    if is_int(a) and a.a[0] == 0 and b is None:
        return x
    L = LEN(x)
    if a is b or a is L and (b is None or b is L):
        return EMPTY
    if b is not None and b is L:
        b = None
        if is_int(a) and a.a[0] == 0:
            return x
    if x.op == "phi":
        return PHI([(d, SLICE(v, a, b)) for d, v in x.a[0]])
    if x.op == "bytes" and len(set(x.a[0])) == 1 and not (is_int(a) and (b is None or is_int(b))):
        return REP(I(x.a[0][0]), SUB(L if b is None else b, a))
    if x.op == "slice" and not (is_int(a) and is_int(x.a[1]) and (b is None or is_int(b))):
        return SLICE(x.a[0], ADD(x.a[1], a), ADD(x.a[1], b) if b is not None else x.a[2])
    if is_int(a) and (b is None or is_int(b)):
        lo = a.a[0]
        hi = b.a[0] if b is not None else None
        if x.op in ("bytes", "seq"):
            r = x.a[0][lo:hi]
            return BYTES(r) if x.op == "bytes" else SEQ(r)
        if x.op == "slice" and is_int(x.a[1]):
            o = x.a[1].a[0]
            nb = I(o + hi) if hi is not None else x.a[2]
            return SLICE(x.a[0], I(o + lo), nb)
        if x.op == "cat":
            # parts grouped so that the groups start and end at known positions
            out, grp, pos, cur, ok = [], [], 0, I(0), True
            parts = x.a[0]
            for idx, p in enumerate(parts):
                if hi is not None and pos >= hi:
                    break
                if not grp and pos >= lo and hi is None:
                    out.extend(parts[idx:])
                    grp = []
                    break
                grp.append(p)
                cur = ADD(cur, LEN(p))
                if not is_int(cur):
                    continue
                s, e = pos, cur.a[0]
                lo2, hi2 = max(lo, s), e if hi is None else min(hi, e)
                if lo2 < hi2:
                    if lo2 == s and hi2 == e:
                        out.extend(grp)
                    elif len(grp) == 1:
                        out.append(SLICE(p, I(lo2 - s), I(hi2 - s)))
                    else:
                        ok = False
                        break
                pos, grp = e, []
            if grp:
                ok = False
            if ok:
                return CAT(out)
    elif b is None and x.op == "cat" and len(x.a[0]) > 1 and a is LEN(x.a[0][0]):
        return CAT(x.a[0][1:])
    elif b is not None and is_int(a) and a.a[0] == 0 and x.op == "cat" and b is LEN(x.a[0][0]):
        return x.a[0][0]
    if is_int(a) and b is not None and a is b:
        return EMPTY
    return mk("slice", x, a, b)


def UPD(s, k, v):
    """s with element k replaced"""
    if is_int(k) and s.op in ("bytes", "ube") and is_int(LEN(s)) and k.a[0] < LEN(s).a[0]:
        return CAT([SLICE(s, I(0), k), UBE(1, v), SLICE(s, I(k.a[0] + 1), None)])
    if v is IDX(s, k):
        return s
    return mk("upd", s, k, v)


def TAKE(s, n):
    """the first n elements of s"""
    if s.op == "phi":
        return PHI([(d, TAKE(v, n)) for d, v in s.a[0]])
    if s.op == "seq" and is_int(n):
        return SEQ(s.a[0][:n.a[0]])
    if s.op == "call" and s.a[0] == "repeat":
        return REP(s.a[1][0], n)
    if s.op == "map" and s.a[0].op == "len":
        return mk("map", LEN(TAKE(s.a[0].a[0], n)), s.a[1], s.a[2])
    return mk("take", s, n)


def IDX(s, k):
    if s.op == "upd":
        if k is s.a[1]:
            return s.a[2]
        if is_int(k) and is_int(s.a[1]):
            return IDX(s.a[0], k)
    if s.op == "take":
        return IDX(s.a[0], k)
    if s.op == "call" and s.a[0] == "rep":
        return s.a[1][0]
    if s.op == "phi":
        return PHI([(d, IDX(v, k)) for d, v in s.a[0]])
    if is_int(k):
        i = k.a[0]
        if s.op == "bytes" and i < len(s.a[0]):
            return I(s.a[0][i])
        if s.op == "seq" and i < len(s.a[0]):
            return s.a[0][i]
        if s.op == "ube" and s.a[0] == 1 and i == 0:
            return s.a[1]
        if s.op == "cat":
            pos = 0
            for p in s.a[0]:
                n = LEN(p)
                if not is_int(n):
                    break
                if i < pos + n.a[0]:
                    return IDX(p, I(i - pos))
                pos += n.a[0]
    if s.op == "map":
        return subst(s.a[2], {mk("bv", s.a[1]): k})
    if s.op == "range":
        return ADD(s.a[0], k)
    if s.op == "slice":
        return IDX(s.a[0], ADD(s.a[1], k))
    if s.op == "mref":
        return mk("ptr", s.a[0], s.a[1] + (("i", k),))
    if s.op == "enumd":
        return mk("tup", (k, IDX(s.a[0], k)))
    if s.op == "zip":
        return mk("tup", (IDX(s.a[0], k), IDX(s.a[1], k)))
    return mk("idx", s, k)


def UBE(w, x):
    if x.op == "int":
        return BYTES(x.a[0].to_bytes(w, "big")) if x.a[0] < 256 ** w else mk("ube", w, x)
    if x.op == "be" and LEN(x.a[0]) is I(w):
        return x.a[0]
    if w == 1 and x.op == "idx":
        return SLICE(x.a[0], x.a[1], ADD(x.a[1], I(1)))
    if x.op == "phi":
        return PHI([(d, UBE(w, v)) for d, v in x.a[0]])
    return mk("ube", w, x)


def BE(x):
    if x.op == "bytes":
        return I(int.from_bytes(x.a[0], "big"))
    if x is EMPTY:
        return I(0)
    if x.op == "ube":
        return x.a[1]
    if x.op == "cat" and x.a[0][0].op == "bytes" and not any(x.a[0][0].a[0]):
        return BE(CAT(x.a[0][1:]))
    if x.op == "slice" and x.a[2] is not None and SUB(x.a[2], x.a[1]) is I(1):
        return mk("idx", x.a[0], x.a[1])
    if x.op == "seq" and all(e.op == "idx" and e.a[0] is x.a[0][0].a[0] and e.a[1] is ADD(x.a[0][0].a[1], I(i)) for i, e in enumerate(x.a[0])):
        b, k = x.a[0][0].a
        return BE(SLICE(b, k, ADD(k, I(len(x.a[0])))))
    if x.op == "phi":
        return PHI([(d, BE(v)) for d, v in x.a[0]])
    return mk("be", x)


# ---------------------------------------------------------------- arithmetic
def ADD(*xs):
    c = 0
    ts = []
    for x in xs:
        if x.op == "int":
            c += x.a[0]
        elif x.op == "add":
            ts.extend(x.a[0])
            c += x.a[1]
        elif x.op in BOOLOPS:
            rest = [y for y in xs if y is not x] + [x] * (sum(1 for y in xs if y is x) - 1)
            return PHI([(d, ADD(I(1), *rest)) for d in [frozenset([frozenset([lit(x)])])]] + [(frozenset([frozenset([lit(x, False)])]), ADD(*rest))])
        else:
            ts.append(x)
    if not ts:
        return I(c)
    # a + (b - a) = b
    ch = True
    while ch:
        ch = False
        for x in ts:
            if x.op == "sub" and x.a[1] in ts and x.a[1] is not x:
                ts.remove(x)
                ts.remove(x.a[1])
                return ADD(I(c), x.a[0], *ts)
    if len(ts) == 1 and c == 0:
        return ts[0]
    return mk("add", tuple(sorted(ts, key=lambda t: t.id)), c)


def SUB(a, b):
    if a is b:
        return I(0)
    if is_int(b) and b.a[0] == 0:
        return a
    if is_int(a) and is_int(b) and a.a[0] >= b.a[0]:
        return I(a.a[0] - b.a[0])
    if a.op == "phi":
        return PHI([(d, SUB(v, b)) for d, v in a.a[0]])
    if b.op == "add" and len(b.a[0]) == 1 and b.a[0][0].op == "sub" and b.a[0][0].a[0] is a:
        return SUB(b.a[0][0].a[1], I(b.a[1]))       # a - ((a - x) + c)
    if is_int(a) and b.op == "sub" and is_int(b.a[0]):
        return SUB(ADD(a, b.a[1]), b.a[0])          # a - (c - x)
    fa, ca = (a.a if a.op == "add" else (() if is_int(a) else (a,), a.a[0] if is_int(a) else 0))
    fb, cb = (b.a if b.op == "add" else (() if is_int(b) else (b,), b.a[0] if is_int(b) else 0))
    fa = list(fa)
    fb = list(fb)
    for x in list(fb):
        if x in fa:
            fa.remove(x)
            fb.remove(x)
    m = min(ca, cb)
    ca -= m
    cb -= m
    na = ADD(I(ca), *fa)
    nb = ADD(I(cb), *fb)
    if is_int(nb) and nb.a[0] == 0:
        return na
    return mk("sub", na, nb)


def MUL(*xs):
    c = 1
    ts = []
    for x in xs:
        if x.op == "int":
            c *= x.a[0]
        elif x.op == "mul":
            ts.extend(x.a[0])
            c *= x.a[1]
        else:
            ts.append(x)
    if c == 0 or not ts:
        return I(c)
    if len(ts) == 1 and c == 1:
        return ts[0]
    if len(ts) == 1 and ts[0].op == "add":
        return ADD(I(ts[0].a[1] * c), *[MUL(x, I(c)) for x in ts[0].a[0]])
    return mk("mul", tuple(sorted(ts, key=lambda t: t.id)), c)


def DIV(a, b):
    if is_int(a) and is_int(b) and b.a[0]:
        return I(a.a[0] // b.a[0])
    if is_int(b) and b.a[0] == 1:
        return a
    if is_int(b) and b.a[0] and a.op == "div" and is_int(a.a[1]):
        return DIV(a.a[0], I(a.a[1].a[0] * b.a[0]))
    return mk("div", a, b)


# terms known to be strings of bytes, from the type of an element
BYTE_BASES = set()


def bytes_of(t):
    """{k: b}: t is the sum of bytes b << 8k, None if it is not put together from bytes"""
    if t.op == "idx" and (t.a[0] in BYTE_BASES or t.a[0].op in ("ube", "bytes")):
        return {0: t}
    if t.op == "be" and is_int(LEN(t.a[0])) and LEN(t.a[0]).a[0] <= 16:
        n = LEN(t.a[0]).a[0]
        return {n - 1 - i: IDX(t.a[0], I(i)) for i in range(n)}
    if t.op == "shl" and is_int(t.a[1]) and t.a[1].a[0] % 8 == 0:
        r = bytes_of(t.a[0])
        return None if r is None else {k + t.a[1].a[0] // 8: b for k, b in r.items()}
    if t.op == "bitor":
        x, y = bytes_of(t.a[0]), bytes_of(t.a[1])
        return {**x, **y} if x is not None and y is not None and not set(x) & set(y) else None


def TRUNC(w, x):
    """the low w bits of x"""
    if x.op == "int":
        return I(x.a[0] & ((1 << w) - 1))
    if x.op == "phi" and len(x.a[0]) <= 6:
        return PHI([(d, TRUNC(w, v)) for d, v in x.a[0]])
    if x.op == "trunc" and x.a[0] <= w:
        return x
    if x.op == "be" and LEN(x.a[0]).op == "int" and LEN(x.a[0]).a[0] * 8 <= w:
        return x
    return mk("trunc", w, x)


def ARITH(op, a, b):
    if op == "add":
        return ADD(a, b)
    if op == "sub":
        return SUB(a, b)
    if op == "mul":
        return MUL(a, b)
    if op == "div":
        return DIV(a, b)
    if is_int(a) and is_int(b):
        x, y = a.a[0], b.a[0]
        try:
            return I({"rem": lambda: x % y, "shl": lambda: x << y, "shr": lambda: x >> y,
                      "bitand": lambda: x & y, "bitor": lambda: x | y, "bitxor": lambda: x ^ y}[op]())
        except (KeyError, ZeroDivisionError):
            pass
    if op == "shr" and is_int(b) and 0 <= b.a[0] < 256:
        return DIV(a, I(1 << b.a[0]))
    if op == "bitand":
        if is_int(a):
            a, b = b, a
        if is_int(b) and b.a[0] >= 0 and b.a[0] & (b.a[0] + 1) == 0:
            return ARITH("rem", a, I(b.a[0] + 1))
    if op in ("bitand", "bitor", "bitxor") and a.id > b.id:
        a, b = b, a
    if op == "rem" and is_int(b) and b.a[0] == 1:
        return I(0)
    if op in ("bitor", "bitxor") and is_int(a) and a.a[0] == 0:
        return b
    if op in ("bitor", "bitxor", "shl", "shr") and is_int(b) and b.a[0] == 0:
        return a
    if op == "bitor":
        t = mk(op, a, b)
        r = bytes_of(t)
        if r is not None and sorted(r) == list(range(len(r))):
            return BE(CAT([SLICE(r[k].a[0], r[k].a[1], ADD(r[k].a[1], I(1))) if r[k].op == "idx" else BYTES(bytes([r[k].a[0]])) if r[k].op == "int" else SEQ([r[k]])
                           for k in range(len(r) - 1, -1, -1)]))
        return t
    if op == "shl" and is_int(a) and a.a[0] == 0:
        return a
    return mk(op, a, b)


# ---------------------------------------------------------------- booleans
BOOLOPS = {"eq", "lt", "is", "not", "and", "forall", "bcall"}


def NOT(x):
    if x.op == "int":
        return B(not x.a[0])
    if x.op == "not":
        return x.a[0]
    if x.op == "phi":
        return PHI([(d, NOT(v)) for d, v in x.a[0]], True)
    if x.op not in BOOLOPS:
        return EQ(x, I(0))   # a boolean held in a variable
    return mk("not", x)


def AND(*xs):
    s = set()
    st = list(xs)
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            st.extend(x.a[0])
            continue
        s.add(TRUTH(x))
    for x in s:
        if NOT(x) in s:
            return FALSE
    for x in list(s):
        # a witness against "for all" is one where the body fails
        if x.op == "not" and x.a[0].op == "forall":
            n, h, b = x.a[0].a
            w = _tab.get(("wit", (n, h, b)))
            if w is not None:
                p = subst(b, {mk("bv", h): w})
                if p is TRUE or p in s or (p.op == "and" and p.a[0] <= s):
                    return FALSE
                q = NOT(p)      # implied by x
                s -= q.a[0] if q.op == "and" else {q}
    # unit propagation inside: and(a, not and(a,b)) = and(a, not b)
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if x.op == "not" and x.a[0].op == "and":
                inner = x.a[0].a[0]
                rest = [y for y in inner if y not in s]
                if len(rest) != len(inner):
                    s.discard(x)
                    n = NOT(AND(*rest))
                    return AND(n, *s)
                if any(NOT(y) in s for y in inner):
                    s.discard(x)
                    ch = True
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", frozenset(s))


def OR(*xs):
    xs = [x for x in xs if x is not FALSE]
    if not xs:
        return FALSE
    if any(x is TRUE for x in xs):
        return TRUE
    sets = [set(x.a[0]) if x.op == "and" else {x} for x in xs]
    common = set.intersection(*sets)
    if common:
        return AND(*common, OR(*[AND(*(s - common)) for s in sets]))
    return NOT(AND(*[NOT(x) for x in xs]))


def TRUTH(t):
    """a value of type bool as a condition"""
    return t if t.op in BOOLOPS or t.op == "phi" else B(t.a[0] != 0) if t.op == "int" else NOT(EQ(t, I(0)))


def lit(t, pol=True):
    if t.op == "not":
        return (t.a[0], not pol)
    return (t, pol)


def LIT(l):
    return l[0] if l[1] else NOT(l[0])


INTLIKE = {"len", "be", "add", "sub", "mul", "div", "count"}


def EQ(a, b):
    if a is b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return B(a.a[0] == b.a[0])
    if a.op == "bytes" and b.op == "bytes":
        return FALSE
    if "add" in (a.op, b.op) and a.op in ("add", "len", "p", "sub") and b.op in ("add", "len", "p", "sub"):
        d, d2 = SUB(a, b), SUB(b, a)
        if is_int(d) and d.a[0] or is_int(d2) and d2.a[0]:
            return FALSE
    if a.op == "int":
        a, b = b, a
    if b.op == "int" and a.op in BOOLOPS:
        return a if b.a[0] else NOT(a)
    if a.op == "count" and b.op == "int" and b.a[0] == 0:
        return FORALL(a.a[0], a.a[1], NOT(a.a[2]))
    if a.op in BOOLOPS and b.op in BOOLOPS:
        return OR(AND(a, b), AND(NOT(a), NOT(b)))
    if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        return AND(*[EQ(x, y) for x, y in zip(a.a[2], b.a[2])])
    if a.op == "tup" and b.op == "tup":
        return AND(*[EQ(x, y) for x, y in zip(a.a[0], b.a[0])])
    if a.op == "phi" and len(a.a[0]) <= 6:
        return PHI([(d, EQ(v, b)) for d, v in a.a[0]], True)
    if b.op == "phi" and len(b.a[0]) <= 6:
        return PHI([(d, EQ(a, v)) for d, v in b.a[0]], True)
    if b.op == "adt" and a.op != "adt":
        a, b = b, a
    if a.op == "adt" and b.op != "adt":
        nm = VARIANTS.get(a.a[0])
        if nm:
            nv = len(nm)
            fs = [EQ(x, FIELD(b, a.a[0], a.a[1], i)) for i, x in enumerate(a.a[2])]
            return AND(IS(b, a.a[0], a.a[1]), *fs) if nv > 1 else AND(*fs)
    if a.op == "sub" and b.op == "int" and b.a[0] > 0:
        return EQ(a.a[0], ADD(b, a.a[1]))
    if a.op == "sub" and b.op == "int" and b.a[0] == 0:
        return NOT(LT(a.a[1], a.a[0]))      # a subtraction is defined (or saturates) only from the larger side
    la, lb = LEN(a) if a.op in ("bytes", "seq", "cat", "ube") else None, LEN(b) if b.op in ("bytes", "seq", "cat", "ube") else None
    if la is not None and lb is not None and is_int(la) and is_int(lb) and la is not lb:
        return FALSE
    z, x = (a, b) if a.op == "bytes" else (b, a)
    if z.op == "bytes" and z.a[0] and not any(z.a[0]) and x.op in ("slice", "f", "p", "call") and LEN(x) is I(len(z.a[0])):
        return EQ(BE(x), I(0))
    if a is EMPTY or b is EMPTY:
        x = b if a is EMPTY else a
        return EQ(LEN(x), I(0)) if x.op not in ("bytes",) else FALSE
    if b.op == "int" and a.op == "rem" and is_int(a.a[1]):
        if b.a[0] >= a.a[1].a[0]:
            return FALSE
        if b.a[0] == 1 and a.a[1].a[0] == 2:
            return NOT(EQ(a, I(0)))
    if b.op == "int" and a.op == "bitand":
        m = [x.a[0] for x in a.a if is_int(x)]
        if m and m[0] & (m[0] - 1) == 0 and b.a[0] in (0, m[0]):
            x = a.a[0] if is_int(a.a[1]) else a.a[1]
            r = EQ(ARITH("rem", DIV(x, I(m[0])), I(2)), I(0))
            return r if b.a[0] == 0 else NOT(r)
    if a.op == "add" and b.op == "int":
        if b.a[0] < a.a[1]:
            return FALSE
        if a.a[1]:
            return EQ(ADD(*a.a[0]), I(b.a[0] - a.a[1]))
    if a.op == "int" or (b.op != "int" and a.id > b.id):
        a, b = b, a
    return mk("eq", a, b)


def LT(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return B(a.a[0] < b.a[0])
    if a.op == "phi" and len(a.a[0]) <= 6:
        return PHI([(d, LT(v, b)) for d, v in a.a[0]], True)
    if b.op == "phi" and len(b.a[0]) <= 6:
        return PHI([(d, LT(a, v)) for d, v in b.a[0]], True)
    if b.op == "int":
        v = b.a[0]
        if v == 0:
            return FALSE
        if a.op == "add" and a.a[1]:
            return FALSE if v <= a.a[1] else LT(ADD(*a.a[0]), I(v - a.a[1]))
        if v == 1:
            return EQ(a, I(0))
        if a.op == "sub":
            return LT(a.a[0], ADD(b, a.a[1]))
    if a.op == "int":
        # c < x  ==  not (x < c+1)
        return NOT(LT(b, I(a.a[0] + 1)))
    # cancel common addends
    if a.op == "add" or b.op == "add":
        fa, ca = a.a if a.op == "add" else ((a,), 0)
        fb, cb = b.a if b.op == "add" else ((b,), 0)
        fa, fb = list(fa), list(fb)
        hit = False
        for x in list(fb):
            if x in fa:
                fa.remove(x)
                fb.remove(x)
                hit = True
        m = min(ca, cb)
        if m:
            hit = True
        if hit:
            return LT(ADD(I(ca - m), *fa), ADD(I(cb - m), *fb))
        if cb and fb:
            # a < b + k  ==  not (b + k-1 < a): constants live on the left
            return NOT(LT(ADD(I(cb - 1), *fb), a))
    return mk("lt", a, b)


def LE(a, b):
    return NOT(LT(b, a))


VARIANTS = {}     # adt path -> list of (variant name, [field names])


def IS(x, path, vi):
    if x.op == "adt":
        return B(x.a[1] == vi)
    if x.op == "phi":
        return PHI([(d, IS(v, path, vi)) for d, v in x.a[0]], True)
    if path == RES and x.op == "idx" and x.a[0].op in ("entries", "keysof"):
        return B(vi == 0)
    n = len(VARIANTS.get(path) or ())
    if n == 1:
        return TRUE
    if n == 2:
        c = 1 if path.endswith("Option") else 0
        if vi != c:
            return NOT(mk("is", x, path, c))
    return mk("is", x, path, vi)


def FORALL(n, h, c):
    if c is TRUE:
        return TRUE
    if n.op == "int" and n.a[0] == 0:
        return TRUE
    if c is FALSE:
        return EQ(n, I(0))
    if c.op == "and":
        return AND(*[close_forall(n, mk("bv", h), x) for x in c.a[0]])
    if n.op == "int" and c.op == "eq" and c.a[1] is I(0):
        z = zero_bytes(n, mk("bv", h), c)
        if z is not None:
            return z
    return mk("forall", n, h, c)


# ---------------------------------------------------------------- phi
TOP = frozenset([frozenset()])


def conj_term(c):
    return AND(*[LIT(l) for l in c])


def dnf_term(d):
    return OR(*[conj_term(c) for c in d])


def dnf_and(d, e):
    out = set()
    for c in d:
        for f in e:
            u = c | f
            if not any((t, not p) in u for t, p in f):
                out.add(u)
    return frozenset(out)


_uid = [0]


def drop_implied(c):
    """that the witness of a failed "for all" fails the body goes without saying"""
    out = c
    for t, p in c:
        if t.op == "forall" and not p:
            w = _tab.get(("wit", t.a))
            if w is not None:
                n = NOT(subst(t.a[2], {mk("bv", t.a[1]): w}))
                out = out - {lit(x) for x in (n.a[0] if n.op == "and" else (n,))}
    return out


def dnf_or(ds):
    s = set()
    for d in ds:
        s |= d
    return dnf_simplify(s)


def dnf_simplify(s):
    s = set(s)
    ch = True
    while ch and len(s) > 1:
        ch = False
        lst = sorted(s, key=len)
        # absorption
        kept = []
        for c in lst:
            if any(k <= c for k in kept):
                s.discard(c)
                ch = True
            else:
                kept.append(c)
        lst = kept
        # complementary pairs / n-way covers
        idx = {}
        done = False
        for c in lst:
            for l in c:
                rest = c - {l}
                # c = rest+l ; other = rest' + not l with rest' <= rest  -> drop l
                neg = (l[0], not l[1])
                for o in lst:
                    if neg in o and (o - {neg}) <= rest:
                        s.discard(c)
                        s.add(rest)
                        done = True
                        break
                if done:
                    break
                if l[0].op == "is" and l[1]:
                    idx.setdefault((rest, l[0].a[0], l[0].a[1]), set()).add(l[0].a[2])
            if done:
                break
        if done:
            ch = True
            continue
        for (rest, x, p), vs in idx.items():
            if len(vs) == len(VARIANTS.get(p) or ()):
                for v in vs:
                    s.discard(rest | {(mk("is", x, p, v), True)})
                s.add(rest)
                ch = True
                break
    if len(s) > 48:
        common = frozenset.intersection(*s)
        _uid[0] += 1
        return frozenset([common | {(mk("bcall", "pcx", (I(_uid[0]),)), True)}])
    return frozenset(s)


def PHI(alts, boolean=False):
    """alts: [(dnf, value)], dnfs meant to be mutually exclusive."""
    m = {}
    order = []
    flat = []
    for d, v in alts:
        if not d:
            continue
        if v.op == "phi" and len(v.a[0]) * len(d) <= 40 and not (TOP == d):
            for d2, v2 in v.a[0]:
                dd = dnf_and(d, d2)
                if dd:
                    flat.append((dd, v2))
        elif v.op == "phi" and d == TOP:
            flat.extend(v.a[0])
        else:
            flat.append((d, v))
    for d, v in flat:
        d = frozenset(drop_implied(c) for c in d) if any(not p and t.op == "forall" for c in d for t, p in c) else d
        if v in m:
            m[v].append(d)
        else:
            m[v] = [d]
            order.append(v)
    if len(order) == 1:
        return order[0]
    if not order:
        return mk("bot")
    res = [(dnf_or(m[v]) if len(m[v]) > 1 else m[v][0], v) for v in order]
    if boolean or all(v.op in BOOLOPS or v is TRUE or v is FALSE for _, v in res):
        if any(v.op in BOOLOPS for _, v in res) or boolean:
            return OR(*[AND(dnf_term(d), v) for d, v in res])
        if all(v is TRUE or v is FALSE for _, v in res):
            return OR(*[dnf_term(d) for d, v in res if v is TRUE])
    # push a common constructor out:  phi(c: S{a}, d: S{b})  ->  S{phi(a,b)} for structs/tuples
    v0 = res[0][1]
    if any(v.op == "adt" and v.a[0] == OPT for _, v in res):
        r2 = phi_option(res)
        if r2 is not None:
            return PHI(r2)
    if v0.op == "tup" and all(v.op == "tup" and len(v.a[0]) == len(v0.a[0]) for _, v in res):
        return mk("tup", tuple(PHI([(d, v.a[0][i]) for d, v in res]) for i in range(len(v0.a[0]))))
    if v0.op == "adt" and all(v.op == "adt" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] for _, v in res):
        return ADT(v0.a[0], v0.a[1], [PHI([(d, v.a[2][i]) for d, v in res]) for i in range(len(v0.a[2]))])
    if len(res) == 2:
        r = minmax(res)
        if r is not None:
            res = r
    return mk("phi", tuple(sorted(res, key=lambda r: r[1].id)))


def minmax(res):
    """one form for the smaller / larger of two numbers"""
    (d1, a), (d2, b) = res
    if len(d1) != 1 or len(d2) != 1 or a.op == "phi" or b.op == "phi":
        return None
    (c1,), (c2,) = d1, d2
    if len(c1) != 1 or len(c2) != 1:
        return None
    ((t, p),), ((t2, p2),) = c1, c2
    if t is not t2 or p == p2 or t.op != "lt":
        return None
    less, more = (a, b) if p else (b, a)        # values where t holds / does not
    x, y = (a, b) if not is_int(a) and (is_int(b) or a.id < b.id) else (b, a)
    canon = LT(x, y)
    if canon.op != "lt" or t is canon:
        return None
    for lo, hi, same in ((x, y, True), (y, x, False)):
        for c in (LT(lo, hi), LE(lo, hi)):
            if c is t:
                small = less if same else more    # value where x < y
                big = more if same else less
                return [(frozenset([frozenset([(canon, True)])]), small), (frozenset([frozenset([(canon, False)])]), big)]
            if c.op == "not" and c.a[0] is t:
                small, big = (more, less) if same else (less, more)
                return [(frozenset([frozenset([(canon, True)])]), small), (frozenset([frozenset([(canon, False)])]), big)]
    return None


OPT = "core::option::Option"
RES = "core::result::Result"


def phi_option(res):
    """phi(x is Some: Some{x@Some.0}; !x is Some: None) is x"""
    out = []
    ch = False
    xs = set()
    for d, v in res:
        if v.op == "adt" and v.a[0] == OPT and v.a[1] == 1:
            f = v.a[2][0]
            if f.op == "f" and f.a[1] == OPT and f.a[2] == 1:
                l = (mk("is", f.a[0], OPT, 1), True)
                if all(l in c for c in d):
                    xs.add(f.a[0])
                    out.append((d, f.a[0]))
                    ch = True
                    continue
        elif v.op not in ("adt", "bot"):
            if any(v2.op == "adt" and v2.a[0] == OPT for _, v2 in res):
                xs.add(v)
        out.append((d, v))
    if not xs:
        return None
    fin = []
    for d, v in out:
        if v.op == "adt" and v.a[0] == OPT and v.a[1] == 0:
            c = [x for x in xs if all((mk("is", x, OPT, 1), False) in cj for cj in d)]
            if len(c) > 1:
                # prefer the one whose Some-ness is not already excluded elsewhere
                c = [x for x in c if any(v2 is x and all(any(l[0] is mk("is", y, OPT, 1) and not l[1] for l in cj) for y in c if y is not x for cj in d2) for d2, v2 in out)] or c
            if c:
                fin.append((d, sorted(c, key=lambda x: x.id)[0]))
                ch = True
                continue
        fin.append((d, v))
    return fin if ch else None


def hoist(t):
    """cat[.., phi(..), ..] of known pieces -> phi of whole sequences"""
    if t.op != "cat":
        return t
    for i, x in enumerate(t.a[0]):
        if x.op == "phi" and len(x.a[0]) <= 6:
            return hoist_phi([(d, hoist(CAT(t.a[0][:i] + (v,) + t.a[0][i + 1:]))) for d, v in x.a[0]])
    return t


def hoist_phi(alts):
    return PHI(alts)


def ADT(path, vi, fields):
    fields = tuple(fields)
    if fields:
        f0 = fields[0]
        if f0.op == "f" and f0.a[1] == path and f0.a[2] == vi and len(VARIANTS.get(path) or ()) == 1:
            x = f0.a[0]
            if len(VARIANTS[path][0][1]) == len(fields) and all(
                    f.op == "f" and f.a[0] is x and f.a[1] == path and f.a[2] == vi and f.a[3] == i for i, f in enumerate(fields)):
                return x
    return mk("adt", path, vi, fields)


def FIELD(x, path, vi, i):
    if x.op == "adt":
        if x.a[1] == vi and i < len(x.a[2]):
            return x.a[2][i]
        return mk("bot")
    if x.op == "phi":
        alts = [(d, FIELD(v, path, vi, i)) for d, v in x.a[0] if not (v.op == "adt" and v.a[1] != vi)]
        alts = [(d, v) for d, v in alts if v.op != "bot"]
        return PHI(alts)
    if x.op == "bot":
        return x
    if x.op == "tup":
        return x.a[0][i] if i < len(x.a[0]) else mk("bot")
    if x.op == "idx" and x.a[0].op in ("entries", "keysof"):
        # stored records decode: an element stands for itself and for Ok(itself)
        if path == RES:
            return x if vi == 0 else mk("bot")
        if path == "tuple" and i == 0 and x.a[0].op == "entries":
            return mk("idx", mk("keysof", *x.a[0].a), x.a[1])
    return mk("f", x, path, vi, i)


def CALL(name, *args):
    return mk("call", name, tuple(args))


def BCALL(name, *args):
    return mk("bcall", name, tuple(args))


# ---------------------------------------------------------------- binders
BINDERS = {"map": 1, "filtermap": 1, "forall": 1, "count": 1, "fold": 1, "flatmap": 1, "storeall": 1, "argfind": 1, "delall": 1, "wit": 1}


def height(t):
    if t._h is None:
        h = 0
        for c in children(t):
            h = max(h, height(c))
        if t.op in BINDERS:
            h = max(h, t.a[1])
        t._h = h
    return t._h


def free_lv(t):
    """ids of loop variables occurring in t"""
    if t._lv is None:
        if t.op == "lv":
            t._lv = frozenset([t])
        else:
            s = frozenset()
            for c in children(t):
                x = free_lv(c)
                if x:
                    s |= x
            t._lv = s
    return t._lv


def occurs(x, t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return False


def close(lv, *terms):
    """bind lv in terms: returns (h, terms')"""
    h = 1 + max([height(t) for t in terms] + [0])
    m = {lv: mk("bv", h)}
    return h, [subst(t, m) for t in terms]


def zero_bytes(n, lv, c):
    """c, one of n bytes is zero, for all of them: one comparison"""
    if c.a[0].op == "idx" and 0 < n.a[0] <= 64:
        x, d = c.a[0].a[0], SUB(c.a[0].a[1], lv)
        if not occurs(lv, d) and not occurs(lv, x):
            return EQ(BE(SLICE(x, d, ADD(d, n))), I(0))
    if c.a[0].op == "be" and n.a[0] and c.a[0].a[0].op == "slice":
        # a single byte read as x[lo+i..lo+i+1]
        x, lo, hi = c.a[0].a[0].a
        d = SUB(lo, lv)
        if hi is not None and SUB(hi, lo) is I(1) and not occurs(lv, d) and not occurs(lv, x):
            return EQ(BE(SLICE(x, d, ADD(d, n))), I(0))
    return None


def close_forall(n, lv, c):
    if c is TRUE or c is FALSE:
        return FORALL(n, 0, c)
    if c.op == "and":
        return AND(*[close_forall(n, lv, x) for x in c.a[0]])
    if n.op == "len" and n.a[0].op == "set":
        # duplicates do not matter
        S = n.a[0].a[0]
        k = mk("p", "some element")
        c2 = subst(c, {mk("idx", n.a[0], lv): k})
        if not occurs(lv, c2):
            return close_forall(LEN(S), lv, subst(c2, {k: IDX(S, lv)}))
    if c.op == "eq" and c.a[1] is I(0) and is_int(n):
        z = zero_bytes(n, lv, c)
        if z is not None:
            return z
    h, (c2,) = close(lv, c)
    if c2.op == "and":
        return AND(*[close_forall(n, mk("bv", h), x) for x in c2.a[0]])
    return FORALL(n, h, c2)


def MAP(n, lv, e):
    h, (e2,) = close(lv, e)
    bv = mk("bv", h)
    if n.op == "count":
        # a map over a filtered sequence is one filtered map
        for f in subterms(e2):
            if f.op == "filtermap" and f.a[:3] == n.a and not occurs(bv, f):
                u = mk("lv", "fm%d" % h)
                b0 = mk("bv", f.a[1])
                e3 = subst(e2, {mk("idx", f, bv): subst(f.a[3], {b0: u})})
                if not occurs(bv, e3):
                    return FILTERMAP(f.a[0], u, subst(f.a[2], {b0: u}), e3)
    if e2.op == "idx" and e2.a[1] is bv and not occurs(bv, e2.a[0]):
        if LEN(e2.a[0]) is n:
            return e2.a[0]
        if n.op == "len" and n.a[0].op == "take" and n is LEN(mk("take", e2.a[0], n.a[0].a[1])):
            return mk("take", e2.a[0], n.a[0].a[1])
    if is_int(n) and n.a[0] <= 64:
        return SEQ([subst(e2, {bv: I(i)}) for i in range(n.a[0])])
    return mk("map", n, h, e2)


def FILTERMAP(n, lv, c, e):
    if c is TRUE:
        return MAP(n, lv, e)
    if c is FALSE:
        return EMPTY
    h, (c2, e2) = close(lv, c, e)
    return mk("filtermap", n, h, c2, e2)


def COUNT(n, lv, c):
    if c is TRUE:
        return n
    if c is FALSE:
        return I(0)
    h, (c2,) = close(lv, c)
    return mk("count", n, h, c2)


def rebuild(t, f):
    op, a = t.op, t.a
    if op in ("int", "bytes", "p", "bv", "lv", "item", "map0", "bot", "wit", "ptr", "loc", "fn", "itemns", "mapns", "sym"):
        if op in ("ptr", "wit"):
            pass
        else:
            return t
    if op == "call" and a[0] == "rep":
        return REP(f(a[1][0]), f(a[1][1]))
    if op == "cat":
        return CAT([f(x) for x in a[0]])
    if op == "seq":
        return SEQ([f(x) for x in a[0]])
    if op == "len":
        return LEN(f(a[0]))
    if op == "take":
        return TAKE(f(a[0]), f(a[1]))
    if op == "slice":
        return SLICE(f(a[0]), f(a[1]), f(a[2]) if a[2] is not None else None)
    if op == "idx":
        return IDX(f(a[0]), f(a[1]))
    if op == "ube":
        return UBE(a[0], f(a[1]))
    if op == "be":
        return BE(f(a[0]))
    if op == "add":
        return ADD(I(a[1]), *[f(x) for x in a[0]])
    if op == "mul":
        return MUL(I(a[1]), *[f(x) for x in a[0]])
    if op in ("sub", "div", "rem", "shl", "shr", "bitand", "bitor", "bitxor"):
        return ARITH(op, f(a[0]), f(a[1]))
    if op == "trunc":
        return TRUNC(a[0], f(a[1]))
    if op == "not":
        return NOT(f(a[0]))
    if op == "and":
        return AND(*[f(x) for x in a[0]])
    if op == "eq":
        return EQ(f(a[0]), f(a[1]))
    if op == "lt":
        return LT(f(a[0]), f(a[1]))
    if op == "is":
        return IS(f(a[0]), a[1], a[2])
    if op == "f":
        return FIELD(f(a[0]), a[1], a[2], a[3])
    if op == "adt":
        return ADT(a[0], a[1], [f(x) for x in a[2]])
    if op == "phi":
        return PHI([(frozenset(z for z in (fconj(c, f) for c in d) if z is not None), f(v)) for d, v in a[0]])
    if op == "forall":
        n = f(a[0])
        c = f(a[2])
        return FORALL(n, a[1], c)
    return mk(op, *[_rb(x, f) for x in a])


def _rb(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rb(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_rb(y, f) for y in x)
    return x


def fconj(c, f):
    out = set()
    for t, p in c:
        t2 = f(t)
        if not p:
            t2 = NOT(t2)
        if t2 is TRUE:
            continue
        if t2 is FALSE:
            return None
        if t2.op == "and":
            for x in t2.a[0]:
                out.add(lit(x))
        else:
            out.add(lit(t2))
    return frozenset(out)


def subst(t, m):
    cache = {}
    hs = frozenset(k.a[0] for k in m if k.op == "bv")

    def go(x, m, cache):
        r = m.get(x)
        if r is not None:
            return r
        r = cache.get(x)
        if r is not None:
            return r
        if x.op in BINDERS and hs and x.a[1] in hs and mk("bv", x.a[1]) in m:
            bv = mk("bv", x.a[1])
            m2 = {k: v for k, v in m.items() if k is not bv}
            c2 = {}
            # first argument (the bound) is outside the binder
            n = go(x.a[0], m, cache)
            if not m2:
                r = mk(x.op, n, *x.a[1:]) if x.op != "forall" else FORALL(n, x.a[1], x.a[2])
            else:
                rest = [_rb(y, lambda z: go(z, m2, c2)) for y in x.a[1:]]
                r = mk(x.op, n, *rest)
        else:
            r = rebuild(x, lambda z: go(z, m, cache))
        cache[x] = r
        return r

    return go(t, m, cache)


def replace_deep(t, fn):
    """bottom-up rewrite with fn(term)->term or None"""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is None:
            r = rebuild(x, go)
            y = fn(r)
            if y is not None:
                r = y
            cache[x] = r
        return r
    return go(t)


def subterms(t):
    seen = set()
    st = [t]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        yield y
        st.extend(children(y))


# ---------------------------------------------------------------- printing
def vname(path, vi):
    v = VARIANTS.get(path)
    return v[vi][0] if v and vi < len(v) else str(vi)


def fname(path, vi, i):
    v = VARIANTS.get(path)
    try:
        return v[vi][1][i]
    except Exception:
        return str(i)


def show(t, d=0, lim=12):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return "(" + ", ".join(show(x, d, lim) for x in t) + ")"
        return str(t)
    if d > lim:
        return "…"
    S = lambda x: show(x, d + 1, lim)
    op, a = t.op, t.a
    if op == "int":
        return str(a[0])
    if op == "bytes":
        try:
            s = a[0].decode("ascii")
            if s.isprintable():
                return repr(s)
        except Exception:
            pass
        b = a[0]
        return "0x" + b.hex() if len(b) < 40 else "0x%s..%d" % (b[:8].hex(), len(b))
    if op == "p":
        return a[0]
    if op == "bv":
        return "#%d" % a[0]
    if op == "lv":
        return "%%%d" % a[0]
    if op == "f":
        n = fname(a[1], a[2], a[3])
        vs = VARIANTS.get(a[1])
        if vs and len(vs) > 1:
            return "%s@%s.%s" % (S(a[0]), vname(a[1], a[2]), n)
        return "%s.%s" % (S(a[0]), n)
    if op == "adt":
        vs = VARIANTS.get(a[0])
        nm = a[0].split("::")[-1]
        if vs and len(vs) > 1:
            nm = vname(a[0], a[1])
        if not a[2]:
            return nm
        return nm + "{" + ", ".join("%s: %s" % (fname(a[0], a[1], i), S(x)) for i, x in enumerate(a[2])) + "}"
    if op == "tup":
        return "(" + ", ".join(S(x) for x in a[0]) + ")"
    if op in ("seq", "cat"):
        return ("[" if op == "seq" else "cat[") + ", ".join(S(x) for x in a[0]) + "]"
    if op == "call" and a[0] == "query" and len(a[1]) == 4:
        return "query(%s, %s)" % (S(a[1][0]), S(a[1][1]))
    if op == "json":
        return "json(%s)" % S(a[1])
    if op in ("call", "bcall"):
        return a[0].split("::")[-1] + "(" + ", ".join(S(x) for x in a[1]) + ")"
    if op == "is":
        return "%s is %s" % (S(a[0]), vname(a[1], a[2]))
    if op == "eq":
        return "%s == %s" % (S(a[0]), S(a[1]))
    if op == "lt":
        return "%s < %s" % (S(a[0]), S(a[1]))
    if op == "not":
        return "!(" + S(a[0]) + ")"
    if op == "and":
        return "(" + " && ".join(sorted(S(x) for x in a[0])) + ")"
    if op == "phi":
        return "φ(" + "; ".join("%s: %s" % (showdnf(dd, d + 1, lim), S(v)) for dd, v in a[0]) + ")"
    if op == "add":
        return "(" + " + ".join([S(x) for x in a[0]] + ([str(a[1])] if a[1] else [])) + ")"
    if op == "slice":
        return "%s[%s..%s]" % (S(a[0]), S(a[1]), S(a[2]) if a[2] is not None else "")
    if op == "idx":
        return "%s[%s]" % (S(a[0]), S(a[1]))
    return op + "(" + ", ".join(S(x) if isinstance(x, (T, tuple, frozenset)) else str(x) for x in a) + ")"


def showdnf(d, k=0, lim=12):
    return " | ".join("&".join(("" if p else "!") + show(t, k, lim) for t, p in sorted(c, key=lambda l: l[0].id)) or "T" for c in d)
