"""One crate's dump: types, constants, function CFGs with loops and liveness."""
import json
from . import terms as tm


class Fn:
    __slots__ = ("key", "path", "crate", "file", "line", "argc", "closure", "locals", "blocks", "names", "raw",
                 "succ", "pred", "rpo", "rpoi", "loops", "loop_of", "live_in", "targs", "addr_taken", "trait", "self_", "boxw")


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "sw":
        r = [b for _, b in t[2]]
        if t[3] is not None:
            r.append(t[3])
        return r
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[3]]
    return []


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.d = d
        self.crate = d["crate"]
        self.types = d["types"]
        self.consts = d["consts"]
        self.roots = d["roots"]
        self._fns = {}
        for t in self.types:
            if t.get("k") == "adt" and t.get("v"):
                p = t["p"]
                if p not in tm.VARIANTS:
                    tm.VARIANTS[p] = [(v["n"], [f[0] for f in v["f"]]) for v in t["v"]]
        self.bypath = {}
        for k, f in d["fns"].items():
            self.bypath.setdefault(f["path"], []).append(k)
        self._cc = {}

    def fn(self, key):
        f = self._fns.get(key)
        if f is None:
            r = self.d["fns"].get(key)
            if r is None:
                return None
            f = self._fns[key] = mkfn(key, r)
        return f

    def ty(self, i):
        return self.types[i] if i is not None else None

    def strip(self, i):
        while i is not None and self.types[i]["k"] in ("ref", "ptr"):
            i = self.types[i]["t"]
        return i


def mkfn(key, r):
    f = Fn()
    f.key, f.path, f.crate, f.file, f.line = key, r["path"], r["crate"], r["file"], r["line"]
    f.argc, f.closure, f.locals, f.blocks, f.names = r["argc"], r["closure"], r["locals"], r["blocks"], r["names"]
    f.raw = r["raw"]
    f.targs = r.get("targs")
    f.trait = r.get("trait")
    f.self_ = r.get("self")
    n = len(f.blocks)
    f.succ = [succs(b[1]) for b in f.blocks]
    # RPO
    seen = [False] * n
    post = []
    st = [(0, iter(f.succ[0]))]
    seen[0] = True
    while st:
        b, it = st[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                st.append((s, iter(f.succ[s])))
                break
        else:
            post.append(b)
            st.pop()
    f.rpo = post[::-1]
    f.rpoi = {b: i for i, b in enumerate(f.rpo)}
    f.pred = [[] for _ in range(n)]
    for b in f.rpo:
        for s in f.succ[b]:
            f.pred[s].append(b)
    # dominators
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in f.rpo[1:]:
            ps = [p for p in f.pred[b] if p in idom]
            x = ps[0]
            for p in ps[1:]:
                y = p
                while x != y:
                    while f.rpoi[x] > f.rpoi[y]:
                        x = idom[x]
                    while f.rpoi[y] > f.rpoi[x]:
                        y = idom[y]
            if idom.get(b) != x:
                idom[b] = x
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    f.loops = {}
    for b in f.rpo:
        for s in f.succ[b]:
            if dom(s, b):
                body = f.loops.setdefault(s, {s})
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(f.pred[x])
    # liveness
    use, dfn = [], []
    f.addr_taken = set()
    # locals that point into a box and are written through: they need the box's address, not its value
    f.boxw = set()
    for st_, t in f.blocks:
        ws = [s[1] for s in st_ if s[0] == "="] + [s[2][1] for s in st_ if s[0] == "=" and s[2][0] == "ref" and s[2][2]]
        ws += [t[3]] if t[0] == "call" else []
        f.boxw |= {p[0] for p in ws if p[1] and p[1][0] == "*"}
    for st_, t in f.blocks:
        u, d = set(), set()

        def rp(p):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def wp(p):
            if p[1]:
                rp(p)
            else:
                d.add(p[0])

        def ro(o):
            if o and o[0] in ("cp", "mv"):
                rp(o[1])
        for s in st_:
            if s[0] == "=":
                rv = s[2]
                k = rv[0]
                if k in ("use", "rep"):
                    ro(rv[1])
                elif k == "ref":
                    rp(rv[1])
                    if rv[2] and "*" not in rv[1][1]:
                        f.addr_taken.add(rv[1][0])
                elif k == "cast":
                    ro(rv[2])
                    if rv[1] == "BoxDerefTransmute" and s[1][0] in f.boxw and rv[2][0] in ("cp", "mv"):
                        f.addr_taken.add(rv[2][1][0])
                elif k == "bin":
                    ro(rv[2])
                    ro(rv[3])
                elif k == "un":
                    ro(rv[2])
                elif k == "disc":
                    rp(rv[1])
                elif k == "agg":
                    for o in rv[2]:
                        ro(o)
                wp(s[1])
            else:
                rp(s[1])
        if t[0] == "sw":
            ro(t[1])
        elif t[0] == "call":
            ro(t[1])
            for o in t[2]:
                ro(o)
            wp(t[3])
        elif t[0] == "assert":
            ro(t[1])
        elif t[0] == "ret":
            if 0 not in d:
                u.add(0)
        use.append(u)
        dfn.append(d)
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in reversed(f.rpo):
            o = set()
            for s in f.succ[b]:
                o |= live[s]
            i = use[b] | (o - dfn[b])
            if i != live[b]:
                live[b] = i
                ch = True
    f.live_in = live
    return f
