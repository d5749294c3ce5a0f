"""Drive the interpreter over contract entry points, one run per message variant."""
from . import terms as tm
from .terms import mk, ADT, FIELD, IS, TRUE
from .interp import Interp, State, RESULT, assume, resolve, resolve_deep, decide
from .prog import Prog


class Entry:
    """result of analysing one entry point for one message shape"""
    pass


def expand(prog, base, ty, path, depth=0, skip=()):
    """message values: enum params split per variant (nested enums too)"""
    t = prog.types[ty]
    p = t.get("p", "")
    if t["k"] == "adt" and t.get("e") and p.startswith("hpl_") and depth < 3 and not p.startswith("hpl_interface::warp::Token"):
        out = []
        for vi, v in enumerate(t["v"]):
            fs = [FIELD(base, p, vi, i) for i in range(len(v["f"]))]
            nm = path + [v["n"]]
            if len(v["f"]) == 1 and v["f"][0][0] == "0" and v["f"][0][1] is not None:
                ft = prog.types[v["f"][0][1]]
                if ft["k"] == "adt" and ft.get("e") and ft.get("p", "").startswith("hpl_"):
                    for val, n2 in expand(prog, fs[0], v["f"][0][1], nm, depth + 1):
                        out.append((ADT(p, vi, [val]), n2))
                    continue
            out.append((ADT(p, vi, fs), nm))
        return out
    return [(base, path)]


CANON = {"MessageInfo": "info", "Env": "env", "DepsMut": "deps", "Deps": "deps"}


def canon(prog, fn, i, nm, fnpath):
    """parameter names by type, so that renaming a parameter changes nothing"""
    t = prog.types[prog.strip(fn.locals[i])]
    last = t.get("p", "").split("::")[-1]
    if last in CANON and t.get("p", "").startswith("cosmwasm_std"):
        return CANON[last]
    if fnpath.split("::")[-1] in ("instantiate", "execute", "query", "migrate", "reply") and i == fn.argc:
        return "msg"
    return nm


def run_entry(prog, fnpath, boundary=(), msgs=None, argnames=None, args=None, opaque=None):
    """analyse every message variant of an entry point; returns [Entry]"""
    keys = prog.bypath.get(fnpath)
    if not keys:
        return None
    key = keys[0]
    fn = prog.fn(key)
    names = {l: n for l, n in fn.names}
    base = []
    for i in range(1, fn.argc + 1):
        nm = names.get(i, "arg%d" % i).lstrip("_")
        base.append((canon(prog, fn, i, nm, fnpath), fn.locals[i]))
    res = []
    combos = [[]]
    params = []
    for nm, ty in base:
        t0 = prog.strip(ty)
        v = mk("p", nm)
        params.append((nm, v, t0))
    # split the last enum-typed hpl message parameter
    variants = [(None, [])]
    split = None
    for i, (nm, v, t0) in enumerate(params):
        t = prog.types[t0]
        if t["k"] == "adt" and t.get("e") and t.get("p", "").startswith("hpl_"):
            variants = expand(prog, v, t0, [])
            split = i
    known = dict(tm.TYPELEN)
    for val, path in variants:
        tm.TYPELEN.clear()   # parameters of different entry points share names, not types
        it = Interp(prog, boundary)
        it.opaque_loops = opaque
        st = State()
        argv = []
        for i, (nm, v, t0) in enumerate(params):
            x = val if (split == i and val is not None) else v
            argv.append(x)
        if args:
            for k, a in args.items():
                argv[k] = a
        # &mut parameters become cells
        for i in range(fn.argc):
            t = prog.types[fn.locals[i + 1]]
            if t["k"] == "ref" and t.get("m") and prog.types[t["t"]]["k"] != "dyn":
                k = it.new_cell(st, argv[i])
                argv[i] = mk("ptr", k, ())
        e = Entry()
        e.fn = fn
        e.path = fnpath
        e.variant = ".".join(path)
        e.it = it
        e.roots = {v: prog.types[t0].get("p") for nm, v, t0 in params}
        outs = it.run_fn(key, argv, st, True)
        if isinstance(outs, tuple):
            outs = [outs] if outs[0] is not None else []
        good = [o for o in outs if not it.is_err(o[0])]
        r, s = good[0] if good else (outs[0] if outs else (None, None))
        e.ret, e.st = r, s
        e.facts, e.stor = {}, {}
        e.ok = None
        if r is not None:
            t = prog.types[fn.locals[0]]
            if t.get("p") == RESULT:
                so = s.fork()
                c = IS(resolve(so.facts, r), RESULT, 0)
                if assume(so, c, True):
                    cache = {}
                    e.facts = so.facts
                    e.ok = resolve_deep(so.facts, FIELD(resolve(so.facts, r), RESULT, 0, 0), cache)
                    e.stor = {k: resolve_deep(so.facts, v, cache) for k, v in so.stor.items()}
            else:
                e.facts = s.facts
                cache = {}
                e.ok = resolve_deep(s.facts, r, cache)
                e.stor = {k: resolve_deep(s.facts, v, cache) for k, v in s.stor.items()}
        res.append(e)
        known.update(tm.TYPELEN)
    tm.TYPELEN.update(known)
    return res


def dump_entry(e, lim=14):
    print("=== %s [%s]" % (e.path, e.variant))
    if e.ok is None:
        print("  never Ok", e.ret)
        return
    for t, p in e.facts.items():
        if isinstance(t, tm.T) and t.op != "and":
            print("   fact", "" if p else "!", tm.show(t, 0, lim))
        elif isinstance(t, tm.T):
            if not p:
                print("   fact !", tm.show(t, 0, lim)[:400])
    for k, v in e.stor.items():
        print("   stor", k, "=", tm.show(v, 0, lim))
    print("   ret", tm.show(e.ok, 0, lim))
    print("   unknown", e.it.unknown, "blocks", e.it.blocks)
