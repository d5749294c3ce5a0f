"""Published schemas (packages/schema): every contract's file describes the messages that contract really takes."""
from .registry import check
from .lib import *
from .wire import wire, entry_type, parse, text, answered_as_declared
from engine import terms as tm

API = "cosmwasm_schema::idl::Api"


def flat(t):
    """path term -> text below the working directory, or None"""
    if t.op == "sym" and t.a[0] == "cwd":
        return ""
    if t.op == "call" and t.a[0] == "pathjoin":
        b, x = flat(t.a[1][0]), tm.CAT([t.a[1][1]])
        if b is None or x.op != "bytes":
            return None
        x = bytes(x.a[0]).decode("utf8", "replace").strip("/")
        return b + "/" + x if b else x
    return None


def files(t):
    """(path, content) of what is written, last writer first"""
    seen = set()
    while t.op == "store":
        p = t.a[1]
        if p not in seen:
            seen.add(p)
            yield flat(p), p, t.a[2]
        t = t.a[0]


def described(t):
    """the type a schema term describes, or None"""
    if t.op == "call" and t.a[0] in ("schema", "responses"):
        return parse(str(t.a[1][0].a[0]))
    return None


def some(t):
    return t.a[2][0] if t.op == "adt" and len(t.a[2]) == 1 else None


def alike(w, a, b):
    return text(a) == text(b) or not w.fits(a, b) and not w.fits(b, a)


def reach(w, t, out):
    """types of this workspace that a message or answer is made of"""
    p, a = t
    for x in a:
        reach(w, x, out)
    if p in out:
        return
    vs, fs = w.variants(t), w.fields(t)
    if vs is None and fs is None:
        return
    out.add(p)
    for k, x in (vs or {}).values():
        for f in [f.t for f in x.values()] if k == "struct" else [x] if k == "new" else x or ():
            reach(w, f, out)
    for f in (fs or {}).values() if vs is None else ():
        reach(w, f.t, out)


def props(ev):
    """(variant names and property names, {property: types}) of a derived schema"""
    names, types, last = set(), {}, None
    for k in ev:
        if k[0] == "s":
            last = k[1]["v"]
            names.add(last)
        elif k[0] == "c" and k[1].split("::")[-1] == "insert_object_property":
            types.setdefault(last, []).append(k[2][-1])
    return names, types


@check("P49", 170, "The schema generator's main is analysed as a program whose only effect is a map from file name to content. For every contract of the workspace the map must hold "
       "one file, named like the contract, whose instantiate, execute, query and migrate schemas are those of the very types the contract's entry points take (compared by wire "
       "shape) and whose answers are those its query type declares and the query handlers give. For every message and answer type the derived schema's names and field types are compared with its serialisation code.")
def p49(cx):
    w = wire(cx)
    e = cx.fn("hpl_schema", "hpl_schema::main")
    if e is None:
        return
    fs = e.st.stor.get(("m", "fs"))
    if fs is None:
        cx.fail("published", "schema files", "nothing is written", cx.where(e))
        return
    have = {}
    for path, raw, content in files(fs):
        if path is None:
            cx.fail("published", "file name", "not a fixed name: " + tm.show(raw), cx.where(e))
        else:
            have[path] = content
    for c in sorted(cx.contracts()):
        x = have.pop("schema/%s.json" % c, None)
        if not cx.ob("published", "%s has a schema file" % c, x is not None, "" if x is not None else "no schema/%s.json" % c, cx.where(e)):
            continue
        api = next((t for t in tm.subterms(x) if t.op == "adt" and t.a[0] == API), None)
        if not cx.ob("published", "%s: the file is an interface description" % c, api is not None, tm.show(x), cx.where(e)):
            continue
        f = dict(zip([n for n in tm.VARIANTS[API][0][1]], api.a[2]))
        nm = tm.BYTES(c.encode())
        cx.ob("published", "%s: named like the contract" % c, f["contract_name"] is nm, tm.show(f["contract_name"]), cx.where(e))
        for kind in ("instantiate", "execute", "query", "migrate"):
            want = entry_type(cx, c, kind)
            s = f[kind] if kind == "instantiate" else some(f[kind])
            got = described(s) if s is not None else None
            if want is None:
                continue
            why = "no %s schema" % kind if got is None else ""
            if not why and text(got) != text(want):
                why = w.fits(got, want) or w.fits(want, got)
            cx.ob("published", "%s: the %s schema is that of %s" % (c, kind, text(want)), not why, why and "%s: %s" % (got and text(got), why), cx.where(e))
        q = entry_type(cx, c, "query")
        if q is not None:
            s = some(f["responses"])
            got = described(s) if s is not None else None
            cx.ob("published", "%s: the answers are those of %s" % (c, text(q)), got is not None and text(got) == text(q), got and text(got) or "none", cx.where(e))
    for path in sorted(have):
        cx.fail("published", path, "describes no contract of the workspace", cx.where(e))
    answered_as_declared(cx, w, sorted(cx.contracts()), can=False)
    pub = set()
    for c in sorted(cx.contracts()):
        for kind in ("instantiate", "execute", "query", "migrate"):
            t = entry_type(cx, c, kind)
            if t is not None:
                reach(w, t, pub)
                for path, a in w.answers(t) if kind == "query" else ():
                    reach(w, a, pub)
    done = set()
    for c in ["hpl_interface"] + sorted(cx.contracts()):
        for st, m, ev, *_ in cx.prog(c).d.get("derived", []):
            if m != "json_schema":
                continue
            t = parse(st)
            names, types = props(ev)
            vs, fl = w.variants(t), w.fields(t)
            if vs is None and fl is None or t[0] not in pub:
                continue
            done.add(t[0])
            wn, wt = set(), {}
            for n, (k, x) in (vs or {}).items():
                wn.add(n)
                if k == "struct":
                    for a, f in x.items():
                        wt.setdefault(a, set()).add(text(f.t))
            if vs is None:
                for a, f in fl.items():
                    wt.setdefault(a, set()).add(text(f.t))
            wn |= set(wt)
            miss = sorted(wn - names)
            bad = "names not described: %s" % miss if miss else ""
            for a, ts in types.items():
                for got in ts:
                    if a in wt and ("u128" in text(parse(got)) or not any(alike(w, parse(got), parse(x)) for x in wt[a])):
                        bad = bad or "field %s is described as %s, written as %s" % (a, got, sorted(wt[a]))
                if a not in wt:
                    bad = bad or "field %s is described but not written" % a
            cx.ob("described", "the schema of %s has its wire names and types" % text(t), not bad, bad, st)
    for p in sorted(pub - done):
        cx.fail("described", "the schema of %s is derived from its definition" % p, "no derived schema found", p)
