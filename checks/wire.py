"""Interface conformance: what contracts send each other is what the receiver understands, what they answer is what the caller reads."""
from .registry import check
from .lib import *
from engine import terms as tm
from collections import namedtuple
import json
import os
import re

I = "hpl_interface::"
LEAF = {"alloc::string::String": "str", "cosmwasm_std::addresses::Addr": "str", "str": "str", "bool": "bool",
        "cosmwasm_std::hex_binary::HexBinary": "hex", "cosmwasm_std::binary::Binary": "base64",
        "cosmwasm_std::math::uint128::Uint128": "num128", "cosmwasm_std::math::uint256::Uint256": "num256",
        "cosmwasm_std::math::uint64::Uint64": "num64", "u8": "u8", "u16": "u16", "u32": "u32", "u64": "u64",
        "u128": "num128"}   # serde-json-wasm writes and reads 128-bit numbers as strings, like Uint128
LEAF["custom"] = "custom"   # a field with its own serialisation functions
LEAF.update({v: v for v in list(LEAF.values())})
BOXES = ("alloc::boxed::Box", "alloc::sync::Arc", "alloc::rc::Rc")
PINNED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "wire.json")
OPT = "core::option::Option"
Field = namedtuple("Field", "t absent need")   # absent: not always written; need: a read fails without it
WIDER = {("u8", "u16"), ("u8", "u32"), ("u8", "u64"), ("u16", "u32"), ("u16", "u64"), ("u32", "u64"),
         ("num64", "num128"), ("num64", "num256"), ("num128", "num256")}


def parse(s):
    """type text -> (path, [args]); tuples have path '(' """
    s = s.strip()
    if re.search(r"::__(S|Des)erializeWith(<[^<>]*>)?$", s):
        return "custom@" + re.sub(r"<[^<>]*>$", "", re.sub(r"'[a-z_]\w*", "'_", s)), []
    while s.startswith("&"):
        s = s[1:].lstrip()
        if s.startswith("'"):
            s = s.split(" ", 1)[1]
    if s.startswith("(") and s.endswith(")"):
        return "(", [parse(x) for x in split(s[1:-1])]
    if s.startswith("["):
        return "[", [parse(s[1:-1].split(";")[0])]
    i = s.find("<")
    if i < 0 or s.startswith("<"):
        return s, []
    return s[:i], [parse(x) for x in split(s[i + 1:-1])]


def split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        d += ch in "<([" and 1 or 0
        d -= ch in ">)]" and 1 or 0
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur.strip() else out


def text(t):
    p, a = t
    if p == "(":
        return "(%s)" % ", ".join(text(x) for x in a)
    if p == "[":
        return "[%s]" % text(a[0])
    return p + ("<%s>" % ", ".join(text(x) for x in a) if a else "")


class Wire:
    """wire shapes of the workspace's message types, read from their (derived) serialisation code"""

    def __init__(self, cx):
        self.ser, self.de, self.resp, self.memo, self.busy = {}, {}, {}, {}, set()
        self.by, self.hand = {}, {}
        self.ok, self.index = {}, {}
        for c in ["hpl_interface"] + sorted(cx.contracts()):
            for st, m, ev, *more in cx.prog(c).d.get("derived", []):
                if m == "hand":
                    self.hand[st] = ([x for x in more[0] if not x.startswith("'")], ev)
                    continue
                p, a = parse(st)
                if p.startswith("custom@"):
                    self.by.setdefault(p, []).append(ev)
                elif m == "serialize":
                    self.ser[p] = ([x[0] for x in a], ev)
                elif m == "response_schemas_impl":
                    self.resp[p] = ([x[0] for x in a], ev)
                elif m.startswith("visit_"):
                    self.de.setdefault((c, p), []).append((m, [x[0] for x in a], ev))
        for (c, p), v in list(self.de.items()):
            self.de.setdefault(p, v)
        with open(PINNED) as f:
            self.pin = json.load(f)

    # ---- published shapes (checks/wire.json): pseudo types pin#N
    def pinned(self, n):
        return self.pin["types"][int(n[4:])]

    def record(self, t, types, ids):
        """type -> text of its published form; its shape goes into types"""
        p, a = t
        for b in BOXES:
            if p == b:
                return self.record(a[0], types, ids)
        if p in LEAF:
            return LEAF[p]
        if a or p in "([":
            if self.fields(t) is None and self.variants(t) is None:
                return text((p, [parse(self.record(x, types, ids)) for x in a]))
        vs, fs = self.variants(t), self.fields(t)
        if vs is None and fs is None:
            return text(t)
        if text(t) in ids:
            return "pin#%d" % ids[text(t)]
        n = ids[text(t)] = len(types)
        types.append(None)
        sub = lambda x: self.record(x, types, ids)
        obj = lambda d: {k: [sub(f.t), f.absent, f.need] for k, f in d.items()}
        if vs is not None:
            types[n] = {"enum": {w: [k, obj(x) if k == "struct" else sub(x) if k == "new" else [sub(y) for y in x] if k == "tuple" else None]
                                 for w, (k, x) in vs.items()}}
        else:
            types[n] = {"struct": obj(fs)}
        return "pin#%d" % n

    def answers(self, t, pre=""):
        """(wire path, declared answer type) of every query under query type t"""
        for w, (k, x) in (self.variants(t) or {}).items():
            if k == "new" and x[0] in self.resp and self.answer(t, w) is None:
                yield from self.answers(x, pre + w + ".")
            else:
                a = self.answer(t, w)
                if a is not None:
                    yield pre + w, a

    def custom(self, p):
        """what a field with serialisation functions of its own is on the wire"""
        out = set()
        for ev in self.by.get(p, []):
            f = next((k for k in ev if k[0] == "c" and k[1] in self.hand), None)
            if f is None:
                return "custom", []
            ps, body = self.hand[f[1]]
            env = dict(zip(ps, [parse(x) for x in f[2]]))
            kinds = set()
            for k in body:
                n = k[1].split("::")[-1] if k[0] == "c" else ""
                if k[0] == "c" and k[1].endswith(("::Serialize::serialize", "::Deserialize::deserialize")):
                    kinds.add(text(self.sub(parse(k[2][0]), env)))
                elif k[0] == "c" and k[1].startswith("serde") and "::Serializer::" in k[1]:
                    kinds.add({"collect_str": "str", "serialize_str": "str"}.get(n, n[10:]))
            if len(kinds) != 1:
                return "custom", []
            out |= kinds
        return parse(out.pop()) if len(out) == 1 else ("custom", [])

    def sub(self, t, env):
        p, a = t
        if p in env:
            return env[p]
        if p.startswith("custom@"):
            return self.custom(p)
        return p, [self.sub(x, env) for x in a]

    def variants(self, t):
        """enum type -> {variant index: (wire name, payload shape text-free)} or None"""
        p, a = t
        if p.startswith("pin#"):
            d = self.pinned(p).get("enum")
            return d and {w: (k, {n: Field(parse(f[0]), f[1], f[2]) for n, f in x.items()} if k == "struct" else
                              parse(x) if k == "new" else [parse(y) for y in x] if k == "tuple" else None) for w, (k, x) in d.items()}
        if p not in self.ser:
            return None
        ps, ev = self.ser[p]
        env = dict(zip(ps, a))
        out, strs, last, cur = {}, [], None, None
        hit = False
        for k in ev:
            if k[0] == "s":
                strs.append(k[1]["v"])
                if last is not None:
                    pend = last
            elif k[0] == "i":
                last = int(k[1]["v"])
                if len(strs) and idx is None:
                    idx = last
            else:
                f = k[1].split("::")[-1]
                if f.endswith("_variant") and f.startswith("serialize_"):
                    hit = True
                    wire = strs[-1]
                    kind = f[10:-8]
                    self.index[p, last] = wire
                    if kind == "newtype":
                        out[wire] = ("new", self.sub(parse(k[2][-1]), env))
                        cur = None
                    elif kind == "unit":
                        out[wire] = ("unit", None)
                        cur = None
                    else:
                        cur = {} if kind == "struct" else []
                        out[wire] = (kind, cur)
                    strs = []
                elif f == "serialize_field" and cur is not None and hit:
                    ft = self.sub(parse(k[2][-1]), env)
                    if isinstance(cur, dict):
                        cur[strs[-1]] = Field(ft, False, True)
                    else:
                        cur.append(ft)
                    strs = []
                elif f == "skip_field" and isinstance(cur, dict) and strs and strs[-1] in cur:
                    cur[strs[-1]] = cur[strs[-1]]._replace(absent=True)
                elif f == "end":
                    cur = None
            if k[0] != "i":
                idx = None
        if not hit:
            return None
        need = self.required(p)
        if need:
            k = 1
            for w, (kind, pay) in out.items():
                if kind == "struct":
                    if k < len(need):
                        for n in pay:
                            pay[n] = pay[n]._replace(need=n in need[k])
                    k += 1
        return out

    def required(self, p):
        """names a read fails without, per visitor of the derived Deserialize: [the type's own, its struct variants' ...]"""
        maps = [ev for m, ps, ev in self.de.get(p, []) if m == "visit_map"]
        if not maps:
            return None
        res = []
        for ev in maps:
            names, last = set(), None
            for k in ev:
                if k[0] == "s":
                    last = k[1]["v"]
                elif k[0] == "c" and k[1].split("::")[-1] == "missing_field":
                    names.add(last)
            res.append(names)
        enum = any(m == "visit_enum" for m, ps, ev in self.de.get(p, []))
        return [set()] + res if enum else res

    def readable(self, p):
        """why what a type writes is not what it reads ('' if it is)"""
        if p in self.ok:
            return self.ok[p]
        self.ok[p] = v = self._readable(p)
        return v

    def _readable(self, p):
        if p not in self.ser or p not in self.de:
            return ""
        ps, ev = self.ser[p]
        t = (p, [(x, []) for x in ps])
        vs = self.variants(t)
        strs, types = [], []
        for m, ps2, ev in self.de[p]:
            if m == "visit_str":
                strs.append([k[1]["v"] for k in ev if k[0] == "s"])
            else:
                ren = {a: (b, []) for a, b in zip(ps2, ps)}
                for k in ev:
                    f = k[1].split("::")[-1] if k[0] == "c" else ""
                    if f in ("next_value", "newtype_variant"):
                        types.append(text(self.sub(parse(k[2][-1]), ren)))
        wr, wt = [], []
        if vs is not None:
            wr.append(list(vs))
            for n, (kind, pay) in vs.items():
                if kind == "struct":
                    wr.append(list(pay))
                    wt += [text(x.t) for x in pay.values()]
                elif kind == "new":
                    wt.append(text(pay))
        else:
            f = self.fields(t)
            if f is None:
                return ""
            wr.append(list(f))
            wt += [text(x.t) for x in f.values()]
        if len(strs) != len(wr):
            return "%s: %d sets of names read, %d written" % (p, len(strs), len(wr))
        for a, b in zip(strs, wr):
            if len(a) == len(b) and a != b or not set(b) <= set(a):
                return "%s reads the names %s, %s are written" % (p, a, b)
        if vs is not None and any(k == "tuple" for k, _ in vs.values()):
            return ""
        types, wt = [LEAF.get(x, x) for x in types], [LEAF.get(x, x) for x in wt]
        if sorted(types) != sorted(wt):
            return "%s reads the types %s, %s are written" % (p, sorted(types), sorted(wt))
        return ""

    def fields(self, t):
        p, a = t
        if p.startswith("pin#"):
            d = self.pinned(p).get("struct")
            return d and {n: Field(parse(f[0]), f[1], f[2]) for n, f in d.items()}
        if p not in self.ser:
            return None
        ps, ev = self.ser[p]
        env = dict(zip(ps, a))
        out, name, hit = {}, None, False
        for k in ev:
            if k[0] == "s":
                name = k[1]["v"]
            elif k[0] == "c":
                f = k[1].split("::")[-1]
                if f == "serialize_struct":
                    hit = True
                elif f == "serialize_field":
                    out[name] = Field(self.sub(parse(k[2][-1]), env), False, True)
                elif f == "skip_field" and name in out:
                    out[name] = out[name]._replace(absent=True)
        need = self.required(p)
        if need:
            for n in out:
                out[n] = out[n]._replace(need=n in need[0])
        return out if hit else None

    def leafs(self, t, names):
        """the enum holding the last of the (Rust) variant names, and that variant's name"""
        for n in names[:-1]:
            v = self.variants(t)
            w = v and v.get(snake(n))
            if not w or w[0] != "new":
                return None
            t = w[1]
        return t

    def answer(self, t, wire):
        """declared answer type of a query variant"""
        p, a = t
        if p not in self.resp:
            return None
        ps, ev = self.resp[p]
        env = dict(zip(ps, a))
        s = None
        for k in ev:
            if k[0] == "s":
                s = k[1]["v"]
            elif k[0] == "c" and k[1].endswith("into_root_schema_for") and s == wire:
                return self.sub(parse(k[2][-1]), env)
        return None

    def fits(self, s, r, seen=frozenset()):
        """why a value of type s on the wire cannot be read as type r ('' if it can)"""
        if (text(s), text(r)) in seen:
            return ""
        key = (text(s), text(r))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = v = self._fits(s, r, seen | {key})
        return v

    def _fits(self, s, r, seen):
        for b in BOXES:
            if s[0] == b:
                return self.fits(s[1][0], r, seen)
            if r[0] == b:
                return self.fits(s, r[1][0], seen)
        O, V = OPT, "alloc::vec::Vec"
        if r[0] == O:
            return self.fits(s[1][0] if s[0] == O else s, r[1][0], seen)
        if s[0] == O:
            return "%s may be absent, %s is not" % (text(s), text(r))
        sl, rl = LEAF.get(s[0]), LEAF.get(r[0])
        if sl or rl:
            return "" if sl == rl or (sl, rl) in WIDER else "%s is not read as %s" % (text(s), text(r))
        seqs = (V, "[")
        if s[0] in seqs and r[0] in seqs:
            return self.fits(s[1][0], r[1][0], seen)
        if s[0] == "(" and r[0] == "(" and len(s[1]) == len(r[1]):
            return next((x for x in (self.fits(p, q, seen) for p, q in zip(s[1], r[1])) if x), "")
        x = self.readable(r[0])
        if x:
            return x
        sv, rv = self.variants(s), self.variants(r)
        if sv is not None and rv is not None:
            for n, (k, pay) in sv.items():
                if n not in rv:
                    return "%s has no %r (sent as %s)" % (text(r), n, text(s))
                k2, pay2 = rv[n]
                x = self.payload(k, pay, k2, pay2, seen)
                if x:
                    return "%s.%s: %s" % (text(s), n, x)
            return ""
        sf, rf = self.fields(s), self.fields(r)
        if sf is not None and rf is not None:
            return self.struct(sf, rf, text(s), text(r), seen)
        return "" if s[0] == r[0] and len(s[1]) == len(r[1]) and not any(self.fits(p, q, seen) for p, q in zip(s[1], r[1])) else "%s is not read as %s" % (text(s), text(r))

    def payload(self, k, a, k2, b, seen):
        if k == "new" and k2 == "struct":
            f = self.fields(a)
            return self.struct(f, b, text(a), "the fields", seen) if f is not None else "%s is not an object" % text(a)
        if k == "struct" and k2 == "new":
            f = self.fields(b)
            return self.struct(a, f, "the fields", text(b), seen) if f is not None else "%s is not an object" % text(b)
        if k != k2:
            return "sent as %s variant, read as %s variant" % (k, k2)
        if k == "new":
            return self.fits(a, b, seen)
        if k == "struct":
            return self.struct(a, b, "the variant", "the variant", seen)
        if k == "tuple":
            return "" if len(a) == len(b) and not any(self.fits(x, y, seen) for x, y in zip(a, b)) else "tuple payloads differ"
        return ""

    def struct(self, sf, rf, sn, rn, seen):
        for n, f in sf.items():
            if n not in rf:
                return "%s has no field %r (in %s)" % (rn, n, sn)
            opt = rf[n].t[0] == OPT or not rf[n].need
            if f.absent and not opt:
                return "field %r of %s is not always in %s" % (n, rn, sn)
            x = self.fits(f.t, rf[n].t, seen)
            if x:
                return "field %r: %s" % (n, x)
        for n, f in rf.items():
            if n not in sf and f.t[0] != OPT and f.need:
                return "field %r of %s is not in %s" % (n, rn, sn)
        return ""


def snake(n):
    return "".join(("_" if i and c.isupper() else "") + c.lower() for i, c in enumerate(n))


def wire(cx):
    if not hasattr(cx, "_wire"):
        cx._wire = Wire(cx)
    return cx._wire


def entry_type(cx, c, kind):
    for e in cx.entries(c):
        if e.kind == kind:
            for k, v in e.roots.items():
                if k.op == "p" and k.a[0] == "msg":
                    return parse(v)
    return None


def alternatives(t):
    """the answers a query value can be"""
    if t.op == "phi":
        for g, v in t.a[0]:
            yield from alternatives(v)
    else:
        yield t


def answered(t):
    """type of an answer term"""
    if t.op == "json":
        return parse(str(t.a[0]))
    return None


def q_path(w, m):
    """Rust variant names of a (nested) query message term, with its outermost type"""
    names = []
    top = m.a[0] if m.op == "adt" else None
    while m.op == "adt":
        names.append(tm.vname(m.a[0], m.a[1]))
        if len(m.a[2]) == 1 and m.a[2][0].op == "adt" and w.variants(parse(str(m.a[2][0].a[0]))) is not None:
            m = m.a[2][0]
        else:
            break
    return top, names


def descend(w, top, names):
    """leaf enum and wire name; payload enums with a single variant need no split in the term"""
    leaf = w.leafs(top, names)
    nm = snake(names[-1])
    while leaf is not None:
        vs = w.variants(leaf) or {}
        if nm not in vs or vs[nm][0] != "new":
            break
        inner = w.variants(vs[nm][1])
        if inner is None or len(inner) != 1:
            break
        leaf, nm = vs[nm][1], next(iter(inner))
    return leaf, nm


TYPE = {"hpl_ism_aggregate": "aggregation", "hpl_ism_multisig": "message_id_multisig", "hpl_ism_routing": "routing", "hpl_ism_pausable": "null"}


def published(cx, w):
    """{kind: {name: type}}: what users and agents send and read, and what contracts send to and read from foreign contracts"""
    out = {"sent to": {}, "answered by": {}, "sent by": {}, "read by": {}}
    for c in sorted(cx.contracts()):
        for kind in ("instantiate", "execute", "query", "migrate"):
            t = entry_type(cx, c, kind)
            if t is not None:
                out["sent to"]["%s.%s" % (c, kind)] = t
                if kind == "query":
                    for path, a in w.answers(t):
                        out["answered by"]["%s.%s" % (c, path)] = a
    for r in ("hook::ExpectedHookMsg", "hook::ExpectedHookQueryMsg", "ism::ExpectedIsmQueryMsg", "ism::ExpectedIsmSpecifierQueryMsg", "core::ExpectedHandleMsg"):
        t = parse(I + r)
        n = r.split("::")[-1]
        out["sent by"][n] = t
        for path, a in w.answers(t):
            out["read by"]["%s.%s" % (n, path)] = a
    return out


def answered_as_declared(cx, w, cs, can=True):
    """every query's answer has the type its interface declares (and there is one)"""
    for c in cs:
        qt = entry_type(cx, c, "query")
        if qt is None:
            continue
        for e in cx.entries(c):
            if e.kind != "query":
                continue
            names = e.variant.split(".")
            leaf = w.leafs(qt, names)
            vs = leaf and w.variants(leaf)
            nm = snake(names[-1])
            if vs is not None and nm not in vs:
                continue                       # not part of the wire format (skipped)
            inner = None
            if vs is not None and vs[nm][0] == "new" and w.variants(vs[nm][1]) is not None:
                inner = vs[nm][1]              # a nested message analysed unsplit
            if e.ok is None:
                if can:
                    cx.ob("answered", "%s %s can be answered" % (c, e.variant), False, "no execution of %s succeeds for this variant" % e.path, cx.where(e))
                continue
            if leaf is None:
                cx.ob("answered", "%s %s is part of the query interface" % (c, e.variant), False, text(qt), cx.where(e))
                continue
            if inner is not None:
                want = [w.answer(inner, n) for n in w.variants(inner)]
            else:
                want = [w.answer(leaf, nm)]
            want = [x for x in want if x is not None]
            for a in alternatives(e.ok):
                at = answered(a)
                x = "the answer is not an encoded value: " + tm.show(a)[:120] if at is None else "no declared answer" if not want else ""
                if not x:
                    xs = [w.fits(at, y) for y in want]
                    x = "" if "" in xs else xs[0]
                cx.ob("answered", "%s %s answers %s" % (c, e.variant, " or ".join(text(y) for y in want)), not x, x, cx.where(e))


@check("P16", 88, "For every message type that contracts use to address another contract by its role (hook, security module, recipient, mailbox, oracle) "
       "the wire shape is derived from the compiled (derived) serialisation code: every message of the role type must be readable, name by "
       "name and field by field, as a message of every contract that plays the role. Every query variant of every contract must be answerable, with a value of the "
       "type its interface declares, and every query a contract makes must decode the type the asked interface declares. Security modules must report the kind they are, hooks the mailbox they are bound to or that they are bound to none.")
def p16(cx):
    w = wire(cx)
    cs = sorted(cx.contracts())
    roles = []
    for c in cs:
        if c.startswith("hpl_hook_") or c == "hpl_igp":
            roles += [(I + "hook::ExpectedHookMsg", c, "execute"), (I + "hook::ExpectedHookQueryMsg", c, "query")]
        if c.startswith("hpl_ism_"):
            roles += [(I + "ism::ExpectedIsmQueryMsg", c, "query")]
        if c.startswith("hpl_warp_"):
            roles += [(I + "ism::ExpectedIsmSpecifierQueryMsg", c, "query"), (I + "core::ExpectedHandleMsg", c, "execute")]
    roles += [(I + "core::mailbox::ExecuteMsg", "hpl_mailbox", "execute"), (I + "core::mailbox::QueryMsg", "hpl_mailbox", "query"),
              (I + "igp::oracle::QueryMsg", "hpl_igp_oracle", "query")]
    for role, c, kind in roles:
        rt = entry_type(cx, c, kind)
        x = w.fits(parse(role), rt) if rt else "no %s entry point" % kind
        if not x and w.variants(parse(role)) is None:
            x = "no wire shape for %s" % role
        cx.ob("understood", "%s.%s reads every %s" % (c, kind, role), not x, x, c)
    answered_as_declared(cx, w, cs)
    seen = set()
    for c in cs:
        for e in cx.entries(c):
            if e.ok is None:
                continue
            for t in [t for t in e.facts if isinstance(t, T)] + [e.ok] + list(e.stor.values()):
                for q in tm.subterms(t):
                    if q.op != "call" or q.a[0] != "query" or (c, e.kind, e.variant, q) in seen:
                        continue
                    seen.add((c, e.kind, e.variant, q))
                    top, names = q_path(w, q.a[1][1])
                    if top is None:
                        continue
                    leaf, nm = descend(w, parse(str(top)), names)
                    want = leaf and w.answer(leaf, nm)
                    got = parse(q.a[1][2].a[0])
                    x = w.fits(want, got) if want else "no declared answer for %s" % ".".join(names)
                    cx.ob("decoded", "%s %s[%s] reads the answer to %s as %s" % (c, e.path, e.variant, ".".join(names), text(got)), not x, x, cx.where(e))
    now = published(cx, w)
    for kind, d in sorted(w.pin["published"].items()):
        for n, ref in sorted(d.items()):
            cur, old = now[kind].get(n), parse(ref)
            if cur is None:
                x = "gone"
            elif kind in ("sent to", "read by"):
                x = w.fits(old, cur)
            else:
                x = w.fits(cur, old)
            cx.ob("published", "%s %s keeps its published form" % (kind, n), not x, x, n.split(".")[0])
    mt = w.variants(parse(I + "ism::IsmType")) or {}
    for c, kind in sorted(TYPE.items()):
        e = cx.entry(c, "query", "Ism.ModuleType")
        if e is None or e.ok is None:
            continue
        v = rfield(e.ok.a[1], "typ") if e.ok.op == "json" else None
        ok = v is not None and v.op == "adt" and mt and w.index.get((str(v.a[0]), v.a[1])) == kind
        cx.ob("kind", "%s reports the module kind %s" % (c, kind), ok, "" if ok else tm.show(v) if v is not None else "no kind", cx.where(e))
    for c in cs:
        if c.startswith("hpl_hook_") or c == "hpl_igp":
            e = cx.entry(c, "query", "Hook.Mailbox")
            if e is not None:
                ret(cx, e, "MailboxResponse", {"mailbox": "item(mailbox)@Some.0" if c == "hpl_hook_merkle" else "'unrestricted'"}, rule="kind")
