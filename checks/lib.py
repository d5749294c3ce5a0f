"""Shared machinery of the property checks: entry enumeration, obligations, comparison."""
import itertools
import os
from engine import dump, spec
from engine import terms as tm
from engine.terms import T, mk, I, TRUE, FALSE, NOT, IS, FIELD, ADT, LT, EQ, IDX, SUB, AND, PHI
from engine.prog import Prog
from engine.interp import RESULT, OPTION, decide, resolve_deep, assume, State, simp_gate
from engine.run import run_entry

BOUNDARY = ["hpl_interface::types::bech32::bech32_encode", "hpl_interface::types::bech32::bech32_decode",
            "hpl_interface::types::bech32::bech32_to_h256"]
ENTRY_NAMES = ("instantiate", "execute", "query", "migrate", "reply", "sudo")
CONTRACTS = ["hpl_hook_aggregate", "hpl_hook_fee", "hpl_hook_merkle", "hpl_hook_pausable", "hpl_hook_routing",
             "hpl_hook_routing_custom", "hpl_hook_routing_fallback", "hpl_igp", "hpl_igp_oracle", "hpl_ism_aggregate",
             "hpl_ism_multisig", "hpl_ism_pausable", "hpl_ism_routing", "hpl_mailbox", "hpl_validator_announce",
             "hpl_warp_cw20", "hpl_warp_native"]


class Ctx:
    """one analysis session over the dump of the current tree"""

    def __init__(self):
        self.dir, self.nfiles = dump.ensure()
        self.progs = {}
        self.ents = {}
        self.fns = set()
        self.blocks = 0
        self.calls = 0
        self.unknown = {}
        self.reset()

    def reset(self):
        self.obs = []
        self.used = {}

    # ---------------------------------------------------------- programs
    def crates(self):
        return sorted(f[:-5] for f in os.listdir(self.dir) if f.endswith(".json"))

    def contracts(self):
        """workspace crates that define entry points"""
        r = []
        for c in self.crates():
            if "test_mock" in c:
                continue
            if self.entry_fns(c):
                r.append(c)
        return r

    def prog(self, crate):
        p = self.progs.get(crate)
        if p is None:
            f = os.path.join(self.dir, crate + ".json")
            p = self.progs[crate] = Prog(f) if os.path.exists(f) else None
        return p

    def entry_fns(self, crate):
        p = self.prog(crate)
        if p is None or crate in ("hpl_utils",):
            return {}
        r = {}
        for path in sorted(p.bypath):
            parts = path.split("::")
            if parts[-1] in ENTRY_NAMES and parts[0] == crate and (len(parts) == 2 or (len(parts) == 3 and parts[1] == "contract")):
                r[parts[-1]] = path
        return r

    def entries(self, crate, name=None):
        """all Entry results of a crate (or of one entry point)"""
        out = []
        for n, path in self.entry_fns(crate).items():
            if name is not None and n != name:
                continue
            out.extend(self.run(path, crate))
        return out

    def run(self, path, crate=None, boundary=BOUNDARY, **kw):
        k = (crate or path.split("::")[0], path, tuple(boundary), repr(kw) if kw else "")
        if k not in self.ents:
            es = run_entry(self.prog(k[0]), path, boundary, **kw)
            if es is None:
                self.ents[k] = []
            else:
                for e in es:
                    e.crate = k[0]
                    e.kind = path.split("::")[-1]
                self.ents[k] = es
        for e in self.ents[k]:
            self.used[(k[1], e.variant)] = e
        return self.ents[k]

    def entry(self, crate, name, variant=""):
        """one entry; None (and a failed anchor obligation) when it does not exist"""
        for e in self.entries(crate, name):
            if e.variant == variant:
                spec.ROOTS = e.roots
                return self.alive(e)
        self.fail("anchor", "%s::%s[%s]" % (crate, name, variant), "entry point or message variant not found in the analysed program", crate)
        return None

    def fn(self, crate, path, boundary=BOUNDARY, **kw):
        es = self.run(path, crate, boundary, **kw)
        if not es:
            self.fail("anchor", path, "function not found in the analysed program", crate)
            return None
        return self.alive(es[0])

    def alive(self, e):
        """what a check looks at must be able to succeed at all"""
        if e.ok is None:
            self.fail("anchor", "%s[%s]" % (e.path, e.variant), "never succeeds", self.where(e))
        return e

    # ---------------------------------------------------------- obligations
    def ob(self, rule, inst, ok, detail="", where=""):
        self.obs.append((rule, inst, bool(ok), detail, where))
        return bool(ok)

    def fail(self, rule, inst, detail, where=""):
        return self.ob(rule, inst, False, detail, where)

    def where(self, e):
        return "%s (%s)" % (e.fn.path, e.fn.file) if e else "?"

    # ---------------------------------------------------------- spec language
    def t(self, s, env=None):
        if isinstance(s, T):
            return s
        return spec.parse(s, env or {})

    def guard(self, e, s, env=None, rule="guard"):
        """every successful run satisfies s"""
        if e is None:
            return False
        inst = "%s[%s]: %s" % (e.path, e.variant, s if isinstance(s, str) else tm.show(s))
        if e.ok is None:
            return self.ob(rule, inst, True, "entry never succeeds", self.where(e))
        spec.ROOTS = e.roots
        t = self.t(s, env)
        ok = holds(e.facts, t)
        return self.ob(rule, inst, ok, "" if ok else "a successful execution does not imply this condition", self.where(e))

    def present(self, e):
        """makes `benign` accept reads of the records that e's contract always has once instantiated"""
        global PRESENT
        PRESENT = None
        c = getattr(e, "crate", None)
        if c is None or getattr(e, "kind", None) == "instantiate":
            PRESENT = set() if c is not None else None
            return
        PRESENT = set()
        for n, path in self.entry_fns(c).items():
            if n == "instantiate":
                used = dict(self.used)
                for i in self.run(path, c):
                    if i.ok is not None:
                        PRESENT |= {k[1] for k, v in i.stor.items() if k[0] == "i" and holds(i.facts, mk("is", v, OPTION, 1))}
                self.used.clear()
                self.used.update(used)

    def exact(self, e, conds, env=None, rule="accepts-exactly", implied=None, message=None, given=()):
        """e succeeds exactly when all conds hold (given initialised storage and well-formed reads);
        message: an encoded message, which has at least its 77 bytes of header; given: other assumptions about the input"""
        if e is None:
            return False
        spec.ROOTS = e.roots
        inst = "%s[%s]" % (e.path, e.variant)
        if e.ok is None:
            return self.ob(rule, inst, False, "never succeeds", self.where(e))
        self.present(e)
        ts = [self.t(c, env) for c in conds]
        for c, t in zip(conds, ts):
            ok = holds(e.facts, t)
            self.ob("guard", inst + ": " + (c if isinstance(c, str) else tm.show(c)), ok, "" if ok else "a successful execution does not imply this condition", self.where(e))
        s = State()
        s.facts = {}
        for t in ts + [self.t(g, env) for g in given] + [self.t("!(len(%s) < 77)" % message, env)] * bool(message):
            assume(s, t, True)
        bad = []
        for t, p in literals(e.facts):
            if benign(t, p) or (implied and implied(t, p)):
                continue
            if not holds(s.facts, representable(t if p else NOT(t))):
                bad.append(("" if p else "not ") + tm.show(t, 0, 9))
        return self.ob(rule, inst + " rejects nothing else", not bad, "additionally requires: " + "; ".join(bad) if bad else "", self.where(e))

    def facts_if(self, e, conds, env=None):
        """facts of the successful runs in which conds hold; None when there are none"""
        spec.ROOTS = e.roots
        s = State()
        s.facts = dict(e.facts)
        for c in conds:
            if not assume(s, self.t(c, env), True):
                return None
        return s.facts

    def accepts(self, e, conds, env=None, rule="accepts", implied=None):
        """whenever conds hold e succeeds"""
        if e is None or e.ok is None:
            return e is not None and self.fail(rule, "%s[%s]" % (e.path, e.variant), "never succeeds", self.where(e))
        self.present(e)
        spec.ROOTS = e.roots
        s = State()
        s.facts = {}
        good = True
        for c in conds:
            good = good and assume(s, self.t(c, env), True)
        bad = []
        for t, p in literals(e.facts):
            if not benign(t, p) and not (implied and implied(t, p)) and not holds(s.facts, representable(t if p else NOT(t))):
                bad.append(("" if p else "not ") + tm.show(t, 0, 9))
        inst = "%s[%s] succeeds whenever %s" % (e.path, e.variant, " and ".join(c if isinstance(c, str) else tm.show(c, 0, 6) for c in conds))
        return self.ob(rule, inst, good and not bad, "additionally requires: " + "; ".join(bad) if bad else "contradictory condition" if not good else "", self.where(e))

    def value(self, e, what, got, want, env=None, rule="value"):
        if e is None:
            return False
        spec.ROOTS = e.roots
        inst = "%s[%s]: %s" % (e.path, e.variant, what)
        w = self.t(want, env)
        if got is None:
            return self.ob(rule, inst, False, "no such value; expected " + tm.show(w), self.where(e))
        ok = same(e.facts, got, w)
        return self.ob(rule, inst, ok, "" if ok else "is %s\n      expected %s" % (tm.show(resolve_deep(e.facts, got), 0, 14), tm.show(w, 0, 14)), self.where(e))

    def stored(self, e, kind, ns, want, env=None, rule="stored"):
        if e is None:
            return False
        return self.value(e, "stored %s" % ns, stor(e, kind, ns), want, env, rule)

    def untouched(self, e, allowed=(), rule="frame"):
        """no storage except `allowed` is changed"""
        if e is None or e.ok is None:
            return True
        bad = [k for k in changed(e) if k[1] not in allowed]
        return self.ob(rule, "%s[%s] writes only %s" % (e.path, e.variant, sorted(allowed)), not bad, "also writes %s" % [k[1] for k in bad] if bad else "", self.where(e))


def literals(facts):
    """the conditions among facts, conjunctions split up"""
    todo = [(t, p) for t, p in reversed(list(facts.items())) if isinstance(t, T) and p in (True, False)]
    while todo:
        t, p = todo.pop()
        if t.op == "not":
            todo.append((t.a[0], not p))
        elif t.op == "and" and p:
            todo.extend((x, True) for x in t.a[0])
        else:
            yield t, p


PRESENT = None      # the records the instantiation of the contract at hand always writes


def benign(t, p):
    """conditions every initialised, well-formed call meets"""
    if p and t.op == "is" and t.a[0].op == "item" and t.a[1] == OPTION and t.a[2] == 1:
        return PRESENT is None or t.a[0].a[0] in PRESENT
    if p and t.op == "is" and t.a[1] == RESULT and t.a[2] == 0 and t.a[0].op == "idx":
        return True       # a stored key or entry decodes
    if p and t.op == "forall":
        return benign(t.a[2], True)
    if t.op == "and" and p:
        return all(benign(x, True) for x in t.a[0])
    if t.op == "bcall" and t.a[0] == "starts_with" and t.a[1][0].op == "bytes":
        return True
    return False


def representable(t):
    """t, given that amounts stay below 2^128 (larger ones cannot be represented on chain)"""
    if not any(x.op == "bcall" and x.a[0] == "fits" for x in tm.subterms(t)):
        return t
    return tm.replace_deep(t, lambda x: tm.TRUE if x.op == "bcall" and x.a[0] == "fits" and x.a[1][1].op == "int" and x.a[1][1].a[0] >= 128 else None)


def stor(e, kind, ns):
    init = mk("item", ns) if kind == "i" else mk("map0", ns)
    for k, v in e.stor.items():
        if k[0] == "raw":
            return v    # could be anything
    return e.stor.get((kind, ns), init)


def changed(e):
    if e.ok is None:
        return []
    r = []
    for k, v in e.stor.items():
        init = mk("item", k[1]) if k[0] == "i" else mk("map0", k[1])
        if v is not init and not same(e.facts, v, init):
            r.append(k)
    return r


def gates(t, out=None):
    """conditions selecting between phi alternatives anywhere in t"""
    if out is None:
        out = {}
    for x in tm.subterms(t):
        if x.op == "phi":
            for d, _ in x.a[0]:
                for c in d:
                    for l, _p in c:
                        atoms(l, out)
    return out


def atoms(t, out):
    if t.op == "not":
        atoms(t.a[0], out)
    elif t.op == "and":
        for x in t.a[0]:
            atoms(x, out)
    elif t.op != "int":
        out[t] = True


def cases(facts, *ts, limit=9):
    """consistent truth assignments to the gating conditions of ts; yields fact dicts"""
    ats = {}
    for t in ts:
        gates(t, ats)
    ats = sorted((a for a in ats if decide(facts, a) is None and not tm.free_lv(a) and not has_bv(a)), key=lambda a: (tm.size(a), a.id))[:limit]

    def go(f, i):
        while i < len(ats) and decide(f, ats[i]) is not None:
            i += 1
        if i == len(ats):
            yield f
            return
        for p in (True, False):
            s = State()
            s.facts = dict(f)
            if assume(s, ats[i], p):
                yield from go(s.facts, i + 1)
    yield from go(facts, 0)


def specialise(f):
    """facts f with every term rewritten under f itself: (facts, rewrite) or (None, None) when contradictory"""
    cache = {}

    def go(x):
        r = cache.get(x)
        if r is not None:
            return r
        if x.op == "phi":
            y = tm_resolve(f, x)
            if y.op != "phi":
                r = go(y)
            else:
                r = PHI([(simp_gate(f, frozenset(z for z in (tm.fconj(c, go) for c in d) if z is not None)), go(v)) for d, v in y.a[0]])
        elif x.op in tm.BOOLOPS and x.op not in ("and", "not", "forall"):
            d = decide(f, x)
            r = tm.rebuild(x, go) if d is None else tm.B(d)
        else:
            r = tm.rebuild(x, go)
        cache[x] = r
        return r
    s = State()
    s.facts = {}
    for t, p in f.items():
        if isinstance(t, T) and p in (True, False):
            s.facts[t] = p
    for k, v in f.items():
        s.facts[k] = v
    for t, p in list(f.items()):
        if isinstance(t, T) and p in (True, False) and t.op != "int":
            if t.op in tm.BOOLOPS and t.op != "forall":
                x = AND(*[go(y) for y in t.a[0]]) if t.op == "and" else tm.rebuild(t, go)
            else:
                continue
            if x is not t and not assume(s, x, p):
                return None, None
    return s.facts, go


def tm_resolve(f, x):
    from engine.interp import resolve
    return resolve(f, x)


_fbv = {}


def free_bv(t):
    """bound-variable heights occurring free in t"""
    r = _fbv.get(t)
    if r is None:
        if t.op in ("bv", "accb"):
            r = frozenset([t.a[0]])
        elif t.op in tm.BINDERS:
            r = frozenset()
            for k, x in enumerate(tm.children(mk("tup", tuple(y for y in t.a[2:])))):
                r |= free_bv(x)
            r = (r - {t.a[1]}) | free_bv(t.a[0])
        else:
            r = frozenset()
            for x in tm.children(t):
                r |= free_bv(x)
        _fbv[t] = r
    return r


def has_bv(t):
    return bool(free_bv(t))


def same(facts, a, b):
    if a is b:
        return True
    for f in cases(facts, a, b):
        x, y = resolve_deep(f, a), resolve_deep(f, b)
        if x is not y and not eqv(f, x, y):
            return False
    return True


def eqv(f, x, y):
    """structural equality up to facts x == y already known"""
    if x is y:
        return True
    if decide(f, tm.EQ(x, y)) is True:
        return True
    return x.op == y.op and len(x.a) == len(y.a) > 0 and all(_eqv(f, u, v) for u, v in zip(x.a, y.a))


def _eqv(f, u, v):
    if isinstance(u, T) and isinstance(v, T):
        return eqv(f, u, v)
    if isinstance(u, tuple) and isinstance(v, tuple):
        return len(u) == len(v) and all(_eqv(f, p, q) for p, q in zip(u, v))
    return u == v


def holds(facts, t):
    """t follows from facts (case split over the gates inside t)"""
    r = decide(facts, t)
    if r is not None:
        return r
    if t.op in ("lt", "eq") and t.a[0].op == "phi" and t.a[1].op == "int" and all(v.op == "int" for _, v in t.a[0].a[0]):
        if all((LT if t.op == "lt" else EQ)(v, t.a[1]) is TRUE for _, v in t.a[0].a[0]):
            return True
    for f in cases(facts, t):
        x = resolve_deep(f, t)
        if decide(f, x) is not True:
            # refutation: assuming the negation must contradict
            s = State()
            s.facts = dict(f)
            if assume(s, x, False) and refutable(f, x):
                return False
    return True


def boolean_atoms(t):
    """the conditions a boolean combination is made of"""
    out, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.op in ("and", "or"):
            todo.extend(x.a[0])
        elif x.op == "not":
            todo.append(x.a[0])
        elif x.op in tm.BOOLOPS:
            out[x] = 1
    return list(out)


def refutable(facts, t):
    """can t be false under facts? (every way its atoms can come out is tried, contradictory ones excluded)"""
    at = boolean_atoms(t)
    if len(at) < 2 or len(at) > 12:
        return True
    budget = [600]

    def search(f, i):
        budget[0] -= 1
        if budget[0] < 0:
            return True
        d = decide(f, t)
        if d is not None:
            return not d
        if i == len(at):
            return True
        if decide(f, at[i]) is not None:
            return search(f, i + 1)
        for v in (True, False):
            s = State()
            s.facts = dict(f)
            if assume(s, at[i], v) and search(s.facts, i + 1):
                return True
        return False
    return search(facts, 0)


# -------------------------------------------------------------- responses
def rfield(v, name):
    """field of a (possibly phi) struct value"""
    return spec.field(v, None, name)


def messages(e):
    """the outgoing messages of a response: list of CosmosMsg terms per case"""
    return rfield(e.ok, "messages") if e.ok is not None else None


def msg_cases(e, v=None):
    """[(facts, [submsg terms])] after splitting on gates; None when the list shape is not concrete"""
    ms = messages(e) if v is None else v
    out = []
    for f in cases(e.facts, skeleton(ms)):
        x = resolve_deep(f, ms)
        out.append((f, x))
    return out


def skeleton(ms):
    """the phi structure of a list, ignoring element contents"""
    if ms.op == "phi":
        return tm.PHI([(d, mk("skel", I(i), skeleton(v))) for i, (d, v) in enumerate(ms.a[0])])
    if ms.op == "cat":
        return mk("skc", tuple(skeleton(x) for x in ms.a[0]))
    return mk("leaf")


def find_calls(root, name):
    roots = root if isinstance(root, (list, tuple)) else [root]
    seen = set()
    out = []
    for r in roots:
        for x in tm.subterms(r):
            if x.op in ("call", "bcall") and x.a[0].split("::")[-1] == name and x not in seen:
                seen.add(x)
                out.append(x)
    return out


def fact_terms(e):
    return [t for t in e.facts if isinstance(t, T)]


def others(cx, crate, skip=()):
    for e in cx.entries(crate):
        if e.kind in ("execute", "migrate", "reply", "sudo") and (e.kind, e.variant) not in skip:
            yield e


def ret(cx, e, ty, fields, env=None, rule="query-result", norm=lambda t: t):
    """a query returns json of struct `ty` with the given fields (compared after norm)"""
    if e is None or e.ok is None:
        if e is not None:
            cx.fail(rule, "%s[%s] returns %s" % (e.path, e.variant, ty), "query never succeeds", cx.where(e))
        return
    spec.ROOTS = e.roots
    for f in cases(e.facts, shell(e.ok)):
        v = resolve_deep(f, e.ok)
        inst = "%s[%s] returns %s" % (e.path, e.variant, ty)
        if v.op != "json" or v.a[1].op != "adt" or not v.a[1].a[0].endswith("::" + ty):
            cx.fail(rule, inst, "returns " + tm.show(v), cx.where(e))
            continue
        body = v.a[1]
        names = tm.VARIANTS[body.a[0]][body.a[1]][1]
        for n, want in fields.items():
            if n not in names:
                cx.fail(rule, inst + "." + n, "response has no field " + n, cx.where(e))
                continue
            got = norm(body.a[2][names.index(n)])
            w = norm(cx.t(want, env))
            ok = same(f, got, w)
            cx.ob(rule, inst + "." + n, ok, "" if ok else "is %s\n      expected %s" % (tm.show(got), tm.show(w)), cx.where(e))


def shell(v):
    """gates at the top of a value only"""
    return tm.PHI([(d, mk("alt", I(i))) for i, (d, _) in enumerate(v.a[0])]) if v.op == "phi" else mk("leaf")


def queries_to(addr):
    spec.reindex()
    return [t for t in spec._idx["call"].get("query", []) if t.a[1][0] is addr]


def wasm_exec(cx, addr, msg, funds):
    return ADT("cosmwasm_std::results::cosmos_msg::CosmosMsg", _vi("CosmosMsg", "Wasm"), (
        ADT("cosmwasm_std::results::cosmos_msg::WasmMsg", 0, (addr, msg, funds)),))


def _vi(ty, var):
    for p, vs in tm.VARIANTS.items():
        if p.endswith("::" + ty):
            for i, (n, _) in enumerate(vs):
                if n == var:
                    return i
    return -1


def outgoing(cx, e, f, x):
    """decode a response message list into [(kind, addr, msg, funds, reply_on)]"""
    out = []
    for m in (x.a[0] if x.op == "seq" else [x]):
        try:
            inner = spec.field(m, None, "msg")
            ro = spec.field(m, None, "reply_on")
            rn = tm.vname(ro.a[0], ro.a[1]) if ro.op == "adt" else tm.show(ro)
        except Exception:
            out.append(("?", m, None, None, "?"))
            continue
        if inner.op == "adt" and tm.vname(inner.a[0], inner.a[1]) == "Wasm" and inner.a[2][0].op == "adt":
            w = inner.a[2][0]
            wn = tm.vname(w.a[0], w.a[1])
            if wn == "Execute":
                msg = w.a[2][1]
                if msg.op == "json":
                    msg = msg.a[1]
                out.append(("exec", w.a[2][0], msg, w.a[2][2], rn))
                continue
            out.append((wn, w, None, None, rn))
        else:
            out.append((tm.vname(inner.a[0], inner.a[1]) if inner.op == "adt" else "?", inner, None, None, rn))
    return out


def expect_msgs(cx, e, want, env=None, rule="messages", v=None):
    """want: function(facts) -> list of (addr, msg, funds) exec messages, exactly, in order"""
    if e is None or e.ok is None:
        return
    ms = messages(e) if v is None else v
    extra = want(None)
    for f in cases(e.facts, skeleton(ms), *extra):
        x = resolve_deep(f, ms)
        got = outgoing(cx, e, f, x)
        exp = want(f)
        inst = "%s[%s] sends exactly %d message(s)" % (e.path, e.variant, len(exp))
        concrete = x.op == "seq" or x is tm.EMPTY
        if not cx.ob(rule, inst, concrete and len(got) == len(exp), "sends " + tm.show(x), cx.where(e)):
            continue
        for i, (g, w) in enumerate(zip(got, exp)):
            inst = "%s[%s] message %d" % (e.path, e.variant, i + 1)
            if w[0] == "exec":
                _, addr, msg, funds = w
                if not cx.ob(rule, inst + " is a contract call whose failure reverts the transaction", g[0] == "exec" and g[4] in ("Never", "Success"), "is %s (reply %s)" % (g[0], g[4]), cx.where(e)):
                    continue
                for nm, a, b in (("target", g[1], addr), ("payload", g[2], msg), ("funds", g[3], funds)):
                    if b is None:
                        continue
                    ok = b(f, a) if callable(b) else same(f, a, b)
                    cx.ob(rule, inst + " " + nm, ok, "" if ok else "is %s\n      expected %s" % (tm.show(a), "(see rule)" if callable(b) else tm.show(b)), cx.where(e))
            else:
                ok = w[1](f, g)
                cx.ob(rule, inst + " " + w[0], ok, "" if ok else "is %s" % tm.show(g[1]), cx.where(e))


def sent_messages(e):
    """message bytes inside post-dispatch calls of a response"""
    out = []
    for x in tm.subterms(messages(e)):
        if x.op == "adt" and x.a[0].endswith("PostDispatchMsg") and len(x.a[2]) == 2:
            names = tm.VARIANTS[x.a[0]][0][1]
            m = x.a[2][names.index("message")]
            if m not in out:
                out.append(m)
    return out


def events(e):
    return rfield(e.ok, "events")


def _event(self, e, evs, ty, key, want, env=None):
    spec.ROOTS = e.roots
    w = self.t(want, env)
    inst = "%s[%s] event %s.%s" % (e.path, e.variant, ty, key)
    found = None
    for f in cases(e.facts, skeleton(evs)):
        x = resolve_deep(f, evs)
        ok = False
        for ev in (x.a[0] if x.op == "seq" else []):
            if ev.op != "adt" or spec.field(ev, None, "ty") is not tm.BYTES(ty.encode()):
                continue
            at = spec.field(ev, None, "attributes")
            for a in (at.a[0] if at.op == "seq" else []):
                if spec.field(a, None, "key") is tm.BYTES(key.encode()):
                    found = spec.field(a, None, "value")
                    ok = same(f, found, w)
        if not self.ob("event", inst, ok, "" if ok else "is %s, expected %s" % (tm.show(found) if found else "missing", tm.show(w)), self.where(e)):
            return


Ctx.event = _event


# ------------------------------------------------------------------ coins
def coin_terms(t):
    """coins_vec/fold of additions -> multiset of coin lists, or None"""
    if t.op == "call" and t.a[0] == "coins_vec":
        return coin_terms(t.a[1][0])
    if t.op == "call" and t.a[0] == "coins_of":
        return [t.a[1][0]]
    if t.op == "call" and t.a[0] in ("coins_empty", "coins0"):
        return []
    if t.op == "call" and t.a[0] == "coins_add":
        a = coin_terms(t.a[1][0])
        return None if a is None else a + [mk("coin1", t.a[1][1])]
    if t.op == "fold":
        n, h, init, u = t.a
        a = coin_terms(init)
        if a is None:
            return None
        if u.op == "call" and u.a[0] == "coins_add" and u.a[1][0] is mk("accb", h):
            e = u.a[1][1]
            if e.op == "idx" and e.a[1] is mk("bv", h) and tm.LEN(e.a[0]) is n:
                return a + (list(e.a[0].a[0]) if e.a[0].op == "cat" else [e.a[0]])
    return None


def is_coin_diff(f, t, total, fees):
    """t = total minus every coin of fees, as a coin list"""
    t = resolve_deep(f, t)
    if t.op == "call" and t.a[0] == "coins_vec":
        t = t.a[1][0]
    if t.op != "fold":
        return False
    n, h, init, u = t.a
    if not (init.op == "call" and init.a[0] == "coins_of" and init.a[1][0] is total):
        return False
    if not (u.op == "call" and u.a[0] == "coins_sub" and u.a[1][0] is mk("accb", h)):
        return False
    e = u.a[1][1]
    return e.op == "idx" and e.a[1] is mk("bv", h) and eqv(f, e.a[0], fees) and tm.LEN(e.a[0]) is n


def quote_fees(cx, e, f, hook, msg, meta, where):
    """the fees term answered by `hook` for (metadata, message), if the code asks for it"""
    want = cx.t("ExpectedHookQueryMsg{0: HookQueryMsg::QuoteDispatch{0: QuoteDispatchMsg{metadata: MM, message: BB}}}", {"MM": meta, "BB": msg})
    spec.reindex()
    for q in spec._idx["call"].get("query", []):
        if len(q.a[1]) == 4 and same(f, q.a[1][0], hook) and same(f, q.a[1][1], want):
            return FIELD(FIELD(q, RESULT, 0, 0), "hpl_interface::hook::QuoteDispatchResponse", 0, 0), q
    return None, None


def unroll(t, m):
    """t with the terms of m replaced and every summary over a now known number of elements written out"""
    cache = {}

    def ev(x):
        r = cache.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif x.op in ("fold", "flatmap", "map") and tm.is_int(ev(x.a[0])):
            n, h = ev(x.a[0]).a[0], x.a[1]
            if x.op == "fold":
                r = ev(x.a[2])
                for k in range(n):
                    r = ev(tm.subst(x.a[3], {mk("accb", h): r, mk("bv", h): I(k)}))
            else:
                xs = [ev(tm.subst(x.a[2], {mk("bv", h): I(k)})) for k in range(n)]
                r = tm.CAT(xs) if x.op == "flatmap" else tm.SEQ(xs)
        else:
            r = tm.rebuild(x, ev)
            if r is not x and r.op in ("fold", "flatmap", "map"):
                r = ev(r)
        cache[x] = r
        return r
    return ev(t)
