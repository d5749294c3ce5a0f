"""Interchain security modules: multisig, aggregation, routing, and what every module answers."""
from .registry import check
from .lib import *
from .admin import OWNER
from engine import terms as tm

MS = "hpl_ism_multisig"
AG = "hpl_ism_aggregate"
RT = "hpl_ism_routing"


def cond_loop(*names):
    """loops whose state is updated conditionally on a call to one of names"""
    def p(rec):
        ts = [t for t in list(rec["facts"]) + list(rec["upd"].values()) if isinstance(t, T)]
        return any(u.op == "phi" or u.op in tm.BOOLOPS or u.op in ("add", "sub") for u in rec["upd"].values()) and any(rec["lv"] in tm.free_lv(c) for n in names for c in find_calls(ts, n))
    return p


def rename(facts, m):
    """facts with symbols renamed; None when contradictory"""
    s = State()
    s.facts = {}
    for t, p in facts.items():
        if isinstance(t, T) and p in (True, False):
            if not assume(s, tm.subst(t, m), p):
                return None
    return s.facts


def addfacts(f, *ts):
    s = State()
    s.facts = dict(f)
    for t in ts:
        neg = False
        if not assume(s, t, True):
            return None
    return s.facts


def leaves(t):
    return [x for _, v in t.a[0] for x in leaves(v)] if t.op == "phi" else [t]


def isflag(t, head):
    """an update that is a truth value (or keeps the old one), not a count"""
    return all(x in (tm.TRUE, tm.FALSE, head) or x.op in tm.BOOLOPS for x in leaves(t))


def sameflag(f, a, b):
    """two truth values agree under the facts"""
    one, two = addfacts(f, a, NOT(b)), addfacts(f, NOT(a), b)
    return not (one is not None and sat(one)) and not (two is not None and sat(two))


class Quorum:
    """inductive argument for a loop that counts approvals.
    voter(i): the i-th candidate's identity; votes(i): condition under which it approves;
    distinct: 'seen' - the loop must itself refuse candidates already counted (a carried list of them);
              'keyed' - candidates come from a keyed container, hence are distinct."""

    def __init__(self, cx, e, target, voter, votes, distinct, label):
        self.cx, self.e, self.T, self.voter, self.votes, self.distinct, self.label = cx, e, target, voter, votes, distinct, label
        self.where = cx.where(e)
        self.ok = False

    def ob(self, rule, inst, ok, detail=""):
        return self.cx.ob(rule, self.label + ": " + inst, ok, "" if ok else detail, self.where)

    def run(self):
        cx, e = self.cx, self.e
        recs = e.it.loops
        if not self.ob("counting-loop", "approvals are counted by one loop over the candidates", len(recs) == 1, "%d loops update a count or a list depending on the approval of a candidate" % len(recs)):
            return False
        rec = self.rec = recs[0]
        i = mk("p", "i")
        m = {rec["lv"]: i}
        head = {}
        for j, a in enumerate(rec["accs"]):
            head[j] = m[a] = mk("p", "head.%d" % j)
        facts = rename(rec["facts"], m)
        upd = {j: tm.subst(rec["upd"].get(a, a), m) for j, a in enumerate(rec["accs"])}
        init = {j: rec["init"][a] for j, a in enumerate(rec["accs"])}
        self.i = i
        X, vote = self.voter(i), self.votes(i)
        lists = [j for j in init if init[j] is not None and (init[j] is tm.EMPTY or init[j].op == "seq" and not init[j].a[0])]
        counts = {}
        for j in init:
            if j in lists or upd[j] is head[j]:
                continue
            if init[j] is tm.FALSE and isflag(upd[j], head[j]):
                counts[j] = "flag"
            elif init[j] is I(0):
                counts[j] = "up"
            elif init[j] is not None and same(e.facts, init[j], self.T):
                counts[j] = "down"
            else:
                self.ob("counting-loop", "loop state %d starts from the threshold, zero or empty" % j, False, "starts from " + tm.show(init[j] or tm.UNIT, 0, 8))
                return False
        if self.distinct == "keyed" and len(lists) == 1 and not any(k != "flag" for k in counts.values()):
            counts[lists[0]] = "len"            # the approvals themselves are kept
        self.counts, self.lists = counts, lists
        if self.distinct == "seen":
            if not self.ob("distinct", "the loop records whom it has counted", len(lists) == 1, "%d recorded lists" % len(lists)):
                return False
            M = self.M = head[lists[0]]
            fresh = self.fresh = lambda mm, x: cx.t("forall(MM, 1, !(MM[#1] == XX))", {"MM": mm, "XX": x})
        # inductive step
        n = grow = 0
        good = True
        upds = [upd[j] for j in sorted(upd)]
        for f in cases(facts, *upds):
            n += 1
            c2 = {j: resolve_deep(f, upd[j]) for j in upd}
            if self.distinct == "seen":
                u = c2[lists[0]]
                stays = u is M
                grows = u.op == "cat" and len(u.a[0]) == 2 and u.a[0][0] is M and u.a[0][1].op == "seq" and len(u.a[0][1].a[0]) == 1
                if not stays and not grows:
                    good = self.ob("count-step", "the record of counted candidates only grows by one candidate at a time", False, "becomes " + tm.show(u, 0, 9))
                    continue
                if grows:
                    x = u.a[0][1].a[0][0]
                    good &= self.ob("count-step", "the recorded candidate is the one that approved", same(f, x, X), "records " + tm.show(x, 0, 9) + "\n      expected " + tm.show(X, 0, 9))
                    good &= self.ob("distinct", "a candidate already counted is not counted again", holds(f, fresh(M, X)), "it can be counted twice")
            else:
                d = [j for j in counts if counts[j] != "flag" and c2[j] is not head[j]]
                stays, grows = not d, bool(d)
            for j, k in counts.items():
                want = head[j] if stays else tm.ADD(head[j], I(1)) if k == "up" else tm.SUB(head[j], I(1))
                if k == "flag":
                    continue
                if k == "len":
                    want = c2[j] if c2[j].op == "cat" and len(c2[j].a[0]) == 2 and c2[j].a[0][0] is head[j] and c2[j].a[0][1].op == "seq" and len(c2[j].a[0][1].a[0]) == 1 else want
                    want = head[j] if stays else want
                good &= self.ob("count-step", "the count moves by exactly one per counted candidate", c2[j] is want or same(f, c2[j], want), "becomes " + tm.show(c2[j], 0, 9))
            if grows:
                grow += 1
                good &= self.ob("count-step", "only an approving candidate is counted", holds(f, vote), "a candidate is counted without: " + tm.show(vote, 0, 12))
            else:
                missed = [vote] + ([fresh(M, X)] if self.distinct == "seen" else [])
                good &= self.ob("no-missed", "an approving candidate is counted", addfacts(f, *missed) is None or holds(f, NOT(AND(*missed))), "an approving candidate can be passed over")
        good &= self.ob("count-step", "step cases analysed", n > 0 and grow > 0 or self.brk_only(), "the loop never counts anyone")
        # while the loop goes on, fewer than the threshold have been counted: inductive when the loop stops at the threshold
        self.short = self.most = False
        cs = [j for j, k in counts.items() if k != "flag"]
        for j in cs or ([lists[0]] if self.distinct == "seen" else []):
            n_of = (lambda t: tm.LEN(t)) if j not in counts or counts[j] == "len" else (lambda t: t) if counts[j] == "up" else (lambda t: tm.SUB(self.T, t))
            short = LT(n_of(head[j]), self.T) if counts.get(j, "len") in ("up", "len") else NOT(EQ(head[j], I(0)))
            pos = NOT(EQ(self.T, I(0)))
            f0 = addfacts(e.facts, pos)
            base = LT(I(0), self.T)
            ok = f0 is not None and holds(f0, base)
            for f in cases(facts, *upds):
                u = resolve_deep(f, upd[j])
                nxt = LT(n_of(u), self.T) if counts.get(j, "len") in ("up", "len") else NOT(EQ(u, I(0)))
                f1 = addfacts(f, pos, short, NOT(nxt))
                if f1 is not None and sat(f1):
                    ok = False
            self.short = self.short or ok
            if counts.get(j) == "down":
                # a counter of what is missing must stop at zero: below it the subtraction aborts and refuses a full quorum
                ok = ok or not any(f1 is not None and sat(f1) for f in cases(facts, *upds) if resolve_deep(f, upd[j]) is not head[j] for f1 in [addfacts(f, EQ(head[j], I(0)))])
                good &= self.ob("quorum-suffices", "a further approval after the quorum does not abort the verification", ok, "the count of missing approvals is lowered below zero")
            if counts.get(j) != "down":
                # at the start of each turn no more than the threshold have been counted
                ok = True
                for f in cases(facts, *upds):
                    f1 = addfacts(f, NOT(LT(self.T, n_of(head[j]))), LT(self.T, n_of(resolve_deep(f, upd[j]))))
                    if f1 is not None and sat(f1):
                        ok = False
                self.most = self.most or ok
        # what a flag kept beside the count says, proved by induction over the turns that go on
        self.flags, self.pos = {}, False
        for j in [j for j, k in counts.items() if k == "flag"]:
            nofs = [(lambda t, c=c: tm.LEN(t[c]) if counts.get(c, "len") == "len" else t[c] if counts[c] == "up" else tm.SUB(self.T, t[c])) for c in (cs or lists)]
            vals = [("never", lambda t: tm.FALSE)] + [("quorum", lambda t, n=n: NOT(LT(n(t), self.T))) for n in nofs]
            for kind, val in vals:
                f0 = rename(addfacts(facts, NOT(EQ(self.T, I(0)))) or {}, {head[j]: val(head)})
                if f0 and all(sameflag(f, v[j], val(v)) for f in cases(f0, *upds) for v in [{k: resolve_deep(f, tm.subst(x, {head[j]: val(head)})) for k, x in upd.items()}]):
                    self.flags[j] = val
                    self.pos |= kind == "quorum"
                    break
        self.ok = good
        return good

    def brk_only(self):
        return False

    def subst_exit(self, kind, syms):
        """counter symbols at an exit expressed through the number of counted candidates"""
        K = tm.LEN(syms[self.lists[0]]) if self.distinct == "seen" or "len" in self.counts.values() else mk("p", "count." + kind)
        m = {}
        for j, k in self.counts.items():
            if k == "up":
                m[syms[j]] = K
            elif k == "down":
                m[syms[j]] = tm.SUB(self.T, K)
        return K, m

    def conclude(self, verdict):
        """verdict (boolean term of the answer) is true only with a quorum, and true whenever there is one"""
        cx, e, rec = self.cx, self.e, self.rec
        done = tm.BCALL("loopexit", I(rec["id"]))
        m = {}
        goals = []
        for kind, syms, i in rec["exits"]:
            K, mm = self.subst_exit(kind, syms)
            m.update(mm)
            m.update({syms[j]: tm.subst(val(syms), mm) for j, val in self.flags.items()})
            if kind.startswith("end"):
                g = NOT(LT(K, self.T))
                goals.append((kind, g, K, i))
            else:
                extra = [self.votes(i), NOT(LT(tm.ADD(K, I(1)), self.T))]
                if self.distinct == "seen":
                    extra.append(self.fresh(syms[self.lists[0]], self.voter(i)))
                g = NOT(AND(LT(K, self.T), NOT(AND(*extra))))
                goals.append((kind, g, K, i))
        facts = rename(e.facts, m)
        if self.pos and facts is not None:
            facts = addfacts(facts, NOT(EQ(self.T, I(0))))      # with a threshold of zero any count is a quorum
        v = tm.subst(verdict, m)
        if facts is None:
            return self.ob("quorum", "the answer is reachable", False, "contradictory")
        neg = [NOT(g) for _, g, _, _ in goals]
        r = addfacts(facts, v)
        if r is None:
            return self.ob("quorum", "the module can accept", False, "it never accepts")
        ok = True
        for pol in (True, False):
            f = addfacts(r, done if pol else NOT(done))
            if f is None:
                continue
            rel = [NOT(g) for k, g, _, _ in goals if k.startswith("end") == pol]
            bad = self.consistent(f, rel)
            ok &= self.ob("quorum", "acceptance %s implies a quorum of distinct approvals" % ("after the last candidate" if pol else "before the last candidate"), not bad, "it can accept with fewer")
        # completeness
        for pol in (True, False):
            f = addfacts(facts, NOT(v), done if pol else NOT(done))
            if f is None:
                continue
            if self.short:
                f = addfacts(f, NOT(EQ(self.T, I(0))), *[LT(K, self.T) for _, _, K, _ in goals])
                if f is None:
                    continue
            if self.most:
                f = addfacts(f, *[NOT(LT(self.T, K)) for _, _, K, _ in goals])
                if f is None:
                    continue
            if pol:
                f = addfacts(f, *[g for k, g, _, _ in goals if k.startswith("end")])
                ok &= self.ob("quorum-suffices", "with a quorum counted the answer is acceptance", f is None or not self.consistent(f, []), "it can still refuse")
            else:
                ok &= self.ob("quorum-suffices", "stopping early means acceptance", not self.consistent(f, []), "it can stop early and refuse")
        return ok

    def consistent(self, f, ts):
        """could facts f and all ts hold together, as far as the analysis can see: case analysis over the atoms of the facts"""
        f = addfacts(f, *ts)
        return f is not None and sat(f)


def batoms(t, out):
    if t.op in ("and", "or"):
        for x in t.a[0]:
            batoms(x, out)
    elif t.op == "not":
        batoms(t.a[0], out)
    elif t.op == "phi" and any(x in (tm.TRUE, tm.FALSE) or x.op in tm.BOOLOPS for x in t.a[1:]):
        for x in t.a:
            batoms(x, out)
    elif t not in (tm.TRUE, tm.FALSE):
        out.setdefault(t, None)
    return out


def beval(f, t):
    if t is tm.TRUE or t is tm.FALSE:
        return t is tm.TRUE
    v = decide(f, t)
    if v is not None:
        return v
    if t.op == "not":
        v = beval(f, t.a[0])
        return None if v is None else not v
    if t.op in ("and", "or"):
        vs = [beval(f, x) for x in t.a[0]]
        short = t.op == "or"
        return short if short in vs else None if None in vs else not short
    return None


def tight(f):
    """integers: x < y and not x+1 < y make x+1 = y"""
    for t, p in list(f.items()):
        if isinstance(t, T) and t.op == "lt" and p is True:
            x1 = tm.ADD(t.a[0], I(1))
            if decide(f, LT(x1, t.a[1])) is False:
                s = State()
                s.facts = dict(f)
                if not assume(s, EQ(x1, t.a[1]), True):
                    return False
    return True


def sat(f, budget=None):
    budget = budget or [4000]
    budget[0] -= 1
    if budget[0] < 0:
        return True
    todo = {}
    for t, p in f.items():
        if not isinstance(t, T) or p not in (True, False) or t.op not in ("and", "or", "not"):
            continue
        g = {k: v for k, v in f.items() if k is not t}
        v = beval(g, t)
        if v is None:
            batoms(t, todo)
        elif v is not p:
            return False
    todo = [a for a in todo if decide(f, a) is None]
    if not todo:
        return tight(f)
    a = todo[0]
    for p in (True, False):
        s = State()
        s.facts = dict(f)
        if assume(s, a, p) and sat(s.facts, budget):
            return True
    return False


def entry_with_loops(cx, crate, kind, variant, pred):
    path = cx.entry_fns(crate).get(kind)
    if path:
        for e in cx.run(path, crate, opaque=pred):
            if e.variant == variant:
                spec.ROOTS = e.roots
                return e
    cx.fail("anchor", "%s::%s[%s]" % (crate, kind, variant), "entry point or message variant not found in the analysed program", crate)
    return None


RECOVER = cond_loop("recover")
RECOVER.__name__ = "recover"
QUERY = cond_loop("query")
QUERY.__name__ = "query"
V = "msg@Ism.0@Verify"
ORIGIN = "be(%s.message[5..9])" % V
VALS = "at(map0(validators), %s)@Some.0" % ORIGIN
THR = "at(map0(threshold), %s)@Some.0" % ORIGIN
SIGNED = "keccak(cat[0x19457468657265756d205369676e6564204d6573736167653a0a3332, %s])"   # "\\x19Ethereum Signed Message:\\n32"
DIGEST = SIGNED % ("keccak(cat[keccak(cat[%s.message[5..9], %s.metadata[0..32], 'HYPERLANE']), %s.metadata[32..68], keccak(%s.message)])" % (V, V, V, V))


def verdict(cx, e):
    """the boolean the verification answers"""
    v = e.ok
    if v.op == "json" and v.a[1].op == "adt" and v.a[1].a[0].endswith("VerifyResponse"):
        return v.a[1].a[2][0]
    return None


def signer(cx, D, i):
    """address recovered from the i-th 65-byte signature chunk over digest D (recovery id offset by 27)"""
    sig = tm.SLICE(cx.t(V + ".metadata"), tm.ADD(I(68), tm.MUL(I(65), i)), tm.ADD(I(68), tm.MUL(I(65), tm.ADD(i, I(1)))))
    return cx.t("keccak(recover(DD, SS[0..64], BB)@Ok.0[1..])[12..]", {"DD": D, "SS": sig, "BB": tm.SUB(IDX(sig, I(64)), I(27))})


@check("P11", 11, "The multisig verification loop is summarised as a recurrence over its carried state; an inductive argument over its step "
       "cases shows that the state records exactly the distinct enrolled addresses recovered from the signatures, by 65-byte chunk, over the "
       "digest, and that the answer is acceptance only if at least the origin's threshold of them is recorded.")
def p11(cx):
    e = entry_with_loops(cx, MS, "query", "Ism.Verify", RECOVER)
    if e is None or e.ok is None:
        return e is not None and cx.fail("verify", "multisig verification", "never answers", cx.where(e))
    vd = verdict(cx, e)
    if not cx.ob("verify", "the answer is one verdict", vd is not None, tm.show(e.ok, 0, 6), cx.where(e)):
        return
    D = cx.t(DIGEST)
    vals = cx.t(VALS)

    def voter(i):
        return signer(cx, D, i)

    def votes(i):
        return cx.t("!forall(VV, 1, !(VV[#1] == XX))", {"VV": vals, "XX": voter(i)})
    q = Quorum(cx, e, cx.t(THR), voter, votes, "seen", "signature count")
    if q.run():
        n = q.rec["n"]
        want = tm.ARITH("div", tm.SUB(tm.LEN(cx.t(V + ".metadata")), I(68)), I(65))
        q.ob("all-signatures", "every complete 65-byte signature after the 68-byte header is looked at", n is want or same(e.facts, n, want), "looks at %s of them" % tm.show(n, 0, 9))
        q.conclude(vd)




@check("P12", 7, "Every signature recovery and every validator-set lookup of the verification is enumerated: the digest recovered over must be the "
       "nested hash of the origin domain, the metadata's tree and root and index, and the id of the complete message; the set and threshold "
       "used must be the origin's; the two signing helpers are analysed against the signed-message and address-derivation definitions.")
def p12(cx):
    e = entry_with_loops(cx, MS, "query", "Ism.Verify", RECOVER)
    if e is None or e.ok is None:
        return
    D = cx.t(DIGEST)
    allts = fact_terms(e) + [e.ok] + [t for l in e.it.loops for t in list(l["upd"].values()) + [x for x in l["facts"] if isinstance(x, T)]]
    rec = find_calls(allts, "recover")
    keys = {FIELD(r, RESULT, 0, 0) for r in rec}
    uses = lambda ts: {x for x in tm.subterms(mk("tup", tuple(allts))) if any(c in ts for c in tm.children(x))}
    tail = uses(keys)
    hashes = uses(tail)
    addr = uses(hashes)
    other = {x for x in tail if not (x.op == "slice" and x in {tm.SLICE(k, I(1), None) for k in keys})}
    other |= {x for x in hashes if not (x.op == "call" and x.a[0].split("::")[-1] == "keccak")}
    other |= {x for x in addr if x not in {tm.SLICE(h, I(12), None) for h in hashes}}
    cx.ob("address", "a recovered key is used only through its derived address", not other, "; ".join(tm.show(x, 0, 7) for x in other), cx.where(e))
    cx.ob("digest", "signatures are recovered", bool(rec), "no recovery", cx.where(e))
    for k, r in enumerate(rec):
        ok = same(e.facts, r.a[1][0], D)
        cx.ob("digest", "recovery is over the digest of this message, tree, root and index (%d)" % k, ok, "" if ok else "over " + tm.show(r.a[1][0], 0, 14), cx.where(e))
        cands = {x for x in tm.subterms(r.a[1][1]) if x.op in ("lv", "p", "wit", "add", "idx", "int")}
        whole = [i for i in cands for w in find_calls([signer(cx, D, i)], "recover") if same(e.facts, w.a[1][1], r.a[1][1]) and same(e.facts, w.a[1][2], r.a[1][2])]
        cx.ob("signature", "recovery takes 64 bytes and the recovery id of one 65-byte signature (%d)" % k, bool(whole), "" if whole else "recovers from %s, %s" % (tm.show(r.a[1][1], 0, 8), tm.show(r.a[1][2], 0, 8)), cx.where(e))
    dom = cx.t(ORIGIN)
    n = 0
    for x in tm.subterms(mk("tup", tuple(fact_terms(e) + [e.ok]))):
        if x.op == "at" and x.a[0].op == "map0" and x.a[0].a[0] in ("validators", "threshold"):
            n += 1
            cx.ob("origin", "%s is looked up for the message's origin" % x.a[0].a[0], same(e.facts, x.a[1], dom), "for " + tm.show(x.a[1], 0, 8), cx.where(e))
    cx.ob("origin", "validator set and threshold are looked up", n >= 2, "%d lookups" % n, cx.where(e))
    m = cx.t(V + ".metadata")
    cx.exact(e, ["at(map0(validators), %s) is Some" % ORIGIN, "at(map0(threshold), %s) is Some" % ORIGIN], message=V + ".message", given=["!(len(%s.metadata) < 68)" % V],
             implied=lambda t, p: bool(find_calls(t, "recover")) or any(x.op == "bcall" and x.a[0] == "loopexit" for x in tm.subterms(t)))
    ethereum(cx, MS)


def ethereum(cx, crate):
    f = cx.fn(crate, "hpl_interface::types::crypto::eth_hash", boundary=[])
    if f and f.ok is not None:
        a = param(f)
        cx.ob("signed-message", "the signed-message hash prefixes the text and decimal length", same(f.facts, f.ok, cx.t("keccak(cat[PP, display(len(AA)), AA])", {"PP": tm.BYTES(b"\x19Ethereum Signed Message:\n"), "AA": a})), tm.show(f.ok, 0, 9), cx.where(f))
        cx.exact(f, [])
    f = cx.fn(crate, "hpl_interface::types::crypto::eth_addr", boundary=[])
    if f and f.ok is not None:
        a = param(f)
        cx.ob("address", "the signer's address is the last twenty bytes of the key's hash", same(f.facts, f.ok, cx.t("keccak(AA[1..])[12..]", {"AA": a})), tm.show(f.ok, 0, 9), cx.where(f))
        cx.exact(f, [], implied=lambda t, p: tm.LEN(a) in tm.subterms(t))


def param(f, k=0):
    names = {l: n for l, n in f.fn.names}
    return mk("p", names.get(k + 1, "arg%d" % (k + 1)).lstrip("_"))


@check("P13", 19, "The enrolment entries of the multisig module are analysed as terms: set succeeds exactly for the owner with twenty-byte validators and "
       "a threshold between one and their number, and replaces exactly that domain's two records; unset removes exactly those; nothing else "
       "writes them; the three reports answer the stored records of the asked domain.")
def p13(cx):
    S = "msg@SetValidators"
    e = cx.entry(MS, "execute", "SetValidators")
    cx.exact(e, [OWNER, "forall(%s.validators, 1, len(%s.validators[#1]) == 20)" % (S, S), "!(%s.threshold == 0)" % S, "!(len(%s.validators) < %s.threshold)" % (S, S)])
    cx.stored(e, "m", "validators", "store(map0(validators), %s.domain, %s.validators)" % (S, S))
    cx.stored(e, "m", "threshold", "store(map0(threshold), %s.domain, %s.threshold)" % (S, S))
    cx.untouched(e, {"validators", "threshold"})
    e = cx.entry(MS, "execute", "UnsetDomain")
    cx.exact(e, [OWNER])
    cx.stored(e, "m", "validators", "del(map0(validators), msg@UnsetDomain.domain)")
    cx.stored(e, "m", "threshold", "del(map0(threshold), msg@UnsetDomain.domain)")
    cx.untouched(e, {"validators", "threshold"})
    for e in cx.entries(MS):
        if e.variant in ("SetValidators", "UnsetDomain") or e.ok is None:
            continue
        bad = [k[1] for k in changed(e) if k[1] in ("validators", "threshold")]
        cx.ob("set-frame", "%s[%s] leaves the validator sets unchanged" % (e.path, e.variant), not bad, "changes %s" % bad, cx.where(e))
        if e.kind in ("execute", "migrate", "instantiate"):
            expect_msgs(cx, e, lambda f: [])
    cx.exact(cx.entry(MS, "instantiate"), ["valid_addr(msg.owner)"])
    D = "msg@MultisigIsm.0.domain"
    for var, d in (("MultisigIsm", D), ("Ism.VerifyInfo", "be(msg@Ism.0@VerifyInfo.message[5..9])")):
        q = next((x for x in cx.entries(MS, "query") if x.variant.startswith(var)), None)
        if q is None:
            cx.fail("anchor", "%s query %s" % (MS, var), "not found")
            continue
        ret(cx, q, "EnrolledValidatorsResponse" if var == "MultisigIsm" else "VerifyInfoResponse",
            {"validators": "at(map0(validators), %s)@Some.0" % d, "threshold": "at(map0(threshold), %s)@Some.0" % d})
        cx.exact(q, ["at(map0(validators), %s) is Some" % d, "at(map0(threshold), %s) is Some" % d] , message="msg@Ism.0@VerifyInfo.message" if var != "MultisigIsm" else None)


@check("P14", 22, "The aggregation module's verification loop is summarised as a recurrence; an inductive argument over its step cases shows the count of "
       "accepting modules moves by exactly one per module of a keyed collection built from the configured list, each asked about the submitted "
       "message with its own slice of the metadata, and that acceptance is answered only at the threshold; configuration entries are compared as terms.")
def p14(cx):
    e = entry_with_loops(cx, AG, "query", "Ism.Verify", QUERY)
    if e is None or e.ok is None:
        return e is not None and cx.fail("verify", "aggregate verification", "never answers", cx.where(e))
    vd = verdict(cx, e)
    if not cx.ob("verify", "the answer is one verdict", vd is not None, tm.show(e.ok, 0, 6), cx.where(e)):
        return
    T_ = cx.t("item(threshold)@Some.0")
    meta = cx.t(V + ".metadata")
    isms = cx.t("item(isms)@Some.0")
    # the queries the loop makes
    terms = [t for l in e.it.loops for t in list(l["upd"].values()) + [x for x in l["facts"] if isinstance(x, T)]]
    qs = [q for q in find_calls(terms, "query") if any(l["lv"] in tm.free_lv(q) for l in e.it.loops)]
    if not cx.ob("asked", "each candidate is asked by one query", len(qs) == 1, "%d distinct queries in the loop" % len(qs), cx.where(e)):
        return
    q = qs[0]
    lv = e.it.loops[0]["lv"]
    el = q.a[1][0]
    src = el.a[0].a[0] if el.op == "f" and el.a[0].op == "idx" and el.a[0].a[1] is lv else None
    if src is None and el.op == "idx" and el.a[1] is lv:
        src = el.a[0]
    if not cx.ob("asked", "the module asked is the current element of the collection", src is not None, "asks " + tm.show(el, 0, 8), cx.where(e)):
        return
    col = keyed(src)
    if cx.ob("distinct", "the modules asked are the keys of a keyed collection (no module counts twice)", col is not None, "taken from " + tm.show(src, 0, 8), cx.where(e)):
        i = mk("bv", 1)
        ok = col.op == "map" and same(e.facts, col.a[0], tm.LEN(isms))
        body = tm.subst(col.a[2], {mk("bv", col.a[1]): mk("p", "k")}) if ok else None
        cx.ob("asked", "every configured module is asked", ok and body.op == "tup" and body.a[0][0] is IDX(isms, mk("p", "k")), "collection is " + tm.show(col, 0, 8), cx.where(e))
        if ok and body.op == "tup":
            k = mk("p", "k")
            b8 = tm.MUL(I(8), k)
            lo = tm.BE(tm.SLICE(meta, b8, tm.ADD(b8, I(4))))
            hi = tm.BE(tm.SLICE(meta, tm.ADD(b8, I(4)), tm.ADD(b8, I(8))))
            want = tm.SLICE(meta, lo, hi)
            cx.ob("metadata-slice", "the k-th module gets the metadata range named by the k-th header entry", same(e.facts, body.a[0][1], want), "gets " + tm.show(body.a[0][1], 0, 10), cx.where(e))
    mine = FIELD(IDX(src, lv), "", 0, 1) if False else None
    msg = q.a[1][1]
    inner = msg.a[2][0] if msg.op == "adt" and msg.a[2] else None
    okm = inner is not None and inner.op == "adt" and tm.vname(inner.a[0], inner.a[1]) == "Verify"
    cx.ob("asked", "the question is a verification request", okm, tm.show(msg, 0, 6), cx.where(e))
    if okm:
        cx.ob("asked", "the module is asked about the submitted message", same(e.facts, spec.field(inner, None, "message"), cx.t(V + ".message")), tm.show(inner, 0, 6), cx.where(e))
        g = spec.field(inner, None, "metadata")
        pair = el.a[0] if el.op == "f" else None
        cx.ob("asked", "the module is given the metadata stored under its own key", pair is not None and g.op == "f" and g.a[0] is pair and g is not el, tm.show(g, 0, 6), cx.where(e))
    voted = None
    R = FIELD(q, RESULT, 0, 0)
    names = tm.VARIANTS[q.a[1][2].a[0]][0][1]
    ans = FIELD(R, q.a[1][2].a[0], 0, names.index("verified")) if "verified" in names else None
    cx.ob("asked", "the answer used is the module's verdict", ans is not None, q.a[1][2].a[0], cx.where(e))
    if ans is None:
        return
    qq = Quorum(cx, e, T_, lambda i: tm.subst(el, {lv: i}), lambda i: NOT(tm.EQ(tm.subst(ans, {lv: i}), I(0))), "keyed", "approval count")
    if qq.run():
        n = qq.rec["n"]
        qq.ob("all-modules", "every element of the collection is asked", n is tm.LEN(src) or same(e.facts, n, tm.LEN(src)), "loops %s times" % tm.show(n, 0, 8))
        qq.conclude(vd)
    # configuration
    s = cx.entry(AG, "execute", "SetIsms")
    S = "msg@SetIsms"
    cx.exact(s, [OWNER, "!(%s.threshold == 0)" % S, "!(len(%s.isms) < %s.threshold)" % (S, S), "forall(%s.isms, 1, valid_addr(%s.isms[#1]))" % (S, S)])
    cx.stored(s, "i", "isms", "Some{0: %s.isms}" % S)
    cx.stored(s, "i", "threshold", "Some{0: %s.threshold}" % S)
    cx.untouched(s, {"isms", "threshold"})
    s = cx.entry(AG, "instantiate")
    cx.exact(s, ["valid_addr(msg.owner)", "!(msg.threshold == 0)", "!(len(msg.isms) < msg.threshold)", "forall(msg.isms, 1, valid_addr(msg.isms[#1]))"])
    cx.stored(s, "i", "isms", "Some{0: msg.isms}")
    cx.stored(s, "i", "threshold", "Some{0: msg.threshold}")
    for x in cx.entries(AG):
        if x.variant == "SetIsms" or x.kind == "instantiate" or x.ok is None:
            continue
        bad = [k[1] for k in changed(x) if k[1] in ("isms", "threshold")]
        cx.ob("set-frame", "%s[%s] leaves modules and threshold unchanged" % (x.path, x.variant), not bad, "changes %s" % bad, cx.where(x))
    q = next((x for x in cx.entries(AG, "query") if x.variant.startswith("AggregateIsm")), None)
    if q is None:
        cx.fail("anchor", AG + " modules query", "not found")
    else:
        ret(cx, q, "IsmsResponse", {"isms": "item(isms)@Some.0", "threshold": "item(threshold)@Some.0"})
    q = cx.entry(AG, "query", "Ism.VerifyInfo")
    ret(cx, q, "VerifyInfoResponse", {"threshold": "item(threshold)@Some.0", "validators": "map(item(isms)@Some.0, 1, bech32_decode(item(isms)@Some.0[#1])@Ok.0)"})


def keyed(src):
    """the pair list a keyed (hence duplicate-free) collection was built from"""
    while src.op == "adt" and len(src.a[2]) == 1:
        src = src.a[2][0]
    if src.op == "btcollect":
        return src.a[0]
    if src.op == "call" and src.a[0] in ("btiter", "btkeys") and src.a[1][0].op == "btcollect":
        return src.a[1][0].a[0]
    return None


@check("P15", 20, "The routing module's entries are analysed as terms: verification and its report are exactly the answer of the module stored for the "
       "message's origin, asked the same question, and fail when there is none; the table changes only by the owner's set and unset, under "
       "exactly the requested domains, with validated addresses.")
def p15(cx):
    for var, inner in (("Ism.Verify", "Verify{metadata: msg@Ism.0@Verify.metadata, message: msg@Ism.0@Verify.message}"), ("Ism.VerifyInfo", "VerifyInfo{message: msg@Ism.0@VerifyInfo.message}")):
        q = cx.entry(RT, "query", var)
        if q is None:
            continue
        m = "msg@Ism.0@" + var[4:]
        a = "at(map0(modules), be(%s.message[5..9]))" % m
        if q.ok is None:
            cx.fail("delegate", var, "never answers", cx.where(q))
            continue
        qs = find_calls([q.ok] + fact_terms(q), "query")
        if cx.ob("delegate", "%s asks exactly one module" % var, len(qs) == 1, "%d queries" % len(qs), cx.where(q)):
            c = qs[0]
            cx.ob("delegate", "%s asks the module stored for the message's origin" % var, same(q.facts, c.a[1][0], cx.t(a + "@Some.0")), tm.show(c.a[1][0], 0, 8), cx.where(q))
            cx.ob("delegate", "%s asks the same question" % var, same(q.facts, c.a[1][1], cx.t("ExpectedIsmQueryMsg{0: IsmQueryMsg::%s}" % inner)), tm.show(c.a[1][1], 0, 8), cx.where(q))
            ok = q.ok.op == "json" and same(q.facts, q.ok.a[1], FIELD(c, RESULT, 0, 0))
            cx.ob("delegate", "%s answers exactly what the module answered" % var, ok, tm.show(q.ok, 0, 8), cx.where(q))
            cx.exact(q, [a + " is Some", IS(c, RESULT, 0)], message=m + ".message")
    q = next((x for x in cx.entries(RT, "query") if x.variant.startswith("RoutingIsm")), None)
    if q is None:
        cx.fail("anchor", RT + " route query", "not found")
    else:
        a = "at(map0(modules), be(msg@RoutingIsm.0.message[5..9]))"
        ret(cx, q, "RouteResponse", {"ism": a + "@Some.0"})
        cx.exact(q, [a + " is Some"], message="msg@RoutingIsm.0.message")
    e = cx.entry(RT, "execute", "Set")
    cx.exact(e, [OWNER, "valid_addr(msg@Set.ism.address)"])
    cx.stored(e, "m", "modules", "store(map0(modules), msg@Set.ism.domain, msg@Set.ism.address)")
    cx.untouched(e, {"modules"})
    e = cx.entry(RT, "execute", "Unset")
    cx.exact(e, [OWNER])
    cx.stored(e, "m", "modules", "delall(msg@Unset.domains, 1, map0(modules), msg@Unset.domains[#1])")
    cx.untouched(e, {"modules"})
    e = cx.entry(RT, "instantiate")
    cx.exact(e, ["valid_addr(msg.owner)", "forall(msg.isms, 1, valid_addr(msg.isms[#1].address))"])
    cx.stored(e, "m", "modules", "storeall(msg.isms, 1, map0(modules), msg.isms[#1].domain, msg.isms[#1].address)")
    for x in cx.entries(RT):
        if x.variant in ("Set", "Unset") or x.kind == "instantiate" or x.ok is None:
            continue
        cx.ob("set-frame", "%s[%s] leaves the module table unchanged" % (x.path, x.variant), "modules" not in [k[1] for k in changed(x)], "changes it", cx.where(x))
