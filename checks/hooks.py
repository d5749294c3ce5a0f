"""Post-dispatch hooks: merkle tree, fee, routing, aggregate."""
from .registry import check
from .lib import *
from engine import terms as tm
from engine.terms import LEN, SLICE
from .admin import OWNER, by_last

MK = "hpl_hook_merkle"
TREE = "item(message_tree)@Some.0"


@check("P23", 10, "The merkle hook's post-dispatch entry is analysed as terms: its success condition must be exactly `the configured mailbox, "
       "asked for its latest dispatched id, answers the hash of the submitted message, and the tree is not full`; the leaf count must "
       "grow by one, nothing but the tree may change, and the published index must be the leaf's position.")
def p23(cx):
    e = cx.entry(MK, "execute", "PostDispatch") or (cx.entries(MK, "execute") or [None])[0]
    if e is None or e.ok is None:
        return
    spec.ROOTS = e.roots
    q = None
    for c in queries_to(cx.t("item(mailbox)@Some.0")):
        m = c.a[1][1]
        if m.op == "adt" and tm.vname(m.a[0], m.a[1]) == "Mailbox" and m.a[2][0].op == "adt" and tm.vname(m.a[2][0].a[0], m.a[2][0].a[1]) == "LatestDispatchId" and c.a[1][2].a[0].endswith("LatestDispatchedIdResponse"):
            q = c
    if not cx.ob("asks-mailbox", "post-dispatch asks the configured mailbox for its latest dispatched id", q is not None, "no such query", cx.where(e)):
        return
    ans = FIELD(FIELD(q, RESULT, 0, 0), q.a[1][2].a[0], 0, 0)
    idt = cx.t("keccak(msg.0.message)")
    cx.exact(e, [IS(q, RESULT, 0), tm.EQ(ans, idt), TREE + ".count < 4294967295", "item(mailbox) is Some", "item(message_tree) is Some"], message="msg.0.message",
             implied=lambda t, p: some_bit_set(cx.t(TREE + ".count + 1"), t, p))
    cx.untouched(e, {"message_tree"})
    new = stor(e, "i", "message_tree")
    cnt = spec.field(spec.field(new, "Some", "0"), None, "count")
    cx.value(e, "stored leaf count", cnt, TREE + ".count + 1")
    leaf(cx, e, spec.field(new, "Some", "0"), idt, ans)
    cx.event(e, events(e), "hpl_hook_merkle::post_dispatch", "message_id", "hex(keccak(msg.0.message))")
    for ty in ("post_dispatch", "inserted_into_tree"):
        cx.event(e, events(e), "hpl_hook_merkle::" + ty, "index", mk("call", "display", (cx.t(TREE + ".count"),)))
    expect_msgs(cx, e, lambda f: [])
    i = cx.entry(MK, "instantiate")
    cx.exact(i, ["valid_addr(msg.mailbox)"])
    cx.stored(i, "i", "mailbox", "Some{0: msg.mailbox}")
    if i and i.ok is not None:
        t0 = spec.field(stor(i, "i", "message_tree"), "Some", "0")
        cx.value(i, "initial leaf count", spec.field(t0, None, "count"), "0")
        br = spec.field(t0, None, "branch")
        bad = [k for k in range(32) if tm.LEN(IDX(br, I(k))) is not I(32)]
        cx.ob("initial branch", "an empty tree's branch is 32 hashes of 32 bytes", not bad, "entries %s of %s" % (bad, tm.show(br, 0, 6)), cx.where(i))
    for x in others(cx, MK, {("execute", e.variant)}):
        cx.untouched(x, {"contract_info"})
    ret(cx, cx.entry(MK, "query", "Hook.Mailbox"), "MailboxResponse", {"mailbox": "item(mailbox)@Some.0"})
    ret(cx, cx.entry(MK, "query", "Hook.QuoteDispatch"), "QuoteDispatchResponse", {"fees": "[]"})


def leaf(cx, e, new, idt, ans):
    """the message enters the tree through its id alone: as the leaf itself where nothing is below it, and never in another form higher up"""
    n1, msg = cx.t(TREE + ".count + 1"), cx.t("msg.0.message")
    hole = mk("sym", "leaf")
    for j in range(32):
        s = State()
        s.facts = dict(e.facts)
        if not (all(assume(s, bit(n1, i), True) for i in range(j)) and assume(s, bit(n1, j), False)):
            continue
        got = whole(spec.field(resolve_deep(s.facts, lowest(resolve_deep(s.facts, new), n1, j)), None, "branch"), cx.t(TREE + ".branch"))
        got = tm.replace_deep(got, lambda x: idt if x is ans else None)   # the guard makes them equal
        left = tm.replace_deep(got, lambda x: hole if x is idt else None)
        ok = left is not got and not any(x is msg for x in tm.subterms(left))
        if ok and j == 0:
            at0 = got.a[2] if got.op == "upd" and got.a[1] is I(0) else IDX(got, I(0))
            ok = resolve_deep(s.facts, at0) is idt
        cx.ob("leaf", "the leaf inserted at level %d is the message's id" % j, ok, "" if ok else "branch becomes " + tm.show(got, 0, 8), cx.where(e))


def assumed(t):
    s = State()
    s.facts = {}
    assume(s, t, True)
    return s.facts


def some_bit_set(n, t, p):
    """`not all 32 low bits of n are clear`, which 0 < n < 2^32 implies"""
    if not p and t.op == "and" and set(t.a[0]) == {bit(n, i) for i in range(32)}:
        return True
    return p and t.op == "lt" and t.a[0] is zeros(n) and t.a[1] is I(32) or not p and t.op == "lt" and t.a[1] is zeros(n) and t.a[0] in (I(31), I(32))


def zeros(n):
    return mk("call", "trailing_zeros", (n,))


def lowest(t, n, j):
    """t where the lowest set bit of n is bit j"""
    return unroll(t, {zeros(n): I(j)})


def whole(t, br):
    """a collection put together again from two views of br, one of them updated"""
    if t.op == "cat" and len(t.a[0]) == 2:
        a, b = t.a[0]
        if b.op == "upd" and tm.is_int(LEN(a)) and a is SLICE(br, I(0), LEN(a)) and b.a[0] is SLICE(br, LEN(a), None):
            return mk("upd", br, tm.ADD(LEN(a), b.a[1]), b.a[2])
    return t


def keccak(data):
    """Keccak-256 of constant bytes (for the table of empty-subtree hashes)"""
    RC, r = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(v)
    M = (1 << 64) - 1
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M if n else x
    s = [[0] * 5 for _ in range(5)]
    p = bytearray(data) + b"\x01"
    p += b"\x00" * (-len(p) % 136)
    p[-1] |= 0x80
    for o in range(0, len(p), 136):
        for k in range(17):
            s[k % 5][k // 5] ^= int.from_bytes(p[o + 8 * k:o + 8 * k + 8], "little")
        for rc in RC:
            c = [s[x][0] ^ s[x][1] ^ s[x][2] ^ s[x][3] ^ s[x][4] for x in range(5)]
            d = [c[x - 1] ^ rot(c[(x + 1) % 5], 1) for x in range(5)]
            s = [[s[x][y] ^ d[x] for y in range(5)] for x in range(5)]
            b = [[0] * 5 for _ in range(5)]
            x, y, cur = 1, 0, s[1][0]
            b[0][0] = s[0][0]
            for t in range(24):
                nx, ny = y, (2 * x + 3 * y) % 5
                b[nx][ny] = rot(s[x][y], (t + 1) * (t + 2) // 2 % 64)
                x, y = nx, ny
            s = [[b[x][y] ^ (~b[(x + 1) % 5][y] & M & b[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
            s[0][0] ^= rc
    return b"".join(s[k % 5][k // 5].to_bytes(8, "little") for k in range(4))


def kterm(*parts):
    return mk("call", "keccak", (tm.CAT(list(parts)),))


def bit(n, i):
    return mod2(tm.DIV(n, I(1 << i)) if i else n)


def mod2(x):
    return tm.EQ(tm.ARITH("rem", x, I(2)), I(0))


@check("P24", 48, "The 32-level loop of leaf insertion is unrolled into gated terms. For each level j the analysis assumes the lowest set bit of the "
       "new leaf count is bit j and checks that exactly branch slot j is replaced, by the hash chain of the lower slots over the leaf; "
       "the root's fold is compared level by level with the incremental Merkle recurrence (branch on the left when the bit of the "
       "count is set, the empty-subtree hash on the right otherwise), and the constant table is checked to be the empty-subtree hashes.")
def p24(cx):
    e = (cx.entries(MK, "execute") or [None])[0]
    if e is None or e.ok is None:
        cx.fail("anchor", "merkle post-dispatch", "not found or never succeeds")
        return
    spec.ROOTS = e.roots
    tree = cx.t(TREE)
    br, cnt = cx.t(TREE + ".branch"), cx.t(TREE + ".count")
    n1 = tm.ADD(cnt, I(1))
    new = spec.field(stor(e, "i", "message_tree"), "Some", "0")
    nb = spec.field(new, None, "branch")
    node = cx.t("keccak(msg.0.message)")
    for j in range(32):
        s = State()
        s.facts = dict(e.facts)
        ok = all(assume(s, bit(n1, i), True) for i in range(j)) and assume(s, bit(n1, j), False)
        inst = "insertion when bit %d is the lowest set bit of the new count" % j
        got = whole(resolve_deep(s.facts, lowest(resolve_deep(s.facts, nb), n1, j)), br)
        want = mk("upd", br, I(j), node)
        good = ok and (same(s.facts, got, want) or upd_is(s.facts, got, br, j, node))
        cx.ob("insert", inst, good, "" if good else "branch becomes %s\n      expected %s" % (tm.show(got, 0, 8), tm.show(want, 0, 8)), cx.where(e))
        node = kterm(IDX(br, I(j)), node)
    i = cx.entry(MK, "instantiate")
    zs = [b"\0" * 32]
    for k in range(31):
        zs.append(keccak(zs[-1] + zs[-1]))
    for var, ty, fld in (("MerkleHook.Root", "RootResponse", "root"), ("MerkleHook.CheckPoint", "CheckPointResponse", "root")):
        q = cx.entry(MK, "query", var)
        if q is None or q.ok is None:
            continue
        v = resolve_deep(q.facts, q.ok)
        root = jfield(v, fld)
        cur = root
        # peel the fold from the top level down
        lv = 31
        good = root is not None
        msg = "" if good else "no root in the answer"
        while good and lv >= 0:
            inst = "%s level %d" % (var, lv)
            a = under(q.facts, bit(cnt, lv), False, cur)
            b = under(q.facts, bit(cnt, lv), True, cur)
            ok1, low1 = strip_left(a, IDX(br, I(lv)))
            ok2, low2 = strip_right(b, tm.BYTES(zs[lv]))
            good = ok1 and ok2 and low1 is low2
            cx.ob("root", inst, good, "" if good else "set: %s; clear: %s; expected hash(branch[%d] ‖ lower) / hash(lower ‖ empty[%d])" % (tm.show(a, 0, 6), tm.show(b, 0, 6), lv, lv), cx.where(q))
            cur = low1
            lv -= 1
        cx.ob("root", var + " starts from the empty leaf", good and cur is tm.BYTES(zs[0]), msg or "starts from " + tm.show(cur, 0, 6), cx.where(q))
    # room for a leaf and only then: the count stays below 2^32, so 32 bits hold it
    cx.guard(e, TREE + ".count < 4294967295", rule="capacity")
    full = [tm.show(t) for t, p in literals(e.facts) if any(x is cnt for x in tm.subterms(t)) and not some_bit_set(n1, t, p)
            and not holds({**assumed(cx.t(TREE + ".count < 4294967295"))}, t if p else NOT(t))]
    cx.ob("capacity", "an insertion succeeds as long as there is room", not full, "; ".join(full)[:600], cx.where(e))
    # a proof folds a leaf and its 32 siblings to the root
    sib = [mk("p", "sibling_%d" % k) for k in range(32)]
    b = cx.fn("hpl_interface", "hpl_interface::types::merkle::MerkleTree::branch_root", boundary=[], args={1: tm.SEQ(sib)})
    if b is not None and b.ok is not None:
        item, _, idx = list(b.roots)
        cur, lv, good = b.ok, 31, True
        while good and lv >= 0:
            ok1, low1 = strip_right(under(b.facts, bit(idx, lv), True, cur), sib[lv])
            ok2, low2 = strip_left(under(b.facts, bit(idx, lv), False, cur), sib[lv])
            good = ok1 and ok2 and low1 is low2
            cx.ob("proof", "proof level %d" % lv, good, "" if good else tm.show(cur, 0, 8), cx.where(b))
            cur, lv = low1, lv - 1
        cx.ob("proof", "a proof starts from the leaf", good and cur is item, tm.show(cur, 0, 8), cx.where(b))

    def small(t):
        return tm.replace_deep(t, lambda x: x.a[1] if x.op == "trunc" and x.a[0] >= 32 and x.a[1] in (cnt, tm.SUB(cnt, I(1))) else None)
    ret(cx, cx.entry(MK, "query", "MerkleHook.Count"), "CountResponse", {"count": cnt}, norm=small)
    ret(cx, cx.entry(MK, "query", "MerkleHook.Tree"), "TreeResponse", {"branch": br, "count": cnt}, norm=small)
    ret(cx, cx.entry(MK, "query", "MerkleHook.Branch"), "BranchResponse", {"branch": br})
    q = cx.entry(MK, "query", "MerkleHook.CheckPoint")
    if q and q.ok is not None:
        c = jfield(resolve_deep(q.facts, q.ok), "count")
        c = small(c) if c is not None else None
        z = under(q.facts, tm.EQ(cnt, I(0)), True, c) if c is not None else None
        nz = under(q.facts, tm.EQ(cnt, I(0)), False, c) if c is not None else None
        cx.ob("checkpoint", "checkpoint index of an empty tree is 0", z is I(0), tm.show(z) if z else "missing", cx.where(q))
        cx.ob("checkpoint", "checkpoint index is the last leaf's position", nz is tm.SUB(cnt, I(1)), tm.show(nz) if nz else "missing", cx.where(q))


def jfield(v, name):
    if v.op == "phi":
        alts = [(d, jfield(x, name)) for d, x in v.a[0]]
        return None if any(x is None for _, x in alts) else tm.PHI(alts)
    if v.op == "json" and v.a[1].op == "adt":
        r = spec.field(v.a[1], None, name)
        return None if spec.is_absent(r) else r
    return None


def under(facts, cond, pol, t):
    s = State()
    s.facts = dict(facts)
    assume(s, cond, pol)
    return resolve_deep(s.facts, t)


def hashed(t):
    return t.a[1][0] if t.op == "call" and t.a[0] == "keccak" else (t.a[0] if t.op == "keccak" else None)


def strip_left(t, left):
    b = hashed(t)
    if b is None or b.op != "cat" or len(b.a[0]) != 2 or b.a[0][0] is not left:
        return False, t
    return True, b.a[0][1]


def strip_right(t, right):
    b = hashed(t)
    if b is None:
        return False, t
    if b.op == "cat" and len(b.a[0]) == 2 and b.a[0][1] is right:
        return True, b.a[0][0]
    if b.op == "bytes" and right.op == "bytes" and b.a[0].endswith(right.a[0]):
        return True, tm.BYTES(b.a[0][:-len(right.a[0])])
    return False, t


def upd_is(f, got, br, j, node):
    if got.op == "upd" and got.a[0] is br:
        return decide(f, tm.EQ(got.a[1], I(j))) is True and resolve_deep(f, got.a[2]) is node
    return False


FEE = "item(coin_fee)@Some.0"


@check("P29", 14, "The fee hook's entries are analysed as terms: post-dispatch succeeds exactly when one non-zero coin of the configured "
       "denomination and at least the configured amount is attached; the quote is exactly the configured coin; the fee changes only "
       "through the owner's call; a claim sends the contract's entire balance to the named recipient (or the owner), and only then does value leave.")
def p29(cx):
    c = "hpl_hook_fee"
    e = cx.entry(c, "execute", "PostDispatch")
    cx.exact(e, ["len(info.funds) == 1", "!(info.funds[0].amount == 0)", "info.funds[0].denom == %s.denom" % FEE, "!(info.funds[0].amount < %s.amount)" % FEE])
    if e:
        expect_msgs(cx, e, lambda f: [])
        cx.untouched(e)
    ret(cx, cx.entry(c, "query", "Hook.QuoteDispatch"), "QuoteDispatchResponse", {"fees": "[%s]" % FEE})
    ret(cx, cx.entry(c, "query", "FeeHook.Fee"), "FeeResponse", {"fee": FEE})
    e = cx.entry(c, "execute", "FeeHook.SetFee")
    cx.exact(e, [OWNER])
    cx.stored(e, "i", "coin_fee", "Some{0: msg@FeeHook.0@SetFee.fee}")
    if e:
        cx.untouched(e, {"coin_fee"})
        expect_msgs(cx, e, lambda f: [])
    i = cx.entry(c, "instantiate")
    cx.exact(i, ["valid_addr(msg.owner)"])
    cx.stored(i, "i", "coin_fee", "Some{0: msg.fee}")
    e = cx.entry(c, "execute", "FeeHook.Claim")
    cx.exact(e, [OWNER, "query_all_balances(env.contract.address) is Ok"])
    if e and e.ok is not None:
        cx.untouched(e)
        to = cx.t("if(msg@FeeHook.0@Claim.recipient is Some, msg@FeeHook.0@Claim.recipient@Some.0, item(owner)@Some.0)")
        amt = cx.t("query_all_balances(env.contract.address)@Ok.0")
        expect_msgs(cx, e, lambda f: [bank_send(to, amt)] if f is not None else [to])
    for x in others(cx, c):
        if x.variant not in ("FeeHook.Claim",) and x.ok is not None:
            expect_msgs(cx, x, lambda f: [])


def bank_send(to, amount):
    def chk(f, g):
        inner = g[1]
        if inner.op != "adt" or tm.vname(inner.a[0], inner.a[1]) != "Bank" or g[4] not in ("Never", "Success"):
            return False
        b = inner.a[2][0]
        return b.op == "adt" and tm.vname(b.a[0], b.a[1]) == "Send" and same(f, b.a[2][0], to) and same(f, b.a[2][1], amount)
    return ("is a bank transfer of %s to %s whose failure reverts" % (tm.show(amount, 0, 5), tm.show(to, 0, 5)), chk)


PM = "msg@PostDispatch.0"
DST = "be(%s.message[41..45])"


def routed(c, m):
    d = "at(map0(routes), be(%s.message[41..45]))" % m
    cu = "at(map0(custom_hooks), (be(%s.message[41..45]), %s.message[45..77]))" % (m, m)
    fb = "item(fallback_hook)@Some.0"
    if c == "hpl_hook_routing":
        return [d + " is Some"], d + "@Some.0"
    if c == "hpl_hook_routing_custom":
        return ["%s is Some || %s is Some" % (cu, d)], "if(%s is Some, %s@Some.0, %s@Some.0)" % (cu, cu, d)
    return [], "if(%s is Some, %s@Some.0, %s)" % (d, d, fb)


def pd_call(cx, env):
    for s in ("ExpectedHookMsg{0: HookMsg::PostDispatch{0: PostDispatchMsg{metadata: MM, message: BB}}}", "ExpectedHookMsg{0: PostDispatchMsg{metadata: MM, message: BB}}", "ExpectedHookMsg{0: WHOLE}"):
        t = cx.t(s, env)
        if not spec.is_absent(t):
            yield t


def is_post_dispatch(cx, f, a, meta, msg):
    """the payload is a post-dispatch call carrying metadata and message"""
    if a.op == "phi":
        a = resolve_deep(f, a)
    if a.op != "adt" or not a.a[0].endswith("ExpectedHookMsg"):
        return False
    b = a.a[2][0]
    if b.op == "adt" and b.a[0].endswith("HookMsg"):
        b = b.a[2][0]
    return fld(b, "metadata", f, meta) and fld(b, "message", f, msg)


def fld(b, name, f, want):
    return same(f, spec.field(b, None, name), want)


ROUTERH = ("hpl_hook_routing", "hpl_hook_routing_custom", "hpl_hook_routing_fallback")


@check("P30", 51, "For the three routing hooks the single outgoing call is computed as a term: its target must be the hook selected for the "
       "message's destination bytes (custom hook for destination and recipient first where supported, the fallback where there is no "
       "route), with the same message and metadata and all attached funds; the quote must be the quote of the same selection; custom "
       "and fallback hooks change only through the owner's calls, under exactly the requested keys.")
def p30(cx):
    for c in ROUTERH:
        e = cx.entry(c, "execute", "PostDispatch")
        conds, to = routed(c, PM)
        cx.exact(e, conds + (["item(fallback_hook) is Some"] if "fallback" in c else []), message=PM + ".message")
        if e and e.ok is not None:
            cx.untouched(e)
            tt, funds, mm, bb = cx.t(to), cx.t("info.funds"), cx.t(PM + ".metadata"), cx.t(PM + ".message")
            expect_msgs(cx, e, lambda f: [("exec", tt, lambda f, a: is_post_dispatch(cx, f, a, mm, bb), funds)] if f is not None else [tt])
        q = cx.entry(c, "query", "Hook.QuoteDispatch")
        if q:
            m = "msg@Hook.0@QuoteDispatch.0"
            conds, to = routed(c, m)
            spec.ROOTS = q.roots
            tt = cx.t(to)
            qs = [x for x in find_calls([q.ok] if q.ok is not None else [], "query")]
            inst = "%s quote delegates to the selected hook" % c
            ok = False
            if q.ok is not None:
                ok = True
                for f in cases(q.facts, tt, shell(q.ok)):
                    want = quote_query(cx, resolve_deep(f, tt), cx.t(m))
                    v = resolve_deep(f, q.ok)
                    ok = ok and v.op == "json" and want(f, v.a[1])
            cx.ob("quote", inst, ok, "" if ok else "answers " + (tm.show(q.ok, 0, 9) if q.ok is not None else "never"), cx.where(q))
            if qs:
                cx.exact(q, conds + [IS(x, RESULT, 0) for x in qs[:1]] + (["item(fallback_hook) is Some"] if "fallback" in c else []), message=m + ".message")
    c = "hpl_hook_routing_custom"
    K = "(%s.dest_domain, unhex(%s.recipient)@Ok.0)"
    for var, up in (("RegisterCustomHook", True), ("ClearCustomHook", False)):
        e = cx.entry(c, "execute", var)
        m = "msg@%s.0" % var
        k = K % (m, m)
        conds = [OWNER, "unhex(%s.recipient) is Ok" % m]
        if up:
            conds += ["len(unhex(%s.recipient)@Ok.0) == 32" % m, "valid_addr(%s.hook)" % m]
        cx.exact(e, conds)
        cx.stored(e, "m", "custom_hooks", "store(map0(custom_hooks), %s, %s.hook)" % (k, m) if up else "del(map0(custom_hooks), %s)" % k)
        cx.untouched(e, {"custom_hooks"}) if e else None
    for var, up in (("RegisterCustomHooks", True), ("ClearCustomHooks", False)):
        e = cx.entry(c, "execute", var)
        ms = "msg@%s.0" % var
        m = ms + "[#1]"
        k = K % (m, m)
        conds = [OWNER, "forall(%s, 1, unhex(%s.recipient) is Ok)" % (ms, m)]
        if up:
            conds += ["forall(%s, 1, len(unhex(%s.recipient)@Ok.0) == 32)" % (ms, m), "forall(%s, 1, valid_addr(%s.hook))" % (ms, m)]
        cx.exact(e, conds)
        cx.stored(e, "m", "custom_hooks", "storeall(%s, 1, map0(custom_hooks), %s, %s.hook)" % (ms, k, m) if up else "delall(%s, 1, map0(custom_hooks), %s)" % (ms, k))
        cx.untouched(e, {"custom_hooks"}) if e else None
    q = cx.entry(c, "query", "CustomRoutingHook.CustomHook")
    m = "msg@CustomRoutingHook.0@CustomHook"
    ret(cx, q, "CustomHookResponse", {"dest_domain": m + ".dest_domain", "hook": "at(map0(custom_hooks), %s)@Some.0" % (K % (m, m)), "recipient": "hex(unhex(%s.recipient)@Ok.0)" % m})
    c = "hpl_hook_routing_fallback"
    e = cx.entry(c, "execute", "SetFallbackHook")
    cx.exact(e, [OWNER, "valid_addr(msg@SetFallbackHook.hook)"])
    cx.stored(e, "i", "fallback_hook", "Some{0: msg@SetFallbackHook.hook}")
    cx.untouched(e, {"fallback_hook"}) if e else None
    for c in ROUTERH:
        cx.exact(cx.entry(c, "instantiate"), ["valid_addr(msg.owner)"])
        for x in others(cx, c, {("execute", "PostDispatch")}):
            if x.ok is not None:
                expect_msgs(cx, x, lambda f: [])


def quote_query(cx, hook, req):
    """matcher: the answer of `hook` to the quote request with the same metadata and message"""
    meta, msg = spec.field(req, None, "metadata"), spec.field(req, None, "message")

    def m(f, v):
        if v.op == "adt" and v.a[0].endswith("QuoteDispatchResponse"):
            v = v.a[2][0]
            if not (v.op == "f" and v.a[1].endswith("QuoteDispatchResponse")):
                return False
            v = v.a[0]
        return v.op == "f" and v.a[1] == RESULT and v.a[0].op == "call" and v.a[0].a[0] == "query" and is_quote(cx, f, v.a[0], hook, meta, msg)
    return m


def is_quote(cx, f, q, hook, meta, msg):
    if not same(f, q.a[1][0], hook):
        return False
    p = q.a[1][1]
    if p.op != "adt" or not p.a[0].endswith("ExpectedHookQueryMsg"):
        return False
    p = p.a[2][0]
    if p.op != "adt" or tm.vname(p.a[0], p.a[1]) != "QuoteDispatch":
        return False
    p = p.a[2][0]
    return fld(p, "metadata", f, meta) and fld(p, "message", f, msg)


@check("P31", 8, "The aggregate hook's outgoing calls are computed as a map over the configured hook list: every hook, in order, gets the same "
       "message and metadata with exactly the funds it quoted for them; the aggregate quote is the sum over every hook's quote; the hook "
       "list changes only through the owner's call, after validating every address.")
def p31(cx):
    c = "hpl_hook_aggregate"
    H = "item(hooks)@Some.0"
    e = cx.entry(c, "execute", "PostDispatch")
    if e and e.ok is not None:
        mm, bb, hs = cx.t(PM + ".metadata"), cx.t(PM + ".message"), cx.t(H)
        ms = resolve_deep(e.facts, messages(e))
        ok, why = False, "sends " + tm.show(ms, 0, 9)
        el = None
        if ms.op == "map" and ms.a[0] is tm.LEN(hs):
            el = ms.a[2]
            hook = IDX(hs, mk("bv", ms.a[1]))
            g = outgoing(cx, e, e.facts, mk("seq", (el,)))[0]
            ok = g[0] == "exec" and g[4] in ("Never", "Success") and g[1] is hook
            cx.ob("messages", "aggregate calls every configured hook, in order, and any failure reverts", ok, why, cx.where(e))
            cx.ob("messages", "each hook gets the message and metadata unchanged", g[0] == "exec" and is_post_dispatch(cx, e.facts, g[2], mm, bb), why, cx.where(e))
            fu = g[3]
            ok = g[0] == "exec" and fu.op == "f" and fu.a[1].endswith("QuoteDispatchResponse") and fu.a[0].op == "f" and fu.a[0].a[1] == RESULT and fu.a[0].a[0].op == "call" and \
                is_quote(cx, e.facts, fu.a[0].a[0], hook, mm, bb)
            cx.ob("messages", "each hook gets exactly the funds it quoted for them", ok, why, cx.where(e))
        else:
            cx.fail("messages", "aggregate calls every configured hook, in order, and any failure reverts", why, cx.where(e))
        cx.untouched(e)
        qs = sorted({x for t in e.facts if isinstance(t, T) for x in find_calls(t, "query")}, key=lambda x: x.id)
        cx.exact(e, [t for t, p in e.facts.items() if isinstance(t, T) and p is True and t.op == "forall" and t.a[2].op == "is" and t.a[2].a[1] == RESULT and t.a[2].a[0] in qs and t.a[0] is tm.LEN(hs)], message=PM + ".message")
    q = cx.entry(c, "query", "Hook.QuoteDispatch")
    if q and q.ok is not None:
        m = "msg@Hook.0@QuoteDispatch.0"
        hs, mm, bb = cx.t(H), cx.t(m + ".metadata"), cx.t(m + ".message")
        v = resolve_deep(q.facts, q.ok)
        fees = jfield(v, "fees")
        ok = False
        if fees is not None and fees.op == "call" and fees.a[0] == "coins_vec":
            o = fees.a[1][0]
            if o.op == "fold" and o.a[0] is tm.LEN(hs) and o.a[2].op == "call" and o.a[2].a[0] == "coins0":
                u = o.a[3]
                hook = IDX(hs, mk("bv", o.a[1]))
                if u.op == "fold" and u.a[2] is mk("accb", o.a[1]):
                    add = u.a[3]
                    if add.op == "call" and add.a[0] == "coins_add" and add.a[1][0] is mk("accb", u.a[1]):
                        x = add.a[1][1]
                        if x.op == "idx" and x.a[1] is mk("bv", u.a[1]) and u.a[0] is tm.LEN(x.a[0]):
                            fe = x.a[0]
                            ok = fe.op == "f" and fe.a[1].endswith("QuoteDispatchResponse") and fe.a[0].op == "f" and fe.a[0].a[0].op == "call" and is_quote(cx, q.facts, fe.a[0].a[0], hook, mm, bb)
        cx.ob("quote", "aggregate quote adds up every coin quoted by every configured hook for this message and metadata", ok, "" if ok else "answers " + tm.show(fees if fees is not None else v, 0, 12), cx.where(q))
    e = cx.entry(c, "execute", "SetHooks")
    cx.exact(e, [OWNER, "forall(msg@SetHooks.hooks, 1, valid_addr(msg@SetHooks.hooks[#1]))"])
    cx.stored(e, "i", "hooks", "Some{0: msg@SetHooks.hooks}")
    cx.untouched(e, {"hooks"}) if e else None
    i = cx.entry(c, "instantiate")
    cx.exact(i, ["valid_addr(msg.owner)", "forall(msg.hooks, 1, valid_addr(msg.hooks[#1]))"])
    cx.stored(i, "i", "hooks", "Some{0: msg.hooks}")
    ret(cx, cx.entry(c, "query", "AggregateHook.Hooks"), "HooksResponse", {"hooks": H})
