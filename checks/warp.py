"""Token bridge routes: inbound, outbound, creation, configuration, connection settings."""
from .registry import check
from .lib import *
from engine import terms as tm
from .admin import OWNER, by_last
from .hooks import bank_send

CW, NA = "hpl_warp_cw20", "hpl_warp_native"
WARPS = [CW, NA]
HM = "msg@Handle.0"
TR = "msg@TransferRemote"
BR = "item(mode)@Some.0 is Bridged"
ENV = {
    "RTO": "bech32_encode(item(hrp)@Some.0, %s.body[0..32])@Ok.0" % HM,
    "AMT": "be(%s.body[32..64])" % HM,
    "TOK": "item(token)@Some.0",
    "ME": "env.contract.address",
}


def chain_msg(cx, name, want, env, denom, amount):
    """a chain message `name` sent by the contract about `amount` of `denom`"""
    me, dn, am = cx.t("ME", env), cx.t(denom, env), cx.t(amount, env)

    def chk(f, g):
        b = stargate(f, g, name)
        if b is None:
            return False
        c = spec.field(b, None, "amount")
        return same(f, spec.field(b, None, "sender"), me) and c.op == "adt" and c.a[1] == 1 and c.a[2][0].op == "adt" \
            and same(f, spec.field(c.a[2][0], None, "denom"), dn) and amount_text(f, spec.field(c.a[2][0], None, "amount"), am)
    return ("is %s of %s %s by this contract" % (want, tm.show(am), tm.show(dn)), chk)


def amount_text(f, got, want):
    got = resolve_deep(f, got)
    return got.op == "call" and got.a[0].split("::")[-1] in ("display", "to_string") and same(f, got.a[1][0], want)


PROTO_URL = {"MsgMint": b"/osmosis.tokenfactory.v1beta1.MsgMint", "MsgBurn": b"/osmosis.tokenfactory.v1beta1.MsgBurn",
             "MsgCreateDenom": b"/osmosis.tokenfactory.v1beta1.MsgCreateDenom", "MsgSetDenomMetadata": b"/osmosis.tokenfactory.v1beta1.MsgSetDenomMetadata"}


def stargate(f, g, name, reply="Never"):
    """the message struct inside a Stargate message of the right url, or None"""
    inner = resolve_deep(f, g[1])
    if inner.op != "adt" or tm.vname(inner.a[0], inner.a[1]) not in ("Stargate", "Any"):
        return None
    if g[4] != reply and not (reply == "Never" and g[4] == "Success"):
        return None
    a = inner.a[2]
    if tm.vname(inner.a[0], inner.a[1]) == "Any":
        a = a[0].a[2]
    url, v = a[0], a[1]
    if url is not tm.BYTES(PROTO_URL[name]):
        return None
    if v.op == "call" and v.a[0].split("::")[-1] == "encode_to_vec" and v.a[1][0].op == "adt" and v.a[1][0].a[0].endswith("::" + name):
        return v.a[1][0]
    return None


@check("P20", 13, "The delivery entry of both token routes is analysed as terms: success must be equivalent to `caller is the stored mailbox, a route "
       "is stored for the origin domain and equals the message's sender, and the 32 recipient bytes encode to an address under the "
       "stored prefix`; the outgoing messages must be exactly the mint/transfer of bytes 32..64 as the amount of the stored token to "
       "that address, according to the stored mode; nothing is stored.")
def p20(cx):
    for c in WARPS:
        e = cx.entry(c, "execute", "Handle")
        cx.exact(e, ["info.sender == item(mailbox)@Some.0", "item(token) is Some", "at(map0(routes), %s.origin) is Some" % HM,
                     "%s.sender == at(map0(routes), %s.origin)@Some.0" % (HM, HM), "bech32_encode(item(hrp)@Some.0, %s.body[0..32]) is Ok" % HM], ENV, given=["!(len(%s.body) < 64)" % HM])
        cx.untouched(e)
        if e is None:
            continue
        spec.ROOTS = e.roots
        br = cx.t(BR)
        cs = [tm.PHI([(frozenset([frozenset([(br, True)])]), mk("alt", I(1))), (frozenset([frozenset([(br, False)])]), mk("alt", I(0)))])]
        to, tok, amt = cx.t("RTO", ENV), cx.t("TOK", ENV), cx.t("AMT", ENV)
        coin = cx.t("[cosmwasm_std::coin::Coin{denom: TOK, amount: AMT}]", ENV)
        n = set()

        def want(f):
            if f is None:
                return cs
            bridged = decide(f, br)
            n.add(bridged)
            if c == CW:
                m = cx.t("cw20::msg::Cw20ExecuteMsg::%s{recipient: RTO, amount: AMT}" % ("Mint" if bridged else "Transfer"), ENV)
                return [("exec", tok, m, tm.EMPTY)]
            r = [chain_msg(cx, "MsgMint", "a mint", ENV, "TOK", "AMT")] if bridged else []
            return r + [bank_send(to, coin)]
        expect_msgs(cx, e, want)
        cx.ob("modes", "%s delivery distinguishes the two modes" % c, n == {True, False}, "mode cases seen: %s" % n, cx.where(e))


OUT = dict(ENV)
OUT.update({
    "DEST": "at(map0(routes), %s.dest_domain)" % TR,
    "HOOK": "if(%s.hook is Some, %s.hook, item(conn::hook))" % (TR, TR),
    "PAY": "cat[%s.recipient, ube(32, %s.amount)]" % (TR, TR),
    "DISP": "hpl_interface::core::mailbox::ExecuteMsg::Dispatch{0: hpl_interface::core::mailbox::DispatchMsg{dest_domain: %s.dest_domain, recipient_addr: DEST@Some.0, msg_body: PAY, hook: HOOK, metadata: %s.metadata}}" % (TR, TR),
})


def remaining(f, got, total, denom, amount):
    """got = the coins of total, with `amount` taken off the `denom` coin"""
    got = resolve_deep(f, got)
    if got.op == "upd":
        base, i, v = got.a
        src = IDX(total, i)
        return base is total and v.op == "adt" and same(f, spec.field(src, None, "denom"), denom) and same(f, spec.field(v, None, "denom"), denom) \
            and same(f, spec.field(v, None, "amount"), tm.SUB(spec.field(src, None, "amount"), amount))
    if got.op == "map":
        n, h, body = got.a
        src = IDX(total, mk("bv", h))
        if n is not tm.LEN(total):
            return False
        eq = tm.EQ(spec.field(src, None, "denom"), denom)
        for x in tm.subterms(body):     # or: the position of a coin known to be of that denomination
            if x.op == "eq" and mk("bv", h) in x.a:
                j = x.a[0] if x.a[1] is mk("bv", h) else x.a[1]
                if holds(f, tm.EQ(spec.field(IDX(total, j), None, "denom"), denom)):
                    eq = x
        for p in (True, False):
            s = State()
            s.facts = dict(f)
            if not assume(s, eq, p):
                continue
            b = resolve_deep(s.facts, body)
            want = tm.SUB(spec.field(src, None, "amount"), amount) if p else spec.field(src, None, "amount")
            if not (same(s.facts, spec.field(b, None, "denom"), spec.field(src, None, "denom")) and same(s.facts, spec.field(b, None, "amount"), want)):
                return False
        return True
    if got.op == "call" and got.a[0] == "coins_vec":
        g = got.a[1][0]
        if g.op == "call" and g.a[0] == "coins_sub" and g.a[1][0] is mk("call", "coins_of", (total,)):
            c = g.a[1][1]
            return c.op == "adt" and same(f, spec.field(c, None, "denom"), denom) and same(f, spec.field(c, None, "amount"), amount)
    return False


@check("P21", 21, "The remote transfer entry of both token routes is analysed as terms: success must be equivalent to `the recipient is 32 bytes, a route "
       "is stored for the destination, a given hook is a valid address` and, for native tokens, `a coin of the token worth at least the "
       "amount was attached`; the outgoing messages must be exactly pull (cw20) and burn (bridged) of the amount followed by one "
       "dispatch to the stored mailbox whose body is recipient and amount, to the stored route, with the attached coins less the amount.")
def p21(cx):
    for c in WARPS:
        e = cx.entry(c, "execute", "TransferRemote")
        if e is None:
            continue
        spec.ROOTS = e.roots
        conds = ["len(%s.recipient) == 32" % TR, "item(token) is Some", "DEST is Some", "!(%s.hook is Some) || valid_addr(%s.hook@Some.0)" % (TR, TR)]
        total = cx.t("info.funds")
        if c == NA:
            paid = paid_cond(cx, e)
            if not cx.ob("payment", "%s transfer succeeds only with a coin of the token worth at least the amount" % c, paid is not None, "no such condition among the facts of a successful transfer", cx.where(e)):
                continue
            cx.exact(e, conds, OUT, implied=lambda t, p: t in paid)
        else:
            cx.exact(e, conds, OUT)
        cx.untouched(e)
        br = cx.t(BR)
        amt, tok, me, mb = cx.t(TR + ".amount"), cx.t("TOK", OUT), cx.t("ME", OUT), cx.t("item(mailbox)@Some.0")
        cs = [tm.PHI([(frozenset([frozenset([(br, True)])]), mk("alt", I(1))), (frozenset([frozenset([(br, False)])]), mk("alt", I(0)))])]
        n = set()

        def want(f):
            if f is None:
                return cs
            bridged = decide(f, br)
            n.add(bridged)
            disp = cx.t("DISP", OUT)
            if c == CW:
                r = [("exec", tok, cx.t("cw20::msg::Cw20ExecuteMsg::TransferFrom{owner: info.sender, recipient: ME, amount: %s.amount}" % TR, OUT), tm.EMPTY)]
                if bridged:
                    r.append(("exec", tok, cx.t("cw20::msg::Cw20ExecuteMsg::Burn{amount: %s.amount}" % TR), tm.EMPTY))
                return r + [("exec", mb, disp, total)]
            r = [chain_msg(cx, "MsgBurn", "a burn", OUT, "TOK", TR + ".amount")] if bridged else []
            return r + [("exec", mb, disp, lambda f, x: remaining(f, x, total, tok, amt))]
        expect_msgs(cx, e, want)
        cx.ob("modes", "%s transfer distinguishes the two modes" % c, n == {True, False}, "mode cases seen: %s" % n, cx.where(e))


def paid_cond(cx, e):
    """facts that together say: some attached coin has the token's denomination and at least the amount"""
    tok, amt, total = cx.t("TOK", OUT), cx.t(TR + ".amount"), cx.t("info.funds")
    for t, p in e.facts.items():
        if not isinstance(t, T) or p is not True or t.op != "eq":
            continue
        for x, y in (t.a, t.a[::-1]):
            if x is not tok or not (y.op == "f" and y.a[0].op == "idx" and y.a[0].a[0] is total):
                continue
            coin = y.a[0]
            if y is not spec.field(coin, None, "denom"):
                continue
            have = spec.field(coin, None, "amount")
            ge = tm.NOT(tm.LT(have, amt))
            if not holds(e.facts, ge):
                continue
            out = {t, tm.LT(have, amt)}
            for u in e.facts:      # "some coin matches" is part of the witness
                if isinstance(u, T) and have in tm.subterms(u):
                    continue
                if isinstance(u, T) and any(v.op == "wit" or v is coin for v in tm.subterms(u)) or isinstance(u, T) and u.op == "forall" and u.a[0] is tm.LEN(total):
                    out.add(u)
            return out
    return None


@check("P22", 24, "Every entry point of both token routes is analysed: only instantiation and the creation reply may change the stored token, only "
       "instantiation the mode, the address prefix and the mailbox, and no message but those of instantiation asks for a reply; the "
       "two queries must return the stored token and mode.")
def p22(cx):
    for c in WARPS:
        for e in cx.entries(c):
            if e.kind in ("instantiate", "query") or e.ok is None:
                continue
            bad = [k[1] for k in changed(e) if k[1] in ("token", "mode", "hrp", "mailbox") and not (e.kind == "reply" and k[1] == "token")]
            cx.ob("route-frame", "%s[%s] leaves token, mode, prefix and mailbox unchanged" % (e.path, e.variant), not bad, "changes %s" % bad, cx.where(e))
            ms = messages(e)
            ro = {x for x in tm.subterms(ms) if x.op == "adt" and x.a[0].endswith("::ReplyOn") and tm.vname(x.a[0], x.a[1]) != "Never"}
            cx.ob("reply-source", "%s[%s] asks for no reply" % (e.path, e.variant), not ro, "asks for a reply, which would set the token", cx.where(e))
        q = cx.entry(c, "query", "TokenDefault")
        if q is None or q.ok is None:
            continue
        spec.ROOTS = q.roots
        w = cx.t("msg@TokenDefault.0 is TokenType")
        typ = "hpl_interface::warp::TokenType::CW20{contract: item(token)@Some.0}" if c == CW else "hpl_interface::warp::TokenType::Native{0: hpl_interface::warp::TokenTypeNative::Fungible{denom: item(token)@Some.0}}"
        want = {True: cx.t("TokenTypeResponse{typ: %s}" % typ), False: cx.t("TokenModeResponse{mode: item(mode)@Some.0}")}
        for p in (True, False):
            s = State()
            s.facts = dict(q.facts)
            if not assume(s, w, p):
                cx.fail("token-query", "%s answers %s" % (q.path, "the token type" if p else "the token mode"), "it never does", cx.where(q))
                continue
            v = resolve_deep(s.facts, q.ok)
            ok = v.op == "json" and same(s.facts, v.a[1], want[p])
            cx.ob("token-query", "%s answers the stored token %s" % (q.path, "type" if p else "mode"), ok, "" if ok else "answers %s\n      expected %s" % (tm.show(v), tm.show(want[p])), cx.where(q))


@check("P43", 22, "Instantiation and the creation reply of both token routes are analysed as terms: a collateral route must store exactly the given "
       "token and send nothing; a bridged route stores no token yet and sends exactly the creation of its own token (minted by the route "
       "alone), asking for the reply whose handler stores the created token; mode, prefix, mailbox are stored as given.")
def p43(cx):
    for c in WARPS:
        e = cx.entry(c, "instantiate")
        if e is None or e.ok is None:
            continue
        spec.ROOTS = e.roots
        B = "msg.token is Bridged"
        addrs = ["valid_addr(msg.owner)", "valid_addr(msg.mailbox)"]
        given = "msg.token@Collateral.0." + ("address" if c == CW else "denom")
        cx.exact(e, addrs + (["msg.token is Bridged || valid_addr(%s)" % given] if c == CW else []))
        cx.stored(e, "i", "mode", "Some{0: if(%s, TokenMode::Bridged, TokenMode::Collateral)}" % B)
        cx.stored(e, "i", "hrp", "Some{0: msg.hrp}")
        cx.stored(e, "i", "mailbox", "Some{0: msg.mailbox}")
        cx.stored(e, "i", "token", "if(%s, item(token), Some{0: %s})" % (B, given))
        cx.untouched(e, {"mode", "hrp", "mailbox", "token", "owner", "contract_info"})
        br = cx.t(B)
        meta = cx.t("msg.token@Bridged.0.metadata is Some") if c == NA else br
        cs = [tm.PHI([(frozenset([frozenset([(x, True)])]), mk("alt", I(1))), (frozenset([frozenset([(x, False)])]), mk("alt", I(0)))]) for x in (br, meta)]
        me = cx.t("env.contract.address")
        n = set()

        def want(f):
            if f is None:
                return cs
            bridged = decide(f, br)
            n.add(bridged)
            if not bridged:
                return []
            if c == CW:
                return [create_cw20(cx, me)]
            r = [create_denom(cx, me)]
            if decide(f, meta) is not False:
                r.append(set_metadata(cx, me))
            return r
        expect_msgs(cx, e, want)
        cx.ob("modes", "%s creation distinguishes the two modes" % c, n == {True, False}, "mode cases seen: %s" % n, cx.where(e))
        r = cx.entry(c, "reply")
        if r is None or r.ok is None:
            continue
        spec.ROOTS = r.roots
        data = "msg.result@Ok.0.data@Some.0"
        src = "instantiate_response(%s)" % data if c == CW else "decode(%s)" % data
        new = src + ("@Ok.0.contract_address" if c == CW else "@Ok.0.new_token_denom")
        cx.exact(r, ["msg.id == 0", "msg.result is Ok", "msg.result@Ok.0.data is Some", src + " is Ok"] + (["valid_addr(%s)" % new] if c == CW else []))
        cx.stored(r, "i", "token", "Some{0: %s}" % new)
        cx.untouched(r, {"token"})
        ms = messages(r)
        cx.ob("silent", "%s creation reply sends no messages" % c, ms is tm.EMPTY or ms.op == "seq" and not ms.a[0], tm.show(ms), cx.where(r))
        q = next((x for x in cx.entries(c, "query") if x.variant.startswith("TokenDefault")), None)
        if q is None or q.ok is None:
            cx.fail("reports", c, "no token query")
            continue
        spec.ROOTS = q.roots
        typ = cx.t("msg@TokenDefault.0 is TokenType")
        alt = tm.PHI([(frozenset([frozenset([(typ, True)])]), mk("alt", I(1))), (frozenset([frozenset([(typ, False)])]), mk("alt", I(0)))])
        n = 0
        for f in cases(q.facts, q.ok, alt):
            v, t = resolve_deep(f, q.ok), decide(f, typ)
            b = v.a[1] if v.op == "json" else v
            n |= 1 << bool(t)
            stored = cx.t("item(token)@Some.0" if t else "item(mode)@Some.0")
            if t:
                x = spec.field(b, None, "typ") if b.op == "adt" else b
                while x.op == "adt" and len(x.a[2]) == 1:
                    x = x.a[2][0]
                ok = b.op == "adt" and b.a[0].endswith("TokenTypeResponse") and tm.vname(b.a[2][0].a[0], b.a[2][0].a[1]) == ("CW20" if c == CW else "Native")
            else:
                x = spec.field(b, None, "mode") if b.op == "adt" else b
                ok = b.op == "adt" and b.a[0].endswith("TokenModeResponse")
            ok = ok and same(f, x, stored)
            cx.ob("reports", "%s token query reports the stored %s" % (c, "token" if t else "mode"), ok, "" if ok else tm.show(v), cx.where(q))
        cx.ob("reports", "%s both token queries analysed" % c, n == 3, "cases %s" % n, cx.where(q))


def create_cw20(cx, me):
    I_ = "msg.token@Bridged.0.init_msg"

    def chk(f, g):
        w = g[1]
        if g[0] != "Instantiate" or g[4] not in ("Success", "Always"):
            return False
        m = spec.field(w, None, "msg")
        if m.op != "json" or m.a[1].op != "adt":
            return False
        b = m.a[1]
        ok = same(f, spec.field(w, None, "code_id"), cx.t("msg.token@Bridged.0.code_id")) and spec.field(w, None, "funds") is tm.EMPTY
        adm = spec.field(w, None, "admin")
        ok = ok and adm.op == "adt" and adm.a[1] == 1 and same(f, adm.a[2][0], me)
        mint = spec.field(b, None, "mint")
        ok = ok and mint.op == "adt" and mint.a[1] == 1 and mint.a[2][0].op == "adt" and same(f, spec.field(mint.a[2][0], None, "minter"), me)
        for n in ("name", "symbol", "decimals", "initial_balances"):
            ok = ok and same(f, spec.field(b, None, n), cx.t("%s.%s" % (I_, n)))
        return ok
    return ("is the creation of the configured token, administered and minted by the route alone, with a reply on success", chk)


def create_denom(cx, me):
    def chk(f, g):
        b = stargate(f, g, "MsgCreateDenom", "Success")
        return b is not None and same(f, spec.field(b, None, "sender"), me) and same(f, spec.field(b, None, "subdenom"), cx.t("msg.token@Bridged.0.denom"))
    return ("is the creation of the configured denomination by the route, with a reply on success", chk)


def set_metadata(cx, me):
    M = "msg.token@Bridged.0.metadata@Some.0"

    def chk(f, g):
        b = stargate(f, g, "MsgSetDenomMetadata")
        if b is None or not same(f, spec.field(b, None, "sender"), me):
            return False
        m = spec.field(b, None, "metadata")
        if m.op != "adt" or m.a[1] != 1 or m.a[2][0].op != "adt":
            return False
        m = m.a[2][0]
        us, want, k = spec.field(m, None, "denom_units"), cx.t(M + ".denom_units"), mk("p", "k")
        u, w = tm.IDX(us, k), tm.IDX(want, k)
        return all(same(f, spec.field(m, None, n), cx.t("%s.%s" % (M, n))) for n in ("description", "base", "display", "name", "symbol")) \
            and same(f, tm.LEN(us), tm.LEN(want)) and all(same(f, spec.field(u, None, n), cx.t("W." + n, {"W": w})) for n in ("denom", "exponent", "aliases"))
    return ("sets the configured metadata of the new denomination", chk)


@check("P40", 30, "Connection settings of both token routes: each set call must require the owner and store exactly the validated address; each get "
       "returns its own setting; the module query a mailbox asks during delivery answers the stored module.")
def p40(cx):
    for c in WARPS:
        for v, ns, fld in (("SetMailbox", "conn::mailbox", "mailbox"), ("SetHook", "conn::hook", "hook"), ("SetIsm", "conn::ism", "ism")):
            e = cx.entry(c, "execute", "Connection." + v)
            a = "msg@Connection.0@%s.%s" % (v, fld)
            cx.exact(e, [OWNER, "valid_addr(%s)" % a])
            cx.stored(e, "i", ns, "Some{0: %s}" % a)
            cx.untouched(e, {ns}) if e else None
            q = cx.entry(c, "query", "Connection.Get" + v[3:])
            ret(cx, q, v[3:] + "Response", {fld: "item(%s)" % ns})
            cx.exact(q, []) if q else None
        q = cx.entry(c, "query", "IsmSpecifier.InterchainSecurityModule")
        ret(cx, q, "InterchainSecurityModuleResponse", {"ism": "item(conn::ism)"})
        cx.exact(q, []) if q else None
        for e in cx.entries(c):
            if e.variant.startswith("Connection.") or e.ok is None or e.kind == "query":
                continue
            bad = [k[1] for k in changed(e) if k[1].startswith("conn::")]
            cx.ob("connection-frame", "%s[%s] leaves the connection settings unchanged" % (e.path, e.variant), not bad, "changes %s" % bad, cx.where(e))


WIRE = {
    "Coin": [(1, "string", "denom"), (2, "string", "amount")],
    "DenomUnit": [(1, "string", "denom"), (2, "uint32", "exponent"), (3, "string", "aliases")],
    "Metadata": [(1, "string", "description"), (2, "message", "denom_units"), (3, "string", "base"), (4, "string", "display"), (5, "string", "name"), (6, "string", "symbol")],
    "MsgCreateDenom": [(1, "string", "sender"), (2, "string", "subdenom")],
    "MsgCreateDenomResponse": [(1, "string", "new_token_denom")],
    "MsgMint": [(1, "string", "sender"), (2, "message", "amount")],
    "MsgBurn": [(1, "string", "sender"), (2, "message", "amount")],
    "MsgSetDenomMetadata": [(1, "string", "sender"), (2, "message", "metadata")],
}


@check("P44", 16, "The protobuf implementation the compiler expands for each token factory message is analysed: the size function names, for every "
       "encoded field, its tag number, wire type and source field, which must be exactly the chain module's; and each message's conversion to a chain "
       "message must carry the module's type url and the encoding of that very message.")
def p44(cx):
    p = cx.prog(NA)
    for ty, want in WIRE.items():
        path = "hpl_warp_native::proto::" + ty
        e = cx.fn(NA, "<%s as prost::message::Message>::encoded_len" % path, boundary=[])
        if e is None or e.ok is None:
            continue
        sv = next(iter(e.roots))
        got = []
        for c in tm.subterms(e.ok):
            if c.op == "call" and c.a[0].split("::")[-1].startswith("encoded_len") and c.a[1][0].op == "int":
                f = c.a[1][1]
                while f.op == "f" and f.a[0] is not sv:
                    f = f.a[0]
                name = tm.fname(f.a[1], f.a[2], f.a[3]) if f.op == "f" and f.a[0] is sv else tm.show(f)
                got.append((c.a[1][0].a[0], c.a[0].split("::")[-2], name))
        names = tm.VARIANTS[path][0][1]
        for w in want:
            cx.ob("wire", "%s.%s is field %d (%s)" % (ty, w[2], w[0], w[1]), w in got, "encodes %s" % sorted(got), cx.where(e))
        extra = [g for g in got if g not in want]
        cx.ob("wire", "%s encodes nothing else" % ty, not extra and len(names) == len(want), "also %s; fields %s" % (extra, names), cx.where(e))
    for ty, url in PROTO_URL.items():
        src = [f for f in p.bypath if f.endswith("::from") and ("From<hpl_warp_native::proto::%s>" % ty) in f and "CosmosMsg" in f]
        for path in src:
            e = cx.fn(NA, path, boundary=[])
            if e is None or e.ok is None:
                continue
            v = next(iter(e.roots))
            g = resolve_deep(e.facts, e.ok)
            a = g.a[2] if g.op == "adt" and tm.vname(g.a[0], g.a[1]) == "Stargate" else g.a[2][0].a[2] if g.op == "adt" and tm.vname(g.a[0], g.a[1]) == "Any" else None
            ok = a is not None and a[0] is tm.BYTES(url) and a[1].op == "call" and a[1].a[0].split("::")[-1] == "encode_to_vec" and same(e.facts, a[1].a[1][0], v)
            cx.ob("conversion", "%s becomes a chain message of type %s carrying its own encoding" % (ty, url.decode()), ok, "" if ok else tm.show(g), cx.where(e))
