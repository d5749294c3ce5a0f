"""Mailbox: processing, delivery, dispatch, fees."""
from .registry import check
from .lib import *
from engine import terms as tm

C = "hpl_mailbox"
ME = "msg@Process.message"


@check("P01", 5, "For the mailbox's processing entry the analysis computes the condition under which it can succeed and the final "
       "value of the delivery table as gated terms over the inputs and the stored state; the condition must imply that the id "
       "(hash of the complete message bytes) is absent, the table must gain exactly that id, every other entry point must leave "
       "the table unchanged, and the delivered-query must answer from it.")
def p01(cx):
    e = cx.entry(C, "execute", "Process")
    env = {"ID": "keccak(%s)" % ME}
    cx.guard(e, "!(at(map0(deliveries), ID) is Some)", env, "not-yet-delivered")
    if e and e.ok is not None:
        v = stor(e, "m", "deliveries")
        idt = cx.t("ID", env)
        ok = False
        for f in cases(e.facts, v):
            w = resolve_deep(f, v)
            ok = w.op == "store" and w.a[0] is mk("map0", "deliveries") and eqv(f, w.a[1], idt)
            if not ok:
                break
        cx.ob("records-id", "process stores the processed id in the delivery table", ok, "" if ok else "deliveries becomes " + tm.show(v), cx.where(e))
    for x in others(cx, C, {("execute", "Process")}):
        if x.ok is None:
            continue
        bad = [k for k in changed(x) if k[1] == "deliveries"]
        cx.ob("delivery-table-frame", "%s[%s] leaves the delivery table unchanged" % (x.path, x.variant), not bad,
              "delivery table rewritten to " + tm.show(stor(x, "m", "deliveries")) if bad else "", cx.where(x))
    q = cx.entry(C, "query", "Mailbox.MessageDelivered")
    if q:
        ret(cx, q, "MessageDeliveredResponse", {"delivered": "at(map0(deliveries), msg@Mailbox.0@MessageDelivered.id) is Some"})


MB = {
    "RCPT": "bech32_encode(item(config)@Some.0.hrp, %s[45..77])@Ok.0" % ME,
    "SPEC": "query(RCPT, ExpectedIsmSpecifierQueryMsg{0: IsmSpecifierQueryMsg.InterchainSecurityModule})@Ok.0.ism",
}


def recipient_ism(cx, env):
    """(recipient term, its specifier answer)"""
    rc = cx.t("RCPT", env)
    for q in queries_to(rc):
        if q.a[1][2] is mk("sym", "hpl_interface::ism::InterchainSecurityModuleResponse"):
            return rc, q
    return rc, None


@check("P02", 4, "The success condition of the mailbox's processing entry must imply: version byte equals the protocol version, "
       "the destination field equals the configured local domain, and the boolean answered by exactly one security-module "
       "verify query, whose address is the recipient's own module when it names one and the configured default otherwise, and "
       "whose metadata and message arguments are the submitted bytes unmodified, is true.")
def p02(cx):
    e = cx.entry(C, "execute", "Process")
    if not e or e.ok is None:
        return
    cx.guard(e, "%s[0] == 3" % ME, rule="version")
    cx.guard(e, "be(%s[41..45]) == item(config)@Some.0.local_domain" % ME, rule="destination")
    rc, q = recipient_ism(cx, MB)
    inst = "process asks the message's recipient which security module applies"
    if not cx.ob("specifier", inst, q is not None, "no module query to the address decoded from message bytes 45..77", cx.where(e)):
        return
    msgty = q.a[1][1]
    cx.ob("specifier", "specifier query kind", msgty.op == "adt" and msgty.a[0].endswith("ExpectedIsmSpecifierQueryMsg"), tm.show(msgty), cx.where(e))
    cx.guard(e, IS(q, RESULT, 0), rule="specifier-answered")
    own = FIELD(FIELD(q, RESULT, 0, 0), "hpl_interface::ism::InterchainSecurityModuleResponse", 0, 0)
    # every verify query decided true on success
    n = 0
    for f in cases(e.facts, own_choice(own)):
        has = decide(f, IS(own, OPTION, 1))
        want = FIELD(own, OPTION, 1, 0) if has else cx.t("item(config)@Some.0.default_ism@Some.0")
        good = False
        seen = []
        for t in f:
            if not isinstance(t, T) or t.op != "eq":
                continue
            for v in find_verified(t):
                qq = v.a[0].a[0]
                addr = resolve_deep(f, qq.a[1][0])
                m = resolve_deep(f, qq.a[1][1])
                seen.append("%s <- %s" % (tm.show(addr), tm.show(m)))
                if addr is want and is_verify(cx, m) and decide(f, tm.EQ(v, I(0))) is False:
                    good = True
        n += 1
        cx.ob("verified", "process succeeds only if %s verified (metadata, message) of the call" % ("the recipient's module" if has else "the default module"),
              good, "" if good else "accepting verifications: %s" % seen, cx.where(e))
    cx.ob("verified", "both module choices considered", n == 2, "choice does not depend on the recipient's answer", cx.where(e))


def own_choice(own):
    return tm.PHI([(frozenset([frozenset([(IS(own, OPTION, 1), True)])]), mk("alt", I(1))), (frozenset([frozenset([(IS(own, OPTION, 1), False)])]), mk("alt", I(0)))])


def find_verified(t):
    for x in tm.subterms(t):
        if x.op == "f" and x.a[1].endswith("ism::VerifyResponse") and x.a[0].op == "f" and x.a[0].a[0].op == "call" and x.a[0].a[0].a[0] == "query":
            yield x


def is_verify(cx, m):
    w = cx.t("ExpectedIsmQueryMsg{0: IsmQueryMsg::Verify{metadata: msg@Process.metadata, message: %s}}" % ME)
    return m is w


@check("P03", 3, "The list of outgoing messages of a successful processing call is computed as a term; in every case it must hold exactly "
       "one contract call, to the address decoded from the message's recipient field under the configured prefix, carrying the "
       "message's origin, sender and body fields byte for byte, no funds, and a reply mode that lets a failure of the recipient "
       "revert the whole call.")
def p03(cx):
    e = cx.entry(C, "execute", "Process")
    env = dict(MB)
    h = cx.t("ExpectedHandleMsg{0: HandleMsg{origin: be(%s[5..9]), sender: %s[9..41], body: %s[77..]}}" % (ME, ME, ME))
    rc = cx.t("RCPT", env)
    expect_msgs(cx, e, lambda f: [("exec", rc, h, tm.EMPTY)] if f is not None else [])


DM = "msg@Dispatch.0"
DISP = {
    "SENDER": "bech32_to_h256(info.sender)@Ok.0",
    "META": "if(%s.metadata is Some, %s.metadata@Some.0, '')" % (DM, DM),
    "M": "cat[0x03, ube(4, item(nonce)@Some.0), ube(4, item(config)@Some.0.local_domain), SENDER, ube(4, %s.dest_domain), %s.recipient_addr, %s.msg_body]" % (DM, DM, DM),
    "ID": "keccak(M)",
    "REQ": "item(config)@Some.0.required_hook@Some.0",
    "HOOK": "if(%s.hook is Some, %s.hook@Some.0, item(config)@Some.0.default_hook@Some.0)" % (DM, DM),
}


@check("P04", 7, "The final stored nonce and last-dispatched id and the returned data of a successful dispatch are computed as terms: the "
       "nonce must be the old nonce plus one, the message must carry the old nonce, the recorded id and the returned id must both "
       "be the hash of the very message handed to the hooks; every other mailbox entry must leave both values unchanged and "
       "initialisation must start the nonce at zero.")
def p04(cx):
    e = cx.entry(C, "execute", "Dispatch")
    cx.stored(e, "i", "nonce", "Some{0: item(nonce)@Some.0 + 1}")
    cx.stored(e, "i", "latest_dispatched_id", "Some{0: ID}", DISP)
    if e and e.ok is not None:
        data = rfield(e.ok, "data")
        ok = False
        if data.op == "adt" and data.a[1] == 1 and data.a[2][0].op == "json":
            d = data.a[2][0].a[1]
            ok = d.op == "adt" and d.a[0].endswith("DispatchResponse") and same(e.facts, d.a[2][0], cx.t("ID", DISP))
        cx.ob("returned-id", "dispatch returns the id of the dispatched message", ok, "" if ok else tm.show(data), cx.where(e))
        # the nonce inside the message handed to hooks
        for g in sent_messages(e):
            cx.value(e, "nonce field of the dispatched message", tm.SLICE(g, I(1), I(5)), "ube(4, item(nonce)@Some.0)")
    for x in others(cx, C, {("execute", "Dispatch")}):
        if x.ok is None:
            continue
        bad = [k[1] for k in changed(x) if k[1] in ("nonce", "latest_dispatched_id")]
        cx.ob("frame", "%s[%s] leaves nonce and latest id unchanged" % (x.path, x.variant), not bad, "changes %s" % bad, cx.where(x))
    i = cx.entry(C, "instantiate")
    cx.stored(i, "i", "nonce", "Some{0: 0}")
    q = cx.entry(C, "query", "Mailbox.Nonce")
    ret(cx, q, "NonceResponse", {"nonce": "item(nonce)@Some.0"})
    q = cx.entry(C, "query", "Mailbox.LatestDispatchId")
    ret(cx, q, "LatestDispatchedIdResponse", {"message_id": "item(latest_dispatched_id)@Some.0"})


@check("P05", 3, "The byte string handed to the hooks on a successful dispatch is computed as a concatenation term and compared piece by piece "
       "with version, nonce, the configured local domain, the caller's own address, and the requested destination, recipient and "
       "body; the success condition must imply a 32-byte recipient, and the dispatch event must publish the same bytes and id.")
def p05(cx):
    e = cx.entry(C, "execute", "Dispatch")
    if not e or e.ok is None:
        return
    cx.guard(e, "len(%s.recipient_addr) == 32" % DM)
    ms = sent_messages(e)
    cx.ob("message", "dispatch hands one message to its hooks", len(ms) == 1, "messages: %s" % [tm.show(m) for m in ms], cx.where(e))
    for m in ms:
        cx.value(e, "dispatched message", m, "M", DISP)
    evs = events(e)
    cx.event(e, evs, "mailbox_dispatch_id", "message_id", "hex(ID)", DISP)
    cx.event(e, evs, "mailbox_dispatch", "message", "hex(M)", DISP)


@check("P06", 18, "The outgoing messages of a successful dispatch are computed as terms: exactly two post-dispatch calls, first to the required "
       "hook with funds equal to what that hook quoted for this very message and metadata, then to the caller's chosen hook (or "
       "the default) with all attached funds minus that quote; both carry the same message and metadata and neither failure can "
       "be swallowed; success must imply that the attached funds cover the quote coin by coin.")
def p06(cx):
    e = cx.entry(C, "execute", "Dispatch")
    if not e or e.ok is None:
        return
    req, hook, meta = cx.t("REQ", DISP), cx.t("HOOK", DISP), cx.t("META", DISP)
    ms = sent_messages(e)
    if len(ms) != 1:
        cx.fail("messages", "one dispatched message", "found %d" % len(ms), cx.where(e))
        return
    fees, q = quote_fees(cx, e, e.facts, req, ms[0], meta, cx.where(e))
    if not cx.ob("quote", "dispatch asks the required hook for its quote of this message and metadata", fees is not None, "no such query", cx.where(e)):
        return
    cx.guard(e, IS(q, RESULT, 0), rule="quote-answered")
    pd = cx.t("ExpectedHookMsg{0: HookMsg::PostDispatch{0: PostDispatchMsg{metadata: MM, message: BB}}}", {"MM": meta, "BB": ms[0]})
    if spec.is_absent(pd):
        pd = cx.t("ExpectedHookMsg{0: PostDispatchMsg{metadata: MM, message: BB}}", {"MM": meta, "BB": ms[0]})
    funds = cx.t("info.funds")
    expect_msgs(cx, e, lambda f: [("exec", req, pd, fees), ("exec", hook, pd, lambda f, a: is_coin_diff(f, a, funds, fees))] if f is not None else [hook, meta])
    # sufficiency
    ok = any(t.op == "forall" and p is True and tm.LEN(fees) is t.a[0] and t.a[2].op == "bcall" and t.a[2].a[0] == "coins_sub_ok" and
             t.a[2].a[1][1] is tm.IDX(fees, mk("bv", t.a[1])) for t, p in e.facts.items() if isinstance(t, T))
    cx.ob("covered", "dispatch succeeds only if the attached funds cover every coin of the required hook's quote", ok, "no such condition", cx.where(e))


QM = "msg@Hook.0"


@check("P07", 4, "The fees returned by the mailbox's quote query are computed as a term and decomposed into its addends, which must be exactly the "
       "quote of the required hook and the quote of the hook the dispatch would use, each asked for the message a dispatch by the given "
       "sender would build now.")
def p07(cx):
    e = cx.entry(C, "query", "Hook.QuoteDispatch")
    if not e:
        return
    if e.ok is None:
        cx.fail("quote", "mailbox quote", "never succeeds", cx.where(e))
        return
    env = {k: v.replace(DM, QM + ".msg") if isinstance(v, str) else v for k, v in DISP.items()}
    env["SENDER"] = "bech32_to_h256(%s.sender)@Ok.0" % QM
    n = 0
    hook = cx.t("HOOK", env)
    for f in cases(e.facts, hook, shell(e.ok)):
        v = resolve_deep(f, e.ok)
        n += 1
        if not cx.ob("quote", "mailbox quote answers a fee list", v.op == "json" and v.a[1].op == "adt" and v.a[1].a[0].endswith("QuoteDispatchResponse"), tm.show(v), cx.where(e)):
            continue
        fees = v.a[1].a[2][0]
        parts = coin_terms(fees)
        want = []
        m = resolve_deep(f, cx.t("M", env))
        for h in (cx.t("REQ", env), hook):
            ft, q = quote_fees(cx, e, f, h, m, cx.t("META", env), cx.where(e))
            if cx.ob("asked", "quote consults hook %s" % tm.show(resolve_deep(f, h)), ft is not None, "no quote query to it for the message that would be dispatched", cx.where(e)):
                want.append(resolve_deep(f, ft))
        got = None if parts is None else [resolve_deep(f, p) for p in parts]
        ok = got is not None and len(got) == 2 and sorted(g.id for g in got) == sorted(w.id for w in want)
        cx.ob("sum", "quote is the sum of both hooks' quotes", ok, "" if ok else "returns %s" % tm.show(fees), cx.where(e))

    def answered(t, p):
        """both hooks answer, and with coins that can be added"""
        u = t.a[2] if t.op == "forall" else t
        if p is True and t is cx.t("len(%s.msg.recipient_addr) == 32" % QM):
            return True           # a dispatch needs it too
        return p is True and bool(find_calls([t], "query")) and (u.op == "is" and u.a[0].op == "call" or u.op == "bcall" and u.a[0].startswith("coins_"))
    cx.exact(e, ["valid_addr(%s.sender)" % QM, "SENDERR is Ok", "item(config)@Some.0.default_hook is Some", "item(config)@Some.0.required_hook is Some",
                 "!(%s.msg.hook is Some) || valid_addr(%s.msg.hook@Some.0)" % (QM, QM)], dict(env, SENDERR="bech32_to_h256(%s.sender)" % QM), implied=answered)


@check("P36", 8, "The complete success conditions of the mailbox's process and dispatch entries are computed and must contain nothing beyond the listed ones: for process "
       "a non-empty message of this version for this domain whose recipient address can be formed, whose id is new, and whose module queries are answered and accept; for dispatch a configured mailbox, "
       "a 32-byte recipient, a well-formed hook address, an answered quote and funds covering it coin by coin.")
def p36(cx):
    e = cx.entry(C, "execute", "Process")
    env = dict(MB)
    if e is not None and e.ok is not None:
        rc, q = recipient_ism(cx, MB)

        def verify(t, p):
            """the module's answers: the query succeeds, the verdict is true"""
            if t.op == "eq" and p is False:
                vs = list(find_verified(t))
                return bool(vs) and all(is_verify(cx, v.a[0].a[0].a[1][1]) for v in vs) and t in [tm.EQ(v, I(0)) for v in vs]
            if t.op == "is" and p is True:
                x = t.a[0]
                return x.op == "call" and x.a[0] == "query" and (x is q or is_verify(cx, x.a[1][1]))
            return False
        cx.exact(e, ["bech32_encode(item(config)@Some.0.hrp, %s[45..77]) is Ok" % ME, "%s[0] == 3" % ME,
                     "be(%s[41..45]) == item(config)@Some.0.local_domain" % ME, "item(config)@Some.0.default_ism is Some",
                     "!(at(map0(deliveries), keccak(%s)) is Some)" % ME], env, implied=verify, message=ME)
        rev(cx, e)
    elif e is not None:
        cx.fail("accepts", "process", "never succeeds", cx.where(e))
    e = cx.entry(C, "execute", "Dispatch")
    if e is not None and e.ok is not None:
        ms = sent_messages(e)
        req, meta = cx.t("REQ", DISP), cx.t("META", DISP)
        fees, q = quote_fees(cx, e, e.facts, req, ms[0], meta, cx.where(e)) if len(ms) == 1 else (None, None)

        def covered(t, p):
            if fees is None or p is not True:
                return False
            if t is cx.t("coins_valid(info.funds)"):
                return True                       # the platform attaches sorted, distinct, non-zero coins
            if t is IS(q, RESULT, 0):
                return True
            return t.op == "forall" and t.a[0] is tm.LEN(fees) and t.a[2].op == "bcall" and t.a[2].a[0] == "coins_sub_ok" and t.a[2].a[1][1] is tm.IDX(fees, mk("bv", t.a[1]))
        cx.exact(e, ["len(%s.recipient_addr) == 32" % DM, "bech32_to_h256(info.sender) is Ok", "item(config)@Some.0.default_hook is Some",
                     "item(config)@Some.0.required_hook is Some", "!(%s.hook is Some) || valid_addr(%s.hook@Some.0)" % (DM, DM)], DISP, implied=covered)
        rev(cx, e)
    elif e is not None:
        cx.fail("accepts", "dispatch", "never succeeds", cx.where(e))


def rev(cx, e):
    """a refused call changes nothing because it is an error; a successful one never hides a failed sub-call"""
    for f in cases(e.facts, skeleton(messages(e))):
        x = resolve_deep(f, messages(e))
        for m in (x.a[0] if x.op == "seq" else []):
            r = spec.field(m, None, "reply_on")
            cx.ob("reverts", "%s[%s] a failing outgoing call undoes the whole call" % (e.path, e.variant), r.op == "adt" and tm.vname(r.a[0], r.a[1]) in ("Never", "Success"), tm.show(r), cx.where(e))


@check("P39", 21, "Instantiation, the three configuration calls and every configuration query of the mailbox are analysed as terms: instantiation stores the given prefix, "
       "domain and owner and no defaults; each setter succeeds exactly for the owner and a valid address and replaces exactly its own default; all other entries leave the configuration "
       "unchanged; queries answer the stored values, and the recipient's module query answers the module that processing would consult.")
def p39(cx):
    i = cx.entry(C, "instantiate")
    cx.exact(i, ["valid_addr(msg.owner)", "forall(msg.hrp, 1, is_lowercase(msg.hrp[#1]))"], implied=None)
    cx.stored(i, "i", "config", "Some{0: Config{hrp: msg.hrp, local_domain: msg.domain, default_ism: None, default_hook: None, required_hook: None}}")
    fields = ("hrp", "local_domain", "default_ism", "default_hook", "required_hook")
    OWN = "info.sender == item(owner)@Some.0"
    setters = {"SetDefaultIsm": ("default_ism", "ism"), "SetDefaultHook": ("default_hook", "hook"), "SetRequiredHook": ("required_hook", "hook")}
    for v, (fld, arg) in setters.items():
        e = cx.entry(C, "execute", v)
        a = "msg@%s.%s" % (v, arg)
        cx.exact(e, [OWN, "valid_addr(%s)" % a])
        cx.stored(e, "i", "config", "Some{0: Config{%s}}" % ", ".join("%s: %s" % (n, "Some{0: %s}" % a if n == fld else "item(config)@Some.0." + n) for n in fields))
        cx.untouched(e, {"config"}) if e else None
    for x in others(cx, C, {("execute", v) for v in setters} | {("instantiate", "")}):
        if x.ok is None:
            continue
        bad = [k for k in changed(x) if k[1] == "config"]
        cx.ob("frame", "%s[%s] leaves the configuration unchanged" % (x.path, x.variant), not bad, "changes it", cx.where(x))
    for v, ty, fld, opt in (("Hrp", "HrpResponse", "hrp", 0), ("LocalDomain", "LocalDomainResponse", "local_domain", 0), ("DefaultIsm", "DefaultIsmResponse", "default_ism", 1),
                            ("DefaultHook", "DefaultHookResponse", "default_hook", 1), ("RequiredHook", "RequiredHookResponse", "required_hook", 1)):
        q = cx.entry(C, "query", "Mailbox." + v)
        t = "item(config)@Some.0." + fld
        ret(cx, q, ty, {fld: t + ("@Some.0" if opt else "")})
        cx.exact(q, [t + " is Some"] if opt else []) if q else None
    q = cx.entry(C, "query", "Mailbox.RecipientIsm")
    R = "msg@Mailbox.0@RecipientIsm.recipient_addr"
    env = {"SP": "query(%s, ExpectedIsmSpecifierQueryMsg{0: InterchainSecurityModule})" % R}
    ret(cx, q, "RecipientIsmResponse", {"ism": "if(SP@Ok.0.ism is Some, SP@Ok.0.ism@Some.0, item(config)@Some.0.default_ism@Some.0)"}, env)
    cx.exact(q, ["valid_addr(%s)" % R, "SP is Ok", "item(config)@Some.0.default_ism is Some"], env) if q else None
