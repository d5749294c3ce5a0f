"""Interchain gas paymaster and its gas oracle."""
from .registry import check
from .lib import *
from .hooks import bank_send, jfield
from .admin import OWNER
from engine import terms as tm

C = "hpl_igp"
GT = "item(gas_token)@Some.0"
F0 = "info.funds[0]"


def gas_of(m):
    """gas limit used for message record m"""
    d = "at(map0(gas_for_domain), be(%s.message[41..45]))" % m
    return "if(len(%s.metadata) < 32, if(%s is Some, %s@Some.0, item(default_gas_usage)@Some.0), be(%s.metadata[0..32]))" % (m, d, d, m)


def price(cx, e, dom, gas):
    """(quote term, oracle query) as the property defines them: gas * price * rate / 1e10, asked from the routed oracle"""
    spec.ROOTS = e.roots
    d = cx.t(dom)
    addr = cx.t("at(map0(routes), %s)@Some.0" % dom)
    for q in queries_to(addr):
        m = q.a[1][1]
        if m.op == "adt" and tm.vname(m.a[0], m.a[1]) == "Oracle" and q.a[1][2].a[0].endswith("GetExchangeRateAndGasPriceResponse"):
            r = m.a[2][0]
            if r.op == "adt" and spec.field(r, None, "dest_domain") is d or r.op != "adt" and spec.field(r, None, "dest_domain") is d:
                a = FIELD(q, RESULT, 0, 0)
                P = q.a[1][2].a[0]
                names = tm.VARIANTS[P][0][1]
                gp = FIELD(a, P, 0, names.index("gas_price"))
                er = FIELD(a, P, 0, names.index("exchange_rate"))
                return lambda g: tm.DIV(tm.MUL(tm.MUL(g, gp), er), I(10000000000)), q
    return None, None


def split_gas(cx, e, gas):
    """e's successful runs split by where the gas amount comes from: (facts, gas term)"""
    g = cx.t(gas)
    seen = {}
    for f in cases(e.facts, g):
        f2, go = specialise(f)
        if f2 is None:
            continue
        seen.setdefault(go(g), []).append((f2, go))
    for g2, fs in seen.items():
        for f2, go in fs:
            yield f2, g2, go


@check("P26", 8, "Every place a gas price is computed (payment, dispatch quote, payment quote) is reduced to a term and must equal gas amount times "
       "oracle price times oracle rate divided once by the fixed scale, with the oracle being the one routed for the destination and "
       "asked about it; the gas amount must come from the metadata's first 32 bytes, or else the destination's configured amount, or "
       "else the default; the quote's coin is in the configured gas token and absent exactly when the price is zero.")
def p26(cx):
    q = cx.entry(C, "query", "Igp.QuoteGasPayment")
    if q and q.ok is not None:
        m = "msg@Igp.0@QuoteGasPayment"
        pr, oq = price(cx, q, m + ".dest_domain", None)
        if cx.ob("oracle", "payment quote asks the oracle routed for the destination", pr is not None, "no such query", cx.where(q)):
            ret(cx, q, "QuoteGasPaymentResponse", {"gas_needed": pr(cx.t(m + ".gas_amount"))})
            cx.exact(q, ["at(map0(routes), %s.dest_domain) is Some" % m, IS(oq, RESULT, 0)])
    for kind, var, m in (("query", "Hook.QuoteDispatch", "msg@Hook.0@QuoteDispatch.0"),):
        q = cx.entry(C, kind, var)
        if q is None or q.ok is None:
            continue
        dom = "be(%s.message[41..45])" % m
        pr, oq = price(cx, q, dom, None)
        if not cx.ob("oracle", "dispatch quote asks the oracle routed for the message's destination", pr is not None, "no such query", cx.where(q)):
            continue
        n = set()
        for f, g, go in split_gas(cx, q, gas_of(m)):
            want = pr(g)
            n.add(g)
            for zero in (True, False):
                s = State()
                s.facts = dict(f)
                if not assume(s, tm.EQ(want, I(0)), zero):
                    continue
                fees = jfield(resolve_deep(s.facts, go(q.ok)), "fees")
                fees = resolve_deep(s.facts, fees) if fees is not None else None
                inst = "dispatch quote with gas %s, %s" % (tm.show(g, 0, 5), "free" if zero else "priced")
                if zero:
                    ok = fees is not None and (fees is tm.EMPTY or fees.op == "seq" and not fees.a[0])
                else:
                    exp = cx.t("[Coin{denom: %s, amount: AA}]" % GT, {"AA": want})
                    ok = fees is not None and same(s.facts, fees, exp)
                cx.ob("quote", inst, ok, "" if ok else "answers " + (tm.show(fees, 0, 12) if fees is not None else "nothing"), cx.where(q))
        cx.ob("quote", "all three gas sources considered", len(n) == 3, "%d cases" % len(n), cx.where(q))
        for mk_, hyp in ((True, "len(%s.metadata) < 32" % m), (False, "!(len(%s.metadata) < 32)" % m)):
            cx.accepts(q, [hyp, "!(len(%s.message) < 77)" % m, "at(map0(routes), %s) is Some" % dom, IS(oq, RESULT, 0), "item(default_gas_usage) is Some", "item(gas_token) is Some"], implied=narrow)
    e = cx.entry(C, "execute", "PayForGas")
    if e and e.ok is not None:
        charged(cx, e, "msg@PayForGas.dest_domain", "msg@PayForGas.gas_amount")
    e = cx.entry(C, "execute", "PostDispatch")
    if e and e.ok is not None:
        charged(cx, e, "be(msg@PostDispatch.0.message[41..45])", gas_of("msg@PostDispatch.0"))
    q = cx.entry(C, "query", "Oracle.GetExchangeRateAndGasPrice")
    if q is None:
        q = next((x for x in cx.entries(C, "query") if x.variant.startswith("Oracle")), None)
    if q and q.ok is not None:
        a = "at(map0(routes), msg@Oracle.0.dest_domain)@Some.0"
        v = q.ok
        qs = find_calls(v, "query")
        ok = v.op == "json" and len(qs) == 1 and qs[0].a[1][0] is cx.t(a) and same(q.facts, v.a[1], FIELD(qs[0], RESULT, 0, 0)) and find_dom(qs[0].a[1][1]) is cx.t("msg@Oracle.0.dest_domain")
        cx.ob("oracle", "the paymaster's oracle query relays the routed oracle's answer for the asked domain", ok, "" if ok else tm.show(v, 0, 9), cx.where(q))
        if ok:
            cx.exact(q, ["at(map0(routes), msg@Oracle.0.dest_domain) is Some", IS(qs[0], RESULT, 0)])


def charged(cx, e, dom, gasf):
    """what a successful payment costs is the price: it is at least attached, and a coin sent back is the attached amount less the price"""
    pr, oq = price(cx, e, dom, None)
    if not cx.ob("oracle", "%s asks the oracle routed for the destination" % e.variant, pr is not None, "no such query", cx.where(e)):
        return
    paid, n = cx.t(F0 + ".amount"), 0
    for f0, g, go in split_gas(cx, e, cx.t(gasf)):
        want = pr(g)
        lab = "%s[gas %s]" % (e.variant, tm.show(g, 0, 4))
        s = State()
        s.facts = dict(f0)
        if assume(s, cx.t("len(info.funds) == 0"), True):
            f1, go1 = specialise(s.facts)
            if f1 is not None:
                cx.ob("charged", lab + ": free only when the price is zero", holds(f1, tm.EQ(want, I(0))), "a priced call succeeds without funds", cx.where(e))
        s = State()
        s.facts = dict(f0)
        if not assume(s, cx.t("len(info.funds) == 0"), False):
            continue
        f1, go1 = specialise(s.facts)
        if f1 is None:
            continue
        n += 1
        cx.ob("charged", lab + ": the attached amount covers the price", holds(f1, NOT(tm.LT(paid, want))), "succeeds with less", cx.where(e))
        gap = tm.SUB(paid, want)
        for same_ in (True, False):
            s3 = State()
            s3.facts = dict(f1)
            if not assume(s3, tm.EQ(gap, I(0)), same_):
                continue
            f3, go3 = specialise(s3.facts)
            if f3 is None:
                continue
            sent = [spec.field(x, None, "amount")
                    for x in tm.subterms(resolve_deep(f3, go3(go1(go(messages(e)))))) if x.op == "adt" and x.a[0].endswith("::Coin")]
            ok = all(same(f3, x, gap) for x in sent)
            cx.ob("charged", lab + ": what stays is exactly the price", ok, "" if ok else "returns " + tm.show(sent[0], 0, 9), cx.where(e))
    cx.ob("charged", "%s: charged cases analysed" % e.variant, n >= 1, "none", cx.where(e))


def find_dom(m):
    try:
        return spec.field(m.a[2][0], None, "dest_domain")
    except Exception:
        return None


def narrow(t, p):
    """conversion of a computed price to the 128-bit coin amount"""
    return False


def paycase(cx, e, dom, gasf, refund, event_gas):
    pr, oq = price(cx, e, dom, None)
    if not cx.ob("oracle", "%s asks the oracle routed for the destination" % e.variant, pr is not None, "no such query", cx.where(e)):
        return
    cx.guard(e, IS(oq, RESULT, 0), rule="oracle-answered")
    gas = cx.t(gasf)
    rf = cx.t(refund)
    n = 0
    for f0, g, go in split_gas(cx, e, gas):
        want = pr(g)
        lab = "%s[gas %s]" % (e.variant, tm.show(g, 0, 4))
        allm = go(messages(e))
        # nothing attached
        s = State()
        s.facts = dict(f0)
        if assume(s, cx.t("len(info.funds) == 0"), True):
            f1, go1 = specialise(s.facts)
            if f1 is not None:
                ok = holds(f1, tm.EQ(want, I(0)))
                cx.ob("payment", lab + ": without funds succeeds only when the price is zero", ok, "a priced dispatch is accepted without payment", cx.where(e))
                ms = resolve_deep(f1, go1(allm))
                cx.ob("refund", lab + ": nothing is sent when nothing was attached", empty(ms), "sends " + tm.show(ms, 0, 9), cx.where(e))
        s = State()
        s.facts = dict(f0)
        if not assume(s, cx.t("len(info.funds) == 0"), False):
            continue
        f1, go1 = specialise(s.facts)
        if f1 is None:
            continue
        n += 1
        for c in ("len(info.funds) == 1", "%s.denom == %s" % (F0, GT), "!(%s.amount == 0)" % F0):
            cx.ob("payment", lab + ": " + c, holds(f1, cx.t(c)), "not implied by success", cx.where(e))
        ok = holds(f1, NOT(tm.LT(cx.t(F0 + ".amount"), want)))
        cx.ob("payment", lab + ": the attached amount covers the price", ok, "an underpaid call is accepted", cx.where(e))
        for eq in (True, False):
            s3 = State()
            s3.facts = dict(f1)
            gap = tm.SUB(cx.t(F0 + ".amount"), want)
            if not assume(s3, tm.EQ(gap, I(0)), eq):
                continue
            f3, go3 = specialise(s3.facts)
            if f3 is None:
                continue
            ms = resolve_deep(f3, go3(go1(allm)))
            if eq:
                cx.ob("refund", lab + ": an exact payment sends nothing", empty(ms), "sends " + tm.show(ms, 0, 9), cx.where(e))
            else:
                for f in cases(f3, rf, skeleton(ms)):
                    x = resolve_deep(f, ms)
                    got = outgoing(cx, e, f, x)
                    exp = bank_send(rf, cx.t("[Coin{denom: %s, amount: GG}]" % GT, {"GG": gap}))
                    ok = len(got) == 1 and x.op == "seq" and exp[1](f, got[0])
                    cx.ob("refund", lab + ": the whole excess and nothing more goes to the refund address", ok, "" if ok else "sends " + tm.show(x, 0, 12), cx.where(e))
    cx.untouched(e)
    cx.ob("payment", "%s: payment cases analysed" % e.variant, n >= 1, "none", cx.where(e))
    # acceptance of a correct payment
    for f0 in cases({}, gas):
        g = resolve_deep(f0, gas)
        want = pr(g)
        hyp = [t if p else NOT(t) for t, p in f0.items() if isinstance(t, T) and p in (True, False)]
        cx.accepts(e, hyp + event_gas + [IS(oq, RESULT, 0), "at(map0(routes), %s) is Some" % dom, "!(len(info.funds) == 0)", "len(info.funds) == 1", "!(%s.amount == 0)" % F0,
                                         "%s.denom == %s" % (F0, GT), NOT(tm.LT(cx.t(F0 + ".amount"), want))])
        cx.accepts(e, hyp + event_gas + [IS(oq, RESULT, 0), "at(map0(routes), %s) is Some" % dom, "len(info.funds) == 0", tm.EQ(want, I(0))])


def empty(ms):
    return ms is tm.EMPTY or ms.op == "seq" and not ms.a[0]


@check("P25", 30, "Both payment entries are analysed as terms, case by case over where the gas amount comes from and whether funds are attached: success "
       "must imply one coin of the gas token of at least the price (or no funds and a zero price), and be implied by it; the only outgoing "
       "message is a refund of exactly the excess, absent when there is none, to the address named by the payer or the metadata, or the message's sender.")
def p25(cx):
    e = cx.entry(C, "execute", "PayForGas")
    if e and e.ok is not None:
        m = "msg@PayForGas"
        paycase(cx, e, m + ".dest_domain", m + ".gas_amount", m + ".refund_address", ["item(gas_token) is Some"])
        ev = events(e)
        cx.event(e, ev, "igp-core-pay-for-gas", "message_id", "hex(%s.message_id)" % m)
        cx.event(e, ev, "igp-core-pay-for-gas", "gas_amount", mk("call", "display", (cx.t(m + ".gas_amount"),)) if False else m + ".gas_amount")
    e = cx.entry(C, "execute", "PostDispatch")
    if e and e.ok is not None:
        m = "msg@PostDispatch.0"
        own = "bech32_encode(item(hrp)@Some.0, %s.message[9..41])" % m
        ref = "if(len(%s.metadata) < 32 || !(len(%s.metadata) - 32 == 20 || len(%s.metadata) - 32 == 32), %s@Ok.0, bech32_encode(item(hrp)@Some.0, %s.metadata[32..])@Ok.0)" % (m, m, m, own, m)
        paycase(cx, e, "be(%s.message[41..45])" % m, gas_of(m), ref, [own + " is Ok", "!(len(%s.message) < 77)" % m, "item(hrp) is Some", "item(default_gas_usage) is Some", "item(gas_token) is Some"])
        ev = events(e)
        cx.event(e, ev, "igp-core-pay-for-gas", "message_id", "hex(keccak(%s.message))" % m)
        cx.event(e, ev, "igp-core-pay-for-gas", "gas_amount", gas_of(m))


@check("P27", 22, "The paymaster's claim, settings and reports are analysed as terms: a claim succeeds exactly for the stored beneficiary and sends "
       "it the contract's full balance of the gas token; each setting changes only through its owner call and to exactly the given value; "
       "instantiation stores the validated inputs; the queries report the stored settings.")
def p27(cx):
    e = cx.entry(C, "execute", "Claim")
    cx.exact(e, ["info.sender == item(beneficiary)@Some.0", "query_balance(env.contract.address, %s) is Ok" % GT])
    if e and e.ok is not None:
        cx.untouched(e)
        to, amt = cx.t("item(beneficiary)@Some.0"), cx.t("[query_balance(env.contract.address, %s)@Ok.0]" % GT)
        expect_msgs(cx, e, lambda f: [bank_send(to, amt)] if f is not None else [])
    e = cx.entry(C, "execute", "SetDefaultGas")
    cx.exact(e, [OWNER])
    cx.stored(e, "i", "default_gas_usage", "Some{0: msg@SetDefaultGas.gas}")
    cx.untouched(e, {"default_gas_usage"})
    e = cx.entry(C, "execute", "SetGasForDomain")
    cx.exact(e, [OWNER])
    c = "msg@SetGasForDomain.config"
    cx.stored(e, "m", "gas_for_domain", "storeall(%s, 1, map0(gas_for_domain), %s[#1].0, %s[#1].1)" % (c, c, c))
    cx.untouched(e, {"gas_for_domain"})
    e = cx.entry(C, "execute", "UnsetGasForDomain")
    cx.exact(e, [OWNER])
    c = "msg@UnsetGasForDomain.domains"
    cx.stored(e, "m", "gas_for_domain", "delall(%s, 1, map0(gas_for_domain), %s[#1])" % (c, c))
    cx.untouched(e, {"gas_for_domain"})
    e = cx.entry(C, "execute", "SetBeneficiary")
    cx.exact(e, [OWNER, "valid_addr(msg@SetBeneficiary.beneficiary)"])
    cx.stored(e, "i", "beneficiary", "Some{0: msg@SetBeneficiary.beneficiary}")
    cx.untouched(e, {"beneficiary"})
    i = cx.entry(C, "instantiate")
    if i:
        cx.exact(i, ["valid_addr(msg.owner)", "valid_addr(msg.beneficiary)", "forall(msg.hrp, 1, is_lowercase(msg.hrp[#1]))", "query_supply(deps.querier, msg.gas_token) is Ok"])
        for ns, f in (("owner", "owner"), ("beneficiary", "beneficiary"), ("gas_token", "gas_token"), ("hrp", "hrp"), ("default_gas_usage", "default_gas_usage")):
            cx.stored(i, "i", ns, "Some{0: msg.%s}" % f)
    for e in others(cx, C):
        if e.variant not in ("Claim", "PayForGas", "PostDispatch") and e.ok is not None:
            expect_msgs(cx, e, lambda f: [])
    ret(cx, cx.entry(C, "query", "Igp.DefaultGas"), "DefaultGasResponse", {"gas": "item(default_gas_usage)@Some.0"})
    ret(cx, cx.entry(C, "query", "Igp.Beneficiary"), "BeneficiaryResponse", {"beneficiary": "item(beneficiary)@Some.0"})
    d = "msg@Igp.0@GasForDomain.domains"
    q = cx.entry(C, "query", "Igp.GasForDomain")
    ret(cx, q, "GasForDomainResponse", {"gas": "map(%s, 1, (%s[#1], at(map0(gas_for_domain), %s[#1])@Some.0))" % (d, d, d)})
    cx.exact(q, ["forall(%s, 1, at(map0(gas_for_domain), %s[#1]) is Some)" % (d, d)])


O = "hpl_igp_oracle"


@check("P28", 10, "The oracle's update entries are analysed as terms: they succeed exactly for the owner with non-zero exchange rates and write exactly "
       "the given rate and price under the given domain; the query answers the stored pair for the asked domain and fails for unknown ones.")
def p28(cx):
    e = cx.entry(O, "execute", "SetRemoteGasData")
    m = "msg@SetRemoteGasData.config"
    cx.exact(e, [OWNER, "!(%s.token_exchange_rate == 0)" % m])
    cx.stored(e, "m", "remote_gas_data", "store(map0(remote_gas_data), %s.remote_domain, RemoteGasData{token_exchange_rate: %s.token_exchange_rate, gas_price: %s.gas_price})" % (m, m, m))
    cx.untouched(e, {"remote_gas_data"})
    e = cx.entry(O, "execute", "SetRemoteGasDataConfigs")
    ms = "msg@SetRemoteGasDataConfigs.configs"
    m = ms + "[#1]"
    cx.exact(e, [OWNER, "forall(%s, 1, !(%s.token_exchange_rate == 0))" % (ms, m)])
    cx.stored(e, "m", "remote_gas_data", "storeall(%s, 1, map0(remote_gas_data), %s.remote_domain, RemoteGasData{token_exchange_rate: %s.token_exchange_rate, gas_price: %s.gas_price})" % (ms, m, m, m))
    cx.untouched(e, {"remote_gas_data"})
    cx.exact(cx.entry(O, "instantiate"), ["valid_addr(msg.owner)"])
    q = next((x for x in cx.entries(O, "query") if x.variant.startswith("Oracle")), None)
    if q is None:
        cx.fail("anchor", "oracle query", "not found")
        return
    a = "at(map0(remote_gas_data), msg@Oracle.0.dest_domain)"
    cx.exact(q, [a + " is Some"])
    ret(cx, q, "GetExchangeRateAndGasPriceResponse", {"gas_price": a + "@Some.0.gas_price", "exchange_rate": a + "@Some.0.token_exchange_rate"})
    for e in others(cx, O):
        if e.ok is not None:
            expect_msgs(cx, e, lambda f: [])
