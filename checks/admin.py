"""Administration common to all contracts: who may call what, ownership, pausing, migration, routers."""
from .registry import check
from .lib import *
from engine import terms as tm

OWNER = "info.sender == item(owner)@Some.0"

# calls anyone may make, and the only state each of them may change
PUBLIC = {
    "hpl_mailbox": {"Process": {"deliveries"}, "Dispatch": {"nonce", "latest_dispatched_id"}},
    "hpl_validator_announce": {"Announce": {"validators", "storage_locations", "replay_protections"}},
    "hpl_hook_aggregate": {"PostDispatch": set()},
    "hpl_hook_fee": {"PostDispatch": set()},
    "hpl_hook_merkle": {"PostDispatch": {"message_tree"}},
    "hpl_hook_pausable": {"PostDispatch": set()},
    "hpl_hook_routing": {"PostDispatch": set()},
    "hpl_hook_routing_custom": {"PostDispatch": set()},
    "hpl_hook_routing_fallback": {"PostDispatch": set()},
    "hpl_igp": {"PostDispatch": set(), "PayForGas": set(), "Claim": set()},
    "hpl_warp_cw20": {"Handle": set(), "TransferRemote": set()},
    "hpl_warp_native": {"Handle": set(), "TransferRemote": set()},
}


@check("P08", 55, "Every message variant of every contract's execute entry is analysed separately. A variant that is not one of the "
       "enumerated public operations must have a success condition implying that the caller is the stored owner; a public "
       "operation may change only the state its operation is about (so it can never change the owner or configuration).")
def p08(cx):
    for c in CONTRACTS:
        if not cx.entry_fns(c):
            cx.fail("anchor", c, "contract not found")
            continue
        for e in cx.entries(c, "execute"):
            last = e.variant.split(".")[-1]
            if e.ok is None:
                continue
            pub = PUBLIC.get(c, {})
            if last == "ClaimOwnership":
                cx.guard(e, "info.sender == item(pending_owner)@Some.0", rule="claim-by-nominee")
                cx.untouched(e, {"owner", "pending_owner"})
            elif e.variant in pub:
                cx.untouched(e, pub[e.variant], rule="public-call-frame")
            else:
                cx.guard(e, OWNER, rule="owner-only")
    for c in cx.contracts():
        if c not in CONTRACTS:
            for e in cx.entries(c, "execute"):
                cx.guard(e, OWNER, rule="owner-only")


OWNABLE = [c for c in CONTRACTS if c not in ("hpl_hook_merkle", "hpl_validator_announce")]


def by_last(cx, c, kind, last):
    for e in cx.entries(c, kind):
        if e.variant.split(".")[-1] == last:
            return e
    cx.fail("anchor", "%s::%s[%s]" % (c, kind, last), "message variant not found", c)
    return None


@check("P09", 185, "For every contract with an owner: the success condition and final storage of the nominate, revoke and claim calls are "
       "computed as terms and compared with the two-step protocol in both directions (conditions implied by success and success "
       "implied by the conditions); all other calls must leave owner and nominee unchanged; instantiation records the validated "
       "initial owner; the two queries report exactly the stored values.")
def p09(cx):
    for c in OWNABLE:
        pay = lambda e, f: "msg@%s.0@%s.%s" % (e.variant.split(".")[0], e.variant.split(".")[-1], f)
        e = by_last(cx, c, "execute", "InitOwnershipTransfer")
        if e:
            nx = pay(e, "next_owner")
            cx.exact(e, [OWNER, "valid_addr(%s)" % nx, "!(item(pending_owner) is Some)"])
            cx.stored(e, "i", "pending_owner", "Some{0: %s}" % nx)
            cx.untouched(e, {"pending_owner"})
        e = by_last(cx, c, "execute", "RevokeOwnershipTransfer")
        if e:
            cx.exact(e, [OWNER, "item(pending_owner) is Some"])
            cx.stored(e, "i", "pending_owner", "None")
            cx.untouched(e, {"pending_owner"})
        e = by_last(cx, c, "execute", "ClaimOwnership")
        if e:
            cx.exact(e, ["item(pending_owner) is Some", "info.sender == item(pending_owner)@Some.0"])
            cx.stored(e, "i", "owner", "Some{0: info.sender}")
            cx.stored(e, "i", "pending_owner", "None")
            cx.untouched(e, {"owner", "pending_owner"})
        for e in cx.entries(c):
            if e.kind in ("instantiate", "query") or "Ownership" in e.variant or e.ok is None:
                continue
            bad = [k[1] for k in changed(e) if k[1] in ("owner", "pending_owner")]
            cx.ob("ownership-frame", "%s[%s] leaves owner and nominee unchanged" % (e.path, e.variant), not bad, "changes %s" % bad, cx.where(e))
        e = cx.entry(c, "instantiate")
        if e:
            cx.stored(e, "i", "owner", "Some{0: msg.owner}")
            cx.guard(e, "valid_addr(msg.owner)")
            cx.stored(e, "i", "pending_owner", "item(pending_owner)")
        ret(cx, by_last(cx, c, "query", "GetOwner"), "OwnerResponse", {"owner": "item(owner)@Some.0"})
        ret(cx, by_last(cx, c, "query", "GetPendingOwner"), "PendingOwnerResponse", {"pending_owner": "item(pending_owner)"})


@check("P10", 21, "For both pausable contracts: pause, release, the guarded operation and the module verification are analysed as terms; "
       "success of the guarded operation must be equivalent to the stored pause flag being clear, the flag may be changed only by "
       "the owner's pause/release calls (each from the opposite state), and the status query reports the stored flag.")
def p10(cx):
    P = "item(pause)@Some.0"
    for c in ("hpl_hook_pausable", "hpl_ism_pausable"):
        e = cx.entry(c, "execute", "Pausable.Pause")
        cx.exact(e, [OWNER, P + " == 0"])
        cx.stored(e, "i", "pause", "Some{0: 1}")
        cx.untouched(e, {"pause"}) if e else None
        e = cx.entry(c, "execute", "Pausable.Release")
        cx.exact(e, [OWNER, "!(%s == 0)" % P])
        cx.stored(e, "i", "pause", "Some{0: 0}")
        cx.untouched(e, {"pause"}) if e else None
        for e in cx.entries(c):
            if e.kind != "instantiate" and not e.variant.startswith("Pausable.") and e.ok is not None:
                cx.ob("pause-frame", "%s[%s] leaves the pause flag unchanged" % (e.path, e.variant), "pause" not in [k[1] for k in changed(e)], "changes it", cx.where(e))
        e = cx.entry(c, "instantiate")
        cx.stored(e, "i", "pause", "Some{0: msg.paused}")
        cx.exact(e, ["valid_addr(msg.owner)"])
        ret(cx, cx.entry(c, "query", "Pausable.PauseInfo"), "PauseInfoResponse", {"paused": P})
    e = cx.entry("hpl_hook_pausable", "execute", "PostDispatch")
    cx.exact(e, [P + " == 0"])
    e = cx.entry("hpl_ism_pausable", "query", "Ism.Verify")
    if e:
        # verified => not paused ; not paused => verified
        if e.ok is None or e.ok.op not in ("json", "phi"):
            cx.fail("verify", "pausable module verification", "never answers", cx.where(e))
            return
        n = 0
        for f in cases(e.facts, e.ok):
            v = resolve_deep(f, e.ok)
            ver = spec.field(v.a[1], None, "verified") if v.op == "json" else None
            if ver is not None and decide(f, tm.EQ(ver, I(0))) is True:
                ok = holds(f, cx.t("!(%s == 0)" % P))
                cx.ob("verify", "a rejecting answer implies the module is paused", ok, "rejects although not paused", cx.where(e))
                continue
            n += 1
            ok = ver is not None and holds(f, cx.t(P + " == 0"))
            cx.ob("verify", "an accepting answer implies the module is not paused", ok, "accepts %s without checking the flag" % tm.show(v), cx.where(e))
            s = State()
            assume(s, cx.t(P + " == 0"), True)
            bad = [tm.show(t) for t, p in f.items() if isinstance(t, T) and not benign(t, p) and not holds(s.facts, t if p else NOT(t))]
            cx.ob("verify", "an unpaused module accepts", not bad, "also requires %s" % bad, cx.where(e))
        cx.ob("verify", "the module can accept", n > 0, "it never accepts", cx.where(e))


@check("P33", 78, "Every contract's migrate entry: success must be equivalent to the stored contract name being this contract's own name and the "
       "stored version parsing to less than the compiled one; it writes only the version record, with the name instantiation recorded; "
       "names of different contracts are pairwise distinct.")
def p33(cx):
    names = {}
    for c in CONTRACTS:
        e = cx.entry(c, "migrate")
        i = cx.entry(c, "instantiate")
        if not e or not i or e.ok is None:
            continue
        rec = stor(i, "i", "contract_info")
        if not cx.ob("version-record", "%s instantiate records name and version" % c, rec.op == "adt" and rec.a[1] == 1 and rec.a[2][0].op == "adt", tm.show(rec), cx.where(i)):
            continue
        name, ver = spec.field(rec.a[2][0], None, "contract"), spec.field(rec.a[2][0], None, "version")
        other = names.setdefault(name, c)
        cx.ob("distinct-names", "%s has its own recorded name" % c, other == c and name.op == "bytes", "shares name with %s" % other, cx.where(i))
        env = {"N": name, "V": ver}
        cx.exact(e, ["item(contract_info)@Some.0.contract == N", "parse(item(contract_info)@Some.0.version) is Ok", "parse(V) is Ok",
                     "parse(item(contract_info)@Some.0.version)@Ok.0 < parse(V)@Ok.0"], env)
        cx.value(e, "stored version record", stor(e, "i", "contract_info"), rec)
        cx.untouched(e, {"contract_info"})
        ms = messages(e)
        cx.ob("silent", "%s migrate sends no messages" % c, ms is tm.EMPTY or ms.op == "seq" and not ms.a[0], tm.show(ms), cx.where(e))


ROUTERS = ["hpl_hook_routing", "hpl_hook_routing_custom", "hpl_hook_routing_fallback", "hpl_igp", "hpl_warp_cw20", "hpl_warp_native"]


@check("P41", 80, "For every contract with a route table: set calls must require the owner and their final table must be the old table with "
       "exactly the submitted (domain, route) pairs applied; all other calls leave the table unchanged; lookups and the domain "
       "list are computed from the table.")
def p41(cx):
    for c in ROUTERS:
        e = cx.entry(c, "execute", "Router.SetRoute")
        S = "msg@Router.0@SetRoute.set"
        cx.exact(e, [OWNER])
        cx.stored(e, "m", "routes", "store(map0(routes), %s.domain, %s.route)" % (S, S))
        cx.untouched(e, {"routes"}) if e else None
        e = cx.entry(c, "execute", "Router.SetRoutes")
        S = "msg@Router.0@SetRoutes.set"
        cx.exact(e, [OWNER])
        cx.stored(e, "m", "routes", "storeall(%s, 1, map0(routes), %s[#1].domain, %s[#1].route)" % (S, S, S))
        cx.untouched(e, {"routes"}) if e else None
        for e in cx.entries(c):
            if e.variant in ("Router.SetRoute", "Router.SetRoutes") or e.ok is None:
                continue
            cx.ob("route-frame", "%s[%s] leaves the route table unchanged" % (e.path, e.variant), "routes" not in [k[1] for k in changed(e)], "changes it", cx.where(e))
        q = cx.entry(c, "query", "Router.GetRoute")
        D = "msg@Router.0@GetRoute.domain"
        ret(cx, q, "RouteResponse", {"route": "DomainRouteSet{domain: %s, route: at(map0(routes), %s)}" % (D, D)})
        cx.exact(q, []) if q else None
        q = cx.entry(c, "query", "Router.Domains")
        ret(cx, q, "DomainsResponse", {"domains": "keysof(map0(routes), None, None, Ascending)"})
