"""Reads of inputs that abort the call when the input is too short: no more than the formats guarantee."""
from .lib import *
from engine import terms as tm

HEADER = {"message": 77}
POST = {"message": 77}
HOOK = [("execute", "PostDispatch"), ("query", "Hook.QuoteDispatch")]


def on(cs, kvs, allowed):
    return [(c, k, v, allowed) for c in cs for k, v in kvs]


ROUTING = ("hpl_hook_routing", "hpl_hook_routing_custom", "hpl_hook_routing_fallback")
WARP = ("hpl_warp_cw20", "hpl_warp_native")
# property -> entries and the shortest input each field may be required to be
TABLE = {
    "P36": [("hpl_mailbox", "execute", "Process", HEADER), ("hpl_mailbox", "execute", "Dispatch", {})],
    "P11": [("hpl_ism_multisig", "query", "Ism.Verify", {"message": 77, "metadata": 68})],
    "P13": [("hpl_ism_multisig", "query", "Ism.Verify", {"message": 77, "metadata": 68})],
    "P14": [("hpl_ism_aggregate", "query", "Ism.Verify", {"message": 77, "metadata": 8})],
    "P15": on(["hpl_ism_routing"], [("query", "Ism.Verify"), ("query", "Ism.VerifyInfo"), ("query", "RoutingIsm.Route")], HEADER),
    "P19": on(["hpl_igp"], HOOK, {"message": 77, "metadata": 32}),
    "P20": on(WARP, [("execute", "Handle")], {"body": 64}),
    "P23": on(["hpl_hook_aggregate"], HOOK, HEADER),
    "P24": on(["hpl_hook_merkle"], [("execute", "PostDispatch"), ("query", "Hook.QuoteDispatch")], HEADER),
    "P25": on(["hpl_igp"], HOOK, {"message": 77, "metadata": 32}),
    "P29": on(["hpl_hook_fee"], HOOK, {"message": 77, "funds": 1}),
    "P30": on(ROUTING, HOOK, HEADER),
    "P31": on(["hpl_hook_pausable"], HOOK, HEADER),
    "P32": [("hpl_validator_announce", "execute", "Announce", {"signature": 65})],
}


def input_field(v):
    """the name of the message (or call) field a list is, if it is one as a whole"""
    t, last = v, None
    while t.op == "f":
        if last is None:
            last = t
        t = t.a[0]
    if t.op != "p" or last is None or t.a[0] not in ("msg", "info"):
        return None
    return tm.show(v).split(".")[-1]


def apply(cx, pid):
    for c, kind, variant, allowed in TABLE.get(pid, ()):
        for e in cx.entries(c, kind):
            if e.variant != variant and e.variant.split(".")[-1] != variant or e.ok is None:
                continue
            bad = []
            for (v, n, exact), facts in e.it.reads.items():
                f = input_field(v)
                if f is None or not exact and n <= allowed.get(f, 0):
                    continue
                t = tm.EQ(tm.LEN(v), tm.I(n)) if exact else tm.NOT(tm.LT(tm.LEN(v), tm.I(n)))
                if not holds(facts, t) and not holds(e.facts, t):
                    bad.append("%s must have %s %d bytes" % (tm.show(v), "exactly" if exact else "at least", n))
            cx.ob("reads", "%s %s[%s] needs no longer inputs than the formats guarantee" % (c, kind, e.variant), not bad, "; ".join(bad), cx.where(e))
