"""Properties quantifying over every entry of every contract: what may send messages, and what must be answerable."""
from .registry import check
from .lib import *
from engine import terms as tm

# the operations whose purpose is to call someone or to move funds; what they send is decided by the properties named here
SENDERS = {
    "hpl_mailbox": {("execute", "Dispatch"), ("execute", "Process")},                        # P06, P03
    "hpl_hook_aggregate": {("execute", "PostDispatch")},                                      # P31
    "hpl_hook_fee": {("execute", "FeeHook.Claim")},                                           # P29
    "hpl_hook_routing": {("execute", "PostDispatch")},                                        # P30
    "hpl_hook_routing_custom": {("execute", "PostDispatch")},                                 # P30
    "hpl_hook_routing_fallback": {("execute", "PostDispatch")},                               # P30
    "hpl_igp": {("execute", "PostDispatch"), ("execute", "PayForGas"), ("execute", "Claim")},  # P25, P27
    "hpl_warp_cw20": {("execute", "Handle"), ("execute", "TransferRemote"), ("instantiate", "")},    # P20, P21, P43
    "hpl_warp_native": {("execute", "Handle"), ("execute", "TransferRemote"), ("instantiate", "")},  # P20, P21, P43
}


@check("P45", 60, "Every instantiate, execute, migrate and reply entry of every contract, split by message variant: the outgoing message list of "
       "every successful run of an operation that is not one of the enumerated sending operations must be the empty list; the sending operations are decided message by message by P03, P06, P20, P21, P25, "
       "P27, P29, P30, P31 and P43.")
def p45(cx):
    for c in cx.contracts():
        for e in cx.entries(c):
            if e.kind == "query" or e.ok is None or (e.kind, e.variant) in SENDERS.get(c, ()):
                continue
            ms = messages(e)
            bad = None
            for f in cases(e.facts, skeleton(ms)):
                x = resolve_deep(f, ms)
                if not (x is tm.EMPTY or x.op == "seq" and not x.a[0]):
                    bad = tm.show(x)
            cx.ob("silent", "%s[%s] sends no message" % (e.path, e.variant), bad is None, "sends %s" % bad, cx.where(e))


# queries whose answer has preconditions on the question; their conditions are decided by the properties named here
CONDITIONAL = {
    "Hook.QuoteDispatch",                                                                     # P07, P23, P26, P29, P30, P31
    "Ism.Verify", "Ism.VerifyInfo",                                                           # P10-P15
    "Mailbox.DefaultIsm", "Mailbox.DefaultHook", "Mailbox.RequiredHook", "Mailbox.RecipientIsm",  # P39
    "Igp.QuoteGasPayment", "Oracle.GetExchangeRateAndGasPrice",                               # P26, P28
    "MultisigIsm.EnrolledValidators", "RoutingIsm.Route",                                     # P13, P15
    "Router.ListRoutes", "Igp.ListGasForDomains", "Igp.GasForDomain",                         # P35
    "CustomRoutingHook.CustomHook", "CustomRoutingHook.CustomHooks",                          # P35
}
# records a query may find missing after instantiation: the answer then waits for the operation that writes them
WAITS = {"Mailbox.LatestDispatchId": "item(latest_dispatched_id) is Some",
         "TokenDefault": "(msg@TokenDefault.0 is TokenType) && (item(token) is Some) || !(msg@TokenDefault.0 is TokenType) && (item(mode) is Some)"}


@check("P46", 60, "Every query variant of every contract that asks for stored state: its success condition must hold whenever the contract has been "
       "instantiated and the records it names exist, so no answer depends on anything else about the question or the state; the "
       "conditional queries are decided by the properties that specify them.")
def p46(cx):
    for c in cx.contracts():
        for e in cx.entries(c, "query"):
            if e.variant in CONDITIONAL or e.variant.endswith("Placeholder"):
                continue
            cx.exact(e, [WAITS[e.variant]] if e.variant in WAITS else [])
