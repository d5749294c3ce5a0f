"""Listing queries."""
from .registry import check
from .lib import *
from engine import terms as tm

PAGE = {
    "ASC": "!(Q.order is Some) || Q.order@Some.0 is Asc",
    "FROM": "if(Q.offset is Some, Some{0: exclusive(OFF)}, None)",
    "PG": "take(entries(TABLE, if(ASC, FROM, None), if(ASC, None, FROM), if(ASC, Ascending, Descending)), if(Q.limit is Some, Q.limit@Some.0, 10))",
}
ROUTED = ("hpl_hook_routing", "hpl_hook_routing_custom", "hpl_hook_routing_fallback", "hpl_igp", "hpl_ism_routing", "hpl_warp_cw20", "hpl_warp_native")


def page(q, table, off="Q.offset@Some.0"):
    return {k: v.replace("Q.", q + ".") for k, v in dict(PAGE, TABLE=table, OFF=off, Q=q).items()}


def listing(cx, e, ty, fields, env, conds):
    if e is None:
        return
    q = env["Q"] + "."
    ret(cx, e, ty, {k: v.replace("Q.", q) for k, v in fields.items()}, env, rule="page")
    cx.exact(e, [c.replace("Q.", q) for c in ["!(Q.limit is Some) || Q.limit@Some.0 <= 30"] + conds], env)


@check("P35", 20, "Every listing query is analysed as a term and must equal the specified page: the stored table (for custom hooks: the requested "
       "destination's part) read in the requested direction (ascending if none), strictly after the offset in that direction, cut off at the limit (10 if none), each "
       "record unchanged; it must succeed exactly for limits up to 30. Single-record queries must answer the stored record.")
def p35(cx):
    for c in ROUTED:
        if c not in cx.contracts():
            cx.fail("page", c, "contract not found")
            continue
        if not any(e.kind == "query" and e.variant == "Router.ListRoutes" for e in cx.entries(c)):
            continue
        e = cx.entry(c, "query", "Router.ListRoutes")
        listing(cx, e, "RoutesResponse", {"routes": "map(PG, 1, DomainRouteSet{domain: PG[#1]@Ok.0.0, route: PG[#1]@Ok.0.1})"},
                page("msg@Router.0@ListRoutes", "map0(routes)"), [])
        q = cx.entry(c, "query", "Router.GetRoute")
        ret(cx, q, "RouteResponse", {"route": "DomainRouteSet{domain: msg@Router.0@GetRoute.domain, route: at(map0(routes), msg@Router.0@GetRoute.domain)}"})
        cx.exact(q, []) if q else None
    C = "hpl_hook_routing_custom"
    e = cx.entry(C, "query", "CustomRoutingHook.CustomHooks")
    Q = "msg@CustomRoutingHook.0@CustomHooks"
    listing(cx, e, "CustomHooksResponse", {"custom_hooks": "map(PG, 1, CustomHookResponse{dest_domain: Q.dest_domain, recipient: hex(PG[#1]@Ok.0.0), hook: PG[#1]@Ok.0.1})"},
            page(Q, "prefix(map0(custom_hooks), Q.dest_domain)", "unhex(Q.offset@Some.0)@Ok.0"),
            ["!(Q.offset is Some) || unhex(Q.offset@Some.0) is Ok"])
    e = cx.entry(C, "query", "CustomRoutingHook.CustomHook")
    Q = "msg@CustomRoutingHook.0@CustomHook"
    env = {"R": "unhex(%s.recipient)" % Q, "AT": "at(map0(custom_hooks), (%s.dest_domain, R@Ok.0))" % Q}
    ret(cx, e, "CustomHookResponse", {"dest_domain": Q + ".dest_domain", "recipient": "hex(R@Ok.0)", "hook": "AT@Some.0"}, env)
    cx.exact(e, ["R is Ok", "AT is Some"], env) if e else None
    e = cx.entry("hpl_igp", "query", "Igp.ListGasForDomains")
    listing(cx, e, "GasForDomainResponse", {"gas": "PG"}, page("msg@Igp.0@ListGasForDomains", "map0(gas_for_domain)"), [])
    e = cx.entry("hpl_igp", "query", "Igp.GasForDomain")
    env = {"D": "msg@Igp.0@GasForDomain.domains", "AT": "at(map0(gas_for_domain), D[#1])"}
    ret(cx, e, "GasForDomainResponse", {"gas": "map(D, 1, (D[#1], AT@Some.0))"}, env)
    cx.exact(e, ["forall(D, 1, AT is Some)"], env) if e else None
