"""Events: what indexers, relayers and explorers are told."""
from .registry import check
from .lib import *
from .mailbox import DISP
from . import igp
from engine import terms as tm
from engine.interp import assume, State

I_ = I


def plain(t):
    """term with the integer-to-text markers removed (all of them decimal)"""
    while t.op == "call" and t.a[0] == "display":
        t = t.a[1][0]
    if t.op == "phi":
        return tm.PHI([(d, plain(v)) for d, v in t.a[0]])
    if t.op == "call" and t.a[0] in ("concat", "jsonstr"):
        return mk("call", t.a[0], tuple(plain(x) for x in t.a[1]))
    if t.op == "fold" and t.a[2] is tm.EMPTY:
        # texts appended one by one, with a separator once something is there: the joined text
        n, h, _, u = t.a
        acc = mk("accb", h)
        none = EQ(tm.LEN(acc), I(0))
        lv = mk("lv", -1)
        first, later = (resolve_deep({none: b}, tm.subst(u, {mk("bv", h): lv})) for b in (True, False))
        parts = list(later.a[0]) if later.op == "cat" else []
        if len(parts) == 3 and parts[0] is acc and first in (parts[2], tm.CAT([acc, parts[2]])) and not {acc} & set(tm.subterms(parts[2])):
            return plain(mk("call", "concat", (tm.MAP(n, lv, parts[2]), parts[1])))
    if t.op == "map":
        return mk("map", *[plain(x) if isinstance(x, T) else x for x in t.a])
    if t.op == "seq":
        return mk("seq", tuple(plain(x) for x in t.a[0]))
    if t.op == "cat":
        return mk("cat", tuple(plain(x) for x in t.a[0]))
    return t


def attribute(f, evs, ty, key):
    """values of the attribute in the (resolved) event list"""
    x = resolve_deep(f, evs)
    out = []
    if not ty:   # the response's own attributes
        return [spec.field(a, None, "value") for a in (x.a[0] if x.op == "seq" else []) if spec.field(a, None, "key") is tm.BYTES(key.encode())]
    for ev in (x.a[0] if x.op == "seq" else []):
        if ev.op == "adt" and spec.field(ev, None, "ty") is tm.BYTES(ty.encode()):
            at = resolve_deep(f, spec.field(ev, None, "attributes"))
            for a in (at.a[0] if at.op == "seq" else []):
                if spec.field(a, None, "key") is tm.BYTES(key.encode()):
                    out.append(spec.field(a, None, "value"))
    return out


def told(cx, e, evs, ty, key, want, facts=None, lab=""):
    f0 = e.facts if facts is None else facts
    w = plain(want)
    inst = "%s[%s%s] event %s.%s" % (e.path, e.variant, lab, ty, key)
    bad = ""
    for f in cases(f0, skeleton(evs)):
        vs = attribute(f, evs, ty, key)
        if not vs:
            bad = "is missing"
        for v in vs:
            if not same(f, plain(v), w):
                bad = "is %s, expected %s" % (tm.show(v)[:200], tm.show(want)[:200])
    cx.ob("event", inst, not bad, bad, cx.where(e))


SENDER, OWNER_ = {"sender": "info.sender"}, {"owner": "info.sender"}
PD = "msg@PostDispatch.0"
DOM, MID = "be(%s.message[41..45])" % PD, "hex(keccak(%s.message))" % PD
DM = "msg@Dispatch.0"
TR = "msg@TransferRemote"
PROCESS = "msg@Process.message"
MODE = "if(msg.token is Bridged, 'bridged', 'collateral')"
TABLE = [
    ("hpl_mailbox", "execute", "Dispatch", {
        "mailbox_dispatch_id": {"message_id": "hex(ID)"},
        "mailbox_dispatch": {"sender": "hex(SENDER)", "destination": DM + ".dest_domain", "recipient": "hex(%s.recipient_addr)" % DM, "message": "hex(M)"}}, DISP),
    ("hpl_mailbox", "execute", "Process", {
        "mailbox_process_id": {"message_id": "hex(keccak(%s))" % PROCESS},
        "mailbox_process": {"origin": "be(%s[5..9])" % PROCESS, "sender": "hex(%s[9..41])" % PROCESS, "recipient": "hex(%s[45..77])" % PROCESS}}, None),
    ("hpl_mailbox", "execute", "SetDefaultIsm", {"mailbox_default_ism_set": {"owner": "info.sender", "new_default_ism": "msg@SetDefaultIsm.ism"}}, None),
    ("hpl_mailbox", "execute", "SetDefaultHook", {"mailbox_default_hook_set": {"owner": "info.sender", "new_default_hook": "msg@SetDefaultHook.hook"}}, None),
    ("hpl_mailbox", "execute", "SetRequiredHook", {"mailbox_required_hook_set": {"owner": "info.sender", "new_required_hook": "msg@SetRequiredHook.hook"}}, None),
    ("hpl_hook_merkle", "execute", "PostDispatch", {
        "hpl_hook_merkle::post_dispatch": {"message_id": "hex(keccak(msg.0.message))", "index": "item(message_tree)@Some.0.count"},
        "hpl_hook_merkle::inserted_into_tree": {"index": "item(message_tree)@Some.0.count"}}, None),
    ("hpl_hook_aggregate", "execute", "PostDispatch", {"hpl_hook_aggregate::post_dispatch": {"message_id": MID}}, None),
    ("hpl_hook_fee", "execute", "PostDispatch", {"hpl_hook_fee::post_dispatch": {"paid_denom": "info.funds[0].denom", "paid_amount": "info.funds[0].amount"}}, None),
    ("hpl_hook_fee", "execute", "FeeHook.SetFee", {"hpl_hook_fee::set_fee": {"fee_denom": "msg@FeeHook.0@SetFee.fee.denom", "fee_amount": "msg@FeeHook.0@SetFee.fee.amount"}}, None),
    ("hpl_hook_routing", "execute", "PostDispatch", {"hpl_hook_routing::post_dispatch": {"domain": DOM, "route": "at(map0(routes), %s)@Some.0" % DOM, "message_id": MID}}, None),
    ("hpl_hook_routing_fallback", "execute", "PostDispatch", {"hpl_hook_routing::post_dispatch": {
        "domain": DOM, "route": "if(at(map0(routes), D) is Some, at(map0(routes), D)@Some.0, item(fallback_hook)@Some.0)", "message_id": MID}}, {"D": DOM}),
    ("hpl_hook_routing_fallback", "execute", "SetFallbackHook", {"hpl_hook_routing::set_fallback_hook": {"sender": "info.sender", "fallback-hook": "msg@SetFallbackHook.hook"}}, None),
    ("hpl_hook_routing_custom", "execute", "PostDispatch", {"hpl_hook_routing_custom::post_dispatch": {
        "domain": DOM, "route": "if(CU is Some, CU@Some.0, at(map0(routes), D)@Some.0)", "message_id": MID}},
        {"D": DOM, "CU": "at(map0(custom_hooks), (D, %s.message[45..77]))" % PD}),
    ("hpl_igp", "execute", "PayForGas", {"igp-core-pay-for-gas": {
        "sender": "info.sender", "dest_domain": "msg@PayForGas.dest_domain", "message_id": "hex(msg@PayForGas.message_id)", "gas_amount": "msg@PayForGas.gas_amount"}}, None),
    ("hpl_igp", "execute", "PostDispatch", {"igp-core-pay-for-gas": {
        "sender": "info.sender", "dest_domain": DOM, "message_id": MID, "gas_amount": igp.gas_of(PD)},
        "igp-core-post-dispatch": {"message": "hex(%s.message)" % PD}}, None),
    ("hpl_igp", "execute", "Claim", {"igp-core-claim": {"beneficiary": "item(beneficiary)@Some.0", "collected": "query_balance(env.contract.address, item(gas_token)@Some.0)@Ok.0"}}, None),
    ("hpl_igp", "execute", "SetDefaultGas", {"igp-core-set-default-gas": {"owner": "info.sender", "default-gas": "msg@SetDefaultGas.gas"}}, None),
    ("hpl_igp", "execute", "SetBeneficiary", {"igp-core-set-beneficiary": {"owner": "info.sender", "beneficiary": "msg@SetBeneficiary.beneficiary"}}, None),
    ("hpl_igp_oracle", "execute", "SetRemoteGasData", {"set-gas-config": {"domain": "msg@SetRemoteGasData.config.remote_domain"}}, None),
    ("hpl_ism_routing", "execute", "Set", {"hpl_ism_routing::set": {"sender": "info.sender", "domain": "msg@Set.ism.domain", "ism": "msg@Set.ism.address"}}, None),
    ("hpl_ism_multisig", "execute", "SetValidators", {"ism_multisig_set_validators": {"sender": "info.sender",
        "domain": "msg@SetValidators.domain", "validators": "len(msg@SetValidators.validators)", "threshold": "msg@SetValidators.threshold"}}, None),
    ("hpl_ism_multisig", "execute", "UnsetDomain", {"ism_multisig_unset_domain": {"domain": "msg@UnsetDomain.domain"}}, None),
    ("hpl_validator_announce", "execute", "", {"validator-announcement": {"sender": "info.sender", "validator": "hex(msg.validator)", "storage-location": "msg.storage_location"}}, None),
    ("hpl_hook_aggregate", "instantiate", "", {"hpl_hook_aggregate::initialize": {"sender": "info.sender", "owner": "msg.owner", "hooks": "concat(msg.hooks, ',')"}}, None),
    ("hpl_hook_aggregate", "execute", "SetHooks", {"hpl_hook_aggregate::set_hooks": {"sender": "info.sender", "hooks": "concat(msg@SetHooks.hooks, ',')"}}, None),
    ("hpl_hook_fee", "instantiate", "", {"hpl_hook_fee::initialize": {"sender": "info.sender", "owner": "msg.owner", "fee_denom": "msg.fee.denom", "fee_amount": "msg.fee.amount"}}, None),
    ("hpl_hook_fee", "execute", "FeeHook.Claim", {"hpl_hook_fee::claim": {}}, None),
    ("hpl_hook_merkle", "instantiate", "", {"hpl_hook_merkle::initialize": {"sender": "info.sender", "mailbox": "msg.mailbox"}}, None),
    ("hpl_hook_routing_fallback", "instantiate", "", {"hpl_hook_routing::initialize": {"sender": "info.sender", "owner": "msg.owner"}}, None),
    ("hpl_igp", "instantiate", "", {"hpl_igp_core::initialize": {"sender": "info.sender", "owner": "msg.owner", "beneficiary": "msg.beneficiary", "default_gas": "msg.default_gas_usage"}}, None),
    ("hpl_igp", "execute", "PostDispatch", {"igp-core-post-dispatch": {"metadata": "if(len(%s.metadata) == 0, '0x', hex(%s.metadata))" % (PD, PD)}}, None),
    ("hpl_igp", "execute", "SetGasForDomain", {"igp-core-set-gas-for-domain": {
        "owner": "info.sender", "domains": "concat(map(msg@SetGasForDomain.config, 1, display(msg@SetGasForDomain.config[#1].0)), ',')"}}, None),
    ("hpl_igp", "execute", "UnsetGasForDomain", {"igp-core-unset-gas-for-domain": {
        "owner": "info.sender", "domains": "concat(map(msg@UnsetGasForDomain.domains, 1, display(msg@UnsetGasForDomain.domains[#1])), ',')"}}, None),
    ("hpl_igp_oracle", "instantiate", "", {"init-igp-gas-oracle": {"owner": "msg.owner"}}, None),
    ("hpl_igp_oracle", "execute", "SetRemoteGasDataConfigs", {"set-gas-configs": {
        "owner": "info.sender", "domains": "concat(map(msg@SetRemoteGasDataConfigs.configs, 1, display(msg@SetRemoteGasDataConfigs.configs[#1].remote_domain)), ',')"}}, None),
    ("hpl_ism_aggregate", "instantiate", "", {"hpl_ism_aggregate::instantiate": {
        "sender": "info.sender", "owner": "msg.owner", "isms": "concat(msg.isms, ',')", "threshold": "msg.threshold"}}, None),
    ("hpl_ism_aggregate", "execute", "SetIsms", {"hpl_ism_aggregate::set_isms": {"isms": "concat(msg@SetIsms.isms, ',')"}}, None),
    ("hpl_ism_routing", "execute", "Unset", {"hpl_ism_routing::unset": {
        "sender": "info.sender", "domains": "concat(map(msg@Unset.domains, 1, display(msg@Unset.domains[#1])), ',')"}}, None),
    ("hpl_mailbox", "instantiate", "", {"mailbox_instantiated": {"owner": "msg.owner"}}, None),
    ("hpl_validator_announce", "instantiate", "", {"init-validator-announce": {
        "creator": "info.sender", "mailbox": "msg.mailbox", "local-domain": "query(msg.mailbox, mailbox::QueryMsg::Mailbox{0: MailboxQueryMsg::LocalDomain})@Ok.0.local_domain"}}, None),
    ("hpl_warp_cw20", "instantiate", "", {"hpl_warp_cw20::instantiate": {
        "sender": "info.sender", "owner": "msg.owner", "mode": MODE, "denom": "if(msg.token is Bridged, msg.token@Bridged.0.init_msg.name, msg.token@Collateral.0.address)"}}, None),
    ("hpl_warp_native", "instantiate", "", {"hpl_warp_native::instantiate": {
        "sender": "info.sender", "owner": "msg.owner", "mode": MODE,
        "denom": "if(msg.token is Bridged, cat['factory/', env.contract.address, '/', msg.token@Bridged.0.denom], msg.token@Collateral.0.denom)"}}, None),
    ("hpl_warp_cw20", "reply", "", {"hpl_warp_cw20::reply-init": {"new_token": "TOKEN"}}, {"TOKEN": "instantiate_response(msg.result@Ok.0.data@Some.0)@Ok.0.contract_address"}),
    ("hpl_warp_native", "reply", "", {"hpl_warp_native::reply-init": {"denom": "TOKEN"}}, {"TOKEN": "decode(msg.result@Ok.0.data@Some.0)@Ok.0.new_token_denom"}),
]
TABLE.append(("hpl_ism_multisig", "instantiate", "", {"": {"method": "'instantiate'"}}, None))
TABLE.append(("hpl_ism_routing", "instantiate", "", {"": {"method": "'instantiate'", "owner": "msg.owner"}}, None))
for c in ("hpl_hook_pausable", "hpl_hook_routing", "hpl_hook_routing_custom", "hpl_ism_pausable"):
    TABLE.append((c, "instantiate", "", {c + "::initialize": {"sender": "info.sender", "owner": "msg.owner"}}, None))
for act, name in (("Register", "register"), ("Clear", "clear")):
    for v, keys in (("%sCustomHook", "[cat[display(MSG.dest_domain), ':', MSG.recipient]]"), ("%sCustomHooks", "map(MSG, 1, cat[display(MSG[#1].dest_domain), ':', MSG[#1].recipient])")):
        v = v % act
        TABLE.append(("hpl_hook_routing_custom", "execute", v, {"hpl_hook_routing_custom::" + name: {
            "sender": "info.sender", "keys": "jsonstr(%s)" % keys.replace("MSG", "msg@%s.0" % v)}}, None))
for c in ("hpl_warp_cw20", "hpl_warp_native"):
    TABLE += [
        (c, "execute", "Handle", {c + "::handle": {
            "recipient": "bech32_encode(item(hrp)@Some.0, msg@Handle.0.body[0..32])@Ok.0", "token": "item(token)@Some.0", "amount": "be(msg@Handle.0.body[32..64])"}}, None),
        (c, "execute", "TransferRemote", {c + "::transfer-remote": dict(
            {"sender": "info.sender", "recipient": "hex(%s.recipient)" % TR, "token": "item(token)@Some.0", "amount": TR + ".amount"},
            hook="if(%s.hook is Some, %s.hook@Some.0, '')" % (TR, TR), metadata="hex(if(%s.metadata is Some, %s.metadata@Some.0, ''))" % (TR, TR),
            **({"dest_domain": TR + ".dest_domain"} if c.endswith("cw20") else {}))}, None),
    ]


@check("P38", 240, "The events of every successful execution are computed as terms and, attribute by attribute, compared with what was stored, sent, paid or decided "
       "by the same execution: message ids must be the hash of the message's bytes, domains and senders its fields, routes the ones chosen, amounts the ones moved, gas payments "
       "(per case of the payment) the price, the payment and the excess; ownership, pause and route events the caller and the given values.")
def p38(cx):
    for c, kind, variant, evs, env in TABLE:
        e = cx.entry(c, kind, variant) if variant else next((x for x in cx.entries(c) if x.kind == kind), None)
        if e is None or e.ok is None:
            cx.fail("event", "%s %s" % (c, variant), "entry point not found or never succeeds")
            continue
        spec.ROOTS = e.roots
        for ty, at in evs.items():
            if not at:
                x = resolve_deep(e.facts, events(e))
                ok = x.op == "seq" and any(ev.op == "adt" and spec.field(ev, None, "ty") is tm.BYTES(ty.encode()) for ev in x.a[0])
                cx.ob("event", "%s[%s] event %s" % (e.path, e.variant, ty), ok, "" if ok else "is missing", cx.where(e))
            for k, w in at.items():
                told(cx, e, events(e) if ty else rfield(e.ok, "attributes"), ty, k, cx.t(w, env))
    for c in sorted(cx.contracts()):
        for e in cx.entries(c, "execute"):
            if e.ok is None:
                continue
            v = e.variant
            p = v.split(".")
            spec.ROOTS = e.roots
            m = "msg@%s.0@%s" % tuple(p) if len(p) == 2 else ""
            if p[0] in ("Ownable", "Ownership") and len(p) == 2:
                ty = {"InitOwnershipTransfer": "init", "RevokeOwnershipTransfer": "revoke", "ClaimOwnership": "claim"}.get(p[1])
                if ty:
                    told(cx, e, events(e), "hpl_ownable::" + ty, "owner", cx.t("info.sender"))
                    if ty == "init":
                        told(cx, e, events(e), "hpl_ownable::init", "next_owner", cx.t(m + ".next_owner"))
            elif p[0] == "Pausable":
                told(cx, e, events(e), "hpl_pausable::" + p[1].lower(), "sender", cx.t("info.sender"))
            elif p[0] == "Router":
                ty = "hpl_router::set_route" + ("s" if p[1] == "SetRoutes" else "")
                told(cx, e, events(e), ty, "sender", cx.t("info.sender"))
                told(cx, e, events(e), ty, "set", cx.t("jsonstr(%s.set)" % m))
            elif p[0] == "Connection":
                k = p[1][3:].lower()
                told(cx, e, events(e), "hpl_connection::set_" + k, k, cx.t("%s.%s" % (m, k)))
    gas_payment(cx)


def gas_payment(cx):
    for v, dom, gas in (("PayForGas", "msg@PayForGas.dest_domain", "msg@PayForGas.gas_amount"), ("PostDispatch", DOM, igp.gas_of(PD))):
        e = cx.entry("hpl_igp", "execute", v)
        if e is None or e.ok is None:
            cx.fail("event", "igp " + v, "entry point not found or never succeeds")
            continue
        pr, oq = igp.price(cx, e, dom, None)
        if not cx.ob("event", v + " asks the oracle for its price", pr is not None, "no such query", cx.where(e)):
            continue
        for f0, g, go in igp.split_gas(cx, e, cx.t(gas)):
            want = pr(g)
            for paid in (True, False):
                s = State()
                s.facts = dict(f0)
                if not assume(s, cx.t("len(info.funds) == 0"), not paid):
                    continue
                f1, go1 = specialise(s.facts)
                if f1 is None:
                    continue
                pay = cx.t("info.funds[0].amount") if paid else I_(0)
                lab = "; gas %s; %s" % (tm.show(g, 0, 4), "paid" if paid else "nothing attached")
                ev = go1(go(events(e)))
                for k, w in (("gas_required", want), ("payment", pay), ("gas_refunded", tm.SUB(pay, want) if paid else I_(0))):
                    if not paid and k == "gas_required":
                        w = I_(0) if holds(f1, tm.EQ(want, I_(0))) else want
                    told(cx, e, ev, "igp-core-pay-for-gas", k, w, f1, lab)
