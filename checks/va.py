"""Validator announcements."""
from .registry import check
from .lib import *
from .isms import SIGNED
from engine import terms as tm

C = "hpl_validator_announce"
Z = "0x" + "00" * 32
ENV = {
    "MB": "item(mailbox)@Some.0",
    "DOMAIN": "keccak(cat[ube(4, item(local_domain)@Some.0), %s[0..32 - len(MB)], MB, 'HYPERLANE_ANNOUNCEMENT'])" % Z,
    "DIGEST": SIGNED % "keccak(cat[DOMAIN, msg.storage_location])",
    "KEY": "recover(DIGEST, msg.signature[0..64], msg.signature[64] - 27)",
    "ID": "keccak(cat[msg.validator, msg.storage_location])",
    "LOCS": "if(at(map0(storage_locations), msg.validator) is Some, at(map0(storage_locations), msg.validator)@Some.0, '')",
}
HEXT = "cosmwasm_std::hex_binary::HexBinary"


@check("P32", 10, "The announcement entry is analysed as terms: success must be equivalent to `the validator has 20 bytes, this (validator, location) "
       "pair was not announced before, and the key recovered from the signature over the digest of (stored domain, stored mailbox padded to "
       "32 bytes, location) hashes to the validator`; the three tables must gain exactly this validator, pair and location (appended), "
       "nothing else writes them, and the reports must answer the stored tables for the validators asked about.")
def p32(cx):
    e = cx.entry(C, "execute", "Announce")
    if e is None:
        return
    base = ["len(msg.validator) == 20", "!(at(map0(replay_protections), ID) is Some)", "KEY is Ok",
            "msg.validator == keccak(KEY@Ok.0[1..])[12..]"]
    for c, r in ((base[0], "validator-width"), (base[1], "not-yet-announced"), (base[3], "signed-by-validator")):
        cx.guard(e, c, ENV, r)
    cx.accepts(e, base + ["len(msg.signature) == 65"], ENV)
    key = cx.t("msg.validator")
    has = cx.t("at(map0(validators), msg.validator) is Some")
    v = stor(e, "m", "validators")
    ok = True
    for f in cases(e.facts, v, own(has)):
        w = resolve_deep(f, v)
        base = mk("map0", "validators")
        ok = ok and (w.op == "store" and w.a[0] is base and eqv(f, w.a[1], key) or w is base and decide(f, has) is True)
    cx.ob("stored", "announce enrols the announcing validator", ok, "" if ok else "validators becomes " + tm.show(v), cx.where(e))
    v = stor(e, "m", "replay_protections")
    ok = v.op == "store" and v.a[0] is mk("map0", "replay_protections") and same(e.facts, v.a[1], cx.t("ID", ENV))
    cx.ob("stored", "announce records the (validator, location) pair", ok, "" if ok else "replay table becomes " + tm.show(v), cx.where(e))
    cx.stored(e, "m", "storage_locations", "store(map0(storage_locations), msg.validator, cat[LOCS, [msg.storage_location]])", ENV)
    cx.untouched(e, {"validators", "replay_protections", "storage_locations"})
    ms = messages(e)
    cx.ob("silent", "announce sends no messages", ms is tm.EMPTY, tm.show(ms), cx.where(e))
    i = cx.entry(C, "instantiate")
    if i and i.ok is not None:
        env = {"Q": "query(msg.mailbox, mailbox::QueryMsg::Mailbox{0: MailboxQueryMsg::LocalDomain})"}
        cx.stored(i, "i", "mailbox", "Some{0: bech32_decode(msg.mailbox)@Ok.0}")
        cx.stored(i, "i", "local_domain", "Some{0: Q@Ok.0.local_domain}", env)
        cx.exact(i, ["valid_addr(msg.mailbox)", "bech32_decode(msg.mailbox) is Ok", "Q is Ok"], env)
    for x in others(cx, C, {("execute", "Announce"), ("instantiate", "")}):
        if x.ok is None:
            continue
        bad = [k[1] for k in changed(x) if k[1] != "contract_info"]
        cx.ob("announcement-frame", "%s[%s] leaves the announcements unchanged" % (x.path, x.variant), not bad, "changes %s" % bad, cx.where(x))
    q = cx.entry(C, "query", "Mailbox")
    ret(cx, q, "va::MailboxResponse", {"mailbox": "hex(item(mailbox)@Some.0)"})
    q = cx.entry(C, "query", "LocalDomain")
    ret(cx, q, "va::LocalDomainResponse", {"local_domain": "item(local_domain)@Some.0"})
    q = cx.entry(C, "query", "GetAnnouncedValidators")
    ret(cx, q, "GetAnnouncedValidatorsResponse", {"validators": "map(K, 1, hex(K[#1]@Ok.0))"}, {"K": "keysof(map0(validators), None, None, Ascending)"})
    cx.exact(q, []) if q else None
    q = cx.entry(C, "query", "GetAnnounceStorageLocations")
    if q:
        cx.exact(q, [])
        vs = cx.t("msg@GetAnnounceStorageLocations.validators")
        g = rfield(q.ok.a[1], "storage_locations") if q.ok is not None else None
        k = mk("p", "k")
        x = tm.IDX(g, k) if g is not None else None
        ok = g is not None and same(q.facts, tm.LEN(g), tm.LEN(vs))
        cx.ob("reports", "the locations report has one entry per validator asked about", ok, "" if ok else str(g and tm.show(g)), cx.where(q))
        if ok:
            v = tm.IDX(vs, k)
            e2 = {"V": v, "AT": "at(map0(storage_locations), V)"}
            ok = x.op == "tup" and same(q.facts, x.a[0][0], cx.t("hex(V)", e2)) and same(q.facts, x.a[0][1], cx.t("if(AT is Some, AT@Some.0, '')", e2))
            cx.ob("reports", "entry k names validator k and lists exactly its stored locations", ok, "" if ok else tm.show(x), cx.where(q))


def own(c):
    return tm.PHI([(frozenset([frozenset([(c, True)])]), mk("alt", I(1))), (frozenset([frozenset([(c, False)])]), mk("alt", I(0)))])
