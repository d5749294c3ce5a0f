"""Deployment tools: the messages the TypeScript tools send are ones the contracts accept."""
from .registry import check
from .lib import *
from .wire import wire, parse, entry_type, LEAF, OPT, BOXES, text
import glob
import json
import os
import re
import subprocess

TS = os.environ.get("HPLSA_TYPESCRIPT", "/opt/veriftools/node/node_modules/typescript")
HERE = os.path.dirname(os.path.abspath(__file__))
NUM = {"u8", "u16", "u32", "u64"}
COIN = {"denom": ("str", True), "amount": ("num128", True)}


def read(cx):
    from engine import dump
    r = subprocess.run(["node", os.path.join(HERE, "ts", "deploy.cjs"), dump.REPO, TS], capture_output=True, text=True)
    if r.returncode:
        cx.fail("read", "deployment tools", "cannot be analysed: " + r.stderr[-500:], "script")
        return None
    return json.loads(r.stdout)


def misfit(w, t, s, at="message"):
    """why a value of the TypeScript shape s is not read as the message type t; '' when it is (or cannot be told)"""
    k = s["k"]
    if k == "any":
        return ""
    if k == "union":
        return next((x for x in (misfit(w, t, y, at) for y in s["of"]) if x), "")
    p, a = t
    if p in BOXES:
        return misfit(w, a[0], s, at)
    if p == OPT:
        return "" if k == "none" else misfit(w, a[0], s, at)
    lf = LEAF.get(p) or (p if p in ("u128",) else None)
    if lf == "custom":
        return ""
    if lf:
        want = "number" if lf in NUM else "bool" if lf == "bool" else "str"
        return "" if k == want else "%s: a %s is given where the contract reads %s" % (at, {"str": "string", "obj": "object", "arr": "list", "none": "missing value"}.get(k, k), lf)
    if p in ("alloc::vec::Vec", "["):
        if k == "arr":
            return misfit(w, a[0], s["of"], at + "[]")
        if k == "tuple":
            return next((x for x in (misfit(w, a[0], y, at + "[]") for y in s["of"]) if x), "")
        return "%s: a %s is given where the contract reads a list" % (at, k)
    if p == "(":
        if k == "tuple" and len(s["of"]) == len(a):
            return next((x for x in (misfit(w, q, y, at) for q, y in zip(a, s["of"])) if x), "")
        return "" if k == "arr" else "%s: a %s is given where the contract reads a tuple" % (at, k)
    if p == "cosmwasm_std::coin::Coin":
        return record(w, {n: (parse(x), need) for n, (x, need) in COIN.items()}, s, at)
    vs = w.variants(t)
    if vs is not None:
        if k == "str":
            return "" if "v" not in s or s["v"] in vs and vs[s["v"]][0] == "unit" else "%s: no variant %r" % (at, s["v"])
        if k != "obj":
            return "%s: a %s is given where the contract reads one of its variants" % (at, k)
        names = [n for n, f in s["f"].items() if f["t"]["k"] != "none"]
        if len(names) != 1:
            return "%s: exactly one variant must be named, not %s" % (at, ", ".join(names) or "none")
        n = names[0]
        if n not in vs:
            return "%s: the contract has no %r" % (at, n)
        kind, x = vs[n]
        v = s["f"][n]["t"]
        if kind == "new":
            return misfit(w, x, v, at + "." + n)
        if kind == "struct":
            return record(w, {m: (f.t, f.t[0] != OPT and f.need) for m, f in x.items()}, v, at + "." + n)
        return ""
    fs = w.fields(t)
    if fs is not None:
        return record(w, {m: (f.t, f.t[0] != OPT and f.need) for m, f in fs.items()}, s, at)
    return ""


def record(w, fs, s, at):
    if s["k"] == "any":
        return ""
    if s["k"] == "union":
        return next((x for x in (record(w, fs, y, at) for y in s["of"]) if x), "")
    if s["k"] != "obj":
        return "%s: a %s is given where the contract reads fields" % (at, s["k"])
    for n, f in s["f"].items():
        if f["t"]["k"] == "none":
            continue
        if n not in fs:
            return "%s: the contract knows no field %r" % (at, n)
        x = misfit(w, fs[n][0], f["t"], at + "." + n)
        if x:
            return x
    for n, (t, need) in fs.items():
        if need and (n not in s["f"] or s["f"][n]["t"]["k"] == "none"):
            return "%s: the contract needs the field %r" % (at, n)
    return ""


# field of a message -> (what its value is read from, what it must not be read from instead)
FROM = [
    (r"set_default_ism\.ism$", {"isms", "ism"}, {"hooks", "core"}),
    (r"set_default_hook\.hook$", {"default"}, {"required", "isms", "core"}),
    (r"set_required_hook\.hook$", {"required"}, {"default", "isms", "core"}),
    (r"set_fallback_hook\.hook$", {"fallback", "fallback_hook"}, {"hooks", "default"}),
    (r"\.token_exchange_rate$", {"exchange_rate", "token_exchange_rate"}, {"gas_price", "default_gas_usage"}),
    (r"\.gas_price$", {"gas_price"}, {"exchange_rate", "token_exchange_rate", "default_gas_usage"}),
    (r"\.default_gas_usage$", {"default_gas_usage"}, {"gas_price", "exchange_rate"}),
    (r"\.threshold$", {"threshold"}, {"domain", "length"}),
    (r"\.mailbox$", {"mailbox"}, {"validator_announce", "isms", "hooks"}),
    (r"\.hrp$", {"hrp"}, {"id", "signer"}),
    (r"fee\.amount$", {"amount"}, {"denom"}),
    (r"fee\.denom$", {"denom"}, {"amount"}),
]


def leaves(s, at="message"):
    if s["k"] == "obj":
        for n, f in s["f"].items():
            yield at + "." + n, f["from"], f["t"]
            yield from leaves(f["t"], at + "." + n)
    elif s["k"] == "arr":
        yield from leaves(s["of"], at)
    elif s["k"] in ("union", "tuple"):
        for x in s["of"]:
            yield from leaves(x, at)


def json_shape(v):
    if isinstance(v, bool):
        return {"k": "bool"}
    if isinstance(v, (int, float)):
        return {"k": "number"}
    if isinstance(v, str):
        return {"k": "str", "v": v}
    if isinstance(v, list):
        return {"k": "tuple", "of": [json_shape(x) for x in v]}
    if isinstance(v, dict):
        return {"k": "obj", "f": {k: {"t": json_shape(x), "opt": False, "from": None} for k, x in v.items()}}
    return {"k": "none"}


def examples(cx, w):
    """the example route configurations: their token settings are read by the route contract they are for"""
    from engine import dump
    for f in sorted(glob.glob(os.path.join(dump.REPO, "example", "warp", "*.json"))):
        name = os.path.relpath(f, dump.REPO)
        try:
            d = json.load(open(f))
        except ValueError as x:
            cx.fail("example", name, "is not JSON: %s" % x, name)
            continue
        c = "hpl_warp_%s" % d.get("type")
        t = entry_type(cx, c, "instantiate") if c in cx.contracts() else None
        fs = t and w.fields(t)
        if not cx.ob("example", "%s names a kind of route" % name, bool(fs and "token" in fs), "no contract %s" % c, name):
            continue
        x = misfit(w, fs["token"].t, json_shape(d.get("config")), "config")
        cx.ob("example", "%s is accepted by %s" % (name, c), not x, x, name)
        ok = d.get("mode") in (d.get("config") or {})
        cx.ob("example", "%s is in the mode it says" % name, ok, "" if ok else "mode %r, settings for %s" % (d.get("mode"), list(d.get("config") or {})), name)


def crates():
    from engine import dump
    out = set()
    for f in glob.glob(os.path.join(dump.REPO, "contracts", "*", "*", "Cargo.toml")):
        m = re.search(r'^name\s*=\s*"([^"]+)"', open(f).read(), re.M)
        if m:
            out.add(m.group(1).replace("-", "_"))
    return out


@check("P48", 20, "The deployment tools' TypeScript is read with the TypeScript compiler's type checker: for every message handed to a contract (instantiation, execution, migration) the "
       "message's inferred type is compared, field by field, with the wire shape of the addressed contract's message type, which is derived from the contract's compiled "
       "serialisation code; values whose field fixes where they come from are traced to the configuration or deployment entry they are read from.",
       technique="TypeScript type-checker query (static) against message shapes derived from the contracts' compiled serialisation code",
       note="Decided from the inferred types of the tools' message expressions; nothing is run. Values of type any (untyped JSON, unresolved third-party types) are taken to be right; a message whose "
       "target cannot be told statically must be accepted by some contract. Trusted: the TypeScript checker, the derived serialisation code as read by checks/wire.py. How: ",
       bounds="every call site of deployContract, executeContract, executeMultiMsg, MsgExecuteContract.fromJSON and migrate in script/")
def p48(cx):
    d = read(cx)
    if d is None:
        return
    w = wire(cx)
    cs = sorted(cx.contracts())
    known = crates()
    for b in d["bad"]:
        cx.fail("read", b, "does not parse", b.split(":")[0])
    for s in d["sites"]:
        where = "%s, line %d, in %s" % (s["file"], s["line"], s["fn"])
        names = [n for n in s["names"] if n != "*"]
        lab = "%s of %s in %s:%s" % (s["kind"], "/".join(names) or "a contract", s["file"], s["fn"])
        for n in names:
            if n not in known:
                cx.fail("contract", lab, "there is no contract %s" % n, where)
        cand = [c for c in (names if names and len(names) == len(s["names"]) else cs) if c in cs]
        if not cand:
            continue
        why = {}
        for c in cand:
            t = entry_type(cx, c, s["kind"])
            why[c] = misfit(w, t, s["msg"]) if t is not None else "%s has no %s" % (c, s["kind"])
        ok = any(not x for x in why.values())
        first = "; ".join("%s: %s" % (c, x) for c, x in list(why.items())[:3])
        what = ", ".join(sorted(s["msg"].get("f", {}))) if s["msg"]["k"] == "obj" and s["kind"] == "execute" else ""
        cx.ob("accepted", lab + (" (%s)" % what if what else ""), ok, "" if ok else first, where)
        for at, src, t in leaves(s["msg"]):
            if not src or src == ["?"]:
                continue
            for pat, right, wrong in FROM:
                if re.search(pat, at):
                    bad = set(src) & wrong and not set(src) & right
                    cx.ob("source", "%s: %s" % (lab, at), not bad, "" if not bad else "is read from %s" % ".".join(src), where)
    examples(cx, w)
    for n in d["names"]:
        cx.ob("contract", "offered contract %s" % n, n in known, "" if n in known else "there is no such contract", "script/shared/constants.ts")
