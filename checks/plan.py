"""What the deployment tools do with a configuration: which contracts are created, how they are connected, what is recorded."""
from .registry import check
from .lib import *
from .deploy import TS, HERE
import json
import os
import re
import subprocess
import tempfile

HOOK = ("script/deploy/hook.ts", "deployHook")
ISM = ("script/deploy/ism.ts", "deployIsm")
H = "cfg.hooks"
I = "cfg.isms"
SIGNER = r"client\.(injective_)?signer"
OWNER = {"own": "cfg.owner"}


def unknown(s):
    """a text part of which could not be read"""
    return bool(re.search(r"(?<! )\?|\?(?! )", s))


def flat(t):
    if t is None:
        return "undefined"
    if t["k"] == "t":
        return t["s"]
    ps = []
    for p in t["parts"]:
        v = "..." + flat(p["spread"]) if "spread" in p else (p["key"] + ": " if "key" in p else "") + flat(p["val"])
        ps.append(v + (" for " + ",".join(p["each"]) if p["each"] else ""))
    return ("[%s]" if t["k"] == "arr" else "{%s}") % ", ".join(ps)


def clean(s):
    """texts that stand for the same value: digits may be written as a number or a string"""
    i = 0
    while True:
        m = re.compile(r"\b(?:num|str|text)\(").search(s, i)
        if not m:
            return s
        d, q = 1, False
        for j in range(m.end(), len(s)):
            c = s[j]
            if c == '"':
                q = not q
            if not q:
                d += c == "("
                d -= c == ")"
            if d == 0:
                break
        s = s[:m.start()] + s[m.end():j] + s[j + 1:]
        i = m.start()


def split(s):
    """the arguments of a term"""
    out, d, q, cur = [], 0, False, ""
    for c in s:
        if c == '"':
            q = not q
        if not q:
            d += c in "([{"
            d -= c in ")]}"
            if c == "," and d == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    return out + [cur.strip()]


def cond(s):
    """(c ? a : b) -> [c, a, b]"""
    if not (s.startswith("(") and s.endswith(")")):
        return None
    d, q, cut = 0, False, []
    b = s[1:-1]
    for i, c in enumerate(b):
        if c == '"':
            q = not q
        if q:
            continue
        d += c in "([{"
        d -= c in ")]}"
        if d == 0 and b[i:i + 3] in (" ? ", " : "):
            cut.append((i, b[i:i + 3]))
    qs = [i for i, x in cut if x == " ? "]
    cs = [i for i, x in cut if x == " : "]
    if not qs or not cs:
        return None
    n, j = 0, None
    for i, x in cut[1:]:
        n += 1 if x == " ? " else -1
        if n < 0:
            j = i
            break
    return [b[:qs[0]], b[qs[0] + 3:j], b[j + 3:]] if j else None


class Out:
    def __init__(self, o):
        self.o = o
        self.end = o["end"]
        self.given = dict((a, b) for a, b in o["assume"])
        self.gone = set(o["gone"])
        self.ret = o["ret"]
        self.fx = o["effects"]
        self.writes = o["writes"]

    def has(self, s):
        """is the value known to be set on this path"""
        if "has " + s in self.given:
            return self.given["has " + s]
        for k, v in self.given.items():
            if k.startswith("has "):
                if not v and s.startswith(k[4:] + "."):
                    return False
                if v and k[4:].startswith(s + "."):
                    return True
        return None

    def resolve(self, s):
        """a value under what the path assumes"""
        s = clean(s)
        c = cond(s)
        if c:
            k = c[0]
            n = k.startswith("not(")
            k = k[4:-1] if n else k
            v = self.given.get(k, self.has(k))
            if v is not None:
                return self.resolve(c[2] if v == n else c[1])
        m = re.fullmatch(r"or\((.*)\)", s, re.S)
        if m:
            a = split(m.group(1))
            if len(a) == 2:
                v = self.has(a[0])
                if v is not None:
                    return self.resolve(a[0] if v else a[1])
        return s

    def fits(self, s, want):
        """is the value s the one wanted (a text, a regular expression, or a choice)"""
        s = self.resolve(s)
        if unknown(s):
            return True
        if callable(want):
            return want(self, s)
        if isinstance(want, dict) and "own" in want:
            w = want["own"]
            k = 'eq(%s, "<signer>")' % w
            c = cond(s)
            if c:
                n = c[0] == "not(%s)" % k
                return (c[0] == k or n) and bool(re.fullmatch(want.get("as", SIGNER), c[2 if n else 1])) and c[1 if n else 2] == w
            g = self.given.get(k)
            return s == w and g is False or bool(re.fullmatch(want.get("as", SIGNER), s)) and g is True
        if isinstance(want, dict) and "or" in want:
            a, b = want["or"]
            h = self.has(a)
            if h is not None:
                return self.fits(s, a if h else b)
            return s in ("or(%s, %s)" % (a, b), "(%s ? %s : %s)" % (a, a, b))
        if isinstance(want, (list, tuple, set)):
            return any(self.fits(s, w) for w in want)
        if hasattr(want, "fullmatch"):
            return bool(want.fullmatch(s))
        return s == clean(want)


def entries(t):
    """fields of a known object: name -> term; None when it is not spelled out"""
    if t is None or t["k"] != "obj":
        return None
    if any("spread" in p for p in t["parts"]):
        return None
    return {p["key"]: p["val"] for p in t["parts"]}


def compare(o, t, want, at):
    """why the value t is not the one wanted; '' when it is"""
    if t is None:
        t = {"k": "t", "s": "undefined"}
    if isinstance(want, dict) and "f" in want:
        if t["k"] == "t":
            return "" if unknown(t["s"]) else "%s is %s" % (at, t["s"][:80])
        fs = entries(t)
        if fs is None:
            return ""
        for n, w in want["f"].items():
            if n not in fs:
                return "%s.%s is not given" % (at, n)
            x = compare(o, fs[n], w, at + "." + n)
            if x:
                return x
        return ""
    if isinstance(want, dict) and "each" in want:
        src, w = want["each"]
        if t["k"] != "arr":
            s = flat(t)
            return "" if unknown(s) else "%s is %s" % (at, s[:80])
        live = [p for p in t["parts"]]
        if src in o.gone or o.has(src) is False:
            return "" if not live else "%s has elements of its own" % at
        hit = [p for p in live if [e for e in p["each"] if not unknown(e)] == [src]]
        if len(hit) != 1 or len(live) != 1:
            return "" if any(unknown(e) for p in live for e in p["each"]) or any(unknown(flat(p.get("val") or p.get("spread"))) for p in live) else "%s does not hold one element for every entry of %s" % (at, src)
        return compare(o, hit[0].get("val") or hit[0].get("spread"), w, at + "[]")
    s = flat(t)
    return "" if o.fits(s, want) else "%s is %s" % (at, s[:120])


# ---- what a message does, one fact per thing set
def facts(o):
    """[(kind, address, sources, {field: text})], and the messages that are none of these"""
    out, rest = [], []

    def listed(kind, addr, each, t, names):
        if t is None:
            return rest.append((kind, addr, "nothing"))
        if t["k"] != "arr":
            return rest.append((kind, addr, flat(t)))
        for p in t["parts"]:
            v = p.get("val") or p.get("spread")
            fs = entries(v)
            out.append((kind, addr, tuple(each + p["each"]), {n: o.resolve(flat(fs[n])) if n in fs else "undefined" for n in names} if fs is not None else {n: "?" for n in names}))

    for e in o.fx:
        if e["kind"] != "exec":
            continue
        c, m, each = o.resolve(e["contract"]), e["msg"], e["each"]
        fs = entries(m)
        if not fs or len(fs) != 1:
            rest.append(("?", c, flat(m)))
            continue
        (n, v), = fs.items()
        g = entries(v)
        inner = g and list(g)[0] if g and len(g) == 1 else None
        if n == "router" and inner == "set_routes":
            listed("route", c, each, (entries(g[inner]) or {}).get("set"), ("domain", "route"))
        elif n == "router" and inner == "set_route":
            fs = entries((entries(g[inner]) or {}).get("set"))
            out.append(("route", c, tuple(each), {x: o.resolve(flat(fs[x])) if fs and x in fs else "?" for x in ("domain", "route")}))
        elif n == "register_custom_hooks":
            listed("custom", c, each, v, ("dest_domain", "recipient", "hook"))
        elif n == "set_fallback_hook":
            out.append(("fallback", c, tuple(each), {"hook": o.resolve(flat((g or {}).get("hook")))}))
        elif n == "set_remote_gas_data_configs":
            listed("gas", c, each, (g or {}).get("configs"), ("remote_domain", "token_exchange_rate", "gas_price"))
        elif n == "set_remote_gas_data":
            fs = entries((g or {}).get("config"))
            out.append(("gas", c, tuple(each), {x: o.resolve(flat(fs[x])) if fs and x in fs else "?" for x in ("remote_domain", "token_exchange_rate", "gas_price")}))
        elif n == "set_validators":
            out.append(("validators", c, tuple(each), {x: o.resolve(flat((g or {}).get(x))) for x in ("domain", "threshold", "validators")}))
        elif n in ("set_default_ism", "set_default_hook", "set_required_hook"):
            out.append((n, c, tuple(each), {"to": o.resolve(flat(list((g or {"": None}).values())[0]))}))
        elif n == "connection" and inner in ("set_ism", "set_hook"):
            out.append((inner, c, tuple(each), {"to": o.resolve(flat(list((entries(g[inner]) or {"": None}).values())[0]))}))
        elif n == "transfer_remote":
            out.append((n, c, tuple(each), {x: o.resolve(flat((g or {}).get(x))) for x in ("dest_domain", "recipient", "amount")}))
        elif n == "ownable":
            continue
        else:
            rest.append((n, c, flat(m)))
    return out, rest


def lists(o, src):
    return not (src in o.gone or o.has(src) is False)


def fact_gap(o, want):
    """why the messages of a path are not the ones wanted (kind, address, sources, fields), '' when they are"""
    got, rest = facts(o)
    vague = any(unknown(x[2]) for x in rest)
    used = set()
    for kind, addr, each, fs in want:
        if not all(lists(o, e) for e in each):
            continue
        hit = None
        near = ""
        for i, (k, a, e, f) in enumerate(got):
            if k != kind:
                continue
            if any(unknown(x) for x in e):
                hit = i
                break
            ok = o.fits(a, addr) and [x for x in e] == [x for x in each]
            bad = [n for n, w in fs.items() if not o.fits(f.get(n, "undefined"), w)]
            if ok and not bad:
                hit = i
                break
            near = near or ("%s is %s" % (bad[0], f.get(bad[0], "undefined")[:90]) if ok and bad else "it is sent to %s" % a[:60] if not o.fits(a, addr) else "it is set for every entry of %s" % (", ".join(e) or "nothing in particular"))
        if hit is None:
            if vague:
                continue
            return "the %s%s is not set as configured%s" % (kind.replace("_", " "), " of every entry of " + " and ".join(each) if each else "", ": " + near if near else "")
        used.add(hit)
    for i, (k, a, e, f) in enumerate(got):
        if i in used or any(unknown(x) for x in e) or any(unknown(x) for x in f.values()):
            continue
        return "a %s is set that is not configured (%s)" % (k, ", ".join("%s %s" % x for x in f.items())[:100])
    return ""


def subs(o):
    return [(re.fullmatch(r"sub\((.*)\)", e["what"]).group(1), tuple(e["each"])) for e in o.fx if e["kind"] == "sub"]


def sub_gap(o, want):
    got = subs(o)
    loose = any(unknown(a) for a, _ in got)
    for a, each in want:
        if not all(lists(o, e) for e in each):
            continue
        n = sum(1 for x, e in got if clean(x) == a and e == each)
        if n != 1 and not loose:
            return "%s is created %s" % (a, "%d times" % n if n else "never")
    for x, e in got:
        if (clean(x), e) not in want and not loose:
            return "%s is created, which is not configured" % x
    return ""


def deploy_gap(o, want):
    """want: {contract name: {field: value}}"""
    got = [e for e in o.fx if e["kind"] == "deploy"]
    if any(e["name"].startswith("?") for e in got):
        return ""
    for n, init in want.items():
        hit = [e for e in got if e["name"] == n]
        if len(hit) != 1 or hit[0]["each"]:
            return "%s is created %s" % (n, "%d times" % len(hit) if len(hit) != 1 else "once per entry of " + hit[0]["each"][0])
        x = compare(o, hit[0].get("init"), {"f": init}, n)
        if x:
            return x
    for e in got:
        if e["name"] not in want:
            return "%s is created, which is not configured" % e["name"]
    return ""


def record_gap(o, name, key=None, want=()):
    """what is recorded: the contract created, and under key one entry per (key text, value text, sources)"""
    r = o.ret
    d = re.compile(r"dep\d+:" + re.escape(name))
    if r is None:
        return "nothing is recorded"
    if r["k"] == "t":
        if unknown(r["s"]):
            return ""
        if not d.fullmatch(r["s"]):
            return "%s is recorded" % r["s"][:80]
        return "" if key is None or not any(all(lists(o, e) for e in w[2]) for w in want) and False else "its %s are not recorded" % key if key else ""
    sp = [flat(p["spread"]) for p in r["parts"] if "spread" in p]
    fs = {p["key"]: p["val"] for p in r["parts"] if "key" in p}
    if any(unknown(x) for x in sp):
        return ""
    if not any(d.fullmatch(x) for x in sp) and not ("address" in fs and d.fullmatch(flat(fs["address"]).rsplit(".", 1)[0])):
        return "the %s created is not recorded" % name
    if key is None:
        return ""
    if key not in fs:
        return "its %s are not recorded" % key
    t = fs[key]
    if isinstance(want, str) or hasattr(want, "fullmatch"):
        return "" if o.fits(flat(t), want) else "its %s is recorded as %s" % (key, flat(t)[:80])
    if t["k"] == "t":
        return "" if unknown(t["s"]) else "its %s are recorded as %s" % (key, re.sub(r"^bad\((.*)\)$", r"\1", t["s"])[:100])
    return parts_gap(o, t, want, "its %s" % key)


def pieces(t, pre=()):
    for p in t["parts"]:
        v = p.get("val") or p.get("spread")
        yield (clean(p["key"]) if "key" in p else None, v, tuple(pre) + tuple(p["each"]), "spread" in p)


def parts_gap(o, t, want, at):
    got = list(pieces(t))
    vague = any(unknown(e) for g in got for e in g[2]) or any(unknown(flat(g[1])) for g in got) or any(g[3] and g[1]["k"] == "t" and not g[1]["s"].startswith("bad(") for g in got)
    bad = next((flat(g[1]) for g in got if flat(g[1]).startswith("bad(")), None)
    if bad:
        return "%s: %s" % (at, bad[4:-1])
    for k, v, each in want:
        if not all(lists(o, e) for e in each):
            continue
        hit = [g for g in got if g[0] == k and g[2] == each]
        if isinstance(v, list):
            if not hit and not vague:
                return "%s: no entry for every %s" % (at, each[-1] if each else k)
            if hit and hit[0][1]["k"] == "obj":
                x = parts_gap(o, hit[0][1], v, at)
                if x:
                    return x
            continue
        if not any(clean(flat(g[1])) == v for g in hit) and not vague:
            near = [g for g in got if g[2] == each]
            return "%s: %s is not recorded%s" % (at, v, " under %s" % k if k else "") + (" but %s%s" % (flat(near[0][1])[:60], " under %s" % near[0][0] if near[0][0] else "") if near else "")
    return ""


# ---- the plans
R = ("sub(item(%s))" % H)
ROUTES = [("route", None, (H,), {"domain": "key(%s)" % H, "route": R + ".address"})]


def addr(name):
    return re.compile(r"dep\d+:%s\.address" % name)


def keys(src):
    """the validators of every domain of src, "<signer>" standing for the signer's own"""
    l = "item(%s).addrs" % src

    def ok(o, s):
        m = re.fullmatch(r"\[(.*) for %s\]" % re.escape(l), s)
        return bool(m) and o.fits(m.group(1), {"own": "item(%s)" % l, "as": r"client\.signer_addr"})
    return ok


def at(name, fs):
    return [(k, addr(name) if a is None else a, e, f) for k, a, e, f in fs]


PLANS = [
    # (function, type, contracts and their settings, parts created, messages, what is recorded)
    (HOOK, "fee", {"hpl_hook_fee": {"owner": OWNER, "fee": {"f": {"denom": {"or": ("cfg.fee.denom", "network.gas.denom")}, "amount": "cfg.fee.amount"}}}}, [], [], ("hpl_hook_fee",)),
    (HOOK, "merkle", {"hpl_hook_merkle": {"mailbox": "ctx.deployments.core.mailbox.address"}}, [], [], ("hpl_hook_merkle",)),
    (HOOK, "mock", {"hpl_test_mock_hook": {}}, [], [], ("hpl_test_mock_hook",)),
    (HOOK, "pausable", {"hpl_hook_pausable": {"owner": OWNER, "paused": [{"or": ("cfg.paused", "false")}, "cfg.paused", "bool(cfg.paused)", "not(not(cfg.paused))"]}}, [], [], ("hpl_hook_pausable",)),
    (HOOK, "igp", {"hpl_igp": {"hrp": "network.hrp", "owner": OWNER, "gas_token": {"or": ("cfg.token", "network.gas.denom")}, "beneficiary": [re.compile(SIGNER), "cfg.beneficiary"],
                               "default_gas_usage": "cfg.default_gas_usage"},
                   "hpl_igp_oracle": {"owner": [OWNER, re.compile(SIGNER)]}}, [],
     [("gas", addr("hpl_igp_oracle"), ("cfg.configs",), {"remote_domain": "key(cfg.configs)", "token_exchange_rate": "item(cfg.configs).exchange_rate", "gas_price": "item(cfg.configs).gas_price"}),
      ("route", addr("hpl_igp"), ("cfg.configs",), {"domain": "key(cfg.configs)", "route": addr("hpl_igp_oracle")})], ("hpl_igp", "oracle", re.compile(r"dep\d+:hpl_igp_oracle"))),
    (HOOK, "aggregate", {"hpl_hook_aggregate": {"owner": OWNER, "hooks": {"each": (H, R + ".address")}}}, [("item(%s)" % H, (H,))], [], ("hpl_hook_aggregate", "hooks", [(None, R, (H,))])),
    (HOOK, "routing", {"hpl_hook_routing": {"owner": OWNER}}, [("item(%s)" % H, (H,))], at("hpl_hook_routing", ROUTES), ("hpl_hook_routing", "hooks", [("key(%s)" % H, R, (H,))])),
    (HOOK, "routing-custom", {"hpl_hook_routing_custom": {"owner": OWNER}}, [("item(%s)" % H, (H,)), ("item(cfg.custom_hooks).hook", ("cfg.custom_hooks",))],
     at("hpl_hook_routing_custom", ROUTES + [("custom", None, ("cfg.custom_hooks",), {"dest_domain": "key(cfg.custom_hooks)", "recipient": "item(cfg.custom_hooks).recipient", "hook": "sub(item(cfg.custom_hooks).hook).address"})]),
     ("hpl_hook_routing_custom", "hooks", [("key(%s)" % H, [("default", R, ())], (H,)), ("key(cfg.custom_hooks)", [("item(cfg.custom_hooks).recipient", "sub(item(cfg.custom_hooks).hook)", ())], ("cfg.custom_hooks",))])),
    (HOOK, "routing-fallback", {"hpl_hook_routing_fallback": {"owner": OWNER}}, [("item(%s)" % H, (H,)), ("cfg.fallback_hook", ())],
     at("hpl_hook_routing_fallback", ROUTES + [("fallback", None, (), {"hook": "sub(cfg.fallback_hook).address"})]),
     ("hpl_hook_routing_fallback", "hooks", [("key(%s)" % H, R, (H,)), ("fallback", "sub(cfg.fallback_hook)", ())])),
    (ISM, "multisig", {"hpl_ism_multisig": {"owner": OWNER}}, [],
     [("validators", addr("hpl_ism_multisig"), ("cfg.validators",), {"domain": "key(cfg.validators)", "threshold": "item(cfg.validators).threshold",
                                                                      "validators": keys("cfg.validators")})],
     ("hpl_ism_multisig",)),
    (ISM, "mock", {"hpl_test_mock_ism": {}}, [], [], ("hpl_test_mock_ism",)),
    (ISM, "aggregate", {"hpl_ism_aggregate": {"owner": OWNER, "isms": {"each": (I, "sub(item(%s)).address" % I)}, "threshold": "cfg.threshold"}}, [("item(%s)" % I, (I,))], [],
     ("hpl_ism_aggregate", "isms", [(None, "sub(item(%s))" % I, (I,))])),
    (ISM, "routing", {"hpl_ism_routing": {"owner": OWNER, "isms": {"each": (I, {"f": {"domain": "key(%s)" % I, "address": "sub(item(%s)).address" % I}})}}}, [("item(%s)" % I, (I,))], [],
     ("hpl_ism_routing", "isms", [("key(%s)" % I, "sub(item(%s))" % I, (I,))])),
]


def ask(cx, reqs):
    from engine import dump
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(reqs, f)
    try:
        r = subprocess.run(["node", os.path.join(HERE, "ts", "plan.cjs"), dump.REPO, TS, f.name], capture_output=True, text=True)
    finally:
        os.unlink(f.name)
    if r.returncode:
        cx.fail("read", "deployment tools", "cannot be analysed: " + r.stderr[-500:], "script")
        return None
    return json.loads(r.stdout)


def outs(cx, ans, name, what):
    a = ans["answers"][name]
    if "error" in a:
        # written in some other function: what it does is judged where it is used, or not at all
        return [Out({"end": "unknown", "assume": [], "gone": [], "ret": None, "effects": [], "writes": []})], "script"
    return [Out(o) for o in a["outs"]], "%s, line %d" % (a["where"]["file"], a["where"]["line"])


def say(o):
    g = [("%s" if v else "no %s") % k[4:] for k, v in o.given.items() if k.startswith("has ") and len(k) < 60]
    return " (with %s)" % ", ".join(g) if g else ""


@check("P50", 60, "The deployment tools' TypeScript is read with the TypeScript compiler and followed along every path over an unknown configuration: loops over configured collections become \"for every entry\", "
       "nested parts become one induction step (the recursive call's result). The contracts created, the messages sent and the record returned on each path are compared with what each configured type calls for.",
       note="Nothing of the tools is run. Values the evaluation cannot follow are taken to be right, and paths it cannot follow are not judged. Trusted: the TypeScript parser and checker, the models of "
       "array and object methods in checks/ts/plan.cjs, deployContract and executeMultiMsg (whose own code is followed separately, rule `sent`). How: ", technique="path-sensitive abstract evaluation of the deployment tools' TypeScript (comprehensions over unknown configurations), compared with the plan each configured type calls for",
       bounds="every type of hook and security module the configuration knows, over configurations of any size and nesting: every path of the functions that carry them out")
def p50(cx):
    req = {}
    for (f, fn), ty, *_ in PLANS:
        req["%s %s" % (fn, ty)] = {"file": f, "fn": fn, "know": {"cfg.type": ty}}
    req["core"] = {"file": "script/commands/deploy.ts", "fn": "deployCore"}
    req["deploy"] = {"file": "script/commands/deploy.ts", "fn": "handleDeploy", "opaque": ["deployHook", "deployIsm"]}
    req["native"] = {"file": "script/deploy/warp.ts", "fn": "deployNativeTokenWarp"}
    req["cw20"] = {"file": "script/deploy/warp.ts", "fn": "deployCw20TokenWarp"}
    req["create"] = {"file": "script/commands/warp.ts", "fn": "handleCreate"}
    req["link"] = {"file": "script/commands/warp.ts", "fn": "handleLink"}
    req["transfer"] = {"file": "script/commands/warp.ts", "fn": "handleTransfer"}
    req["oracle"] = {"file": "script/commands/update.ts", "fn": "handleRegisterIgpOracle"}
    req["multisig"] = {"file": "script/commands/update.ts", "fn": "handleRegisterIsm"}
    for fn in ("deployContract", "executeContract", "executeMultiMsg"):
        req[fn] = {"file": "script/shared/contract.ts", "fn": fn, "wire": True}
    ans = ask(cx, req)
    if ans is None:
        return
    for (f, fn), ty, deps, want_subs, msgs, rec in PLANS:
        what = "%s of type %s" % ("hook" if fn == "deployHook" else "security module", ty)
        os_, where = outs(cx, ans, "%s %s" % (fn, ty), what)
        live = [o for o in os_ if o.end != "throws"]
        if not cx.ob("known", what, bool(live), "" if live else "it cannot be deployed: every path ends in an error", where):
            continue
        for rule, gap in (("created", lambda o: deploy_gap(o, deps)), ("parts", lambda o: sub_gap(o, want_subs)), ("connected", lambda o: fact_gap(o, msgs)), ("recorded", lambda o: record_gap(o, *rec))):
            bad = next(((o, x) for o in live if o.end == "done" for x in [gap(o)] if x), None)
            cx.ob(rule, what, bad is None, "" if bad is None else bad[1] + say(bad[0]), where)
    core(cx, ans)
    whole(cx, ans)
    warps(cx, ans)
    updates(cx, ans)
    sent(cx, ans)


# ---- what reaches the chain
SENDER = r"(client\.)?(injective_)?signer"


def wired(o, p):
    """what one element handed to the chain is: (kind, {field: text}), or None when that cannot be told"""
    v = p.get("val") or p.get("spread")
    s = flat(v) if v is not None else "?"
    if unknown(s):
        return None
    if v["k"] == "obj":
        fs = entries(v)
        return fs and ("execute", {n: flat(x) for n, x in fs.items()})
    m = re.fullmatch(r'msg\("(\w+)", \{(.*)\}\)', s)
    if not m:
        return ("?", {"": s})
    fs = {}
    for a in split(m.group(2)):
        n = re.fullmatch(r"\s*\[(\w+)\]: (.*)", a, re.S)
        if not n:
            return None
        fs[n.group(1)] = n.group(2)
    return m.group(1), fs


def sends(o):
    """[(kind, sources, {field: text})] handed to the chain on a path, None when that cannot be told"""
    out = []
    for e in o.fx:
        a = e.get("args", [])
        if e["kind"] in ("broadcast", "executeMultiple"):
            l = a[0 if e["kind"] == "broadcast" else 1]
            if l["k"] != "arr":
                return None
            for p in l["parts"]:
                w = wired(o, p)
                if w is None or "spread" in p or any(unknown(x) for x in e["each"] + p["each"]):
                    return None
                out.append((w[0], e["each"] + p["each"], w[1]))
        elif e["kind"] in ("execute", "instantiate"):
            t = [flat(x) for x in a]
            if any(unknown(x) for x in t + e["each"]):
                return None
            names = ("sender", "contractAddress", "msg", "fee", "memo", "funds") if e["kind"] == "execute" else ("sender", "codeId", "msg", "label")
            out.append((e["kind"], e["each"], dict(zip(names, t))))
    return out


def plain(s):
    """a message may be handed over as an object or as its JSON text"""
    s = clean(s)
    for _ in range(4):
        m = re.fullmatch(r"(?:toUtf8|JSON\.stringify|\.encode)\((?:new TextEncoder\(\), )?(.*)\)", s)
        if not m:
            break
        s = m.group(1)
    return s


def sent(cx, ans):
    def names(n, k):
        ps = ans["answers"][n].get("params") or []
        return ["cfg" if p in ("deployment", "contract") and n == "executeContract" else p for p in ps][:k]

    def wrong(got, want, mine):
        for f, w in want.items():
            g = plain(got.get(f, "undefined"))
            if not re.fullmatch(w, g):
                return "%s is %s" % (f, g[:80])
        return ""

    def one(o, kind, want):
        got = sends(o)
        if got is None:
            return ""
        if not got:
            return "nothing is sent"
        for k, each, fs in got:
            if k not in (kind, "?") or k == "?":
                return "" if k == "?" else "a message of another kind is sent (%s)" % k
            if each:
                return ""
            x = wrong(fs, want, o)
            if x:
                return x
        return "" if len(got) == 1 else "it is sent %d times" % len(got)

    os_, where = outs(cx, ans, "executeMultiMsg", "several messages")
    if os_:
        ps = names("executeMultiMsg", 2) + ["", ""]
        src = ps[1] or "msgs"

        def gap(o):
            got = sends(o)
            if got is None:
                return ""
            if not got:
                return "" if src in o.gone or any(src in k for k in o.given) else "nothing is sent"
            tells = {"sender": SENDER, "contractAddress": re.escape("item(%s).contract.address" % src), "msg": re.escape("item(%s).msg" % src)}
            for k, each, fs in got:
                if k == "?":
                    return ""
                x = wrong(fs, {n: w for n, w in tells.items() if n in fs or n != "sender"}, o)
                if x and (each or len(got) == 1):
                    return x
            if len(got) > 1:
                if [each for _, each, _ in got].count([src]) > 1:
                    return "a message is sent more than once"
                return ""
            _, each, _ = got[0]
            if not any("where(" in x for x in each) and (src in each or any(src in k for k in o.given)):
                return ""
            return "" if each == [src] else "of the messages given, only some are sent (%s)" % ", ".join(each)[:80]
        cx.ob("known", "several messages", any(o.end != "throws" for o in os_), "every path ends in an error", where)
        verdict(cx, "sent", "several messages: each to its contract", os_, gap, where)
    os_, where = outs(cx, ans, "executeContract", "one message")
    if os_:
        ps = names("executeContract", 4)
        if len(ps) == 4:
            verdict(cx, "sent", "one message: to its contract, with its funds", os_, lambda o: one(o, "execute", {
                "sender": SENDER, "contractAddress": re.escape(ps[1]) + r"\.address", "msg": re.escape(ps[2]), "funds": re.escape(ps[3])}), where)
        cx.ob("known", "one message", any(o.end != "throws" for o in os_), "every path ends in an error", where)
    os_, where = outs(cx, ans, "deployContract", "one contract")
    if os_:
        ps = names("deployContract", 4)
        if len(ps) == 4:
            code = r"(ctx\.|)artifacts\[%s\]" % re.escape(ps[2])
            verdict(cx, "sent", "one contract: its code and its settings", os_, lambda o: one(o, "instantiate", {"sender": SENDER, "codeId": code, "msg": re.escape(ps[3])}), where)

            def gap(o):
                fs = entries(o.ret) if o.ret is not None and o.ret["k"] == "obj" else None
                if fs is None:
                    return ""
                t = {n: flat(x) for n, x in fs.items()}
                a = t.get("address", "undefined")
                if t.get("type") is not None and not unknown(t["type"]) and t["type"] != ps[2]:
                    return "its type is recorded as %s" % t["type"][:60]
                if unknown(a):
                    return ""
                if a == "undefined" or "receipt()" not in a:
                    return "its address is recorded as %s" % a[:60]
                h = t.get("hexed", "undefined")
                return "" if unknown(h) or h == "extractByte32AddrFromBech32(%s)" % a else "its hexadecimal address is recorded as %s" % h[:80]
            verdict(cx, "recorded", "one contract: its name and address", os_, gap, where)
        cx.ob("known", "one contract", any(o.end != "throws" for o in os_), "every path ends in an error", where)


def verdict(cx, rule, what, os_, gap, where):
    bad = next(((o, x) for o in os_ if o.end == "done" for x in [gap(o)] if x), None)
    cx.ob(rule, what, bad is None, "" if bad is None else bad[1] + say(bad[0]), where)


def core(cx, ans):
    os_, where = outs(cx, ans, "core", "core contracts")
    M, V = "ctx.deployments.core.mailbox", "ctx.deployments.core.validator_announce"

    def gap(o):
        for p, n in ((M, "mailbox"), (V, "validator announce")):
            if o.has(p) is None and not any(unknown(k) or p.rsplit(".", 1)[1] in k and not k.startswith("has ctx.") for k in o.given):
                return "whether a %s is on record is not looked at" % n
        want = {}
        if o.has(M) is not True:
            want["hpl_mailbox"] = {"hrp": "network.hrp", "domain": "network.domain", "owner": re.compile(SIGNER)}
        if o.has(V) is not True:
            want["hpl_validator_announce"] = {"hrp": "network.hrp", "mailbox": M + ".address" if o.has(M) is True else addr("hpl_mailbox")}
        return deploy_gap(o, want)

    def rec(o):
        r = o.ret
        over = {w["at"]: flat(w["val"]) for w in o.writes}
        for k, path, name in (("mailbox", M, "hpl_mailbox"), ("validator_announce", V, "hpl_validator_announce")):
            want = path if o.has(path) is True else re.compile(r"dep\d+:" + name)
            if r is not None and r["k"] == "obj":
                fs = {p["key"]: flat(p["val"]) for p in r["parts"] if "key" in p}
                sp = [flat(p["spread"]) for p in r["parts"] if "spread" in p]
                s = fs.get(k) or (path if "ctx.deployments.core" in sp else None)
            else:
                s = over.get(path, path)
            if s is None or not o.fits(s, want):
                return "%s is recorded as %s" % (k, s)
        return ""
    cx.ob("known", "core contracts", any(o.end != "throws" for o in os_), "every path ends in an error", where)
    verdict(cx, "created", "mailbox and validator announce are created unless they are on record", os_, gap, where)
    verdict(cx, "recorded", "mailbox and validator announce", os_, rec, where)


def whole(cx, ans):
    os_, where = outs(cx, ans, "deploy", "deploy command")
    box = re.compile(r"(ctx\.deployments\.core\.mailbox|dep\d+:hpl_mailbox)\.address")

    def gap(o):
        from_ = lambda k, c: re.compile(r"(ctx\.deployments\.%s|deploy\w+\(.*config\.deploy\.%s\))\.address" % (k, c))
        return fact_gap(o, [("set_default_ism", box, (), {"to": from_(r"isms", "ism")}), ("set_default_hook", box, (), {"to": from_(r"hooks\.default", r"hooks\.default")}),
                            ("set_required_hook", box, (), {"to": from_(r"hooks\.required", r"hooks\.required")})])

    def saved(o):
        fx = [e["kind"] for e in o.fx]
        if "saveContext" not in fx:
            return "the contracts created are not recorded"
        a = [flat(x) for x in o.fx[fx.index("saveContext")]["args"]]
        if not unknown(" ".join(a)) and "ctx" not in a[1:2]:
            return "what is saved is %s" % a[1:2]
        last = max([i for i, e in enumerate(o.fx) if e["kind"] == "deploy"] or [-1])
        i = max(i for i, k in enumerate(fx) if k == "saveContext")
        return "" if i > last else "the record is saved before the last contract is created"

    def agent(o):
        return "" if any(e["kind"] == "saveAgentConfig" for e in o.fx) else "the agent configuration is not written"
    cx.ob("known", "deploy command", any(o.end != "throws" for o in os_), "every path ends in an error", where)
    verdict(cx, "connected", "mailbox: default security module, default hook and required hook", os_, gap, where)
    verdict(cx, "recorded", "deploy command saves the record", os_, saved, where)
    verdict(cx, "recorded", "deploy command writes the agent configuration", os_, agent, where)


def warps(cx, ans):
    for k in ("native", "cw20"):
        os_, where = outs(cx, ans, k, k + " route")
        name = "hpl_warp_" + k
        made = [o for o in os_ if o.end == "unknown" or any(e["kind"] == "deploy" for e in o.fx)]
        cx.ob("known", k + " route", bool(made), "" if made else "it is never created", where)
        verdict(cx, "created", k + " route", made, lambda o: deploy_gap(o, {name: {"token": "cfg.config", "hrp": "network.hrp", "owner": OWNER, "mailbox": "mailbox"}}), where)
        verdict(cx, "recorded", k + " route", made, lambda o: record_gap(o, name), where)

        def twice(o):
            dup = [k2 for k2, v in o.given.items() if v and "ctx.deployments.warp.%s" % k in k2 and ".id" in k2]
            if dup and any(e["kind"] == "deploy" for e in o.fx):
                return "a route whose identifier is on record is created again"
            seen = [k2 for k2 in o.given if unknown(k2) or "ctx.deployments.warp.%s" % k in k2]
            return "" if seen or not any(e["kind"] == "deploy" for e in o.fx) else "whether its identifier is on record is not looked at"
        verdict(cx, "once", k + " route with a recorded identifier is not created again", os_, twice, where)
    os_, where = outs(cx, ans, "create", "warp create")
    J = r'JSON\.parse\(.*\)'
    opt = lambda n: re.compile(r"(\.optsWithGlobals\(cmd\)|\.opts\(cmd\)|opts)\.%s" % n)

    def rec(o):
        d = [e for e in o.fx if e["kind"] == "deploy"]
        if not d:
            return ""
        if "saveContext" not in [e["kind"] for e in o.fx]:
            return "%s is created but not recorded" % d[0]["name"]
        k = d[0]["name"].replace("hpl_warp_", "")
        w = [w for w in o.writes if w["at"].startswith("ctx.deployments.warp")]
        txt = " ".join(flat(x["val"]) for x in w if re.match(r"ctx\.deployments\.warp(\.%s(\[\])?)?$" % k, x["at"]))
        if unknown(txt):
            return ""
        if d[0]["what"] not in txt:
            return "%s is not put on record under %s" % (d[0]["name"], k)
        return "" if re.search(r"\bid: (?:[^{}]*\.)?(?:JSON\.parse\(.*?\)\)|cfg|config|warpConfig)\.id\b", txt) else "it is recorded without its identifier"

    def ism(o):
        d = [e for e in o.fx if e["kind"] == "deploy"]
        if not d:
            return ""
        given = [v for k, v in o.given.items() if re.fullmatch(r"has (\.optsWithGlobals\(cmd\)|opts)\.ism\w*", k)]
        if any(v and re.fullmatch(r'eq\((\.optsWithGlobals\(cmd\)|opts)\.ism\w*, ""\)', k) for k, v in o.given.items()):
            return fact_gap(o, [])
        if given and given[0]:
            return fact_gap(o, [("set_ism", re.compile(r"%s\.address" % re.escape(d[0]["what"])), (), {"to": opt(r"ism\w*")})])
        if given:
            return fact_gap(o, [])
        got, rest = facts(o)
        return "" if rest or any(x[0] == "set_ism" for x in got) else "the security module asked for is not set"

    def kinds(o):
        d = [e["name"] for e in o.fx if e["kind"] == "deploy"]
        for k, v in o.given.items():
            m = re.fullmatch(r'eq\(.*\.type, "(native|cw20)"\)', k)
            if m and v and d and d != ["hpl_warp_" + m.group(1)]:
                return "a %s route is created as %s" % (m.group(1), d[0])
        return ""
    cx.ob("known", "warp create", any(e["kind"] == "deploy" for o in os_ for e in o.fx) or any(o.end == "unknown" for o in os_), "no route is ever created", where)
    verdict(cx, "created", "warp create: a route of the kind asked for", os_, kinds, where)
    verdict(cx, "recorded", "warp create", os_, rec, where)
    verdict(cx, "connected", "warp create: the security module asked for", os_, ism, where)

    def route(o):
        # the one found by its identifier: with find, or by going through the list until it matches
        hit = [m.group(1) for k, v in o.given.items() if v for m in [re.search(r"eq\(.*?(item\(ctx\.deployments\.warp.*?\))\.id\b", k)] if m and "assetId" in k]
        return re.compile(r"find\(.*ctx\.deployments\.warp.*, eq\((?=.*assetId)(?=.*\.id\b).*\)\)\.address|.*\?.*" + "".join("|" + re.escape(x) + r"\.address" for x in hit))
    os_, where = outs(cx, ans, "link", "warp link")
    sent = [o for o in os_ if o.end == "unknown" or any(e["kind"] == "exec" for e in o.fx)]
    cx.ob("known", "warp link", bool(sent), "no message is ever sent", where)
    verdict(cx, "connected", "warp link: the counterpart of the domain asked for", sent, lambda o: fact_gap(o, [("route", route(o), (), {"domain": opt("targetDomain"), "route": re.compile(r"(addPad\()?(\.optsWithGlobals\(cmd\)|opts)\.warpAddress\)?")})]), where)
    os_, where = outs(cx, ans, "transfer", "warp transfer")
    sent = [o for o in os_ if o.end == "unknown" or any(e["kind"] == "exec" for e in o.fx)]
    cx.ob("known", "warp transfer", bool(sent), "no message is ever sent", where)
    amount = re.compile(r"(\(.*\.amount \? )?.*(\.optsWithGlobals\(cmd\)|opts)\.amount\b.*|.*1000000.*")
    verdict(cx, "connected", "warp transfer: what is asked for is sent", sent, lambda o: fact_gap(o, [("transfer_remote", route(o), (), {"dest_domain": opt("targetDomain"), "recipient": re.compile(r"addPad\(.*client\.signer_addr\)"), "amount": amount})]), where)


def updates(cx, ans):
    os_, where = outs(cx, ans, "multisig", "update ism-multisig")
    sent = [o for o in os_ if o.end == "unknown" or any(e["kind"] == "exec" for e in o.fx)]
    cx.ob("known", "update ism-multisig", bool(sent), "no message is ever sent", where)
    S = "config.deploy.ism.validators"
    verdict(cx, "connected", "update ism-multisig: the validators configured", sent, lambda o: fact_gap(o, [("validators", "ctx.deployments.isms.address", (S,), {
        "domain": "key(%s)" % S, "threshold": "item(%s).threshold" % S, "validators": keys(S)})]), where)
    os_, where = outs(cx, ans, "oracle", "update igp-oracle")
    sent = [o for o in os_ if o.end == "unknown" or any(e["kind"] == "exec" for e in o.fx)]
    cx.ob("known", "update igp-oracle", bool(sent), "no message is ever sent", where)

    def gap(o):
        got, rest = facts(o)
        igp = lambda s: unknown(s) or "ctx.deployments.hooks" in s and '"hpl_igp"' in s
        seen = set()
        for k, a, e, f in got:
            if any(unknown(x) for x in e) or any(unknown(x) for x in f.values()):
                seen.add(k)
                continue
            src = e[0] if len(e) == 1 else None
            if k not in ("gas", "route"):
                return "a %s is set" % k
            if not src or not re.search(r'"igp"\)\)?\.configs$', src):
                return "the %s is not set for every configured domain" % k
            if k == "gas" and f != {"remote_domain": "key(%s)" % src, "token_exchange_rate": "item(%s).exchange_rate" % src, "gas_price": "item(%s).gas_price" % src}:
                return "gas data are set to %s" % f
            if k == "gas" and not (igp(a) and a.endswith(".oracle.address")):
                return "gas data are sent to %s" % a[:80]
            if k == "route" and not (f["domain"] == "key(%s)" % src and igp(f["route"]) and f["route"].endswith(".oracle.address")):
                return "the route is set to %s" % f["route"][:80]
            if k == "route" and not (igp(a) and not a.endswith(".oracle.address")):
                return "routes are sent to %s" % a[:80]
            seen.add(k)
        miss = {"gas", "route"} - seen
        return "" if not miss or any(unknown(x[2]) for x in rest) else "no %s is set" % sorted(miss)[0]
    verdict(cx, "connected", "update igp-oracle: the gas data configured, and the routes to the oracle", sent, gap, where)


# ---- the follow-up tools
def shape(t, out, pre=()):
    """the elements a list is made of: [(text, sources)]"""
    if t is None:
        return
    if t["k"] != "arr":
        out.append((flat(t), pre))
        return
    for p in t["parts"]:
        v = p.get("val") or p.get("spread")
        e = pre + tuple(p["each"])
        if v["k"] == "arr":
            shape(v, out, e)
        else:
            out.append((flat(v), e))


HOOKTYPES = ["hpl_hook_aggregate", "hpl_hook_routing", "hpl_hook_routing_custom", "hpl_hook_routing_fallback", "hpl_igp", "hpl_hook_fee", "hpl_hook_merkle", "hpl_hook_pausable", "hpl_test_mock_hook"]
ISMTYPES = ["hpl_ism_aggregate", "hpl_ism_routing", "hpl_ism_multisig", "hpl_ism_pausable", "hpl_test_mock_ism"]
CHILDREN = {"hpl_hook_aggregate": ("item(%s)" % H, (H,)), "hpl_hook_routing": ("item(%s)" % H, (H,)), "hpl_hook_routing_fallback": ("item(%s)" % H, (H,)),
            "hpl_hook_routing_custom": ("item(item(%s))" % H, (H, "item(%s)" % H)), "hpl_ism_aggregate": ("item(%s)" % I, (I,)), "hpl_ism_routing": ("item(%s)" % I, (I,))}
ROOTS = [("recorded security module", "flattenIsm(ctx.deployments.isms)", True), ("recorded default hook", "flattenHook(ctx.deployments.hooks.default)", True),
         ("recorded required hook", "flattenHook(ctx.deployments.hooks.required)", True), ("mailbox", "ctx.deployments.core.mailbox", False),
         ("validator announce", "ctx.deployments.core.validator_announce", False), ("test receiver", "ctx.deployments.test.msg_receiver", False),
         ("cw20 routes", "ctx.deployments.warp.cw20", True), ("native routes", "ctx.deployments.warp.native", True)]


@check("P51", 60, "The migration and agent configuration functions are followed along every path over an unknown deployment record, one induction step per level of nesting; the contracts reached are compared "
       "with those the record holds. Each command's declared options are compared with the options its handler reads.",
       note="Nothing of the tools is run. Values the evaluation cannot follow are taken to be right. Trusted: the TypeScript parser and checker, the models of array and object methods in checks/ts/plan.cjs. How: ", technique="path-sensitive abstract evaluation of the follow-up tools' TypeScript over unknown deployment records, and a comparison of the options declared with those read",
       bounds="every path of the migration and agent configuration functions, every command definition in script/")
def p51(cx):
    req = {"migrate": {"file": "script/commands/migrate.ts", "fn": "handleMigrate", "opaque": ["flattenIsm", "flattenHook"]}, "agent": {"file": "script/shared/agent.ts", "fn": "fromContext"}}
    for t in HOOKTYPES:
        req["flattenHook " + t] = {"file": "script/commands/migrate.ts", "fn": "flattenHook", "know": {"cfg.type": t}}
        req["findHook " + t] = {"file": "script/shared/agent.ts", "fn": "findHook", "know": {"cfg.type": t}, "open": ["findHook"]}
    for t in ISMTYPES:
        req["flattenIsm " + t] = {"file": "script/commands/migrate.ts", "fn": "flattenIsm", "know": {"cfg.type": t}}
    ans = ask(cx, req)
    if ans is None:
        return
    for fn, types in (("flattenHook", HOOKTYPES), ("flattenIsm", ISMTYPES)):
        for t in types:
            flatten(cx, ans, fn, t)
    for t in HOOKTYPES:
        found(cx, ans, t)
    migrated(cx, ans)
    agent(cx, ans)
    options(cx, ans)


def flatten(cx, ans, fn, t):
    os_, where = outs(cx, ans, "%s %s" % (fn, t), fn)
    os_ = [o for o in os_ if o.has("cfg") is not False]
    ok = [o for o in os_ if o.end != "throws"]
    if not cx.ob("known", "contracts to migrate: %s" % t, bool(ok), "every path ends in an error", where):
        return

    def gap(o):
        if o.ret is None or unknown(flat(o.ret)):
            return ""
        if o.ret["k"] != "arr":
            return "" if re.search(r"sub\(", flat(o.ret)) else "%s is returned" % flat(o.ret)[:80]
        xs = []
        shape(o.ret, xs)

        def itself(s):
            if s == "cfg" or s == "{...cfg}":
                return True
            m = re.fullmatch(r'\{(.*)\}', s)
            fs = dict(x.split(": ", 1) for x in split(m.group(1)) if ": " in x) if m else {}
            return fs.get("address") == "cfg.address" and fs.get("type") in ('"%s"' % t, "cfg.type")
        if not any(itself(s) and not e for s, e in xs):
            return "the contract itself is left out"
        if t == "hpl_igp" and not any(s in ("cfg.oracle", "{...cfg.oracle}") or "cfg.oracle.address" in s for s, e in xs):
            return "the oracle of the gas paymaster is left out"
        if t in CHILDREN:
            a, each = CHILDREN[t]
            want = (each + ("sub(%s)" % a,))
            if all(lists(o, e) for e in each) and not any(s == "item(sub(%s))" % a and e == want or s == "sub(%s)" % a and e == each for s, e in xs):
                return "the contracts it is made of are left out, at least in part"
        return ""
    verdict(cx, "reached", "contracts to migrate: %s" % t, ok, gap, where)


def found(cx, ans, t):
    os_, where = outs(cx, ans, "findHook " + t, "findHook")
    same_ = [o for o in os_ if any(re.match(r"eq\(", k) and t in k and v for k, v in o.given.items())]
    rest = [o for o in os_ if o not in same_]
    verdict(cx, "reached", "hook wanted is this one: %s" % t, same_, lambda o: "" if o.ret and (flat(o.ret) in ("cfg",) or unknown(flat(o.ret))) else "%s is returned" % flat(o.ret)[:60], where)
    if t in CHILDREN:
        a, each = CHILDREN[t]

        def gap(o):
            s = subs(o)
            if not all(lists(o, e) for e in each) or any(unknown(x) for x, _ in s) or o.ret and unknown(flat(o.ret)):
                return ""
            if not any(split(x)[0] == a and e == each for x, e in s):
                return "the hooks it is made of are not searched"
            return "" if o.ret and "sub(" in flat(o.ret) else "what is found among the hooks it is made of is not returned"
        verdict(cx, "reached", "hook wanted is inside: %s" % t, rest, gap, where)


def migrated(cx, ans):
    os_, where = outs(cx, ans, "migrate", "migrate command")
    did = [o for o in os_ if any(e["kind"] == "migrate" for e in o.fx)]
    if not cx.ob("known", "migrate command", bool(did) or any(o.end == "unknown" for o in os_), "no contract is ever migrated", where):
        return
    plain = lambda e: [x for x in e if not x.startswith("where(") and not unknown(x)]
    for what, src, many in ROOTS:
        el = "item(%s)" % src if many else src
        fn = src.split("(")[0]
        if "(" in src and any("error" in a for n, a in ans["answers"].items() if n.split(" ")[0] == fn):
            continue

        def gap(o):
            if not lists(o, src):
                return ""
            hit = []
            for e in o.fx:
                if e["kind"] != "migrate":
                    continue
                a = [flat(x) for x in e["args"]]
                if unknown(a[0]):
                    return ""
                if a[0] == el + ".address" and plain(e["each"]) == ([src] if many else []):
                    hit.append((a, e))
            if not hit:
                return "it is not considered"
            code = hit[0][0][1]
            if unknown(code):
                return ""
            return "" if "ctx.artifacts[%s.type]" % el in code or re.search(r'ctx\.artifacts\.hpl_', code) else "it is migrated to %s" % code[:80]
        verdict(cx, "reached", "migrate command: %s" % what, did, gap, where)


def agent(cx, ans):
    os_, where = outs(cx, ans, "agent", "agent configuration")
    done = [o for o in os_ if o.end == "done"]
    if not cx.ob("known", "agent configuration", bool(done) or any(o.end == "unknown" for o in os_), "every path ends in an error", where):
        return

    def field(t, n):
        if t is None or t["k"] != "obj":
            return None
        for p in t["parts"]:
            if p.get("key") == n:
                return p["val"]
        for p in t["parts"]:
            v = p.get("val") or p.get("spread")
            x = field(v, n)
            if x is not None:
                return x
        return None
    hook = lambda n: re.compile(r'.*(?=.*findHook\(ctx\.deployments\.hooks\.default, "%s"\))(?=.*"%s").*\.address.*' % (n, n))
    both = lambda n: re.compile(r'(?=.*findHook\(ctx\.deployments\.hooks\.(default|required), "%s"\)).*' % n)
    want = {"mailbox": re.compile(r".*\bctx\.deployments\.core\.mailbox\.address.*"), "validatorAnnounce": re.compile(r".*\bctx\.deployments\.core\.validator_announce\.address.*"),
            "interchainGasPaymaster": both("hpl_igp"), "merkleTreeHook": both("hpl_hook_merkle"), "domainId": "network.domain", "chainId": "network.id", "bech32Prefix": "network.hrp"}
    for n, w in want.items():
        def gap(o):
            t = field(o.ret, n)
            if t is None:
                return "" if o.ret is None or unknown(flat(o.ret)) else "it is missing"
            s = o.resolve(flat(t))
            return "" if o.fits(s, w) else "it is %s" % s[:100]
        verdict(cx, "named", "agent configuration: %s" % n, done, gap, where)
    said = " ".join(flat(o.ret) + " " + " ".join(o.given) for o in os_)
    for n in ("hpl_igp", "hpl_hook_merkle"):
        miss = [x for x in ("default", "required") if 'findHook(ctx.deployments.hooks.%s, "%s")' % (x, n) not in said]
        if unknown(said) or "findHook(" not in said:
            miss = []
        cx.ob("named", "agent configuration: %s is looked for in both recorded hooks" % n, not miss, "" if not miss else "the %s hook is not searched" % miss[0], where)


def options(cx, ans):
    for c in ans["options"]:
        name = "%s %s" % (os.path.basename(c["file"])[:-3], c["sub"])
        where = "%s, line %d" % (c["file"], c["line"])
        bad = [x for x in c["reads"] if x != "*" and x not in c["declared"]]
        cx.ob("option", "%s: options read are ones it accepts" % name.strip(), not bad, "" if not bad else "the handler reads %s, the command accepts %s" % (", ".join(bad), ", ".join(c["declared"]) or "none"), where)
        if "*" in c["reads"] or not c["reads"]:
            continue
        own = [x for x in c["declared"] if x != "networkId" and x not in c["reads"]]
        cx.ob("option", "%s: options it accepts are read" % name.strip(), not own, "" if not own else "%s: never read" % ", ".join(own), where)
