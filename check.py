#!/usr/bin/env python3
"""check.py P01 [P02 ..|all]  -- decide properties from /repo's current source."""
import importlib
import json
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
HERE = os.path.dirname(os.path.abspath(__file__))


def known():
    k = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=P01 key=<rule|instance> :: text
                head, _, text = line[7:].partition(" :: ")
                prop = head.split("property=")[1].split()[0]
                key = head.split("key=", 1)[1].strip()
                k.setdefault(prop, {})[key] = text
    return k


def main():
    from checks import lib, reads, registry
    t00 = time.time()
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        ids = [i for i in ids if i != tier]
    verbose = "-v" in sys.argv
    if ids == ["all"]:
        ids = sorted(registry.CHECKS)
    cx = lib.Ctx()
    rc = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kn = known()
    for pid in ids:
        t0 = time.time()
        cx.reset()
        c = registry.CHECKS[pid]
        try:
            c["fn"](cx)
            reads.apply(cx, pid)
        except Exception as x:
            # the code no longer has the shape the property speaks about: the obligations that follow cannot be discharged
            import traceback
            last = traceback.extract_tb(x.__traceback__)[-1]
            cx.fail("analysis", "%s can be decided on this tree" % pid, "%s: %s (%s:%d)" % (type(x).__name__, x, os.path.basename(last.filename), last.lineno))
        n = len(cx.obs)
        if n < c["floor"]:
            cx.fail("floor", "%s obligations" % pid, "only %d obligations generated, at least %d expected: the rule lost its subjects" % (n, c["floor"]))
        bad = [o for o in cx.obs if not o[2]]
        listed, new = [], []
        for o in bad:
            key = "%s|%s" % (o[0], o[1])
            (listed if key in kn.get(pid, {}) else new).append((key, o))
        fns = set()
        blocks = calls = 0
        unknown = {}
        for e in cx.used.values():
            fns |= e.it.fns_seen
            blocks += e.it.blocks
            calls += e.it.calls
            for k, v in e.it.unknown.items():
                unknown[k] = unknown.get(k, 0) + v
        rules = {}
        for o in cx.obs:
            rules[o[0]] = rules.get(o[0], 0) + 1
        ev = {
            "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "other"),
            "coverage": {
                "explanation": c["explain"],
                "source_files_hashed": cx.nfiles,
                "entry_points_analysed": sorted("%s[%s]" % k if k[1] else k[0] for k in cx.used),
                "functions_inlined": len(fns), "blocks_interpreted": blocks, "call_sites": calls,
                "obligations": len(cx.obs), "discharged": len(cx.obs) - len(bad),
                "rule_instances": rules,
                "unmodelled_callees": unknown,
                "checker_cmd": "python3 check.py " + pid,
                "samples": ["%s: %s" % (o[0], o[1]) for o in cx.obs[:12]],
            },
            "violations": [{"key": k, "detail": o[3], "where": o[4]} for k, o in new],
            "known_findings": [k for k, _ in listed],
            "wall_s": round(time.time() - (t0 if len(ids) > 1 else t00), 3),
        }
        evp = os.path.join(HERE, "evidence", pid + ".json")
        with open(evp, "w") as f:
            json.dump(ev, f, indent=1)
        for k, o in listed:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[pid][k], k))
        if new:
            rc = 1
            rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
            with open(rp, "w") as f:
                for k, o in new:
                    f.write("rule: %s\ninstance: %s\nwhere: %s\ndetail: %s\n\n" % (o[0], o[1], o[4], o[3]))
            for k, o in new[:20]:
                print("  %s  %s\n    at %s\n    %s" % (o[0], o[1], o[4], o[3]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            rp = os.path.join(HERE, "evidence", pid + ".violation.txt")
            if os.path.exists(rp):
                os.remove(rp)
        print("%s: %d obligations, %d discharged, %d functions, %.2fs" % (pid, n, len(cx.obs) - len(bad), len(fns), time.time() - t0))
        if verbose:
            for o in cx.obs:
                print("   %s %s: %s" % ("ok " if o[2] else "BAD", o[0], o[1][:200]))
    return rc


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
