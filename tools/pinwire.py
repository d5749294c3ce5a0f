"""Record the published wire form of the interface in checks/wire.json (run once, on the pinned commit)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
P = os.path.join(V, "checks", "wire.json")
if not os.path.exists(P):
    json.dump({"types": [], "published": {}}, open(P, "w"))
from checks import wire as W
from checks.lib import *


cx = Ctx()
sys.setrecursionlimit(100000)
w = W.wire(cx)
types, ids, pub = [], {}, {}
for kind, d in W.published(cx, w).items():
    pub[kind] = {n: w.record(t, types, ids) for n, t in d.items()}
with open(P, "w") as f:
    f.write('{"types": [\n' + ",\n".join(json.dumps(t, sort_keys=True) for t in types) + '],\n"published": ' + json.dumps(pub, sort_keys=True, indent=1) + "}\n")
print(len(types), "types", sum(len(d) for d in pub.values()), "messages and answers")
