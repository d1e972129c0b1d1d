"""Writes pa/api.json: the documented API per kind of type (a specification; regenerate only after reading the difference)."""
import json, re, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pa import api
d = json.load(open(sys.argv[1]))
out = {}
for kind, ty in (("int", "AtomicI16"), ("int", "AtomicU128"), ("bool", "AtomicBool"), ("ptr", "AtomicPtr"), ("float", "AtomicF64")):
    t = {}
    for r in d["roots"]:
        if r["ty"] == ty:
            t[r["name"] if not r["trait"] else "%s/%s" % (api.abstract(r["trait"], ty), r["name"])] = {"sig": api.abstract(r["sig"], ty), "const": r["const"], "hidden": r["hidden"]}
    a = next(x for x in d["atomics"] if x["n"] == ty)
    tr = sorted({api.abstract(x["full"], ty) for x in a["traits"] if not x["neg"] and not x["local"]})
    if kind in out:
        assert out[kind]["methods"] == t and out[kind]["traits"] == tr, (kind, [k for k in t if t[k] != out[kind]["methods"].get(k)], tr, out[kind]["traits"])
    out[kind] = {"methods": t, "traits": tr}
json.dump(out, open(os.path.join(os.path.dirname(api.__file__), "api.json"), "w"), indent=1, sort_keys=True)
