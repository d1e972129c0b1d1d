"""Runs one property's check: build inputs from /repo, analyse every configuration in parallel, write evidence, report."""
import argparse, hashlib, json, multiprocessing as mp, os, re, shutil, sys, tempfile, time, traceback
import concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from pa import build, configs
from pa.build import BuildError

NPROC = min(8, os.cpu_count() or 4)


def _worker(job):
    """analyse part of one configuration for one property"""
    prop, cfgname, path, part, parts = job
    from pa import checks
    t = time.time()
    try:
        r = checks.REG[prop].analyse(configs.BY[cfgname], path, part, parts)
    except Exception as e:
        tb = traceback.format_exc().splitlines()
        r = {"viol": [{"cat": "undecided", "msg": "the analysis could not follow this configuration: %r (%s)" % (e, tb[-3].strip()[:160] if len(tb) > 3 else ""), "fn": "", "span": "", "root": ""}], "obl": {}, "units": 0, "samples": [], "roots": []}
    r["cfg"] = cfgname
    r["t"] = round(time.time() - t, 2)
    return r


def dumps(cfgs, work, ready):
    """exports every configuration, calling ready(name, path, error) as each becomes available"""
    build.driver()
    build.build_script(work)
    seen = set()
    first, rest = [], []
    for c in cfgs:
        # distinct targets first so that building core's metadata overlaps
        k = (c["target"], c.get("tc"))
        (rest if k in seen else first).append(c)
        seen.add(k)

    def one(c):
        try:
            p, e = build.dump(c, work)
        except BuildError as e:
            p, e = None, str(e)
        ready(c["name"], p, e)

    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, first + rest))


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--cfg", action="append")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args(argv)
    T = time.time()
    from pa import checks
    chk = checks.REG[a.prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = tempfile.mkdtemp(prefix="pa-%s-" % a.prop)
    try:
        return run(a, chk, seed, work, T)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


def run(a, chk, seed, work, T):
    names = a.cfg or chk.configs(a.tier)
    cfgs = [configs.BY[n] for n in names]
    viol = []
    res = []
    t0 = time.time()
    tb = 0
    if cfgs:
        order = sorted(cfgs, key=lambda c: -chk.parts(c["name"]))
        with mp.get_context("spawn").Pool(NPROC, maxtasksperchild=6) as pool:
            pend = []

            def ready(n, p, err):
                if p is None:
                    viol.append({"cat": "build", "msg": "the crate does not build for this configuration: " + err[:500], "fn": "", "span": "", "root": "", "cfg": n})
                    return
                k = chk.parts(n)
                for i in range(k):
                    pend.append(pool.apply_async(_worker, ((chk.id, n, p, i, k),)))

            try:
                dumps(order, work, ready)
            except BuildError as e:
                viol.append({"cat": "build", "msg": str(e)[:400], "fn": "", "span": "", "root": "", "cfg": "*"})
            tb = time.time() - t0
            for x in pend:
                r = x.get()
                res.append(r)
                for v in r["viol"]:
                    v["cfg"] = r["cfg"]
                    viol.append(v)
    if chk.extra:
        r = chk.extra(a.tier, work)
        r["cfg"] = "-"
        res.append(r)
        for v in r["viol"]:
            v.setdefault("cfg", "-")
            viol.append(v)
    # coverage floors: an analysis that saw less than it must has not decided anything
    by = {}
    for r in res:
        b = by.setdefault(r["cfg"], {"units": 0, "obl": {}})
        b["units"] += r["units"]
        for k, v in r["obl"].items():
            b["obl"][k] = b["obl"].get(k, 0) + v
    more, obl = chk.finish(res)
    viol += more
    for c, d in obl.items():
        for k, v in d.items():
            by[c]["obl"][k] = by[c]["obl"].get(k, 0) + v
    if not any(v["cat"] == "build" for v in viol):
        for msg, c in chk.floors(by, a.tier if not a.cfg else "partial"):
            viol.append({"cat": "coverage", "msg": msg, "fn": "", "span": "", "root": "", "cfg": c})
    return report(a, chk, seed, T, tb, names, viol, res, by)


def vkey(v):
    return "%s|%s|%s" % (v["cat"], v["fn"], re.sub(r"\b(phi|ld@|old@|cb@|n)[\d.]+", r"\1_", v["msg"])[:160])


def report(a, chk, seed, T, tb, names, viol, res, by):
    known = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        known = [k for k in json.load(open(p)) if k.get("property") == chk.id and k.get("status") == "known"]
    groups = {}
    for v in viol:
        groups.setdefault(vkey(v), []).append(v)
    kf, new = [], []
    for k, vs in sorted(groups.items()):
        m = [x for x in known if x["key"] == k or (x.get("prefix") and k.startswith(x["prefix"]))]
        (kf if m else new).append((k, vs, m))
    wall = time.time() - T
    obl = {}
    for b in by.values():
        for k, v in b["obl"].items():
            obl[k] = obl.get(k, 0) + v
    nobl = sum(obl.values())
    samples = []
    for r in res:
        for s in r.get("samples", ())[:2]:
            if len(samples) < 12:
                samples.append(s)
    ev = {
        "property": chk.id, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed, "level": chk.level,
        "coverage": {
            "explanation": chk.explain,
            "rule": chk.rule,
            "obligations": nobl + len(new) + len(kf),
            "discharged": nobl,
            "obligations_by_kind": obl,
            "units_analysed": sum(b["units"] for b in by.values()),
            "configurations": {n: {"units": by.get(n, {}).get("units", 0), "obligations": sum(by.get(n, {}).get("obl", {}).values())} for n in (names or list(by))},
            "samples": samples,
            "roots": sum(len(set(r.get("roots", ()))) for r in res),
            "build_s": round(tb, 1),
        },
        "assumptions": chk.assume,
        "wall_s": round(wall, 1),
        "violations": len(new),
    }
    for r in res:
        for k, v in (r.get("extra") or {}).items():
            ev["coverage"].setdefault(k, v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "replay-%s.json" % chk.id)
    if new or kf:
        with open(rp, "w") as f:
            json.dump({"property": chk.id, "violations": [{"key": k, "category": vs[0]["cat"], "message": vs[0]["msg"], "function": vs[0]["fn"], "at": vs[0]["span"],
                                                           "operations": sorted({v["root"] for v in vs})[:40], "configurations": sorted({v["cfg"] for v in vs}), "count": len(vs), "facts": vs[0].get("facts"), "known": bool(m)} for k, vs, m in new + kf],
                       "replay": "cd /verif && ./check %s --cfg <configuration>" % chk.id}, f, indent=1)
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d obligations over %d units in %d configurations, %.0f s" % (chk.id, a.tier, nobl, ev["coverage"]["units_analysed"], len(names) if names else 0, wall))
    for k, vs, m in kf:
        print("KNOWN-FINDING: property=%s %s" % (chk.id, m[0].get("what", k)))
    for k, vs, m in new[:25]:
        v = vs[0]
        print("  [%s] %s\n      in %s at %s; %d× e.g. %s; configurations %s" % (v["cat"], v["msg"][:300], v["fn"] or "-", v["span"] or "-", len(vs), v["root"], ", ".join(sorted({x["cfg"] for x in vs})[:6])))
    if len(new) > 25:
        print("  ... and %d more (see replay file)" % (len(new) - 25))
    if new:
        print("VIOLATION property=%s replay=%s" % (chk.id, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
