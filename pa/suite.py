"""What is analysed in one configuration: the public operations, and the internal load/compare-exchange primitives that
multi-step operations are built from (each verified against its own contract and then used through that contract)."""
from . import spec
from .spec import OPS, TyInfo

LEAFS = ("load", "compare_exchange", "compare_exchange_weak")
FLOATOPS = ("fetch_add", "fetch_sub", "fetch_max", "fetch_min", "fetch_neg", "fetch_abs")


def deref_ty(D, ti):
    t = D.tys[ti]
    return t.get("to") if t["k"] == "ref" else None


def prim_shape(D, fid, size):
    """load(&self, Ordering) / compare_exchange(&self, T, T, Ordering, Ordering) of an object of the given size"""
    f = D.fns[fid]
    nm = f["path"].split("::")[-1]
    if not f.get("bbs") or not f["local"] or nm not in LEAFS or f["argc"] != (2 if nm == "load" else 5):
        return None
    lc = f["locals"]
    to = deref_ty(D, lc[1])
    if to is None or D.tys[to]["k"] != "struct" or D.tys[to].get("size") != size:
        return None
    isord = lambda i: (D.tys[i].get("n") or "").endswith("atomic::Ordering")
    if nm == "load":
        if not isord(lc[2]) or D.tys[lc[0]].get("size") != size:
            return None
    else:
        if not (isord(lc[4]) and isord(lc[5])) or D.tys[lc[2]].get("size") != size or D.tys[lc[3]].get("size") != size:
            return None
        if D.tys[lc[0]]["k"] != "enum":
            return None
    return nm


class Task:
    __slots__ = ("root", "api", "pseudo")

    def __init__(self, root, api, pseudo):
        self.root, self.api, self.pseudo = root, api, pseudo

    @property
    def name(self):
        return "%s::%s%s" % (self.root["ty"], self.root["name"], " (internal %s)" % self.root["path"] if self.pseudo else "")


def op_roots(D):
    for r in D.d["roots"]:
        if r["trait"] or r.get("impossible") or r["fn"] is None or r["name"] not in OPS:
            continue
        yield r


def tasks(D):
    out = []
    pub = {}
    for r in op_roots(D):
        if r["name"] in LEAFS:
            pub.setdefault(r["ty"], {})[r["fn"]] = r["name"]
    prims = {}
    for ty, m in pub.items():
        info = TyInfo(D, ty)
        if info.kind != "float":
            continue
        d = {}
        for fid in m:
            for x in D.reach(fid):
                if x in m:
                    continue
                nm = prim_shape(D, x, info.size)
                if nm:
                    d[x] = nm
        prims[ty] = d
    for r in op_roots(D):
        api = None
        ty = r["ty"]
        if r["name"] == "fetch_update":
            api = dict(pub.get(ty, {}))
        elif r["name"] in FLOATOPS and prims.get(ty):
            api = dict(prims[ty])
        out.append(Task(r, api, False))
    seen = set()
    for ty, d in prims.items():
        used = set()
        for r in op_roots(D):
            if r["ty"] == ty and r["name"] in FLOATOPS:
                # only those that the operation can actually meet
                used |= D.reach(r["fn"]) & set(d)
        for fid in sorted(used):
            if fid in seen:
                continue
            seen.add(fid)
            pr = dict(ty=ty, name=d[fid], trait=None, fn=fid, sig="", hidden=True, span="", path=D.fns[fid]["path"])
            out.append(Task(pr, None, True))
    return out


SKIP_PSEUDO = ("reject", "nopanic")


def run_task(D, isa, t, light=False):
    """light: only the dataflow result is wanted, not the verdicts on single operations"""
    c = spec.OpCheck(D, t.root, isa, t.api)
    c.light = light
    c.run()
    if t.pseudo:
        c.viol = [v for v in c.viol if v[0] not in SKIP_PSEUDO]
    return c
