"""The free functions fence, compiler_fence and spin_loop."""
from . import engine, prove, terms as tm
from .engine import Unsupported, root_of
from .terms import T, mk

ORD = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
ACQ = ("Acquire", "AcqRel", "SeqCst")
REL = ("Release", "AcqRel", "SeqCst")


class Fence:
    """What one public function does, per requested ordering."""

    def __init__(self, D, isa, fid):
        self.D = D
        self.an = an = engine.Analyzer(D, isa=isa)
        self.f = f = D.fns[fid]
        self.args = [an.param_val(f["locals"][i + 1], "a%d" % i) for i in range(f["argc"])]
        self.g = an.run(fid, self.args)
        self.gg = prove.G(self.g, an)

    def ordset(self, n):
        vs = {x["d"]: x["n"] for x in self.an.tys[self.an.ordty]["v"]}
        d = mk("discr", self.args[0])
        s = set(vs.values())
        for t, v in self.g.nodes[n].env["$f"]:
            if t is d:
                s &= {vs[v]}
            elif t.op == "notin" and t.a[0] is d and v == 1:
                s -= {vs[k] for k in t.a[1]}
            elif t.op == "eq" and t.a[0] is d and tm.isc(t.a[1]):
                s = s & {vs.get(t.a[1].a[0])} if v == 1 else s - {vs.get(t.a[1].a[0])}
        return s

    def strength(self, o, req):
        """(acquire, release, seqcst) of a fence's ordering when req was requested; meet over joined values"""
        if o is None:
            return (False,) * 3
        if isinstance(o, tuple):
            return tuple(o[1:4])
        r = [True, True, True]

        def pred(t):
            if not isinstance(t, T):
                return False
            nm = self.an.tys[self.an.ordty]["v"][t.a[1]]["n"] if t.op == "agg" else req if t is self.args[0] else None
            if nm is None:
                return False
            for i, ok in enumerate((nm in ACQ, nm in REL, nm == "SeqCst")):
                r[i] = r[i] and ok
            return True

        return tuple(r) if self.gg.prove(pred, (o,)) else (False,) * 3

    def fence(self, e, req):
        """hardware strength of one event"""
        if e.kind == "fence":
            return self.strength(e.ord, req)
        if e.kind in ("rmw", "cas") and isinstance(e.ord, tuple) and e.ord[3] and self.D.arch in ("x86_64", "i686", "i586", "x86"):
            return (True, True, True)
        return (False,) * 3

    def cfence(self, e, req):
        """strength as a barrier to the compiler"""
        if e.kind == "cfence":
            return self.strength(e.ord, req)
        if e.kind == "asm":
            # an assembly block is a full barrier to the compiler unless it says that it touches no memory
            fid, bb = e.x
            o = self.D.fns[self.an.frames[fid][2]]["bbs"][bb]["t"]["opt"]
            return (False,) * 3 if set(o) & {"nomem", "readonly", "pure"} else (True, True, True)
        return self.fence(e, req)

    def core_rejects(self, n):
        """the panic that core's fence answers to the ordering given with, when that is the one it was given"""
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            ps = [e for e in self.g.nodes[x].events if e.kind == "panic"]
            if ps:
                if ps[0].op != "fence" or ps[0].args[0] is not self.args[0]:
                    return False
                continue
            if x == self.g.entry:
                return False
            st += [p for p, _ in self.gg.pred.get(x, ())]
        return True

    def everyway(self, n, pred):
        return self.gg.passes([self.g.entry], n, pred)

    def effects(self, allowed):
        return [e for nd in self.g.nodes if nd.env is not None for e in nd.events
                if e.kind in ("store", "rmw", "cas", "ext", "copy", "irq", "load") and not allowed(e)]


def check(D, isa, r):
    """[(message, event)], number of obligations"""
    out, n = [], 0
    F = Fence(D, isa, r["fn"])
    nm = r["name"]
    local = lambda e: e.addr is not None and root_of(e.addr).op == "laddr"
    bad = F.effects(lambda e: local(e))
    if bad:
        out.append(("%s performs %s" % (nm, bad[0].brief()[:100]), bad[0]))
    if nm == "hint::spin_loop":
        for x, k, v in F.g.exits:
            n += 1
            if k != "return":
                out.append(("spin_loop may end in %s" % k, None))
        return out, n
    if F.f["argc"] != 1:
        raise Unsupported("signature of " + nm)
    st = F.fence if nm == "fence" and not D.single else F.cfence
    handled = set()
    for x, k, v in F.g.exits:
        S = F.ordset(x)
        n += 1
        if k == "return":
            handled |= S
            if "Relaxed" in S:
                out.append(("%s(Relaxed) returns although there is no such fence" % nm, None))
            for o in sorted(S - {"Relaxed"}):
                for want, i, w in ((o in ACQ, 0, "acquire"), (o in REL, 1, "release"), (o == "SeqCst", 2, "sequentially consistent")):
                    if want:
                        n += 1
                        if not F.everyway(x, lambda e: st(e, o)[i]):
                            out.append(("%s(%s) can return without %s fence" % (nm, o, "an acquire" if i == 0 else "a " + w), None))
        elif k == "unwind" and F.core_rejects(x):
            continue
        elif S - {"Relaxed"}:
            out.append(("%s(%s) ends in %s" % (nm, sorted(S - {"Relaxed"})[0], k), None))
    if not set(ORD) - {"Relaxed"} <= handled:
        out.append(("%s does not return for %s" % (nm, ", ".join(sorted(set(ORD) - {"Relaxed"} - handled))), None))
    return out, n


def functions(D):
    """the functions to analyse and, for re-exports, what they must be"""
    out = []
    loc = {x["name"]: x for x in D.d["pubfns"]}
    for p in D.d["pub"]:
        if p["n"] in ("fence", "compiler_fence", "hint::spin_loop"):
            out.append((p["n"], p["path"], loc.get(p["n"])))
    return out
