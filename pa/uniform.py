"""Which implementation family each access to an object belongs to, and under which run-time facts (C09, C11)."""
from . import terms as tm, engine, spec
from .prove import G


COMM = ("and", "or", "xor", "add", "mul", "eq", "ne")


def canon(t):
    """printable form that does not depend on the order in which terms were created"""
    if not isinstance(t, tm.T):
        return "(" + ",".join(canon(x) for x in t) + ")" if isinstance(t, tuple) else str(t)
    if t.op == "i":
        return hex(t.a[0])
    a = [canon(x) for x in t.a]
    if t.op in COMM:
        a[:2] = sorted(a[:2])
    return "%s(%s)" % (t.op, ",".join(a))


def stable_facts(c, node, selfs):
    """facts at a node that are the same for every operation on the object: run-time detection and the object's address"""
    out = {}
    for t, v in c.g.nodes[node].env["$f"]:
        if tm.has_dyn(t):
            continue
        ps = params(t)
        if ps - selfs:
            continue
        if ps or tm.contains(t, lambda x: x.op == "rt"):
            out[canon(t)] = v
    return tuple(sorted(out.items(), key=str))


_ps = {}


def params(t):
    r = _ps.get(t)
    if r is None:
        r = set()

        def p(x):
            if x.op == "param":
                r.add(x)
            return False

        tm.contains(t, p, {})
        _ps[t] = r
    return r


def family(c, e):
    h = c.held(e)
    for k in ("lock", "irq", "cs"):
        if k in h:
            return k
    if not c.full(e) and not e.impl.startswith("asm:"):
        return "optimistic"
    return "native-" + ("load" if e.kind == "load" else "write")


def families(c):
    """{(family, facts): example}"""
    selfs = params(c.self_)
    out = {}
    for e in c.selfev:
        if e.impl == "api":
            continue
        k = (family(c, e), stable_facts(c, e.id[0], selfs))
        if k not in out:
            fn = c.D.fns[e.where[0]]["path"] if e.where else ""
            out[k] = (fn, e.where[1] if e.where else "", e.brief()[:80])
    return out


def compatible(a, b):
    """accesses of these families exclude each other or are each indivisible"""
    if a == b:
        return True
    s = {a, b}
    if s <= {"native-load", "native-write"}:
        return True
    if s <= {"native-load", "native-write", "irq"}:
        return True
    if s == {"native-load", "cs"}:
        return True
    return s <= {"lock", "optimistic"}


def disjoint(f, g):
    d = dict(f)
    return any(k in d and d[k] != v for k, v in g)


def lockfree(D, isa, root):
    """[(value, facts)] of is_lock_free()/is_always_lock_free()"""
    an = engine.Analyzer(D, isa=isa)
    g = an.run(root["fn"], [])
    out = []
    for n, k, v in g.exits:
        fs = {}
        if g.nodes[n].env is not None:
            for t, w in g.nodes[n].env["$f"]:
                if tm.contains(t, lambda x: x.op == "rt"):
                    fs[canon(t)] = w
        if k != "return":
            out.append((k, tuple(sorted(fs.items()))))
        elif tm.isc(v):
            out.append((bool(v.a[0]), tuple(sorted(fs.items()))))
        else:
            # the returned value is itself a run-time fact
            b, neg = v, False
            while b.op == "lnot":
                b, neg = b.a[0], not neg
            for val in (True, False):
                f2 = dict(fs)
                f2[canon(b)] = int(val != neg)
                out.append((val, tuple(sorted(f2.items()))))
    return out
