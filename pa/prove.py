"""Graph reasoning over an analysed operation: relations between joined values, must-pass queries, lock-state dataflow."""
from . import terms as tm
from .terms import T, mk, ci, UNDEF
from .engine import root_of

MAXDEPTH = 14


class G:
    def __init__(self, g, an):
        self.g = g
        self.an = an
        self.nodes = g.nodes
        self.live = set()
        st = [g.entry]
        while st:
            x = st.pop()
            if x in self.live or g.nodes[x].env is None:
                continue
            self.live.add(x)
            st += [s for s, _ in g.nodes[x].succ]
        self.pred = {x: [] for x in self.live}
        for x in self.live:
            for s, l in g.nodes[x].succ:
                if s in self.live:
                    self.pred[s].append((x, l))
        self.evs = {}
        for x in sorted(self.live):
            for e in g.nodes[x].events:
                self.evs[e.id] = e
        self.exits = [(n, k, t) for n, k, t in g.exits if n in self.live]
        self._obs = {}

    def ev(self, t):
        """event behind an event-result leaf"""
        return self.evs.get((t.a[0], t.a[1])) if t.op == "ev" else None

    # ---- phi expansion
    def expandable(self, t):
        """nodes whose phis occur in t"""
        out = set()
        memo = {}

        def p(x):
            if x.op == "phi" and self.is_live_phi(x):
                out.add(x.a[0])
            return False

        tm.contains(t, p, memo)
        return out

    def is_live_phi(self, x):
        if not isinstance(x.a[0], int) or x.a[0] not in self.live:
            return False
        l = x.a[1]
        return not (isinstance(l, tuple) and l and l[0] == "stale")

    def lookup(self, env, loc):
        v = env.get(loc)
        if v is not None:
            return v
        if isinstance(loc, tuple) and len(loc) == 2 and isinstance(loc[0], tuple):
            b = self.lookup(env, loc[0])
            if b.op == "agg" and isinstance(loc[1], int) and loc[1] < len(b.a[2]):
                return b.a[2][loc[1]]
        return UNDEF

    def edges(self, n):
        nd = self.nodes[n]
        return [e for e in nd.inc if e[0] == -1 or e[0] in self.live]

    def edge_env(self, n, e):
        return self.nodes[n].inc[e]

    def succ_envs(self, p, i, n):
        """the environments the i-th edge out of p, which leads to n, brings"""
        es = sorted(e for m in {s for s, l in self.nodes[p].succ} for e in self.nodes[m].inc if e[0] == p)
        if len(es) == len(self.nodes[p].succ) and es[i] in self.nodes[n].inc:
            return [self.nodes[n].inc[es[i]]]
        return [v for e, v in self.nodes[n].inc.items() if e[0] == p]

    def subst_edge(self, terms, n, e):
        env = self.nodes[n].inc[e]
        ps = set()
        memo = {}

        def p(x):
            if x.op == "phi" and x.a[0] == n and self.is_live_phi(x):
                ps.add(x)
            return False

        for t in terms:
            tm.contains(t, p, memo)
        m = {x: self.lookup(env, x.a[1]) for x in ps}
        memo = {}
        return tuple(tm.subst(t, m, memo) for t in terms)

    def prove(self, pred, terms, hyps=None, depth=0, budget=None, eqs=None):
        """terms: tuple.  True when pred holds of every combination of values the joined terms stand for.

        With eqs=(), pred also receives the equalities (pairs) known on the edges the values came along."""
        if hyps is None:
            hyps = set()
            budget = [4000]
        terms = tuple(terms)
        key = terms if eqs is None else (terms, eqs)
        if key in hyps:
            return True
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if pred(*terms) if eqs is None else pred(eqs, *terms):
            return True
        if depth > MAXDEPTH:
            return False
        cands = set()
        for t in terms:
            cands |= self.expandable(t)
        h = hyps | {key}
        for n in sorted(cands, reverse=True)[:3]:
            ok = True
            for e in self.edges(n):
                if eqs is None:
                    ok = self.prove(pred, self.subst_edge(terms, n, e), h, depth + 1, budget)
                else:
                    src = self.nodes[e[0]].env if e[0] >= 0 else None
                    fs = [f[0].a for f in (src or {}).get("$f", ()) if f[1] == 1 and f[0].op == "eq" and tm.has_dyn(f[0])]
                    fs += [(f[0], ci(f[1], 1)) for f in (src or {}).get("$f", ()) if (f[0].op in ("ult", "slt") or f[0].op == "eq" and not f[1]) and tm.has_dyn(f[0])]
                    x = self.subst_edge(terms + tuple(z for q in eqs for z in q), n, e)
                    y = x[len(terms):]
                    ne = set(zip(y[0::2], y[1::2])) | set(tuple(f) for f in fs)
                    ne = tuple(sorted((q for q in ne if q[0] is not q[1]), key=lambda q: (q[0].id, q[1].id)))[:16]
                    ok = self.prove(pred, x[:len(terms)], h, depth + 1, budget, ne)
                if not ok:
                    break
            if ok:
                return True
        return False

    # ---- reachability
    def reach(self, srcs, stop=(), stop_edge=None):
        """nodes reachable from srcs (inclusive), not continuing through nodes of stop"""
        seen = set()
        st = list(srcs)
        while st:
            x = st.pop()
            if x in seen or x not in self.live:
                continue
            seen.add(x)
            if x in stop:
                continue
            for s, l in self.nodes[x].succ:
                if stop_edge is not None and stop_edge(x, s, l):
                    continue
                st.append(s)
        return seen

    def after(self, evid, label=None):
        """successor nodes after an event (only along a given edge label)"""
        return [s for s, l in self.nodes[evid[0]].succ if label is None or l == label]

    def passes(self, srcs, dst, evpred):
        """every path from the nodes srcs to the end of dst meets an event satisfying evpred"""
        seen = set()
        st = list(srcs)
        while st:
            x = st.pop()
            if x in seen or x not in self.live:
                continue
            seen.add(x)
            if any(evpred(e) for e in self.nodes[x].events):
                continue
            if x == dst:
                return False
            st += [s for s, _ in self.nodes[x].succ]
        return True

    def passes_between(self, a, b, evpred, alabel=None):
        """every path from just after event a (along alabel) to just before event b meets an event satisfying evpred"""
        na = self.nodes[a[0]]
        rest = [e for e in na.events if e.id[1] > a[1]] if alabel is None else []
        if a[0] == b[0] and a[1] < b[1]:
            return any(evpred(e) for e in na.events if a[1] < e.id[1] < b[1])
        if any(evpred(e) for e in rest):
            return True
        return self._before(self.after(a, alabel), b, evpred)

    def _before(self, srcs, b, evpred):
        seen = set()
        st = list(srcs)
        while st:
            x = st.pop()
            if x in seen or x not in self.live:
                continue
            seen.add(x)
            evs = self.nodes[x].events
            if x == b[0]:
                if not any(evpred(e) for e in evs if e.id[1] < b[1]):
                    return False
                continue
            if any(evpred(e) for e in evs):
                continue
            st += [s for s, _ in self.nodes[x].succ]
        return True

    def entry_passes(self, b, evpred):
        """every path from entry to just before event b meets evpred"""
        return self._before([self.g.entry], b, evpred)

    def end_passes(self, a, dst, evpred, alabel=None):
        """every path from just after event a to the end of node dst meets evpred"""
        na = self.nodes[a[0]]
        if alabel is None and any(evpred(e) for e in na.events if e.id[1] > a[1]):
            return True
        if a[0] == dst and alabel is None:
            return False
        return self.passes(self.after(a, alabel), dst, evpred)

    def guarded(self, dst, labelpred, srcs=None):
        """every path to node dst takes an edge whose label satisfies labelpred"""
        seen = set()
        st = list(srcs) if srcs is not None else [self.g.entry]
        while st:
            x = st.pop()
            if x in seen or x not in self.live:
                continue
            seen.add(x)
            if x == dst:
                return False
            for s, l in self.nodes[x].succ:
                if l is not None and labelpred(l):
                    continue
                st.append(s)
        return True


# ---------------------------------------------------------------- locks
def label_phis(gg):
    """{node: joined values of that node that a branch condition is about, directly or through further joins}"""
    seen, work = set(), []
    for n in gg.live:
        for s, l in gg.nodes[n].succ:
            if isinstance(l, tuple) and isinstance(l[0], T) and l[0].op == "eq":
                work += [x for x in l[0].a if isinstance(x, T) and x.op == "phi" and gg.is_live_phi(x)]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for e in gg.edges(x.a[0]):
            v = gg.lookup(gg.edge_env(x.a[0], e), x.a[1])
            if isinstance(v, T) and v.op == "phi" and gg.is_live_phi(v):
                work.append(v)
    r = {}
    for x in seen:
        r.setdefault(x.a[0], set()).add(x)
    return r


def lock_flow(gg, acq_ext, rel_ext):
    """forward dataflow of held protections.

    state = (held, pending): held is a tuple of (kind, event id, address); pending is None or an exchange of the lock word whose
    outcome is not yet known, with the terms its result goes by: ("P", exchange, names), ("L", load, names), ("S", load, store, names).  Returns {event id: set of states before it}, {node: states at its end}."""
    at = {}
    end = {}
    inn = {gg.g.entry: {((), None)}}
    work = [gg.g.entry]
    errs = []
    seen_err = set()

    def err(kind, e):
        if (kind, e.id) not in seen_err:
            seen_err.add((kind, e.id))
            errs.append((kind, e))

    names = label_phis(gg)

    def named(pend, n, i, s):
        """the pending result after the edge: joined values that stand for it are names of it too"""
        ps = names.get(s)
        if pend is None or not ps:
            return pend
        envs = gg.succ_envs(n, i, s)
        al = {x for x in pend[-1] if x not in ps}
        for x in ps:
            if envs and all(gg.lookup(v, x.a[1]) in pend[-1] for v in envs):
                al.add(x)
        return pend[:-1] + (frozenset(al),)

    while work:
        n = work.pop()
        st = set(inn.get(n, ()))
        nd = gg.nodes[n]
        for e in nd.events:
            at.setdefault(e.id, set()).update(st)
            out = set()
            for held, pend in st:
                if e.kind == "rmw" and e.addr is not None and root_of(e.addr).op == "static":
                    out.add((held, ("P", e.id, frozenset((e.old,)))))
                elif e.kind == "store" and e.addr is not None and root_of(e.addr).op == "static":
                    h = [x for x in held if x[0] == "lock" and x[2] is e.addr]
                    if h:
                        out.add((tuple(x for x in held if x is not h[-1]), pend))
                    elif e.impl == "plain" and pend is not None and pend[0] == "L" and gg.evs[pend[1]].addr is e.addr and any(x[0] in ("cs", "irq") for x in held):
                        # a swap emulated inside a critical region
                        out.add((held, ("S", pend[1], e.id, pend[2])))
                    else:
                        out.add((held, pend))
                elif e.kind == "load" and e.impl == "plain" and e.addr is not None and root_of(e.addr).op == "static" and any(x[0] in ("cs", "irq") for x in held):
                    out.add((held, ("L", e.id, frozenset((e.old,)))))
                elif e.kind == "irq":
                    if e.op == "disable":
                        out.add((held + (("irq", e.id, e.res),), pend))
                    elif e.op == "restore":
                        h = [x for x in held if x[0] == "irq"]
                        if not h:
                            err("restore-without-disable", e)
                            out.add((held, pend))
                        else:
                            out.add((tuple(x for x in held if x is not h[-1]), pend))
                    else:
                        out.add((held, pend))
                elif e.kind == "ext" and e.op.endswith(acq_ext):
                    out.add((held + (("cs", e.id, e.res),), pend))
                elif e.kind == "ext" and e.op.endswith(rel_ext):
                    h = [x for x in held if x[0] == "cs"]
                    if not h:
                        err("release-without-acquire", e)
                        out.add((held, pend))
                    else:
                        out.add((tuple(x for x in held if x is not h[-1]), pend))
                else:
                    out.add((held, pend))
            st = out
        end[n] = st
        for i, (s, l) in enumerate(nd.succ):
            if s not in gg.live:
                continue
            ns = set()
            for held, pend in st:
                if l is not None and l != "unwind":
                    if l[0] == "cas":
                        e = gg.evs.get(l[1])
                        if e is not None and root_of(e.addr).op == "static" and l[2] == 1:
                            ns.add((held + (("lock", e.id, e.addr),), None))
                            continue
                    elif pend is not None and pend[0] != "L":
                        e = gg.evs[pend[-2]]
                        if e.new is not None and any(x is not None and tm.eq(x, e.new) is l[0] for x in pend[-1]):
                            if l[1] == 0:
                                ns.add((held + (("lock", e.id, e.addr),), None))
                            else:
                                ns.add((held, None))
                            continue
                ns.add((held, named(pend, n, i, s)))
            o = inn.setdefault(s, set())
            if not ns <= o:
                o |= ns
                if len(o) > 5000 or any(len(h) > 8 for h, p in ns):
                    raise RuntimeError("lock states", n, s, sorted(ns, key=lambda x: -len(x[0]))[0])
                work.append(s)
    return at, end, errs
