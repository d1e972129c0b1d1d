"""Every retry is somebody else's doing.

The graph of an operation loses the edges that can be taken only because another thread (or a spurious failure of a weak
compare-and-exchange) interfered; what is left must be free of cycles, so that an operation that runs alone from any point on,
whatever happened before, executes each of the finitely many program points a bounded number of times and returns.

An edge needs interference when it is
  - the failure edge of a compare-and-exchange whose expected value, on every way round the cycle, was observed in the
    object by the failing attempt itself or later (alone, the next attempt would succeed), or of a weak one that found the
    expected value,
  - the edge on which the lock word, looked at since the edge was last taken and with no lock held by this operation, holds
    the mark that taking the lock leaves there.
Between a load-linked and its store-conditional there is no other memory access (which could make the latter fail for ever).
Where privileged instructions may be used (priv), a lock is held only with interrupts disabled.  A lock is never held while another one is taken or while the closure of fetch_update runs."""
from . import terms as tm
from .engine import root_of
from .terms import T

MEM = ("load", "store", "rmw", "cas", "copy")


def sccs(gg, live, skip):
    idx, low, st, on, out, c = {}, {}, [], set(), [], 0

    def succ(v):
        return [s for s, l in gg.nodes[v].succ if s in live and not skip(v, s, l)]

    for r in sorted(live):
        if r in idx:
            continue
        idx[r] = low[r] = c
        c += 1
        st.append(r)
        on.add(r)
        stack = [(r, iter(succ(r)))]
        while stack:
            v, it = stack[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c
                    c += 1
                    st.append(w)
                    on.add(w)
                    stack.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                stack.pop()
                if stack:
                    low[stack[-1][0]] = min(low[stack[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.add(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in succ(v):
                        out.append(comp)
    return out


class Progress:
    def __init__(self, c, priv=False):
        self.priv = priv
        self.c, self.gg = c, c.gg
        self.viol = []
        self.n = 0
        self.kinds = {}

    def bad(self, msg, e=None, node=None):
        c = self.c
        w = e.where if e is not None and e.where else None
        if w is None and node is not None:
            fk = c.g.frames[self.gg.nodes[node].frame]
            if fk[0] == "asm":
                fk = c.g.frames[fk[1]]
            w = (fk[2], "")
        fn = c.D.fns[w[0]]["path"] if w else ""
        v = (msg, fn, (w[1] if w else "") or "")
        if v not in self.viol:
            self.viol.append(v)

    # ---- values observed
    def observes(self, t, e, E=None):
        c = self.c
        if e.kind not in ("load", "cas", "rmw") or e.old is None:
            return False
        if E is not None and not c.on_self(E):
            return e.addr is E.addr and e.size == E.size and t is e.old
        if not c.on_self(e):
            return False
        t = c.norm(t)
        if t.op == "lnot" and t.a[0].op == "eq" and tm.isc(t.a[0].a[1]) and t.a[0].a[1].a[0] == 0:
            t = t.a[0].a[0]
        if t is e.old:
            return c.full(e)
        if t.op == "cat" and c.full(e):
            off = 0
            for p in t.a:
                n = tm.size(p)
                if n is None or tm.ext(e.old, off, n) is not p:
                    return False
                off += n
            return True
        if t.op == "cat":
            return any(p is e.old for p in t.a) and all((lambda x: x is not None and c.on_self(x))(self.gg.ev(p)) for p in t.a)
        return False

    def stale(self, E, comp):
        """a way round the cycle on which the next attempt expects something older than the failed attempt's observation"""
        gg = self.gg
        n0 = E.id[0]
        if any(self.observes(E.exp, e, E) for e in gg.nodes[n0].events if e.id[1] < E.id[1]):
            return False
        work, seen = [(n0, E.exp)], set()
        while work:
            n, t = work.pop()
            if (n, t) in seen:
                continue
            seen.add((n, t))
            for e in gg.edges(n):
                p = e[0]
                if p < 0 or p not in comp:
                    continue
                u = gg.subst_edge((t,), n, e)[0]
                labs = [l for s, l in gg.nodes[p].succ if s == n]
                if p == n0 and ("cas", E.id, 0) in labs:
                    if not self.observes(u, E, E):
                        return True
                    continue
                if p == n0:
                    continue        # the cycle was left by success
                if any(self.observes(u, x, E) for x in gg.nodes[p].events):
                    continue
                work.append((p, u))
        return False

    def fresh(self, n0, t0, obs):
        """on every way back from the end of n0 the value is an observation made since n0 was last left"""
        gg = self.gg
        if any(obs(t0, e) for e in gg.nodes[n0].events):
            return True
        work, seen = [(n0, t0)], set()
        while work:
            n, t = work.pop()
            if (n, t) in seen:
                continue
            seen.add((n, t))
            for e in gg.edges(n):
                p = e[0]
                if p < 0:
                    return False
                u = gg.subst_edge((t,), n, e)[0]
                if any(obs(u, x) for x in gg.nodes[p].events):
                    continue
                if p == n0:
                    return False
                work.append((p, u))
        return True

    def spurious(self, E, comp):
        """the cycle is closed only where the failed attempt found the expected value"""
        if not E.weak:
            return False
        gg = self.gg
        c = tm.eq(E.old, E.exp)
        st, seen = [s for s, l in gg.nodes[E.id[0]].succ if l == ("cas", E.id, 0)], set()
        while st:
            x = st.pop()
            if x in seen or x not in comp:
                continue
            if x == E.id[0]:
                return False
            seen.add(x)
            for s, l in gg.nodes[x].succ:
                if isinstance(l, tuple) and isinstance(l[0], T) and l[1] == 1 and l[0] is c:
                    continue
                st.append(s)
        return True

    # ---- edges
    def run(self):
        gg, c = self.gg, self.c
        locks = set()
        for e in gg.evs.values():
            if e.kind in ("rmw", "store") and e.addr is not None and root_of(e.addr).op == "static":
                locks.add(e.addr)
        acq = {}
        for e in gg.evs.values():
            for held, pend in c.at.get(e.id, ()):
                for h in held:
                    if h[0] == "lock" and h[1] in gg.evs:
                        a = gg.evs[h[1]]
                        acq.setdefault(a.addr, set()).add(a.new)
        def busy(e, m):
            return e.kind in ("rmw", "load", "cas") and e.addr in acq and e.old is not None and m in acq[e.addr] and not any(any(h[0] == "lock" for h in held) for held, _ in c.at.get(e.id, ()))

        marks = {m for ms in acq.values() for m in ms if m is not None}
        cut, waits = {}, {}

        def waiting(v, l):
            """the edge is taken when the lock word, looked at since the last time round, holds the mark"""
            if not (isinstance(l[0], T) and l[0].op == "eq" and l[1] == 1):
                return False
            k = (v, l)
            if k not in waits:
                waits[k] = any(m in marks and not tm.isc(t) and self.fresh(v, t, lambda u, e: u is e.old and busy(e, m)) for t, m in (l[0].a, l[0].a[::-1]))
            return waits[k]

        def skip(v, s, l):
            return l in cut or isinstance(l, tuple) and waiting(v, l)

        # failure edges of compare-and-exchange, cycle by cycle
        for comp in sccs(gg, gg.live, lambda v, s, l: False):
            for x in sorted(comp):
                for e in gg.nodes[x].events:
                    if e.kind != "cas" or not any(l == ("cas", e.id, 0) and s in comp for s, l in gg.nodes[x].succ):
                        continue
                    self.n += 1
                    if (c.on_self(e) or e.addr in acq) and not self.stale(e, comp) or self.spurious(e, comp):
                        cut[("cas", e.id, 0)] = e
                    else:
                        self.bad("the attempt is repeated expecting a value that the failed attempt did not observe: running alone it can fail for ever", e)
                        cut[("cas", e.id, 0)] = e
        self.n += 1
        for comp in sccs(gg, gg.live, skip):
            es = [e for x in sorted(comp) for e in gg.nodes[x].events if e.kind in MEM + ("callback", "spin", "ext", "call")]
            self.bad("a loop that does not depend on another thread's action: nothing in it needs interference to go round again (%s)" % (", ".join(e.brief()[:50] for e in es[:3]) or "no access"), next((e for e in es if e.where), None), min(comp))
        # reservations
        for e in gg.evs.values():
            if e.kind == "cas" and e.weak and (e.impl or "").startswith("asm:"):
                ll = gg.ev(e.exp)
                if ll is None or ll.kind != "load" or not (ll.impl or "").startswith("asm:"):
                    continue
                self.n += 1
                o = self.between(ll, e)
                if o is not None:
                    self.bad("a memory access between load-linked and store-conditional: %s" % o.brief()[:80], o)
        if self.priv:
            for e in gg.evs.values():
                if e.addr in acq and e.kind in ("rmw", "cas", "store"):
                    self.n += 1
                    if not all(any(h[0] == "irq" for h in held) for held, _ in c.at.get(e.id, ())):
                        self.bad("the lock is taken or released with interrupts enabled: a handler interrupting its holder waits for ever", e)
        for e in gg.evs.values():
            if e.addr in acq and e.kind in ("rmw", "cas") or e.kind == "callback":
                self.n += 1
                if any(any(h[0] == "lock" for h in held) for held, _ in c.at.get(e.id, ())):
                    self.bad("a lock is %s while a lock is held: it can wait for itself" % ("taken" if e.kind != "callback" else "held across the closure, which may use the same object, i.e. taken"), e)
        return self

    def between(self, a, b):
        gg = self.gg
        if a.id[0] == b.id[0]:
            return next((e for e in gg.nodes[a.id[0]].events if a.id[1] < e.id[1] < b.id[1] and e.kind in MEM), None)
        fwd, st = set(), [s for s, l in gg.nodes[a.id[0]].succ]
        while st:
            x = st.pop()
            if x in fwd or x not in gg.live or x in (a.id[0], b.id[0]):
                continue
            fwd.add(x)
            st += [s for s, l in gg.nodes[x].succ]
        bwd, st = set(), [b.id[0]]
        while st:
            x = st.pop()
            for p, l in gg.pred[x]:
                if p in fwd and p not in bwd:
                    bwd.add(p)
                    st.append(p)
        for x in sorted(bwd):
            for e in gg.nodes[x].events:
                if e.kind in MEM:
                    return e
        for e in gg.nodes[a.id[0]].events:
            if e.id[1] > a.id[1] and e.kind in MEM:
                return e
        for e in gg.nodes[b.id[0]].events:
            if e.id[1] < b.id[1] and e.kind in MEM:
                return e
        return None
