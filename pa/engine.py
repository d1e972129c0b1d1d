"""Interprocedural dataflow over monomorphic MIR.

`Analyzer.run(fn, args)` propagates value-numbered terms through the supergraph of a function and everything it calls
(call-string contexts, constants and branch facts partition the states, everything else is joined with phi terms) to a
fixpoint and returns the graph: nodes, memory/fence/call events with their operand terms, and exits.
No path is enumerated and nothing is executed; a node is (call string, block, partition key).
"""
import os
import heapq
from . import terms as tm
from .terms import T, mk, ci, TRUE, FALSE, UNDEF, UNIT

MAXPART = 96
MAXVALS = 9
MAXFACTS = 10
MAXNODES = 60000


class Unsupported(Exception):
    pass


class Fn:
    """static facts about one body"""

    def __init__(self, f):
        self.f = f
        bbs = f["bbs"]
        n = len(bbs)
        self.addr = set()
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        succ = [[] for _ in range(n)]

        def uplace(p, u, d, write=False):
            l = p[0]
            if write and not p[1]:
                d.add(l)
            else:
                if l not in d:
                    u.add(l)
            for e in p[1]:
                if e != "*" and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def uop(o, u, d):
            if "cp" in o:
                uplace(o["cp"], u, d)
            elif "mv" in o:
                uplace(o["mv"], u, d)

        for i, b in enumerate(bbs):
            u, d = use[i], deff[i]
            for s in b["s"]:
                if s[0] == "=":
                    r = s[2]
                    k = r[0]
                    if k in ("ref", "rawptr"):
                        if not (r[1][1] and r[1][1][0] == "*"):
                            if "*" not in r[1][1]:
                                self.addr.add(r[1][0])
                        uplace(r[1], u, d)
                    elif k == "discr":
                        uplace(r[1], u, d)
                    elif k == "agg":
                        for o in r[3]:
                            uop(o, u, d)
                    else:
                        for o in r[1:]:
                            if isinstance(o, dict):
                                uop(o, u, d)
                    uplace(s[1], u, d, True)
                elif s[0] == "copy":
                    for o in s[1:]:
                        uop(o, u, d)
                elif s[0] == "sd":
                    uplace(s[1], u, d)
            t = b["t"]
            k = t["k"]
            sc = succ[i]
            if k == "goto":
                sc.append(t["t"])
            elif k == "switch":
                uop(t["op"], u, d)
                sc += [x[1] for x in t["ts"]] + [t["o"]]
            elif k in ("call", "drop", "assert", "asm"):
                if k == "call":
                    if "ind" in t["f"]:
                        uop(t["f"]["ind"], u, d)
                    for o in t["a"]:
                        uop(o, u, d)
                    if t["d"][1]:
                        uplace(t["d"], u, d)
                    else:
                        d.add(t["d"][0])
                elif k == "drop":
                    uplace(t["p"], u, d)
                    if t["fn"] is not None and "*" not in t["p"][1]:
                        self.addr.add(t["p"][0])
                elif k == "assert":
                    uop(t["op"], u, d)
                else:
                    for o in t["ops"]:
                        if isinstance(o.get("v"), dict) and ("cp" in o["v"] or "mv" in o["v"]):
                            uop(o["v"], u, d)
                    for o in t["ops"]:
                        if o.get("p"):
                            uplace(o["p"], u, d, False)
                if t["t"] is not None:
                    sc.append(t["t"])
                if isinstance(t["u"], int):
                    sc.append(t["u"])
            elif k == "return":
                if 0 not in d:
                    u.add(0)
        live = [set() for _ in range(n)]
        ch = True
        order = list(range(n))[::-1]
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in succ[i]:
                    o |= live[s]
                nl = use[i] | (o - deff[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        self.live = [frozenset(l | self.addr) for l in live]
        # loop headers: targets of DFS back edges
        self.heads = set()
        color = {}
        st = [(0, iter(succ[0]))] if n else []
        color[0] = 1
        while st:
            v, it = st[-1]
            for w in it:
                if w not in color:
                    color[w] = 1
                    st.append((w, iter(succ[w])))
                    break
                elif color[w] == 1:
                    self.heads.add(w)
            else:
                color[v] = 2
                st.pop()
        self.succ = succ
        self._loops = {}

    def loop(self, h):
        """the blocks that can be executed again before block h is: everything on a cycle with it"""
        r = self._loops.get(h)
        if r is None:
            def reach(edges):
                seen, st = {h}, [h]
                while st:
                    for w in edges[st.pop()]:
                        if w not in seen:
                            seen.add(w)
                            st.append(w)
                return seen
            pred = [[] for _ in self.succ]
            for i, ws in enumerate(self.succ):
                for w in ws:
                    pred[w].append(i)
            r = self._loops[h] = reach(self.succ) & reach(pred)
        return r


class Node:
    __slots__ = ("id", "frame", "bb", "key", "env", "events", "succ", "exit", "unw", "inc", "out", "phis", "visits")

    def __init__(self):
        self.visits = 0
        self.events = []
        self.succ = []
        self.exit = None


class Ev:
    """An effect at a node."""

    __slots__ = ("id", "kind", "op", "addr", "size", "old", "new", "val", "exp", "ord", "ford", "impl", "weak", "where", "args", "res", "fn", "x", "signed", "node", "chain")

    def __init__(self, kind, **kw):
        for s in Ev.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)

    def brief(self):
        p = [self.kind]
        if self.op:
            p.append(str(self.op))
        if self.addr is not None:
            p.append("[" + str(self.addr) + "]")
        if self.size:
            p.append("%dB" % self.size)
        for k in ("ord", "ford", "exp", "val", "new", "old", "impl"):
            v = getattr(self, k)
            if v is not None:
                p.append("%s=%s" % (k, v))
        return " ".join(p)


class Graph:
    def __init__(self):
        self.nodes = []
        self.entry = None
        self.exits = []  # (node id, kind, term)
        self.phi_in = {}


class Dump:
    def __init__(self, d):
        self.d = d
        self.fns = d["fns"]
        self.tys = d["tys"]
        self.ptr = d["ptr"]
        self.little = d["endian"].lower() == "little"
        self.target = d["target"]
        self.arch = d["target"].split("-")[0]
        self.cfgs = set(d["cfgs"])
        self.kuser = self.arch.startswith(("arm", "thumb")) and any(x in d["target"] for x in ("linux", "android"))
        self.single = "portable_atomic_unsafe_assume_single_core" in self.cfgs or self.arch in ("avr", "msp430")
        self._fn = {}
        self.target_features = {c.split('"')[1] for c in d["cfgs"] if c.startswith("target_feature=")}
        self.pub = d["pub"]
        self._rtleaf = {}
        self._rtcand = {}
        self._spin = {}

    def body(self, i):
        b = self._fn.get(i)
        if b is None:
            b = self._fn[i] = Fn(self.fns[i])
        return b

    def ty(self, i):
        return self.tys[i]

    # ---- reachability
    def callees(self, i):
        f = self.fns[i]
        out = []
        if not f.get("bbs"):
            return out
        for b in f["bbs"]:
            for s in b["s"]:
                if s[0] == "=":
                    for o in _ops(s[2]):
                        if o.get("c") in ("fn", "fnptr"):
                            out.append(o["fn"])
            t = b["t"]
            if t["k"] == "call" and "fn" in t["f"]:
                out.append(t["f"]["fn"])
            if t["k"] == "call":
                for o in t["a"]:
                    if o.get("c") in ("fn", "fnptr"):
                        out.append(o["fn"])
            if t["k"] == "drop" and t["fn"] is not None:
                out.append(t["fn"])
            if t["k"] == "asm":
                for o in t["ops"]:
                    if o["k"] == "sym":
                        v = o["v"]
                        if v.get("c") == "fn":
                            out.append(v["fn"])
        return out

    def reach(self, i, seen=None):
        seen = set() if seen is None else seen
        st = [i]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += self.callees(x)
        return seen

    def statics_of(self, i):
        """static paths named by a body"""
        out = set()

        def walk(o):
            if isinstance(o, dict):
                if o.get("c") == "static":
                    out.add(o["path"])
                for v in o.values():
                    walk(v)
            elif isinstance(o, list):
                for v in o:
                    walk(v)

        f = self.fns[i]
        if f.get("bbs"):
            walk(f["bbs"])
        return out

    def is_rt_leaf(self, i):
        """A cached run-time fact: a local function of no arguments returning a bool/integer (or a struct around one)
        that (transitively) reads a static memory cell.  Treated as one opaque program-wide constant; what it computes is
        the subject of its own property."""
        if i in self._rtleaf:
            return self._rtleaf[i]
        r = self.rt_cand(i)
        if r:
            # only the innermost such function: one that merely calls another is followed
            seen, st = {i}, [i]
            r = False
            while st and not r:
                x = st.pop()
                r = bool(self.statics_of(x))
                for y in self.callees(x):
                    if y not in seen and not self.rt_cand(y):
                        seen.add(y)
                        st.append(y)
        self._rtleaf[i] = r
        return r

    def rt_cand(self, i):
        if i in self._rtcand:
            return self._rtcand[i]
        f = self.fns[i]
        r = False
        if f["local"] and f.get("bbs") and f["argc"] == 0 and f["kind"] == "item":
            rt = self.tys[f["locals"][0]]
            k = rt["k"]
            ok = k in ("bool", "uint") or (k == "struct" and len(rt["v"][0]["f"]) == 1 and self.tys[rt["v"][0]["f"][0]]["k"] in ("uint", "bool"))
            if ok and f.get("inst", "").find("abort") < 0:
                r = any(self.statics_of(x) for x in self.reach(i))
        self._rtcand[i] = r
        return r


    def plain_data(self, ti, d=0):
        t = self.tys[ti]
        if t["k"] in ("int", "uint", "bool", "char"):
            return True
        if t["k"] == "tuple":
            return all(self.plain_data(x, d + 1) for x in t["f"])
        if t["k"] == "struct" and d < 5:
            return all(self.plain_data(x, d + 1) for v in t["v"] for x in v["f"])
        return False

    def is_spin(self, i):
        """A local procedure with a loop and no effect besides its own plain-data arguments (a back-off delay)."""
        r = self._spin.get(i)
        if r is not None:
            return r
        r = False
        f = self.fns[i]
        if f["local"] and f.get("bbs") and f["kind"] == "item":
            rt = self.tys[f["locals"][0]]
            ok = rt["k"] == "tuple" and not rt["f"]
            for a in range(f["argc"]):
                t = self.tys[f["locals"][a + 1]]
                ok = ok and (self.plain_data(f["locals"][a + 1]) or ("to" in t and self.plain_data(t["to"])))
            if ok:
                R = self.reach(i)
                loop = False
                for x in R:
                    g = self.fns[x]
                    if g["leaf"] or not g.get("bbs"):
                        ok = ok and (g["path"].endswith(("::spin_loop_hint", "::yield_now")) or g["kind"] == "nodrop" or g["path"].startswith(("core::intrinsics::cold_path", "core::ub_checks::", "core::panicking::panic_nounwind", "core::fmt::Arguments")))
                        continue
                    loop = loop or bool(self.body(x).heads)
                    for b in g["bbs"]:
                        k = b["t"]["k"]
                        if k == "asm" or (k == "call" and "fn" not in b["t"]["f"]) or (k == "call" and b["t"]["t"] is None and not any(y in self.fns[b["t"]["f"]["fn"]]["path"] for y in ("panic_nounwind", "unreachable_unchecked"))):
                            ok = False
                    if self.statics_of(x):
                        ok = False
                r = ok and loop
        self._spin[i] = r
        return r


def _ops(r):
    for x in r[1:]:
        if isinstance(x, dict):
            yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    yield y


ORDERS = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")


# the contract of critical_section::Impl (an unsafe trait): entering and leaving do not unwind
NOUNWIND = ("_critical_section_1_0_acquire", "_critical_section_1_0_release")


class Analyzer:
    def __init__(self, dump, inline_rt=False, isa=None, opaque=None, api=None):
        self.D = dump
        self.tys = dump.tys
        self.fns = dump.fns
        self.inline_rt = inline_rt
        self.isa = isa
        self.subword = None
        self.opaque = opaque
        self.api = api or {}
        self.pts = {}
        self.pcond = {}
        self.tstat = {}
        self.ordty = None
        self.lab = None
        self.enum_hint = {}
        for i, t in enumerate(self.tys):
            if t["k"] == "enum" and t["path"].endswith("sync::atomic::Ordering"):
                self.ordty = i
        tm.LITTLE[0] = dump.little
        tm.PTR[0] = dump.ptr

    # ------------------------------------------------------------ setup
    def order(self, name):
        v = [x["n"] for x in self.tys[self.ordty]["v"]].index(name)
        return mk("agg", self.tkey(self.ordty), v, ())

    def tkey(self, ti):
        return ti

    def run(self, fn, args, facts=(), extra_env=None):
        self.g = Graph()
        self.nodes = {}
        self.frames = [None]
        self.fidx = {}
        self.parts = {}
        self.vals = {}
        self.wide = {}
        self.work = []
        self.inwork = set()
        f = self.fns[fn]
        if f["leaf"]:
            raise Unsupported("root is a leaf: " + f["path"])
        fr = self.frame((None, None, fn, None, None, None))
        env = {"$f": tuple(facts), "$h": ()}
        if extra_env:
            env.update(extra_env)
        for i, a in enumerate(args):
            env[(fr, i + 1)] = a
        self.node = None
        nid = self.enter(fr, 0, env)
        self.g.entry = nid
        n = 0
        while self.work:
            x = heapq.heappop(self.work)
            self.inwork.discard(x)
            self.process(self.g.nodes[x])
            n += 1
            if n > MAXNODES:
                raise Unsupported("no fixpoint within %d steps" % MAXNODES)
        self.steps = n
        self.g.frames = self.frames
        self.g.an = self
        for nd in self.g.nodes:
            if nd.env is not None and nd.exit:
                self.g.exits.append((nd.id, nd.exit[0], nd.exit[1]))
        return self.g

    def frame(self, key):
        i = self.fidx.get(key)
        if i is None:
            i = self.fidx[key] = len(self.frames)
            self.frames.append(key)
            depth = 0
            k = key
            while k[0] is not None:
                k = self.frames[k[1] if k[0] == "asm" else k[0]]
                depth += 1
            if depth > 60:
                raise Unsupported("call depth")
        return i

    # ------------------------------------------------------------ states
    def csig(self, t, d=0):
        if t.op == "i":
            return t.a[0]
        if t.op == "agg":
            if d > 3:
                return t.a[1]
            return (t.a[1],) + tuple(self.csig(x, d + 1) for x in t.a[2])
        if t.op in ("fnptr", "fn"):
            return t.id
        return None

    def livesets(self, fr, bb):
        """[(frame, live locals)] for the call string"""
        out = []
        f = self.frames[fr]
        if f[0] == "asm":
            out.append((fr, None))
            fr, bb = f[1], f[3]
            f = self.frames[fr]
            b = self.D.body(f[2])
            # asm operands were captured in the asm frame; afterwards live-in(target)
            lv = set(b.live[bb]) if bb is not None else set(b.addr)
            lv |= self.isa.extra_live(self, self.frames[out[0][0]])
            out.append((fr, lv))
            pf, bb = f[0], f[4]
        else:
            out.append((fr, self.D.body(f[2]).live[bb]))
            pf, bb = f[0], f[4]
        while pf is not None:
            p = self.frames[pf]
            b = self.D.body(p[2])
            lv = set(b.addr)
            if bb is not None:
                lv |= b.live[bb]
            if isinstance(f[5], int):
                lv |= b.live[f[5]]
            if f[3] is not None and f[3][1]:
                lv.add(f[3][0])
            out.append((pf, lv))
            f = p
            pf, bb = p[0], p[4]
        return out

    def enter(self, fr, bb, env, head=None):
        fk = self.frames[fr]
        if fk[0] != "asm":
            B = self.D.body(fk[2])
            ishead = bb in B.heads
        else:
            ishead = self.isa.ishead(self, fk, bb)
        ls = self.livesets(fr, bb)
        keep = {}
        sig = []
        for f, lv in ls:
            if lv is None:
                for k, v in env.items():
                    if isinstance(k, tuple) and k[0] == f:
                        keep[k] = v
                        if v.op == "agg" or (v.op == "i" and v.a[1] == 1):
                            c = self.csig(v)
                            sig.append((k[1], c))
            else:
                for l in sorted(lv):
                    v = env.get((f, l))
                    if v is not None:
                        keep[(f, l)] = v
                        c = self.csig(v)
                        if c is not None:
                            sig.append((f, l, c))
        sig.sort(key=str)
        facts = env["$f"]
        if ishead:
            facts = tuple(x for x in facts if not tm.has_dyn(x[0]) or self.inline_rt and fk[0] != "asm" and self.settled(fr, B.loop(bb), x[0]))
        if len(facts) > MAXFACTS:
            st = [x for x in facts if not tm.has_dyn(x[0])]
            dy = [x for x in facts if tm.has_dyn(x[0])]
            keepf = set(id(x) for x in st[:2 * MAXFACTS] + dy[-max(2, MAXFACTS - len(st)):])
            facts = tuple(x for x in facts if id(x) in keepf)
        keep["$f"] = facts
        keep["$h"] = env["$h"]
        for k in env:
            if isinstance(k, str) and k[0] == "$" and k not in ("$f", "$h"):
                keep[k] = env[k]
        pk = self.parts.setdefault((fr, bb), {})
        if ishead:
            # an integer location with many constants at a loop header is not unrolled further
            vals = self.vals.setdefault((fr, bb), {})
            nsig = []
            for x in sig:
                l = x[:-1]
                s = vals.setdefault(l, set())
                if len(s) >= MAXVALS and x[-1] not in s:
                    s = None
                    self.wide.setdefault((fr, bb), set()).add(l)
                if s is not None:
                    s.add(x[-1])
                    nsig.append(x)
            sig = nsig
        key = (tuple(sig), facts, env["$h"])
        nid = pk.get(key)
        if nid is None and len(pk) >= MAXPART:
            # too many: what is known to be constant still keeps states apart, then only what was tested of the arguments
            key = ("V", tuple(sig), tuple(x for x in facts if not tm.has_dyn(x[0])), env["$h"][:6])
            nid = pk.get(key)
        if nid is None and len(pk) >= 2 * MAXPART:
            key = ("W", tuple(x for x in facts if not tm.has_dyn(x[0])), env["$h"][:6])
            nid = pk.get(key)
        if nid is None:
            nd = Node()
            nd.id = len(self.g.nodes)
            nd.frame, nd.bb, nd.key, nd.env = fr, bb, key, None
            nd.inc = {}
            nd.out = {}
            nd.phis = {}
            self.g.nodes.append(nd)
            pk[key] = nd.id
            nid = nd.id
        nd = self.g.nodes[nid]
        src = self.node
        if src is None:
            e = (-1, 0)
        else:
            e = (src.id, self.ectr)
            self.ectr += 1
            self.eout[e] = nid
        old = nd.inc.get(e)
        if old is None or old != keep:
            nd.inc[e] = keep
            self.rejoin(nd)
        return nid

    def settled(self, fr, loop, t):
        """every event and join mentioned lies outside the loop of frame fr: it cannot happen again before the loop ends"""
        def inside(x):
            if x.op not in ("ev", "phi", "fld0"):
                return False
            if x.op == "fld0" or not isinstance(x.a[0], int):
                return True
            nd = self.g.nodes[x.a[0]]
            f, b = nd.frame, nd.bb
            while f is not None and f != fr:
                k = self.frames[f]
                f, b = k[1:3] if k[0] == "asm" else k[:2]
            return f == fr and b in loop
        return not tm.contains(t, inside, {})

    def rejoin(self, nd):
        inc = nd.inc
        if not inc:
            # unreachable after all
            if nd.env is not None:
                nd.env = None
                self.push(nd.id)
            return
        if len(inc) == 1 and not nd.phis:
            env = dict(next(iter(inc.values())))
        else:
            envs = list(inc.values())
            env = {}
            first = envs[0]
            keys = set(first)
            for e in envs[1:]:
                keys |= set(e)
            for k in keys:
                vs = [e.get(k, UNDEF) for e in envs]
                v = vs[0]
                if k == "$f":
                    env[k] = tuple(x for x in v if all(x in w for w in vs))
                elif k == "$h":
                    n = v
                    for w in vs[1:]:
                        n = n + tuple(x for x in w if x not in n)
                    env[k] = n
                else:
                    env[k] = self.joinv(vs, nd, k)
        if nd.env is None or nd.env != env:
            nd.env = env
            self.push(nd.id)

    def push(self, nid):
        if nid not in self.inwork:
            self.inwork.add(nid)
            heapq.heappush(self.work, nid)

    def joinv(self, vs, nd, loc):
        a = vs[0]
        if all(x is a for x in vs):
            if a.op == "agg":
                if not nd.phis:
                    return a
                return mk("agg", a.a[0], a.a[1], tuple(self.joinv([x] * len(vs), nd, (loc, i)) for i, x in enumerate(a.a[2])))
            c = nd.phis.get(loc)
            if c is None:
                return a
            # a location that keeps alternating between a join and a single value stays a join
            if c[1]:
                c[0] += 1
                c[1] = False
            if c[0] < 3 and nd.visits < 40:
                return a
        if a.op == "agg" and all(b.op == "agg" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) for b in vs):
            return mk("agg", a.a[0], a.a[1], tuple(self.joinv([v.a[2][i] for v in vs], nd, (loc, i)) for i in range(len(a.a[2]))))
        sz = None
        if all(x.op != "agg" for x in vs):
            for x in vs:
                sz = sz or tm.size(x)
        bl = all(tm.is_bool(x) for x in vs)
        p = mk("phi", nd.id, loc, "bool", 1) if bl else mk("phi", nd.id, loc, sz if sz is not None else "?")
        s = set(x for x in vs if x is not p)
        c = nd.phis.setdefault(loc, [0, False])
        if len(s) == 1 and c[0] < 3 and nd.visits < 40:
            # only itself and one other value: redundant
            if c[1]:
                c[0] += 1
                c[1] = False
            return next(iter(s))
        c[1] = True
        self.g.phi_in[p] = s
        return p

    # ------------------------------------------------------------ types
    def sizeof(self, ti):
        return self.tys[ti].get("size")

    def opaque_val(self, ti, mkleaf, d=0, p=()):
        """an unknown value of a type: structs/tuples expanded, scalars and enums as leaves"""
        t = self.tys[ti]
        k = t["k"]
        if k in ("struct",) and d < 6 and t["v"]:
            return mk("agg", ti, 0, tuple(self.opaque_val(x, mkleaf, d + 1, p + (i,)) for i, x in enumerate(t["v"][0]["f"])))
        if k == "tuple":
            if not t["f"]:
                return UNIT
            return mk("agg", ti, 0, tuple(self.opaque_val(x, mkleaf, d + 1, p + (i,)) for i, x in enumerate(t["f"])))
        v = mkleaf(p, t)
        if k == "enum":
            self.enum_hint[v] = [x["d"] for x in t["v"]]
        return v

    def evterm(self, eid, tag, ti):
        def leaf(p, t):
            nm = "%s%s" % (tag, "".join("." + str(x) for x in p))
            if t["k"] == "bool":
                return mk("ev", eid[0], eid[1], nm, "bool", 1)
            return mk("ev", eid[0], eid[1], nm, t["k"], t.get("size") or 0)

        return self.opaque_val(ti, leaf)

    # scalar leaves (off, size, term) of a typed value; None when not flattenable
    def flatten(self, v, ti, off=0):
        t = self.tys[ti]
        k = t["k"]
        sz = t.get("size")
        if sz == 0:
            return []
        if v.op == "undef":
            return [(off, sz, UNDEF)]
        if k in ("struct",):
            if v.op == "agg":
                out = []
                for i, ft in enumerate(t["v"][0]["f"]):
                    r = self.flatten(v.a[2][i], ft, off + t["v"][0]["off"][i])
                    if r is None:
                        return None
                    out += r
                return out
        elif k == "tuple":
            if v.op == "agg":
                out = []
                for i, ft in enumerate(t["f"]):
                    r = self.flatten(v.a[2][i], ft, off + t["off"][i])
                    if r is None:
                        return None
                    out += r
                return out
        elif k == "array":
            if v.op == "agg":
                es = self.sizeof(t["of"])
                out = []
                for i, x in enumerate(v.a[2]):
                    r = self.flatten(x, t["of"], off + i * es)
                    if r is None:
                        return None
                    out += r
                return out
            if v.op == "rep":
                es = self.sizeof(t["of"])
                out = []
                for i in range(t.get("len", 0)):
                    r = self.flatten(v.a[0], t["of"], off + i * es)
                    if r is None:
                        return None
                    out += r
                return out
        elif k == "union":
            if v.op == "agg":
                fi = v.a[1]
                ft = t["v"][0]["f"][fi]
                r = self.flatten(v.a[2][0], ft, off)
                if r is None:
                    return None
                fs = self.sizeof(ft)
                if fs < sz:
                    r = r + [(off + fs, sz - fs, UNDEF)]
                return r
        elif k == "enum":
            if v.op == "agg":
                # field-less enums with a tag of the enum's size
                if not t["v"][v.a[1]]["f"]:
                    return [(off, sz, ci(t["v"][v.a[1]]["d"], sz))] if sz else []
                return None
        if v.op == "agg":
            return None
        return [(off, sz, v)]

    def build(self, ti, leaves, off=0):
        t = self.tys[ti]
        k = t["k"]
        sz = t.get("size")
        if sz == 0:
            if k in ("tuple", "struct"):
                return mk("agg", ti, 0, tuple(self.build(x, leaves, off) for x in (t["f"] if k == "tuple" else t["v"][0]["f"]))) if not (k == "tuple" and not t["f"]) else UNIT
            return mk("zst", ti)
        if k == "struct":
            return mk("agg", ti, 0, tuple(self.build(x, leaves, off + t["v"][0]["off"][i]) for i, x in enumerate(t["v"][0]["f"])))
        if k == "tuple":
            return mk("agg", ti, 0, tuple(self.build(x, leaves, off + t["off"][i]) for i, x in enumerate(t["f"])))
        if k == "array" and t.get("len") is not None:
            es = self.sizeof(t["of"])
            return mk("agg", ti, 0, tuple(self.build(t["of"], leaves, off + i * es) for i in range(t["len"])))
        if k == "union":
            # keep the widest field view
            fs = t["v"][0]["f"]
            best = max(range(len(fs)), key=lambda i: (self.sizeof(fs[i]) or 0, -i))
            return mk("agg", ti, best, (self.build(fs[best], leaves, off),))
        parts = []
        o = off
        end = off + sz
        for lo, ls, v in sorted(leaves, key=lambda x: x[0]):
            if lo + ls <= o or lo >= end:
                continue
            if lo > o:
                return UNDEF
            a, b = max(lo, off), min(lo + ls, end)
            if v.op == "undef":
                return UNDEF
            if a == lo and b == lo + ls:
                parts.append(v)
            else:
                if tm.size(v) is None:
                    return mk("cast", "bits", v, a - lo, sz)
                parts.append(tm.ext(v, a - lo, b - a))
            o = b
        if o < end:
            return UNDEF
        if len(parts) == 1:
            r = parts[0]
        elif any(tm.size(x) is None for x in parts):
            r = mk("catx", *parts)
        else:
            r = tm.cat(parts)
        return r

    def reint(self, v, frm, to):
        if frm == to:
            return v
        a, b = self.tys[frm], self.tys[to]
        if a.get("size") == 0 and b.get("size") == 0:
            return self.build(to, [])
        fl = self.flatten(v, frm)
        if fl is None:
            return mk("cast", "transmute", v, frm, to)
        if b["k"] == "enum":
            if len(fl) == 1 and fl[0][2].op == "i" and all(not x["f"] for x in b["v"]):
                for i, x in enumerate(b["v"]):
                    if (x["d"] & 0xFF) == fl[0][2].a[0] & 0xFF:
                        return mk("agg", to, i, ())
            return mk("cast", "transmute", v, frm, to)
        return self.build(to, fl)

    # ------------------------------------------------------------ places
    # A resolved place: ("L", frame, local, path) with path of ("f",variant,idx,ty) / ("e",i,ty); or ("M", base, off)
    def resolve(self, nd, p):
        fr = self.cur
        f = self.frames[fr]
        fn = self.fns[f[2]]
        ty = fn["locals"][p[0]]
        loc = ("L", fr, p[0], ())
        var = 0
        for e in p[1]:
            t = self.tys[ty]
            if e == "*":
                pv = self.read(loc, ty)
                to = t.get("to")
                if to is None:
                    raise Unsupported("deref of " + t["n"])
                loc = self.deref(pv, to)
                ty = to
                var = 0
            elif e[0] == "f":
                ft = e[2]
                if loc[0] == "L" and t["k"] == "struct" and t.get("size") is None and loc[3] and loc[3][-1][0] == "c" and loc[3][-1][1] == 0:
                    # a struct behind a pointer whose last field was unsized
                    at = loc[3][-1][3]
                    a = self.tys[at] if at is not None else {}
                    if a.get("k") == "struct" and a.get("path") == t.get("path") and len(a["v"][0]["f"]) == len(t["v"][0]["f"]):
                        loc = ("L", loc[1], loc[2], loc[3][:-1])
                        ft0, ft = ft, a["v"][0]["f"][e[1]]
                        if self.tys[ft0]["k"] == self.tys[ft]["k"]:
                            ft = ft0
                        ty = at
                if loc[0] == "L":
                    loc = ("L", loc[1], loc[2], loc[3] + (("f", var, e[1], ft, ty),))
                elif loc[0] == "V":
                    loc = ("V", self.field(loc[1], ty, var, e[1], ft))
                else:
                    off = self.offset(ty, var, e[1])
                    loc = ("M", loc[1], None if off is None else loc[2] + off)
                    if off is None:
                        loc = ("M", mk("fldaddr", loc[1], var, e[1]), 0)
                ty = ft
                var = 0
            elif e[0] == "v":
                var = e[1]
            elif e[0] == "i" or e[0] == "ci":
                of = t.get("of")
                es = self.sizeof(of)
                ix = self.E.get((fr, e[1]), UNDEF) if e[0] == "i" else ci(e[1], self.D.ptr)
                if loc[0] == "L" and t["k"] == "slice" and loc[3] and loc[3][-1][0] == "c" and loc[3][-1][1] == 0:
                    # an array seen as a slice
                    at = loc[3][-1][3]
                    if at is not None and self.tys[at]["k"] == "array" and self.tys[at]["of"] == of:
                        ty = at
                        loc = ("L", loc[1], loc[2], loc[3][:-1])
                if loc[0] == "L":
                    if ix.op == "i":
                        loc = ("L", loc[1], loc[2], loc[3] + (("e", ix.a[0], of, ty),))
                    else:
                        loc = ("L", loc[1], loc[2], loc[3] + (("e", ix, of, ty),))
                elif loc[0] == "M":
                    if ix.op == "i":
                        loc = ("M", loc[1], loc[2] + ix.a[0] * es)
                    else:
                        loc = ("M", mk("idx", self.ptr(loc[1], loc[2]), ix, es), 0)
                else:
                    raise Unsupported("index of value")
                ty = of
            else:
                raise Unsupported("projection " + str(e))
        return loc, ty

    def offset(self, ty, var, i):
        t = self.tys[ty]
        if t["k"] == "tuple":
            return t["off"][i]
        if t["k"] == "union":
            return 0
        if t["k"] == "struct":
            offs = t["v"][0]["off"]
            if i < len(offs):
                return offs[i]
            # (unsized: the layout of a wrapper around one field)
            return 0 if len(t["v"][0]["f"]) == 1 else None
        if t["k"] == "closure":
            return None
        return None

    def ptr(self, base, off):
        if off == 0:
            return base
        if base.op == "ptr":
            return self.ptr(base.a[0], base.a[1] + off)
        return mk("ptr", base, off)

    def deref(self, pv, to):
        if pv.op == "laddr":
            loc = ("L", pv.a[0], pv.a[1], pv.a[2])
            # type punning through a pointer cast
            at = self.loctype(loc)
            if at != to:
                loc = ("L", pv.a[0], pv.a[1], pv.a[2] + (("c", 0, to, at),))
            return loc
        if pv.op == "cref":
            return ("V", pv.a[0])
        if pv.op == "ptr":
            return ("M", pv.a[0], pv.a[1])
        if pv.op == "fat":
            return self.deref(pv.a[0], to)
        return ("M", pv, 0)

    def loctype(self, loc):
        if loc[3]:
            e = loc[3][-1]
            return e[3] if e[0] == "f" else e[2]
        f = self.frames[loc[1]]
        if f[0] == "asm":
            return None
        return self.fns[f[2]]["locals"][loc[2]]

    def field(self, v, ty, var, i, ft):
        """field i of variant var of a value"""
        t = self.tys[ty]
        if v.op == "agg":
            if t["k"] == "union":
                fi = v.a[1]
                if fi == i:
                    return v.a[2][0]
                return self.reint(v.a[2][0], t["v"][0]["f"][fi], ft)
            if t["k"] == "enum" and v.a[1] != var:
                return UNDEF
            if i < len(v.a[2]):
                return v.a[2][i]
            return UNDEF
        if v.op == "undef":
            return UNDEF
        if t["k"] in ("struct", "tuple", "union") and v.op not in ("phi",) and t.get("size"):
            off = self.offset(ty, var, i)
            if off is not None and tm.size(v) is not None:
                return self.build(ft, [(-off, t["size"], v)], 0)
        s = self.sizeof(ft)

        def leaf(p, tt):
            q = v
            nm = (var, i) + p
            if tt["k"] == "bool":
                return mk("fld", q, nm, "bool", 1)
            return mk("fld", q, nm, tt["k"], tt.get("size") or 0)

        if v.op == "phi" and v in self.g.phi_in:
            # the component-wise phi, when every input has the component
            ins = self.g.phi_in[v]
            if all(x.op == "agg" and x.a[1] == var for x in ins):
                return mk("phi", v.a[0], (v.a[1], i), s if self.tys[ft]["k"] not in ("struct", "enum", "tuple") else "?")
        return self.opaque_val(ft, leaf)

    def elem(self, v, i, ft):
        if v.op == "agg" and isinstance(i, int) and i < len(v.a[2]):
            return v.a[2][i]
        if v.op == "rep":
            return v.a[0]
        if v.op == "undef":
            return UNDEF
        if isinstance(i, int) and tm.size(v) is not None:
            es = self.sizeof(ft)
            return self.build(ft, [(0, tm.size(v), v)], i * es)
        return mk("elem", v, i, self.sizeof(ft) or 0)

    def read(self, loc, ty, where=None, quiet=False):
        if loc[0] == "V":
            return loc[1]
        if loc[0] == "L":
            v = self.E.get((loc[1], loc[2]), UNDEF)
            for e in loc[3]:
                if e[0] == "f":
                    v = self.field(v, e[4], e[1], e[2], e[3])
                elif e[0] == "e":
                    v = self.elem(v, e[1], e[2])
                elif e[0] == "c":
                    v = self.reint_at(v, e[3], e[2])
            return v
        if self.sizeof(ty) == 0:
            return self.build(ty, [])
        return self.memload(loc[1], loc[2], ty, "plain", where)

    def reint_at(self, v, frm, to):
        if frm is None:
            return v
        a, b = self.tys[frm].get("size"), self.tys[to].get("size")
        if a == b:
            return self.reint(v, frm, to)
        fl = self.flatten(v, frm)
        if fl is None or b is None:
            return mk("cast", "punned", v, frm, to)
        return self.build(to, fl)

    def memload(self, base, off, ty, impl, where):
        t = self.tys[ty]
        sz = t.get("size")
        addr = self.ptr(base, off)
        if self.D.kuser and const_addr(addr) == 0xFFFF0FFC and sz == 4:
            # __kuser_helper_version: a constant of the running kernel
            self.event(Ev("rt", op="__kuser_helper_version", where=where))
            return self.opaque_val(ty, lambda p, t: mk("rt", "__kuser_helper_version", p, t["k"], t["size"]))
        ev = self.event(Ev("load", addr=addr, size=sz, impl=impl, where=where))
        v = self.evterm(ev.id, "ld", ty)
        ev.old = v
        fl = self.flatten(v, ty)
        if fl is not None and len(fl) == 1:
            ev.old = fl[0][2]
        # a plain load of an address whose value was pinned by the caller (constant statics) stays symbolic
        return v

    def memstore(self, base, off, ty, v, impl, where):
        sz = self.sizeof(ty)
        if sz == 0:
            return
        fl = self.flatten(v, ty)
        nv = v
        if fl is not None and fl and all(x[2].op != "undef" for x in fl):
            if len(fl) == 1:
                nv = fl[0][2]
            elif all(tm.size(x[2]) is not None for x in fl) and sum(x[1] for x in fl) == sz:
                nv = tm.cat([x[2] for x in sorted(fl, key=lambda x: x[0])])
        self.event(Ev("store", addr=self.ptr(base, off), size=sz, new=nv, impl=impl, where=where), commit=True)

    def write(self, loc, ty, v, where=None):
        if loc[0] == "V":
            return
        if loc[0] == "M":
            self.memstore(loc[1], loc[2], ty, v, "plain", where)
            return
        key = (loc[1], loc[2])
        self.E[key] = self.upd(self.E.get(key, UNDEF), loc[3], v)

    def upd(self, cur, path, v):
        if not path:
            return v
        e = path[0]
        if e[0] == "f":
            pty = e[4]
            t = self.tys[pty]
            if t["k"] == "union":
                if cur.op == "agg" and cur.a[1] == e[2]:
                    inner = cur.a[2][0]
                else:
                    inner = self.field(cur, pty, 0, e[2], e[3]) if cur.op == "agg" else UNDEF
                return mk("agg", pty, e[2], (self.upd(inner, path[1:], v),))
            nf = self.nfields(t, e[1])
            if cur.op == "agg" and (t["k"] != "enum" or cur.a[1] == e[1]) and len(cur.a[2]) == nf:
                fs = list(cur.a[2])
            else:
                fs = [self.field(cur, pty, e[1], i, self.fty(t, e[1], i)) if cur.op not in ("undef", "agg") else UNDEF for i in range(nf)]
            fs[e[2]] = self.upd(fs[e[2]], path[1:], v)
            return mk("agg", pty, e[1], tuple(fs))
        if e[0] == "e":
            aty = e[3]
            n = self.tys[aty].get("len")
            if not isinstance(e[1], int) or n is None or e[1] >= n:
                return mk("weak", cur, v)
            fs = list(cur.a[2]) if cur.op == "agg" else [self.elem(cur, i, e[2]) for i in range(n)]
            fs[e[1]] = self.upd(fs[e[1]], path[1:], v)
            return mk("agg", aty, 0, tuple(fs))
        if e[0] == "c":
            inner = self.reint_at(cur, e[3], e[2]) if path[1:] else UNDEF
            nv = self.upd(inner, path[1:], v)
            a, b = self.tys[e[3]].get("size"), self.tys[e[2]].get("size")
            if a is None or b is None:
                if os.environ.get("PA_DBG"):
                    print("WEAK", self.tys[e[3]], self.tys[e[2]], path)
                return mk("weak", cur, v)
            if a == b:
                return self.reint(nv, e[2], e[3])
            # partial overwrite through a narrower pointer
            fl = self.flatten(cur, e[3])
            nl = self.flatten(nv, e[2])
            if fl is None or nl is None:
                return mk("weak", cur, v)
            out = list(nl)
            for lo, ls, x in fl:
                if lo >= b:
                    out.append((lo, ls, x))
                elif lo + ls > b:
                    if x.op == "undef":
                        out.append((b, lo + ls - b, UNDEF))
                    else:
                        out.append((b, lo + ls - b, tm.ext(x, b - lo, lo + ls - b)))
            return self.build(e[3], out)
        raise Unsupported("write path")

    def nfields(self, t, var):
        if t["k"] in ("tuple", "closure"):
            return len(t["f"])
        return len(t["v"][var]["f"])

    def fty(self, t, var, i):
        if t["k"] in ("tuple", "closure"):
            return t["f"][i]
        return t["v"][var]["f"][i]

    def addr_of(self, loc):
        if loc[0] == "L":
            return mk("laddr", loc[1], loc[2], loc[3])
        if loc[0] == "V":
            return mk("cref", loc[1])
        return self.ptr(loc[1], loc[2])

    # ------------------------------------------------------------ operands / rvalues
    def konst(self, c):
        k = c["c"]
        if k == "int":
            t = self.tys[c["ty"]]
            if t["k"] in ("ptr", "ref"):
                return ci(int(c["v"]), t["size"])
            if t["k"] == "enum":
                for i, x in enumerate(t["v"]):
                    if x["d"] == int(c["v"]) and not x["f"]:
                        return mk("agg", c["ty"], i, ())
            return ci(int(c["v"]), t.get("size", 1))
        if k == "agg":
            t = self.tys[c["ty"]]
            if t["k"] == "tuple" and not c["f"]:
                return UNIT
            if t["k"] == "union":
                return mk("agg", c["ty"], 0, tuple(self.konst(x) for x in c["f"]))
            return mk("agg", c["ty"], c["var"], tuple(self.konst(x) for x in c["f"]))
        if k == "zst":
            return self.build(c["ty"], []) if self.tys[c["ty"]]["k"] in ("tuple", "struct") else mk("zst", c["ty"])
        if k == "fn":
            return mk("fn", c["fn"])
        if k == "fnptr":
            return mk("fnptr", c["fn"])
        if k == "static":
            b = mk("static", c["path"])
            return self.ptr(b, c.get("off", 0))
        if k == "mem":
            if c.get("val"):
                return mk("cref", self.konst(c["val"]))
            if c.get("ptrs") and len(c["ptrs"]) == 1 and c["ptrs"][0][0] == 0 and c["ptrs"][0][1]:
                return mk("cref", self.konst(c["ptrs"][0][1]))
            return mk("cmem", c.get("id", "?"))
        if k == "str":
            return mk("str", c.get("b"))
        return mk("unk", k, c.get("ty", 0))

    def operand(self, nd, o, where=None):
        if "cp" in o or "mv" in o:
            p = o.get("cp") or o.get("mv")
            if not p[1]:
                return self.E.get((self.cur, p[0]), UNDEF)
            loc, ty = self.resolve(nd, p)
            return self.read(loc, ty, where)
        return self.konst(o)

    def binop(self, b, x, y, ti):
        t = self.tys[ti]
        sz = t.get("size") or 0
        signed = t["k"] == "int"
        isb = t["k"] == "bool"
        b0 = b.replace("Unchecked", "")
        if t["k"] == "float":
            if b in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return mk("fop", "cmp" + b, x, y, "bool", 1)
            return mk("fop", b, x, y, sz)
        if t["k"] in ("ptr", "ref", "fnptr") and b not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Offset"):
            return mk("unk", b)
        if t["k"] in ("unit", "other", "enum", "struct"):
            return mk("unk", b)
        if b0 == "Add":
            return tm.add(x, y, sz)
        if b0 == "Sub":
            return tm.sub(x, y, sz)
        if b0 == "Mul":
            return tm.mul(x, y, sz)
        if b in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = {"A": tm.add, "S": tm.sub, "M": tm.mul}[b[0]](x, y, sz)
            if x.op == "i" and y.op == "i":
                a_, b_ = (tm.sgn(*x.a), tm.sgn(*y.a)) if signed else (x.a[0], y.a[0])
                v = {"A": a_ + b_, "S": a_ - b_, "M": a_ * b_}[b[0]]
                lo, hi = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << (8 * sz)) - 1)
                ov = FALSE if lo <= v <= hi else TRUE
            else:
                ov = mk("fop", "ovf" + b[0], x, y, "bool", 1)
            return mk("agg", "t2", 0, (r, ov))
        if b == "BitAnd":
            if isb:
                if x.op == "i":
                    return y if x.a[0] else FALSE
                if y.op == "i":
                    return x if y.a[0] else FALSE
            return tm.band(x, y, sz)
        if b == "BitOr":
            if isb:
                if x.op == "i":
                    return TRUE if x.a[0] else y
                if y.op == "i":
                    return TRUE if y.a[0] else x
            return tm.bor(x, y, sz)
        if b == "BitXor":
            if isb:
                if x.op == "i":
                    return tm.lnot(y) if x.a[0] else y
                if y.op == "i":
                    return tm.lnot(x) if y.a[0] else x
            return tm.bxor(x, y, sz)
        if b0 == "Shl":
            return tm.shl(x, y, sz)
        if b0 == "Shr":
            return tm.shr(x, y, sz, signed)
        if t["k"] == "ptr" and b in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            p, q = self.place(x), self.place(y)
            if p and q and p[0] == q[0]:
                return TRUE if {"Eq": p[1] == q[1], "Ne": p[1] != q[1], "Lt": p[1] < q[1], "Le": p[1] <= q[1], "Gt": p[1] > q[1], "Ge": p[1] >= q[1]}[b] else FALSE
        if b == "Eq":
            return tm.eq(x, y)
        if b == "Ne":
            return tm.lnot(tm.eq(x, y))
        lt = tm.slt if signed else tm.ult
        if b == "Lt":
            return lt(x, y)
        if b == "Gt":
            return lt(y, x)
        if b == "Le":
            return tm.lnot(lt(y, x))
        if b == "Ge":
            return tm.lnot(lt(x, y))
        if b == "Offset":
            return self.ptroff(x, y, ti)
        if b0 == "Div" or b0 == "Rem":
            if x.op == "i" and y.op == "i" and y.a[0]:
                a_, b_ = (tm.sgn(*x.a), tm.sgn(*y.a)) if signed else (x.a[0], y.a[0])
                q = int(a_ / b_) if signed else a_ // b_
                return ci(q if b0 == "Div" else a_ - q * b_, sz)
            if b0 == "Rem" and not signed and tm.isc(y) and y.a[0] and y.a[0] & (y.a[0] - 1) == 0:
                r = tm.lowbits(x, y.a[0].bit_length() - 1)
                if r is not None:
                    return ci(r, sz)
            if not signed and tm.isc(y) and y.a[0] and y.a[0] & (y.a[0] - 1) == 0:
                return tm.band(x, ci(y.a[0] - 1, sz), sz) if b0 == "Rem" else tm.shr(x, ci(y.a[0].bit_length() - 1, sz), sz, False)
            return mk("bin", ("s" if signed else "u") + b0, x, y, sz)
        if b == "Cmp":
            return mk("cmp3", x, y, "s" if signed else "u")
        return mk("unk", b)

    def atomic_elem(self, f, ti):
        return ti

    def ptroff(self, p, n, ti):
        to = self.tys[ti].get("to")
        es = self.sizeof(to) if to is not None else None
        if n.op == "i" and es is not None:
            k = tm.sgn(*n.a)
            return self.ptradd(p, k * es, to)
        if n.op == "neg":
            pass
        if es is not None:
            return mk("idx", p, n, es)
        return mk("unk", "offset")

    def place(self, p):
        """(allocation, byte offset) a pointer refers to, when the offset is known"""
        if p.op == "fat":
            return self.place(p.a[0])
        if p.op == "ptr":
            return p.a[0], p.a[1]
        if p.op == "laddr":
            off = 0
            for e in p.a[2]:
                if e[0] == "e":
                    z = self.sizeof(e[2])
                    if z is None or not isinstance(e[1], int):
                        return None
                    off += e[1] * z
                elif e[0] == "f":
                    o = self.offset(e[4], e[1], e[2])
                    if o is None:
                        return None
                    off += o
                elif e[0] != "c":
                    return None
                else:
                    off += e[1]
            return ("L", p.a[0], p.a[1]), off
        if p.op in ("param", "static", "idx"):
            return p, 0
        return None

    def ptradd(self, p, bytes_, to=None):
        if bytes_ == 0:
            return p
        if p.op == "laddr" and to is not None:
            # pointer into a local array
            path = p.a[2]
            es = self.sizeof(to)
            loc = ("L", p.a[0], p.a[1], path)
            if path and path[-1][0] == "e" and isinstance(path[-1][1], int) and path[-1][2] == to and es and bytes_ % es == 0:
                return mk("laddr", p.a[0], p.a[1], path[:-1] + (("e", path[-1][1] + bytes_ // es, path[-1][2], path[-1][3]),))
            at = self.loctype(loc)
            if at is not None and es and bytes_ % es == 0:
                # view the whole local as an array of `to`
                at_t = self.tys[at]
                if at_t["k"] == "array" and at_t["of"] == to:
                    return mk("laddr", p.a[0], p.a[1], path + (("e", bytes_ // es, to, at),))
            return mk("unkptr", p, bytes_)
        return self.ptr(p, bytes_)

    def cast(self, k, v, to, frm):
        a, b = self.tys[frm], self.tys[to]
        if k == "IntToInt":
            if a["k"] == "enum":
                if v.op == "agg":
                    return ci(a["v"][v.a[1]]["d"], b["size"])
                return mk("cast", "enum2int", v, b["size"])
            sa, sb = a["size"], b["size"]
            if sb <= sa:
                return tm.trunc(v, sb) if sb < sa else v
            if a["k"] == "int":
                return tm.sext(v, sb)
            return tm.zext(v, sb)
        if k == "Transmute" or k == "BoxDerefTransmute":
            return self.reint(v, frm, to)
        if k in ("PtrToPtr", "FnPtrToPtr") or k.startswith("PointerCoercion::MutToConst") or k.startswith("PointerCoercion::ArrayToPointer") or k == "Subtype" or k.startswith("PointerCoercion::UnsafeFn"):
            if v.op == "fat" and b.get("size") == self.D.ptr:
                return v.a[0]
            if k.startswith("PointerCoercion::ArrayToPointer") and v.op == "laddr":
                loc = ("L", v.a[0], v.a[1], v.a[2])
                at = self.loctype(loc)
                if at is not None and self.tys[at]["k"] == "array":
                    return mk("laddr", v.a[0], v.a[1], v.a[2] + (("e", 0, self.tys[at]["of"], at),))
            return v
        if k.startswith("PointerCoercion::Unsize"):
            pt = self.tys[a["to"]] if "to" in a else None
            if pt is not None and pt["k"] == "array":
                return mk("fat", v, ci(pt.get("len", 0), self.D.ptr))
            return mk("fat", v, mk("unk", "vtable"))
        if k in ("PointerExposeProvenance", "PointerWithExposedProvenance"):
            return mk("cast", "expose", v, self.D.ptr) if k == "PointerExposeProvenance" else (v.a[1] if v.op == "cast" and v.a[0] == "expose" else mk("cast", "ptrfromint", v, self.D.ptr))
        if k in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            return mk("cast", k, v, b["size"])
        if k.startswith("PointerCoercion"):
            return v
        return mk("cast", k, v, b.get("size") or 0)

    def rvalue(self, nd, r, where):
        k = r[0]
        if k == "use":
            return self.operand(nd, r[1], where)
        if k in ("ref", "rawptr"):
            p = r[1]
            # reborrow &*p
            if p[1] == ["*"]:
                return self.E.get((self.cur, p[0]), UNDEF)
            if p[1] and p[1][-1] == "*":
                loc, ty = self.resolve(nd, [p[0], p[1][:-1]])
                return self.read(loc, ty, where)
            loc, ty = self.resolve(nd, p)
            return self.addr_of(loc)
        if k == "cast":
            v = self.operand(nd, r[2], where)
            return self.cast(r[1], v, r[3], r[4])
        if k == "bin":
            x = self.operand(nd, r[2], where)
            y = self.operand(nd, r[3], where)
            return self.binop(r[1], x, y, r[4])
        if k == "un":
            x = self.operand(nd, r[2], where)
            t = self.tys[r[3]]
            if r[1] == "Not":
                return tm.lnot(x) if t["k"] == "bool" else tm.bnot(x, t["size"])
            if r[1] == "Neg":
                if t["k"] == "float":
                    return mk("fop", "Neg", x, t["size"])
                return tm.neg(x, t["size"])
            if r[1] == "PtrMetadata":
                t = self.tys[r[3]]
                if t.get("size") == self.D.ptr:
                    return UNIT
                if x.op == "str" and x.a[0] is not None:
                    return ci(len(x.a[0]) // 2, self.D.ptr)
                return x.a[1] if x.op == "fat" else mk("unk", "meta")
            return mk("unk", r[1])
        if k == "discr":
            loc, ty = self.resolve(nd, r[1])
            v = self.read(loc, ty, where)
            return self.discr(v, ty)
        if k == "agg":
            ops = [self.operand(nd, o, where) for o in r[3]]
            ak, var, af, ty = r[1], r[2], r[4], r[5]
            if ak == "tuple" and not ops:
                return UNIT
            if ak == "rawptr":
                if ops[1] is UNIT or self.tys[ty].get("size") == self.D.ptr:
                    return ops[0]
                return mk("fat", ops[0], ops[1])
            if self.tys[ty]["k"] == "union":
                return mk("agg", ty, af if af is not None else 0, tuple(ops))
            return mk("agg", ty, var, tuple(ops))
        if k == "repeat":
            v = self.operand(nd, r[1], where)
            return mk("rep", v, r[2] if r[2] is not None else -1)
        return mk("unk", "rv")

    def discr(self, v, ty):
        t = self.tys[ty]
        if t["k"] != "enum":
            return ci(0, 1)
        if v.op == "agg":
            return ci(t["v"][v.a[1]]["d"], 8)
        return mk("discr", v)

    # ------------------------------------------------------------ events
    def event(self, ev, commit=False):
        nd = self.node
        ev.id = (nd.id, len(nd.events))
        ev.node = nd.id
        nd.events.append(ev)
        if commit:
            self.hist(ev)
        return ev

    def hist(self, ev, env=None):
        env = self.E if env is None else env
        if ev.addr is not None and root_of(ev.addr).op in ("static", "laddr"):
            return
        h = env["$h"]
        if ev.id not in h:
            env["$h"] = h + (ev.id,)

    # ------------------------------------------------------------ facts
    def fact(self, t):
        for x, v in self.E["$f"]:
            if x is t:
                return v
        return None

    def with_fact(self, env, t, v):
        for x, w in env["$f"]:
            if x is t:
                return env if w == v else None
            if x.op == "notin" and x.a[0] is t and w == 1 and v in x.a[1]:
                return None
            if x.op == "eq" and x.a[0] is t and x.a[1].op == "i" and (x.a[1].a[0] == v) != bool(w):
                return None
        e = dict(env)
        e["$f"] = env["$f"] + ((t, v),)
        return e

    # ------------------------------------------------------------ transfer
    def process(self, nd):
        self.ectr = 0
        self.eout = {}
        self.node = nd
        nd.visits += 1
        if nd.env is None:
            nd.events, nd.succ, nd.exit = [], [], None
        else:
            self.process1(nd)
        for e, t in nd.out.items():
            if self.eout.get(e) != t:
                x = self.g.nodes[t]
                if e in x.inc:
                    del x.inc[e]
                    self.rejoin(x)
        nd.out = self.eout

    def process1(self, nd):
        self.E = dict(nd.env)
        self.freshen(nd)
        nd.events = []
        nd.succ = []
        nd.exit = None
        fk = self.frames[nd.frame]
        self.cur = nd.frame
        if fk[0] == "asm":
            self.isa.step(self, nd, fk)
            return
        fn = self.fns[fk[2]]
        bb = fn["bbs"][nd.bb]
        for s in bb["s"]:
            if s[0] == "=":
                w = (fk[2], s[3])
                v = self.rvalue(nd, s[2], w)
                if s[1][1]:
                    loc, ty = self.resolve(nd, s[1])
                    self.write(loc, ty, v, w)
                else:
                    self.E[(self.cur, s[1][0])] = v
            elif s[0] == "copy":
                src = self.operand(nd, s[1])
                dst = self.operand(nd, s[2])
                self.event(Ev("copy", addr=dst, val=src, args=[self.operand(nd, s[3])], impl="plain", where=(fk[2], "")), commit=True)
            elif s[0] == "sd":
                loc, ty = self.resolve(nd, s[1])
                v = self.read(loc, ty)
                t = self.tys[ty]
                nf = len(t["v"][s[2]]["f"])
                fs = v.a[2] if v.op == "agg" and v.a[1] == s[2] and len(v.a[2]) == nf else tuple(UNDEF for _ in range(nf))
                self.write(loc, ty, mk("agg", ty, s[2], fs))
        self.term(nd, fk, bb["t"])

    def freshen(self, nd):
        """A re-executed node produces new event results: older ones still held are renamed first."""
        me = nd.id
        hit = False
        for k, v in self.E.items():
            if k == "$f":
                if any(me in tm.evnodes(x[0]) for x in v):
                    self.E[k] = tuple(x for x in v if me not in tm.evnodes(x[0]))
            elif isinstance(v, T) and me in tm.evnodes(v):
                m = {}
                for t in tm.evterms(v):
                    if t.a[0] == me:
                        m[t] = mk("phi", me, ("stale", t.a[1], t.a[2]), t.a[-1] or "?")
                self.E[k] = tm.subst(v, m)

    def go(self, fr, bb, env, label=None):
        nid = self.enter(fr, bb, env)
        self.node.succ.append((nid, label))

    def term(self, nd, fk, t):
        k = t["k"]
        if k == "goto":
            return self.go(self.cur, t["t"], self.E)
        if k == "switch":
            v = self.operand(nd, t["op"])
            return self.switch(nd, v, [(int(a), b) for a, b in t["ts"]], t["o"], t["op"])
        if k == "return":
            return self.ret(nd, fk)
        if k == "resume":
            return self.unwind_up(self.cur, self.E)
        if k == "abort":
            nd.exit = ("abort", None)
            return
        if k == "unreachable":
            nd.exit = ("unreachable", None)
            return
        if k == "assert":
            c = self.operand(nd, t["op"])
            if not t["e"]:
                c = tm.lnot(c)
            base, pos = (c.a[0], False) if c.op == "lnot" else (c, True)
            kn = self.fact(base) if not tm.isc(c) else None
            val = c.a[0] if tm.isc(c) else (None if kn is None else (kn if pos else 1 - kn))
            if val != 0:
                e = self.E if val == 1 else self.with_fact(self.E, base, 1 if pos else 0)
                self.go(self.cur, t["t"], e)
            if val != 1:
                e = self.E if val == 0 else self.with_fact(self.E, base, 0 if pos else 1)
                ev = self.event(Ev("panic", op="assert", where=(fk[2], t["sp"])))
                self.unwind(nd, self.cur, t["u"], e)
            return
        if k == "drop":
            if t["fn"] is None:
                return self.go(self.cur, t["t"], self.E)
            loc, ty = self.resolve(nd, t["p"])
            return self.call(nd, t["fn"], [self.addr_of(loc)], None, t["t"], t["u"], "")
        if k == "call":
            args = [self.operand(nd, a, (fk[2], t["sp"])) for a in t["a"]]
            f = t["f"]
            if "unres" in f:
                return self.leaf_unknown(nd, f["unres"], args, t)
            if "fn" in f:
                return self.call(nd, f["fn"], args, t["d"], t["t"], t["u"], t["sp"])
            p = self.operand(nd, f["ind"])
            return self.indirect(nd, p, args, t)
        if k == "asm":
            if self.isa is None:
                raise Unsupported("asm")
            return self.isa.begin(self, nd, fk, t)
        raise Unsupported("terminator " + str(t)[:80])

    def switch(self, nd, v, ts, other, opnd=None):
        if tm.isc(v):
            for a, b in ts:
                if a == v.a[0]:
                    return self.go(self.cur, b, self.E)
            return self.go(self.cur, other, self.E)
        base, pos = v, True
        while base.op == "lnot":
            base, pos = base.a[0], not pos
        isb = tm.is_bool(base)
        kn = self.known(base)
        if kn is not None:
            val = kn if pos else 1 - kn
            for a, b in ts:
                if a == val:
                    return self.go(self.cur, b, self.E)
            return self.go(self.cur, other, self.E)
        seen = set()

        def refine(env, val):
            e = self.with_fact(env, base, val if pos else 1 - val)
            if e is None:
                return None
            if opnd is not None:
                p = opnd.get("cp") or opnd.get("mv")
                if p and not p[1] and (self.cur, p[0]) in e:
                    e = dict(e)
                    s = tm.size(v)
                    e[(self.cur, p[0])] = ci(val, s or 1)
            return e

        taken = []
        for a, b in ts:
            e = refine(self.E, a)
            taken.append(a)
            if e is not None:
                self.go(self.cur, b, e, (base, a if pos else 1 - a))
        # otherwise
        if isb:
            rest = [x for x in (0, 1) if x not in taken]
            if len(rest) == 1:
                e = refine(self.E, rest[0])
                if e is not None:
                    self.go(self.cur, other, e, (base, rest[0] if pos else 1 - rest[0]))
                return
            if not rest:
                return
        if base.op == "discr":
            n = self.nvariants(base.a[0])
            if n is not None:
                rest = [x for x in n if x not in taken]
                if len(rest) == 1:
                    e = refine(self.E, rest[0])
                    if e is not None:
                        self.go(self.cur, other, e, (base, rest[0]))
                    return
                if not rest:
                    return
        e = self.with_fact(self.E, mk("notin", base, tuple(sorted(taken))), 1)
        # x != 0 facts are worth keeping in boolean form
        if len(taken) == 1 and tm.size(base):
            e = self.with_fact(e, tm.eq(base, ci(taken[0], tm.size(base))), 0) or e
        self.go(self.cur, other, e, (base, None))

    def known(self, base):
        kn = self.fact(base)
        if kn is not None:
            return kn
        if base.op == "eq":
            # eq(x, c) against a fact about x itself
            kx = self.fact(base.a[0])
            if kx is not None and tm.isc(base.a[1]):
                return 1 if kx == base.a[1].a[0] else 0
            for x, v in self.E["$f"]:
                if v == 1 and x.op == "eq" and x.a[0] is base.a[0] and tm.isc(x.a[1]) and tm.isc(base.a[1]) and x is not base:
                    return 0
        # simplification under the known facts
        fs = {x: ci(v, 1) for x, v in self.E["$f"] if tm.is_bool(x)}
        if fs:
            s = tm.subst(base, fs)
            if tm.isc(s):
                return s.a[0]
        return None

    def nvariants(self, v):
        # the enum type behind an opaque value
        if v.op in ("ev", "fld"):
            pass
        return self.enum_hint.get(v)

    # ---- calls
    def call(self, nd, fid, args, dest, target, unw, sp):
        f = self.fns[fid]
        if f["kind"] == "nodrop":
            return self.go(self.cur, target, self.E)
        from . import models
        fk = self.frames[self.cur]
        where = (fk[2], sp)
        if fid in self.api:
            # a public operation verified on its own, used through its contract
            lc = f["locals"]
            r = models.atomic(self, nd, {"path": "api::" + self.api[fid], "sig": [lc[1:f["argc"] + 1], lc[0]]}, args, where, "api")
        else:
            r = models.model(self, nd, f, args, where)
        if r is not None:
            outs, unwinds = r
            for o in outs:
                self.lab = o[2] if len(o) > 2 else None
                self.finish(nd, o[0], o[1], dest, target)
            self.lab = None
            if unwinds:
                for e in unwinds if isinstance(unwinds, list) else [self.E]:
                    self.unwind(nd, self.cur, unw, e)
            return
        if f["leaf"]:
            return self.leaf_unknown(nd, f["path"], args, {"d": dest, "t": target, "u": unw, "sp": sp}, f)
        if not self.inline_rt and self.D.is_rt_leaf(fid):
            rt = f["locals"][0]

            def leaf(p, t):
                if t["k"] == "bool":
                    return mk("rt", f["path"], p, "bool", 1)
                return mk("rt", f["path"], p, t["k"], t["size"])

            v = self.opaque_val(rt, leaf)
            self.event(Ev("rt", op=f["path"], where=where))
            return self.finish(nd, self.E, v, dest, target)
        if self.D.is_spin(fid) and all(a.op == "laddr" or tm.isc(a) or tm.size(a) for a in args):
            ev = self.event(Ev("spin", op=f["path"], where=where))
            env = self.E = dict(self.E)
            for i, a in enumerate(args):
                if a.op == "laddr":
                    to = self.tys[f["locals"][i + 1]]["to"]
                    loc = self.deref(a, to)
                    self.write(loc, to, self.evterm(ev.id, "hv%d" % i, to))
            self.finish(nd, self.E, UNIT, dest, target)
            return
        if self.opaque and f["local"] and self.opaque(f):
            ev = self.event(Ev("call", op=f["path"], args=args, fn=fid, where=where))
            v = self.evterm(ev.id, "ret", f["locals"][0])
            ev.res = v
            self.finish(nd, self.E, v, dest, target)
            return
        key = (self.cur, nd.bb, fid, (dest[0], _tup(dest[1])) if dest else None, target, unw if not isinstance(unw, list) else None)
        # bounded recursion
        c = self.cur
        n = 0
        while c is not None:
            k = self.frames[c]
            if k[0] == "asm":
                c = k[1]
                continue
            if k[2] == fid:
                n += 1
            c = k[0]
        if n > 2:
            raise Unsupported("recursion in " + f["path"])
        fr = self.frame(key)
        env = dict(self.E)
        argc = f["argc"]
        if f.get("spread") is not None or (f["kind"] == "shim" and len(args) != argc):
            pass
        sp_ = f.get("spread")
        if sp_ is not None and len(args) == argc and False:
            pass
        for i in range(argc):
            if sp_ is not None and i + 1 == sp_:
                env[(fr, i + 1)] = args[i] if i < len(args) else UNIT
            else:
                env[(fr, i + 1)] = args[i] if i < len(args) else UNDEF
        # closure calls through Fn* traits: MIR passes (self, (args,)) to a body taking (self, args...)
        if len(args) == 2 and argc != 2 and args[1].op == "agg" and f["kind"] in ("item",) and "{closure" in f["path"]:
            env[(fr, 1)] = args[0]
            for i, a in enumerate(args[1].a[2]):
                env[(fr, i + 2)] = a
        elif len(args) == 2 and argc == 2 and "{closure" in f["path"] and args[1].op == "agg" and len(args[1].a[2]) == 1 and (self.tys[f["locals"][2]]["k"] != "tuple" or len(self.tys[f["locals"][2]]["f"]) != 1 and args[1].a[0] != f["locals"][2]):
            env[(fr, 2)] = args[1].a[2][0]
        elif len(args) == 2 and "{closure" in f["path"] and args[1] is UNIT and argc == 1:
            pass
        self.go(fr, 0, env)

    def finish(self, nd, env, v, dest, target):
        if target is None:
            nd.exit = ("diverge", None)
            return
        if v is not None and dest is not None:
            env = dict(env)
            sv = self.E
            self.E = env
            d = [dest[0], dest[1]]
            if d[1]:
                loc, ty = self.resolve(nd, d)
                self.write(loc, ty, v)
            else:
                env[(self.cur, d[0])] = v
            env = self.E
            self.E = sv
        self.go(self.cur, target, env, self.lab)

    def ret(self, nd, fk):
        v = self.E.get((self.cur, 0), UNIT)
        env = {k: x for k, x in self.E.items() if not (isinstance(k, tuple) and k[0] == self.cur)}
        if fk[0] is None:
            nd.exit = ("return", v)
            return
        save, self.E = self.E, env
        cur, self.cur = self.cur, fk[0]
        if fk[4] is None:
            nd.exit = ("diverge", None)
        else:
            if fk[3] is not None:
                if fk[3][1]:
                    loc, ty = self.resolve(nd, [fk[3][0], _untup(fk[3][1])])
                    self.write(loc, ty, v)
                else:
                    env[(self.cur, fk[3][0])] = v
            self.go(self.cur, fk[4], env)
        self.cur = cur
        self.E = save

    def unwind(self, nd, fr, u, env):
        if isinstance(u, int):
            nid = self.enter(fr, u, env)
            nd.succ.append((nid, "unwind"))
        elif u == "continue":
            self.unwind_up(fr, env)
        elif u == "terminate":
            self.pseudo(nd, "abort", env)
        # unreachable: nothing

    def pseudo(self, nd, kind, env):
        nd.unw = True
        if nd.exit is None:
            nd.exit = (kind, None)

    def unwind_up(self, fr, env):
        nd = self.node
        f = self.frames[fr]
        if f[0] == "asm":
            fr = f[1]
            f = self.frames[fr]
        if f[0] is None:
            nd.exit = nd.exit or ("unwind", None)
            return
        env = {k: x for k, x in env.items() if not (isinstance(k, tuple) and k[0] == fr)}
        self.unwind(nd, f[0], f[5], env)

    # ---- indirect calls
    def indirect(self, nd, p, args, t):
        fk = self.frames[self.cur]
        if p.op == "fnptr":
            return self.call(nd, p.a[0], args, t["d"], t["t"], t["u"], t["sp"])
        tg = self.targets(p)
        if tg:
            for fid in sorted(tg):
                self.event(Ev("dispatch", op=fid, val=p, where=(fk[2], t["sp"])))
                E = self.E
                env = E
                for c, v in sorted(self.dispatch_cond(p, fid), key=lambda x: str(x[0])):
                    if env is not None and not any(x is c and w == v for x, w in env["$f"]):
                        env = self.with_fact(env, c, v)
                if env is not None:
                    # (a function stored only under conditions that do not hold here is not called)
                    self.E = env
                    self.call(nd, fid, args, t["d"], t["t"], t["u"], t["sp"])
                self.E = E
            return
        if tm.contains(p, lambda x: x.op == "param"):
            ev = self.event(Ev("callback", val=p, args=args, where=(fk[2], t["sp"])))
            dty = self.place_ty(t["d"])
            v = self.evterm(ev.id, "cb", dty)
            ev.res = v
            self.hint(v, dty)
            self.finish(nd, self.E, v, t["d"], t["t"])
            self.unwind(nd, self.cur, t["u"], self.E)
            return
        if self.D.kuser and const_addr(p) is not None and self.kuser(nd, const_addr(p), args, t, (fk[2], t["sp"])):
            return
        src = self.dl_symbol(p)
        if src:
            return self.leaf_unknown(nd, "dlsym::" + src, args, t)
        raise Unsupported("indirect call through " + tm.show(p))

    def dl_symbol(self, p):
        """the name a function pointer obtained from dlsym was looked up under"""
        while p.op == "cast" and isinstance(p.a[1], T):
            p = p.a[1]
        if p.op != "ev" or not str(p.a[2]).startswith("x"):
            return None
        e = self.g.nodes[p.a[0]].events[p.a[1]]
        if e.kind != "ext" or not e.op.endswith("::dlsym") or len(e.args) != 2:
            return None
        r = root_of(e.args[1])
        return bytes.fromhex(r.a[0]).rstrip(b"\0").decode("latin1") if r.op == "str" and r.a[0] else None

    def kuser(self, nd, a, args, t, where):
        """Linux kernel user helpers of 32-bit Arm (Documentation/arch/arm/kernel_user_helpers.rst)"""
        sc = ("hw", True, True, True)
        if a == 0xFFFF0FA0 and not args:
            self.event(Ev("fence", op="__kuser_memory_barrier", impl="asm:kuser", ord=sc, where=where, x={"feat": None}))
            self.finish(nd, self.E, UNIT, t["d"], t["t"])
            return True
        if a in (0xFFFF0F60, 0xFFFF0FC0) and len(args) == 3:
            from .models import scalar
            if a == 0xFFFF0F60:
                z, v = 8, []
                for p in args[:2]:
                    if p.op != "laddr":
                        raise Unsupported("kuser_cmpxchg64 operand that is not a local: " + tm.show(p))
                    loc = ("L", p.a[0], p.a[1], p.a[2])
                    ty = self.loctype(loc)
                    if self.sizeof(ty) != z:
                        raise Unsupported("kuser_cmpxchg64 operand of another size")
                    v.append(scalar(self, self.read(loc, ty), ty))
            else:
                z, v = 4, list(args[:2])
            ev = self.event(Ev("cas", addr=args[2], size=z, exp=v[0], new=v[1], impl="asm:kuser", where=where, ord=sc, ford=sc, weak=True,
                               x={"feat": "kuser_cmpxchg64" if z == 8 else None, "atomic": True}))
            ev.old = mk("ev", ev.id[0], ev.id[1], "old", "uint", z)
            rz = self.sizeof(self.place_ty(t["d"]))
            ok, bad = dict(self.E), dict(self.E)
            self.hist(ev, ok)
            r = mk("fop", "kuser-failed", ci(0, 4), rz)
            outs = [(ok, ci(0, rz), ("cas", ev.id, 1))]
            b = self.with_fact(bad, tm.eq(r, ci(0, rz)), 0)
            outs.append((b if b is not None else bad, r, ("cas", ev.id, 0)))
            for e, val, lab in outs:
                self.lab = lab
                self.finish(nd, e, val, t["d"], t["t"])
            self.lab = None
            return True
        return False

    def hint(self, v, ty):
        t = self.tys[ty]
        if t["k"] == "enum":
            self.enum_hint[v] = [x["d"] for x in t["v"]]

    def place_ty(self, d):
        sv = self.E
        loc, ty = self.resolve(self.node, d)
        return ty

    def targets(self, p):
        """functions a loaded function pointer may denote: everything stored in that static"""
        out = set()
        q = p
        st = set()

        def walk(x):
            if x.op == "ev":
                nd = self.g.nodes[x.a[0]]
                if x.a[1] < len(nd.events):
                    e = nd.events[x.a[1]]
                    if e.kind in ("load", "rmw") and e.addr is not None and e.addr.op == "static":
                        st.add(e.addr.a[0])
            elif x.op == "fnptr":
                out.add(x.a[0])
            elif x.op == "phi":
                for y in self.g.phi_in.get(x, ()):
                    walk(y)
            elif x.op == "cast":
                for y in x.a:
                    if isinstance(y, T):
                        walk(y)

        walk(q)
        for s in st:
            out |= self.points_to(s)
        self.tstat[p] = (frozenset(st), frozenset(out))
        return out

    def dispatch_cond(self, p, fid):
        """run-time facts that hold whenever the loaded pointer p denotes fid"""
        st, out = self.tstat.get(p, ((), ()))
        alts = [c for s in st for c in self.pcond.get(s, {}).get(fid, [frozenset()])]
        if not alts:
            return frozenset()
        r = alts[0]
        for c in alts[1:]:
            r = r & c
        return r

    def points_to(self, path):
        if path in self.pts:
            return self.pts[path]
        s = self.D.d["statics"].get(path)
        r = set()
        self.pts[path] = r
        if not s or not s.get("ptrs"):
            return r
        init = [x[1]["fn"] for x in s["ptrs"] if x[1] and x[1].get("c") == "fnptr"]
        r |= set(init)
        pc = self.pcond[path] = {fid: [frozenset()] for fid in init}
        for fid in init:
            sub = Analyzer(self.D, False, self.isa, self.opaque)
            sub.pts = self.pts
            sub.pcond = self.pcond
            f = self.fns[fid]
            args = []
            for i in range(f["argc"]):
                args.append(sub.param_val(f["locals"][i + 1], "a%d" % i))
            g = sub.run_storing(fid, args)
            for nd in g.nodes:
                for e in nd.events:
                    if e.kind in ("store", "rmw", "cas") and e.addr is not None and e.addr.op == "static" and e.addr.a[0] == path:
                        direct = e.new
                        while direct.op == "cast" and isinstance(direct.a[1], T):
                            direct = direct.a[1]
                        vs = [e.new]
                        seen = set()
                        while vs:
                            v = vs.pop()
                            if v in seen:
                                continue
                            seen.add(v)
                            if v.op == "fnptr":
                                r.add(v.a[0])
                                fs = frozenset((c, w) for c, w in nd.env["$f"] if v is direct and not tm.has_dyn(c) and tm.contains(c, lambda x: x.op == "rt") and not tm.contains(c, lambda x: x.op == "param"))
                                pc.setdefault(v.a[0], []).append(fs)
                            elif v.op == "phi":
                                vs += list(g.phi_in.get(v, ()))
                            elif v.op == "cast":
                                vs += [x for x in v.a if isinstance(x, T)]
                            elif v.op == "select":
                                vs += [v.a[1], v.a[2]]
                            else:
                                raise Unsupported("unknown function pointer stored in " + path)
        return r

    def run_storing(self, fid, args):
        # while computing points-to, calls through the same static are already covered
        return self.run(fid, args)

    def param_val(self, ti, name):
        def leaf(p, t):
            nm = name + "".join("." + str(x) for x in p)
            if t["k"] == "bool":
                return mk("param", nm, "bool", 1)
            return mk("param", nm, t["k"], t.get("size") or 0)

        t = self.tys[ti]
        v = self.opaque_val(ti, leaf)
        if t["k"] == "ref" and v.op == "param":
            tm.PALIGN[v] = self.tys[t["to"]].get("align") or 1
        return v

    def havoc(self, ev, args):
        """local variables whose address an external function is given may hold anything afterwards"""
        for i, a in enumerate(args):
            r = root_of(a)
            if r.op != "laddr":
                continue
            loc = ("L", r.a[0], r.a[1], r.a[2])
            while loc[3] and loc[3][-1][0] == "c":
                loc = ("L", loc[1], loc[2], loc[3][:-1])
            ty = self.loctype(loc)
            if ty is None or not self.sizeof(ty):
                continue
            if ev.x is None:
                ev.x = {}
            ev.x.setdefault("pre", {})[i] = (self.read(loc, ty), ty)
            self.write(loc, ty, self.evterm(ev.id, "o%d" % i, ty))

    def leaf_unknown(self, nd, path, args, t, f=None):
        """A function without a body and without a model: an opaque external effect."""
        fk = self.frames[self.cur]
        ev = self.event(Ev("ext", op=path, args=args, where=(fk[2], t["sp"])))
        self.havoc(ev, args)
        d = t["d"]
        v = None
        if d is not None and t["t"] is not None:
            ty = self.place_ty(d)
            v = self.evterm(ev.id, "x", ty)
            ev.res = v
            self.hint(v, ty)
        self.finish(nd, self.E, v, d, t["t"])
        if path.endswith(NOUNWIND):
            return
        if path.startswith("core::fmt") or "fmt" in path or not path.startswith("core::"):
            self.unwind(nd, self.cur, t["u"], self.E)


def const_addr(a):
    """integer value of a pointer made from a constant"""
    while a.op == "cast" and a.a[0] == "ptrfromint":
        a = a.a[1]
    return a.a[0] if a.op == "i" else None


def root_of(a):
    """the object an address expression points into"""
    while a.op in ("ptr", "idx", "fat", "unkptr", "fldaddr") or (a.op == "cast" and isinstance(a.a[1], T)):
        a = a.a[1] if a.op == "cast" else a.a[0]
    return a


def _tup(x):
    return tuple(tuple(e) if isinstance(e, list) else e for e in x)


def _untup(x):
    return [list(e) if isinstance(e, tuple) else e for e in x]
