"""Run-time CPU feature detection (C10): which instructions need which feature, and what the detection must have seen.

For every public operation, each instruction outside the target's baseline must either be enabled by the compile-time
configuration or sit behind a test of a detection result.  For the detection function itself, the facts that hold on each path
must contradict every way in which the CPU/OS could report that the feature is absent."""
from . import engine, terms as tm
from .engine import root_of

# instruction class -> compile-time switches that make it part of the baseline
STATIC = {
    "sse": ("sse",), "sse2": ("sse2",), "avx": ("avx",), "cmpxchg16b": ("cmpxchg16b",), "lse": ("lse",), "lse2": ("lse2",), "lse128": ("lse128",), "rcpc3": ("rcpc3",), "lsfe": ("lsfe",),
    "rmw": ("rmw",), "zaamo": ("zaamo", "a"), "zabha": ("zabha",), "zacas": ("zacas",), "quadword": ("quadword-atomics",), "fast-serialization": ("fast-serialization",),
}
IMPLIED = {("zaamo", 'feature="force-amo"'), ("zaamo", 'portable_atomic_target_feature="zaamo"')}


def static_on(D, feat):
    cf = set(D.d["cfgs"])
    for n in STATIC.get(feat, ()):
        if 'target_feature="%s"' % n in cf or 'portable_atomic_target_feature="%s"' % n in cf:
            return True
    if feat == "fast-serialization" and 'target_cpu="z196"' in cf:
        return True
    return any(f == feat and c in cf for f, c in IMPLIED)


# ------------------------------------------------------------------ known bits
def full(n):
    return (1 << (8 * n)) - 1


BITS = {"and": lambda m, v, m2, v2: ((m & ~v) | (m2 & ~v2) | (m & m2), v & v2 & m & m2),
        "or": lambda m, v, m2, v2: ((m & v) | (m2 & v2) | (m & m2), (m & v) | (m2 & v2)),
        "xor": lambda m, v, m2, v2: (m & m2, (v ^ v2) & m & m2)}


class Bits:
    """Three-valued evaluation of terms: (mask of known bits, their values), given what is assumed of some leaves."""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def kb(self, t):
        r = self.env.get(t)
        if r is not None:
            return r
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = (0, 0)
        r = self.memo[t] = self._kb(t)
        return r

    def _kb(self, t):
        o, a = t.op, t.a
        n = tm.size(t)
        if o == "i":
            return full(n), a[0]
        if not n:
            return 0, 0
        F = full(n)
        if o in BITS:
            m, v = self.kb(a[0])
            for x in a[1:-1]:
                m2, v2 = self.kb(x)
                m, v = BITS[o](m, v, m2, v2)
            return m & F, v & F
        if o == "bnot":
            m, v = self.kb(a[0])
            return m & F, ~v & m & F
        if o == "bin" and a[0] in ("shl", "shr", "sar"):
            m, v = self.kb(a[1])
            km, k = self.kb(a[2])
            if tm.size(a[2]) is None or km != full(tm.size(a[2])):
                return 0, 0
            k %= 8 * n
            if a[0] == "shl":
                return ((m << k) | ((1 << k) - 1)) & F, (v << k) & F
            top = F ^ (F >> k)
            if a[0] == "sar":
                s = 1 << (8 * n - 1)
                return (m >> k) | (top if m & s else 0), (v >> k) | (top if m & v & s else 0)
            return (m >> k) | top, v >> k
        if o == "ext":
            N = tm.size(a[0])
            if not N:
                return 0, 0
            m, v = self.kb(a[0])
            k = 8 * (a[1] if tm.LITTLE[0] else N - a[1] - n)
            return (m >> k) & F, (v >> k) & F
        if o == "cat":
            m = v = k = 0
            for x in (a if tm.LITTLE[0] else a[::-1]):
                s = tm.size(x)
                if not s:
                    return 0, 0
                m2, v2 = self.kb(x)
                m |= m2 << k
                v |= v2 << k
                k += 8 * s
            return m, v
        if o in ("zx", "sx"):
            s = tm.size(a[0])
            if not s:
                return 0, 0
            m, v = self.kb(a[0])
            hi = F ^ full(s)
            if o == "zx":
                return m | hi, v
            top = 1 << (8 * s - 1)
            return (m | hi, v | (hi if v & top else 0)) if m & top else (m, v)
        if o == "add":
            m, v = self.kb(a[0])
            for x in a[1:-1]:
                m2, v2 = self.kb(x)
                # bits below the lowest unknown bit are known
                k = 0
                while k < 8 * n and (m >> k) & (m2 >> k) & 1:
                    k += 1
                m, v = (1 << k) - 1, (v + v2) & ((1 << k) - 1)
            return m & F, v & F
        if o == "lnot":
            m, v = self.kb(a[0])
            return (0xff, (v & 1) ^ 1) if m & 1 else (0, 0)
        if o == "eq":
            n2 = tm.size(a[0]) or tm.size(a[1])
            (m, v), (m2, v2) = self.kb(a[0]), self.kb(a[1])
            if (v ^ v2) & m & m2:
                return 0xff, 0
            if n2 and m & m2 == full(n2):
                return 0xff, 1
            return 0, 0
        if o in ("ult", "slt"):
            n2 = tm.size(a[0]) or tm.size(a[1])
            if not n2:
                return 0, 0
            F2, s = full(n2), 1 << (8 * n2 - 1)
            r = []
            for x in a[:2]:
                m, v = self.kb(x)
                if o == "slt":
                    v ^= s & m  # bias
                r.append((v & m, (v & m) | (F2 & ~m)))
            if r[0][1] < r[1][0]:
                return 0xff, 1
            if r[0][0] >= r[1][1]:
                return 0xff, 0
            return 0, 0
        if o == "select":
            m, v = self.kb(a[0])
            if m & 1:
                return self.kb(a[1] if v & 1 else a[2])
            (m, v), (m2, v2) = self.kb(a[1]), self.kb(a[2])
            k = m & m2 & ~(v ^ v2)
            return k, v & k
        return 0, 0

    def refuted(self, facts):
        for t, w in facts:
            m, v = self.kb(t)
            if m & 1 and v & 1 != w & 1:
                return True
        return False


# ------------------------------------------------------------------ what a leaf stands for
class Leaf:
    """A value obtained from the CPU or the operating system."""

    def __init__(self, name, args, part, off, size, pre=None):
        self.name, self.args, self.part, self.off, self.size, self.pre = name, args, part, off, size, pre


def const_of(t):
    if not isinstance(t, tm.T):
        return t
    if t.op == "i":
        return t.a[0]
    r = root_of(t)
    if r.op == "str" and r.a[0]:
        return bytes.fromhex(r.a[0]).rstrip(b"\0").decode("latin1")
    if r.op == "cref":
        x = r.a[0]
        if x.op == "agg" and all(y.op == "i" for y in x.a[2]):
            return tuple(y.a[0] for y in x.a[2])
        if x.op == "i":
            return x.a[0]
        if x.op == "str":
            return const_of(x)
    return None


def text(c):
    return bytes(c).decode("latin1") if isinstance(c, tuple) and all(0 <= x < 256 for x in c) else c


class Detector:
    """The dataflow result of one detection function."""

    def __init__(self, D, isa, fid):
        self.D, self.fid = D, fid
        self.path = D.fns[fid]["path"]
        self.an = engine.Analyzer(D, isa=isa)
        self.an.inline_rt = True
        self.g = self.an.run(fid, [])
        self.viol, self.obl = [], 0
        self.leaves = {}
        self.caches = set()
        self.outs = []
        self.collect()

    def bad(self, msg, ev=None):
        fn, sp = (self.D.fns[ev.where[0]]["path"], ev.where[1]) if ev is not None and ev.where else (self.path, self.D.fns[self.fid].get("span", ""))
        self.viol.append(dict(cat="detect", msg=msg, fn=fn, span=sp, root=self.path))

    def event_of(self, t):
        return self.g.nodes[t.a[0]].events[t.a[1]] if t.op == "ev" else None

    def cache_addr(self, e):
        if e.kind not in ("load", "store", "rmw", "cas"):
            return None
        r = root_of(e.addr)
        return r.a[0] if r.op == "static" else None

    def collect(self):
        g = self.g
        for nd in g.nodes:
            if nd.env is None:
                continue
            for e in nd.events:
                if e.kind in ("store", "rmw", "cas"):
                    c = self.cache_addr(e)
                    if c is None:
                        if root_of(e.addr).op != "laddr":
                            self.bad("the detection writes memory that is neither its own nor its cache: %s" % e.brief()[:120], e)
                        continue
                    self.caches.add(c)
                    if e.kind == "rmw" or e.new is None:
                        self.bad("the detection result is cached by an operation whose outcome depends on what was cached before: %s" % e.brief()[:120], e)
                        continue
                    self.outs.append(("cached", nd.id, e.new, nd.env["$f"], e))
        for n, k, v in g.exits:
            if k == "return":
                self.outs.append(("returned", n, v, g.nodes[n].env["$f"], None))
        for c in self.caches:
            s = self.D.d["statics"].get(c)
            if s is None or s.get("bytes") is None:
                self.bad("the initial content of the cache %s is unknown" % c)
            if s and s.get("mut"):
                self.bad("the cache %s is a mutable static" % c)

    def init(self, c):
        b = (self.D.d["statics"].get(c) or {}).get("bytes") or []
        return int.from_bytes(bytes(b), "little" if tm.LITTLE[0] else "big")

    # -- leaves
    def field_off(self, ti, path):
        off = 0
        for x in path:
            t = self.D.tys[ti]
            if t["k"] == "array":
                off += x * (self.an.sizeof(t["of"]) or 0)
                ti = t["of"]
            elif t["k"] == "tuple":
                off += (t.get("off") or [0] * 99)[x]
                ti = t["f"][x]
            else:
                v = t["v"][0]
                off += v["off"][x]
                ti = v["f"][x]
        return off

    def leaf(self, t):
        if t in self.leaves:
            return self.leaves[t]
        r = None
        if t.op == "fop":
            nm = str(t.a[0])
            if nm.startswith("cpuid:"):
                r = Leaf("cpuid", [const_of(x) for x in t.a[1:-1]] + [nm[6:]], "ret", 0, t.a[-1])
            elif nm.startswith("hw:"):
                r = Leaf(nm.rsplit("::", 1)[-1].lstrip("_"), [const_of(x) for x in t.a[1:-1]], "ret", 0, t.a[-1])
            elif nm == "compare_bytes":
                cs = [text(const_of(x)) for x in t.a[1:3]]
                src = [self.leaf(x) for x in t.a[1:3]]
                s = [x for x in src if x is not None]
                k = [c for c in cs if isinstance(c, str)]
                if s and k:
                    r = Leaf("compare", [s[0].name, s[0].args[0] if s[0].args else None, k[0]], "ret", 0, t.a[-1])
        elif t.op == "ev":
            e = self.event_of(t)
            tag = str(t.a[2])
            if e.kind == "ext" and e.op is not None:
                nm = e.op.rsplit("::", 1)[-1]
                nm = "syscall" if nm == "ecall" else nm
                args = [const_of(x) for x in e.args]
                if tag.startswith("x"):
                    r = Leaf(nm, args, "ret", 0, t.a[-1])
                elif tag.startswith("o"):
                    p = tag[1:].split(".")
                    i = int(p[0])
                    pre, ty = e.x["pre"][i]
                    if all(x.isdigit() for x in p[1:]):
                        off = self.field_off(ty, [int(x) for x in p[1:]])
                        fl = self.an.flatten(pre, ty)
                        r = Leaf(nm, args, i, off, t.a[-1], pre=fl)
        self.leaves[t] = r
        return r

    def all_leaves(self, terms):
        out = {}
        for t in terms:
            def p(x):
                if x.op in ("ev", "fop"):
                    l = self.leaf(x)
                    if l is not None:
                        out[x] = l
                return False
            tm.contains(t, p, {})
        return out

    # -- scenarios
    def env_for(self, scen, facts, value):
        env = {}
        lv = self.all_leaves([t for t, _ in facts] + value)
        for t, l in lv.items():
            m = v = 0
            for it in scen:
                m2, v2 = it.bits(l, t)
                m |= m2
                v |= v2
            if m:
                env[t] = (m, v)
        for t, w in facts:
            if t.op == "eq" and w:
                a, b = t.a[:2]
                if b.op == "i" and a.op in ("ev", "phi", "rt") and a not in env:
                    env[a] = (full(tm.size(a)), b.a[0])
        return env

    def pick(self, v, p):
        for x in p:
            if v.op != "agg":
                return None
            v = v.a[2][x]
        return v

    def scalar(self, v):
        while v.op == "agg" and len(v.a[2]) == 1:
            v = v.a[2][0]
        return v

    def possible(self, scens):
        """[(field path getter, what)]: results the detection may give although the feature is absent in one of these ways"""
        out = []
        for name, scen in scens:
            for kind, n, v, facts, ev in self.outs:
                self.obl += 1
                env = self.env_for(scen, facts, self.flat(v))
                for l in self.flat(v):
                    e = self.event_of(l) if l.op == "ev" else None
                    if e is not None and kind == "returned":
                        c = self.cache_addr(e)
                        if c is not None and c in self.caches:
                            # either the initial content, or something that was cached before (which is checked where it is cached)
                            env[l] = (full(tm.size(l)), self.init(c))
                b = Bits(env)
                if b.refuted(facts):
                    continue
                out.append((name, kind, v, b, ev))
        return out

    def flat(self, v):
        if v.op == "agg":
            return [y for x in v.a[2] for y in self.flat(x)]
        return [v]

    def field(self, b, v, p):
        """known bits of field p of a returned / cached value"""
        x = self.pick(v, p)
        if x is None:
            x = self.scalar(v)
        return b.kb(x)

    # -- one answer for everyone
    def pinned(self):
        """Problems that let two calls give different answers."""
        out = []
        n = 0
        for c in sorted(self.caches):
            init = self.init(c)
            for kind, nid, v, facts, ev in self.outs:
                if kind != "cached" or self.cache_addr(ev) != c:
                    continue
                n += 1
                if ev.kind != "cas":
                    out.append(("the detection result is stored unconditionally: two threads may cache different results", ev))
                    continue
                if not (ev.exp is not None and ev.exp.op == "i" and ev.exp.a[0] == init):
                    out.append(("the detection result replaces a result that was already cached", ev))
                b = Bits(self.env_for([], facts, self.flat(v)))
                m, val = b.kb(self.scalar(v))
                if not (m & (val ^ init)):
                    out.append(("the cached result may equal the value that means 'not yet detected'", ev))
        for kind, nid, v, facts, ev in self.outs:
            if kind != "returned":
                continue
            n += 1
            s = self.scalar(v)
            e = self.event_of(s) if s.op == "ev" else None
            c = self.cache_addr(e) if e is not None else None
            if c in self.caches and str(s.a[2]) in ("ld", "old"):
                b = Bits(self.env_for([], facts, [s]))
                b.env[s] = (full(tm.size(s)), self.init(c))
                if not b.refuted(facts) and not self.after_install(e, c):
                    out.append(("a return passes on a cached value that may mean 'not yet detected'", e))
                continue
            if not self.caches:
                if s.op != "i":
                    out.append(("the result is not cached and not constant", None))
                continue
            # otherwise the value must have been installed by this very call
            inst = [x for x in self.g.nodes for x in x.events if x.kind == "cas" and self.cache_addr(x) in self.caches and (x.new is s or self.same(x.new, s))]
            okd = [x for x in inst if any(t.op == "eq" and w and self.is_old(t, x) for t, w in facts)]
            if not okd:
                out.append(("a return gives a result that this call has not installed in the cache (another thread may have installed a different one)", inst[0] if inst else None))
        return out, n

    def after_install(self, e, c):
        """every path to the load e first installs a result in the cache (or sees that there is one)"""
        def installs(x):
            return x.kind == "cas" and not x.weak and self.cache_addr(x) == c

        if str(e.kind) != "load":
            return False
        if any(installs(x) for x in self.g.nodes[e.id[0]].events[:e.id[1]]):
            return True
        seen, st = {self.g.entry}, [self.g.entry]
        while st:
            n = st.pop()
            if n == e.id[0]:
                return False
            if any(installs(x) for x in self.g.nodes[n].events):
                continue
            for m in self.g.nodes[n].succ:
                m = m[0] if isinstance(m, tuple) else m
                if m not in seen:
                    seen.add(m)
                    st.append(m)
        return True

    def same(self, a, b):
        return self.scalar(a) is b

    def is_old(self, t, ev):
        for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if a.op == "ev" and (a.a[0], a.a[1]) == ev.id and a.a[2] == "old" and b is ev.exp:
                return True
        return False


# ------------------------------------------------------------------ the ways a feature can be absent
class Val:
    """bits `mask` of (part of) a source have the value `val`"""

    def __init__(self, name, args, part, mask, val, off=0, size=None):
        self.name, self.args, self.part, self.mask, self.val, self.off, self.size = name, args, part, mask, val, off, size

    def matches(self, l):
        if l.name != self.name or l.part != self.part:
            return False
        return all(i < len(l.args) and l.args[i] == a for i, a in self.args.items())

    def place(self, l, mask, val, size):
        """move bits of the location [off, off+size) to the leaf's own location"""
        lo, ls = l.off, l.size
        if tm.LITTLE[0]:
            k = 8 * (self.off - lo)
        else:
            k = 8 * ((lo + ls) - (self.off + size))
        if k >= 0:
            m, v = mask << k, val << k
        else:
            m, v = mask >> -k, val >> -k
        return m & full(ls), v & full(ls)

    def bits(self, l, t):
        if not self.matches(l):
            return 0, 0
        sz = self.size or l.size
        mask = full(sz) if self.mask is None else self.mask
        return self.place(l, mask, self.val & mask, sz)


class Pre(Val):
    """the call failed and left its output as it was"""

    def __init__(self, name, args, part):
        Val.__init__(self, name, args, part, 0, 0)

    def bits(self, l, t):
        if not self.matches(l):
            return 0, 0
        for off, sz, x in l.pre or ():
            if off <= l.off and l.off + l.size <= off + sz:
                x = tm.ext(x, l.off - off, l.size) if (off, sz) != (l.off, l.size) and x.op != "undef" else x
                if x.op == "i":
                    return full(l.size), x.a[0]
        if l.pre and all(x.op == "i" and x.a[0] == 0 for off, sz, x in l.pre if off < l.off + l.size and l.off < off + sz):
            return full(l.size), 0
        return 0, 0


def M(v, n=4):
    return v & full(n)


def clear(name, args, part, *bits, **kw):
    m = 0
    for b in bits:
        m |= 1 << b
    return Val(name, args, part, m, 0, **kw)


def outcall(name, args, part, bad, errs, what, rsize=4):
    """[(name, scenario)] for a call that returns 0 and fills in `part`, or fails"""
    r = [(what + " is reported absent", [Val(name, args, "ret", None, 0)] + bad)]
    for e in errs:
        r.append(("%s cannot be queried (%s returns %d)" % (what, name, e), [Val(name, args, "ret", None, M(e, 8)), Pre(name, args, part)]))
    return r


def cfgval(D, k):
    for c in D.d["cfgs"]:
        if c.startswith(k + "="):
            return c.split("=", 1)[1].strip('"')
    return None


def below(name, args, part, lo, width, least, off, what):
    """an ID register field with a value below the one that signals the feature"""
    return [("%s reads %d" % (what, k), [Val(name, args, "ret", None, 0), Val(name, args, part, ((1 << width) - 1) << lo, k << lo, off=off, size=8)]) for k in range(least)]


HWCAP = {"lse": (0, 8), "lse2": (0, 25), "rcpc3": (1, 46), "lse128": (1, 47)}
AA64 = {"lse": ("ISAR0", 20, 4, 2), "lse128": ("ISAR0", 20, 4, 3), "rcpc3": ("ISAR1", 20, 4, 3), "lse2": ("MMFR2", 32, 4, 1)}


def scenarios(D, feat):
    """[(description, [Val])]: each way in which the feature may be missing"""
    arch, os_, vend = cfgval(D, "target_arch"), cfgval(D, "target_os"), cfgval(D, "target_vendor")
    if arch == "x86_64":
        cx = {0: 1, 1: 0, 2: "cx"}
        if feat == "cmpxchg16b":
            return [("CPUID.1:ECX[13] is clear", [clear("cpuid", cx, "ret", 13)])]
        if feat == "xgetbv":
            return [("CPUID.1:ECX.OSXSAVE is clear", [clear("cpuid", cx, "ret", 27)])]
        if feat == "avx":
            x = {0: 0}
            return [("CPUID.1:ECX.AVX is clear", [clear("cpuid", cx, "ret", 28)]), ("CPUID.1:ECX.OSXSAVE is clear", [clear("cpuid", cx, "ret", 27)])] + \
                [("the OS does not save the AVX state (XCR0[2:1]=%d)" % k, [Val("xgetbv", x, "ret", 6, k << 1)]) for k in range(3)]
    if arch in ("aarch64", "arm64ec") and feat in ("lse", "lse2", "rcpc3", "lse128"):
        if os_ in ("linux", "android"):
            w, b = HWCAP[feat]
            r = [("AT_HWCAP%s bit %d is clear" % ("2" if w else "", b), [clear("getauxval", {0: 26 if w else 16}, "ret", b)])]
            if os_ == "android" and feat == "lse":
                r.append(("the SoC is an Exynos 9810, whose little cores lack LSE", [Val("compare", {0: "__system_property_get", 1: "ro.arch", 2: "exynos9810"}, "ret", None, 0),
                                                                                     Val("__system_property_get", {0: "ro.arch"}, "ret", None, 10)]))
            return r
        if os_ == "freebsd":
            w, b = HWCAP[feat]
            a = {0: 26 if w else 25}
            return outcall("elf_aux_info", a, 1, [clear("elf_aux_info", a, 1, b, size=8)], (22, 2), feat)
        if os_ == "openbsd":
            reg, lo, wd, least = AA64[feat]
            a = {0: (7, {"ISAR0": 2, "ISAR1": 3, "MMFR2": 7}[reg])}
            r = below("sysctl", a, 2, lo, wd, least, 0, "ID_AA64%s_EL1" % reg)
            return r + [("ID_AA64%s_EL1 cannot be queried" % reg, [Val("sysctl", a, "ret", None, M(-1, 8)), Pre("sysctl", a, 2)])]
        if os_ == "netbsd":
            reg, lo, wd, least = AA64[feat]
            a = {0: "machdep.cpu0.cpu_id"}
            r = below("sysctlbyname", a, 1, lo, wd, least, {"ISAR0": 40, "ISAR1": 48, "MMFR2": 72}[reg], "ID_AA64%s_EL1" % reg)
            return r + [("ID_AA64%s_EL1 cannot be queried" % reg, [Val("sysctlbyname", a, "ret", None, M(-1, 8)), Pre("sysctlbyname", a, 1)])]
        if os_ == "fuchsia" and feat == "lse":
            a = {0: 0}
            return outcall("zx_system_get_features", a, 1, [clear("zx_system_get_features", a, 1, 8, size=4)], (-2, -1, 1), feat)
        if os_ == "illumos" and feat in ("lse", "lse2"):
            off, b = {"lse": (0, 15), "lse2": (4, 2)}[feat]
            return [("AV_%d bit %d is clear" % (off // 4, b), [clear("getisax", {}, 0, b, off=off, size=4)])]
        if os_ == "windows" and feat in ("lse", "lse2"):
            k = {"lse": 34, "lse2": 62}[feat]
            return [("processor feature %d is absent" % k, [Val("IsProcessorFeaturePresent", {0: k}, "ret", None, 0)])]
        if vend == "apple" and feat in ("lse", "lse2"):
            names = {"lse": ("hw.optional.arm.FEAT_LSE", "hw.optional.armv8_1_atomics"), "lse2": ("hw.optional.arm.FEAT_LSE2",)}[feat]
            r = [("", [])]
            for nm in names:
                a = {0: nm}
                alt = [(nm + "=0", [Val("sysctlbyname", a, "ret", None, 0), Val("sysctlbyname", a, 1, None, 0)]), (nm + " unknown", [Val("sysctlbyname", a, "ret", None, M(-1, 8)), Pre("sysctlbyname", a, 1)])]
                r = [((d + ", " if d else "") + d2, s + s2) for d, s in r for d2, s2 in alt]
            return r
    if arch == "powerpc64" and feat == "quadword":
        if os_ == "aix":
            a = {0: 2}
            return [("the processor is older than POWER8", [clear("getsystemcfg", a, "ret", 16, 17, 18)]), ("getsystemcfg fails", [Val("getsystemcfg", a, "ret", None, M(-1, 8))])]
        none = (31, 23, 18)
        if os_ in ("linux", "android"):
            return [("AT_HWCAP2 reports none of ISA 2.07, 3.0, 3.1", [clear("getauxval", {0: 26}, "ret", *none)]),
                    ("the processor implements Book E", [Val("getauxval", {0: 16}, "ret", 0x8000, 0x8000), Val("dlsym", {1: "getauxval"}, "ret", None, 4096)])]
        a, b = {0: 26}, {0: 25}
        return outcall("elf_aux_info", a, 1, [clear("elf_aux_info", a, 1, *none, size=8)], (22, 2), "ISA 2.07") + \
            [("the processor implements Book E", [Val("elf_aux_info", b, "ret", None, 0), Val("elf_aux_info", b, 1, 0x8000, 0x8000, size=8), Val("dlsym", {1: "elf_aux_info"}, "ret", None, 4096)])]
    if arch in ("riscv32", "riscv64") and feat == "zacas" and os_ in ("linux", "android"):
        a = {0: 258}
        r = [("riscv_hwprobe fails (%d)" % e, [Val("syscall", a, "ret", None, M(e, 8))]) for e in (-38, -14, -1, 1)]
        r.append(("the base behaviour key is unknown", [Val("syscall", a, "ret", None, 0), HwKey(3, "unknown")]))
        r.append(("the base behaviour is not IMA", [Val("syscall", a, "ret", None, 0), HwKey(3, 0)]))
        r.append(("the IMA_EXT_0 key is unknown", [Val("syscall", a, "ret", None, 0), HwKey(4, "unknown")]))
        r.append(("Zacas is not reported", [Val("syscall", a, "ret", None, 0), HwKey(4, 34)]))
        return r
    if feat == "xgetbv":
        return None
    return [("nothing on this platform reports it", [])]


class HwKey(Val):
    """riscv_hwprobe: the pair whose key the caller set to `key` comes back unknown, or with bit `what` of the value clear"""

    def __init__(self, key, what):
        Val.__init__(self, "syscall", {0: 258}, 1, 0, 0)
        self.key, self.what = key, what

    def bits(self, l, t):
        if not self.matches(l):
            return 0, 0
        m = v = 0
        pre = {}
        for off, sz, x in l.pre or ():
            pre[(off, sz)] = x
        flat = list(l.pre or ())
        # the array of 16-byte (key, value) pairs as the caller prepared it
        end = max([o + s for o, s, _ in flat] or [0])
        for p in range(0, end, 16):
            k = None
            for o, s, x in flat:
                if o <= p and p + 8 <= o + s:
                    y = x if s == 8 else tm.ext(x, p - o, 8) if x.op != "undef" else x
                    k = y.a[0] if y.op == "i" else None
            if k != self.key:
                continue
            if self.what == "unknown":
                self.off, sz, mm, vv = p, 8, full(8), full(8)
                m2, v2 = self.place(l, mm, vv, sz)
                m, v = m | m2, v | v2
                # (the kernel sets the value to 0 as well)
                self.off = p + 8
                m2, v2 = self.place(l, full(8), 0, 8)
                m, v = m | m2, v | v2
            else:
                self.off = p
                m2, v2 = self.place(l, full(8), self.key, 8)
                m, v = m | m2, v | v2
                self.off = p + 8
                m2, v2 = self.place(l, 1 << self.what, 0, 8)
                m, v = m | m2, v | v2
        return m, v


# ------------------------------------------------------------------ the operations
def dyn_rt(t):
    """detection results a fact speaks about"""
    out = set()

    def p(x):
        if x.op == "rt":
            out.add(x)
        return False

    tm.contains(t, p, {})
    return out


def matters(c, e):
    """A load whose value may be returned without having been confirmed by a later write."""
    g = c.g
    h = g.nodes[e.id[0]].env["$h"]
    seen, st = {e.id[0]}, [e.id[0]]
    ex = {n for n, k, v in g.exits if k == "return"}
    while st:
        n = st.pop()
        if n in ex:
            return True
        for m in g.nodes[n].succ:
            m = m[0] if isinstance(m, tuple) else m
            nd = g.nodes[m]
            if m in seen or nd.env is None or nd.env["$h"] != h:
                continue
            seen.add(m)
            st.append(m)
    return False


def fields(b, v, p=()):
    """{field path: known bits}"""
    if v.op == "agg":
        out = {}
        for i, x in enumerate(v.a[2]):
            out.update(fields(b, x, p + (i,)))
        if len(v.a[2]) == 1:
            out[p] = next(iter(out.values()))
        return out
    return {p: b.kb(v)}


def describe(ev, D, path):
    return "%s at %s" % (D.fns[ev.where[0]]["path"], ev.where[1]) if ev is not None and ev.where else path


class Features:
    """Decides, per configuration, whether a needed feature can be absent at an instruction."""

    def __init__(self, D, isa):
        self.D, self.isa = D, isa
        self.poss = {}
        self.det = {}
        self.obl = {"detect": 0, "feature": 0, "pinned": 0}
        self.viol = []
        self.pin = {}
        self.used = {}
        for i, f in enumerate(D.fns):
            if f["local"] and D.is_rt_leaf(i):
                self.detector(i)

    def detector(self, i):
        D = self.D
        d = Detector(D, self.isa, i)
        self.viol += d.viol
        for feat in list(STATIC) + ["xgetbv"]:
            sc = scenarios(D, feat)
            if feat == "xgetbv":
                continue
            self.poss[(d.path, feat)] = [(nm, kind, fields(b, v), describe(ev, D, d.path)) for nm, kind, v, b, ev in d.possible(sc)]
        # xgetbv itself may only be executed once the OS has enabled it
        for nd in d.g.nodes:
            if nd.env is None:
                continue
            for e in nd.events:
                if e.kind == "ext" and (e.op or "").endswith("xgetbv"):
                    for nm, s in scenarios(D, "xgetbv") or ():
                        d.obl += 1
                        if not Bits(d.env_for(s, nd.env["$f"], [])).refuted(nd.env["$f"]):
                            d.bad("XGETBV may be executed although %s" % nm, e)
                            self.viol.append(d.viol.pop())
        self.pin[d.path] = []
        probs, n = d.pinned()
        self.obl["pinned"] += n
        for m, ev in probs:
            self.pin[d.path].append((m, describe(ev, D, d.path)))
        self.obl["detect"] += d.obl
        # nothing else writes the cache
        inside = D.reach(i)
        for j, f in enumerate(D.fns):
            if j in inside or not f.get("bbs"):
                continue
            for c in D.statics_of(j):
                if c in d.caches:
                    d.bad("%s also uses the cache %s" % (f["path"], c))
                    self.viol.append(d.viol.pop())

    def check(self, c):
        """[(message, function, span)] for one operation"""
        out = []
        for nd in c.g.nodes:
            if nd.env is None:
                continue
            for e in nd.events:
                feat = e.x.get("feat") if isinstance(e.x, dict) else None
                if not feat:
                    continue
                self.obl["feature"] += 1
                on = static_on(self.D, feat)
                self.used.setdefault(feat, [0, 0])[0 if on else 1] += 1
                if on:
                    continue
                facts = [(t, w) for t, w in nd.env["$f"] if dyn_rt(t)]
                why = self.unproven(feat, facts)
                if why is None:
                    continue
                if feat == "lse2" and e.kind == "load" and not matters(c, e):
                    continue
                out.append(("%s (%s) may be executed on a CPU without %s: %s" % ((e.impl or e.kind).replace("asm:", ""), e.kind, feat, why), self.D.fns[e.where[0]]["path"] if e.where else "", e.where[1] if e.where else ""))
        return out

    def unproven(self, feat, facts):
        rts = set()
        for t, w in facts:
            rts |= dyn_rt(t)
        if feat == "kuser_cmpxchg64":
            for r in rts:
                if r.a[0] == "__kuser_helper_version" and all(Bits({r: (full(4), k)}).refuted(facts) for k in range(5)):
                    return None
            return "the kernel helper version is not known to be at least 5"
        by = {}
        for r in rts:
            by.setdefault(r.a[0], []).append(r)
        why = "no detection result is tested on this path"
        for fn, rs in sorted(by.items()):
            if (fn, feat) not in self.poss:
                continue
            w = None
            for nm, kind, vals, where in self.poss[(fn, feat)]:
                env = {r: vals.get(r.a[1], next(iter(vals.values()))) for r in rs if r.a[1] in vals or len(set(vals.values())) == 1}
                if not Bits(env).refuted(facts):
                    w = "the result %s (%s) passes the test although %s" % (kind, where, nm)
                    break
            if w is None:
                return None
            why = w
        return why
