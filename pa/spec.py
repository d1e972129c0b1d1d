"""The contract of every public operation, decided on the dataflow graph of its implementation.

check_op() turns one analysed operation into obligations: what each return yields, what was committed to memory, under which
ordering, through which accesses.  Nothing here looks at names inside the implementation.
"""
import re
from . import terms as tm
from .terms import T, mk, ci, TRUE, FALSE, UNDEF, UNIT
from .engine import root_of, Analyzer, Unsupported, Ev
from .prove import G, lock_flow
from .models import scalar

ACQ_EXT = ("_critical_section_1_0_acquire",)
REL_EXT = ("_critical_section_1_0_release",)
ORDS = ("Relaxed", "Release", "Acquire", "AcqRel", "SeqCst")
ACQS = ("Acquire", "AcqRel", "SeqCst")
RELS = ("Release", "AcqRel", "SeqCst")

RMW_RET = ("swap", "fetch_add", "fetch_sub", "fetch_and", "fetch_nand", "fetch_or", "fetch_xor", "fetch_max", "fetch_min", "fetch_not", "fetch_neg", "fetch_abs",
           "fetch_ptr_add", "fetch_ptr_sub", "fetch_byte_add", "fetch_byte_sub")
RMW_NORET = ("add", "sub", "and", "or", "xor", "not", "neg")
RMW_BIT = ("bit_set", "bit_clear", "bit_toggle")
CASES = ("compare_exchange", "compare_exchange_weak")
OPS = ("load", "store", "fetch_update") + CASES + RMW_RET + RMW_NORET + RMW_BIT


class TyInfo:
    def __init__(self, D, name):
        self.name = name
        if name == "AtomicBool":
            self.kind, self.size = "bool", 1
        elif name == "AtomicPtr":
            self.kind, self.size = "ptr", D.ptr
        else:
            m = re.match(r"Atomic([IUF])(\d+|size)$", name)
            self.kind = {"I": "int", "U": "uint", "F": "float"}[m.group(1)]
            self.size = D.ptr if m.group(2) == "size" else int(m.group(2)) // 8


FMAX = re.compile(r"^(max|maximum_number)\w*$")
FMIN = re.compile(r"^(min|minimum_number)\w*$")


def spec_new(info, name, o, a, esz):
    """the value the operation must leave in the object, from the previous value o and the argument a"""
    n, k = info.size, info.kind
    if name in ("swap", "store"):
        return a
    if k == "bool":
        return {"fetch_and": lambda: tm.band(o, a, 1), "and": lambda: tm.band(o, a, 1), "fetch_or": lambda: tm.bor(o, a, 1), "or": lambda: tm.bor(o, a, 1),
                "fetch_xor": lambda: tm.bxor(o, a, 1), "xor": lambda: tm.bxor(o, a, 1), "fetch_nand": lambda: tm.lnot(tm.band(o, a, 1)),
                "fetch_not": lambda: tm.lnot(o), "not": lambda: tm.lnot(o)}[name]()
    if k == "float":
        if name == "fetch_add":
            return mk("fop", "Add", o, a, n)
        if name == "fetch_sub":
            return mk("fop", "Sub", o, a, n)
        if name == "fetch_neg":
            return tm.bxor(o, ci(1 << (8 * n - 1), n), n)
        if name == "fetch_abs":
            return tm.band(o, ci((1 << (8 * n - 1)) - 1, n), n)
        return None
    s = "s" if k == "int" else "u"
    base = name[6:] if name.startswith("fetch_") else name
    if base == "add" or base == "byte_add":
        return tm.add(o, a, n)
    if base == "sub" or base == "byte_sub":
        return tm.sub(o, a, n)
    if base == "ptr_add":
        return tm.add(o, tm.mul(a, ci(esz, n), n), n)
    if base == "ptr_sub":
        return tm.sub(o, tm.mul(a, ci(esz, n), n), n)
    if base == "and":
        return tm.band(o, a, n)
    if base == "nand":
        return tm.bnot(tm.band(o, a, n), n)
    if base == "or":
        return tm.bor(o, a, n)
    if base == "xor":
        return tm.bxor(o, a, n)
    if base == "max":
        return tm.minmax(s + "max", o, a, n)
    if base == "min":
        return tm.minmax(s + "min", o, a, n)
    if base == "not":
        return tm.bnot(o, n)
    if base == "neg":
        return tm.neg(o, n)
    if base in ("bit_set", "bit_clear", "bit_toggle"):
        m = tm.shl(ci(1, n), a, n)
        return {"bit_set": lambda: tm.bor(o, m, n), "bit_clear": lambda: tm.band(o, tm.bnot(m, n), n), "bit_toggle": lambda: tm.bxor(o, m, n)}[base]()
    raise KeyError(name)


PTR = [8]


def strip_expose(t):
    """pointer/integer casts do not change bits"""
    memo = {}

    def f(x):
        if x in memo:
            return memo[x]
        y = x
        if x.op == "cast" and x.a[0] in ("expose", "ptrfromint"):
            y = f(x.a[1])
        elif x.op == "idx":
            n = tm.size(x.a[1]) or PTR[0]
            y = tm.add(f(x.a[0]), tm.mul(f(x.a[1]), ci(x.a[2], n), n), n)
        elif x.op == "ptr" and isinstance(x.a[1], int):
            y = tm.add(f(x.a[0]), ci(x.a[1], PTR[0]), PTR[0])
        elif any(isinstance(z, T) for z in x.a):
            na = [f(z) if isinstance(z, T) else z for z in x.a]
            if any(p is not q for p, q in zip(na, x.a)):
                y = tm.rebuild(x.op, na)
        memo[x] = y
        return y

    return f(t)


def same_bytes(a, b):
    """a value assembled from pieces equals another one piece by piece"""
    if a.op != "cat":
        a, b = b, a
    if a.op != "cat" or tm.size(a) != tm.size(b):
        return False
    off = 0
    for p in a.a:
        n = tm.size(p)
        if n is None or tm.ext(b, off, n) is not p:
            return False
        off += n
    return True


def float_same(name, n, o, a):
    """n is max/min of o and a"""
    if n.op != "fop" or len(n.a) != 4:
        return False
    pat = FMAX if name == "fetch_max" else FMIN
    return bool(pat.match(str(n.a[0]))) and {n.a[1], n.a[2]} == {o, a}


def keeps(nm, signed, o, a, facts):
    """the comparison made on the path says that the maximum or minimum of o and a is o"""
    if nm not in ("fetch_max", "fetch_min") or a is None:
        return False
    lt = "slt" if signed else "ult"
    x, y = (o, a) if nm == "fetch_max" else (a, o)
    return any(t.op == lt and (v == 0 and t.a[0] is x and t.a[1] is y or v == 1 and t.a[0] is y and t.a[1] is x) for t, v in facts if isinstance(t, T))


def lex_minmax(ismax, signed, n, o, a, size, facts):
    """n is the maximum/minimum of o and a, computed on their halves: decided by cases on how the halves compare"""
    h = size // 2
    lo, hi = (0, h) if tm.LITTLE[0] else (h, 0)
    part = {}
    for x, k in ((o, "o"), (a, "a")):
        part.setdefault(tm.ext(x, lo, h), (k, 0))
        part.setdefault(tm.ext(x, hi, h), (k, 1))
    if len(part) != 4:
        return False
    nl, nh = tm.ext(n, lo, h), tm.ext(n, hi, h)

    def val(t, c):
        """the half a term stands for in case c, as ('o'|'a', half); equal halves share a name"""
        p = part.get(t)
        if p is not None:
            return ("=", p[1]) if c[p[1]][0] == "=" else p
        if t.op == "select":
            b = boo(t.a[0], c)
            return None if b is None else val(t.a[1] if b else t.a[2], c)
        if t.op in ("umax", "umin", "smax", "smin"):
            x, y = val(t.a[0], c), val(t.a[1], c)
            if x is None or y is None or x[1] != y[1]:
                return None
            if x == y:
                return x
            l = less(x, y, t.op[0] == "s", c)
            if l is None:
                return None
            return (y if l else x) if t.op.endswith("max") else (x if l else y)
        return None

    def less(x, y, s, c):
        if x[1] != y[1]:
            return None
        if x == y:
            return False
        r = c[x[1]][1 if s else 0]
        if r is None:
            return None
        return r if x[0] == "o" else not r

    def boo(t, c):
        if tm.isc(t):
            return bool(t.a[0])
        if t.op == "lnot":
            r = boo(t.a[0], c)
            return None if r is None else not r
        if t.op in ("ult", "slt", "eq"):
            x, y = t.a
            if t.op != "eq" and {x, y} == {o, a}:
                r = wide(t.op == "slt", c)
                if r is None:
                    return None
                return (r == "<") if x is o else (r == ">")
            x, y = val(x, c), val(y, c)
            if x is None or y is None or x[1] != y[1]:
                return None
            return x == y if t.op == "eq" else less(x, y, t.op == "slt", c)
        if t.op in ("and", "or", "xor") and t.a[-1] == 1:
            bs = [boo(x, c) for x in t.a[:-1]]
            if t.op == "and" and False in bs:
                return False
            if t.op == "or" and True in bs:
                return True
            if None in bs:
                return None
            return all(bs) if t.op == "and" else any(bs) if t.op == "or" else bool(sum(bs) & 1)
        return None

    def wide(s, c):
        """how o compares with a"""
        for k, sg in ((1, s), (0, False)):
            if c[k][0] != "=":
                r = c[k][1 if sg else 0]
                return None if r is None else ("<" if r else ">")
        return "="

    # (unsigned less, signed less) of o's half against a's; "=" when equal
    his = [("=", None), (True, True), (True, False), (False, True), (False, False)]
    los = [("=", None), (True, None), (False, None)]
    done = False
    for ch in his:
        for cl in los:
            c = (cl, ch)
            if any(boo(t, c) not in (None, bool(v)) for t, v in facts):
                continue
            w = wide(signed, c)
            pick = "=" if w == "=" else "o" if (w == ">") == ismax else "a"
            want = [("=", k) if c[k][0] == "=" else (pick, k) for k in (0, 1)]
            if val(nl, c) != want[0] or val(nh, c) != want[1]:
                return False
            done = True
    return done


def bool_leaves(t, out, memo):
    if t in memo:
        return
    memo.add(t)
    if t.op == "i":
        return
    if t.op in ("and", "or", "xor", "lnot", "eq", "select", "zx", "sx", "add", "neg", "bnot", "ult", "ext", "cat") and all(isinstance(x, T) or isinstance(x, int) for x in t.a):
        for x in t.a:
            if isinstance(x, T):
                bool_leaves(x, out, memo)
        return
    out.add(t)


def bool_equal(pairs, assume):
    """every pair is equal under all 0/1 assignments of the leaves that satisfy the assumptions [(term, value)]"""
    leaves = set()
    memo = set()
    for a, b in pairs:
        bool_leaves(a, leaves, memo)
        bool_leaves(b, leaves, memo)
    base = set(leaves)
    use = []
    cand = []
    for t, v in assume:
        if tm.is_bool(t) or tm.size(t) == 1:
            ls = set()
            bool_leaves(t, ls, set())
            if ls and all((tm.size(x) or 1) == 1 for x in ls):
                cand.append((t, v, ls))
    # assumptions connected to the compared values, as far as the enumeration stays small
    grown = True
    while grown:
        grown = False
        for c in list(cand):
            if c[2] <= base:
                use.append((c[0], c[1]))
                cand.remove(c)
            elif c[2] & base and len(base | c[2]) <= 7:
                base |= c[2]
                grown = True
    leaves = base
    leaves = sorted(leaves)
    if len(leaves) > 7 or any((tm.size(x) or 1) != 1 for x in leaves):
        return False
    for bits in range(1 << len(leaves)):
        m = {x: ci((bits >> i) & 1, 1) for i, x in enumerate(leaves)}
        mm = {}
        skip = False
        for t, v in use:
            r = tm.subst(t, m, mm)
            if r.op == "i" and r.a[0] != v:
                skip = True
                break
        if skip:
            continue
        for a, b in pairs:
            x, y = tm.subst(a, m, mm), tm.subst(b, m, mm)
            if x.op != "i" or y.op != "i" or x.a[0] != y.a[0]:
                return False
    return True


class Commit:
    __slots__ = ("kind", "o", "n", "evs", "noop", "region", "label")


class OpCheck:
    """One operation, one configuration."""

    def __init__(self, D, root, isa, api=None):
        self.D, self.root = D, root
        self.name, self.tyname = root["name"], root["ty"]
        self.info = TyInfo(D, self.tyname)
        self.viol = []
        self.obl = {}
        self.classes = []
        self.isa = isa
        self.api = api
        self.locks = set()

    def bad(self, prop, msg, ev=None, node=None):
        where = None
        if ev is not None and ev.where:
            where = ev.where
        elif node is not None:
            fk = self.g.frames[node.frame]
            if fk[0] == "asm":
                fk = self.g.frames[fk[1]]
            where = (fk[2], "")
        fn = self.D.fns[where[0]]["path"] if where else ""
        sp = where[1] if where else ""
        if where and not sp:
            sp = self.D.fns[where[0]].get("span", "") or ""
        v = (prop, msg, fn, sp)
        if v not in self.viol:
            self.viol.append(v)

    def ok(self, prop, n=1):
        self.obl[prop] = self.obl.get(prop, 0) + n

    # ------------------------------------------------------------ driver
    light = False

    def run(self):
        PTR[0] = self.D.ptr
        self.f = self.D.fns[self.root["fn"]]
        self.analyse(None)
        if self.info.size < 4 and any(e.kind == "rmw" and e.size == 4 and tm.contains(e.addr, lambda x: x is self.self_) for e in self.strange):
            # accesses to the aligned word around the object: decided separately for every position in the word
            for off in range(0, 4, self.info.size):
                self.analyse(off)
                self.verdict()
        else:
            self.verdict()
        return self

    def analyse(self, off):
        f = self.f
        an = self.an = Analyzer(self.D, isa=self.isa, api=self.api)
        self.args = [an.param_val(f["locals"][i + 1], "a%d" % i) for i in range(f["argc"])]
        self.sbase, self.soff = self.args[0], 0
        if off is not None:
            w = self.args[0]
            tm.ALIGN[w] = 4
            self.args[0] = an.ptr(w, off)
            self.sbase, self.soff = w, off
            an.subword = (w, off, self.info.size, self.args[0])
        try:
            g = self.g = an.run(self.root["fn"], self.args)
        finally:
            tm.ALIGN.clear()
        self.gg = G(g, an)
        self.self_ = self.args[0]
        self.ords = [i for i in range(f["argc"]) if f["locals"][i + 1] == an.ordty]
        self.rty = f["locals"][0]
        self.at, self.end, self.lockerr = lock_flow(self.gg, ACQ_EXT, REL_EXT)
        self.rets = [(n, v) for n, k, v in self.gg.exits if k == "return"]
        self.classify()

    def verdict(self):
        if self.light:
            return
        self.check_access()
        self.check_locks()
        self.check_stamps()
        self.check_psram()
        if self.name in OPS:
            self.check_sem()
        self.check_panics()

    # ------------------------------------------------------------ events on the object
    def on_self(self, e):
        return e.addr is not None and self.offset(e.addr) is not None

    def offset(self, a):
        if a is self.self_:
            return 0
        if a is self.sbase:
            return -self.soff
        if a.op == "ptr" and a.a[0] is self.sbase and isinstance(a.a[1], int):
            return a.a[1] - self.soff
        return None

    def classify(self):
        self.mem = [e for e in self.gg.evs.values() if e.kind in ("load", "store", "rmw", "cas", "copy")]
        self.selfev = [e for e in self.mem if self.on_self(e)]
        self.strange = [e for e in self.mem if not self.on_self(e) and root_of(e.addr).op not in ("static", "laddr", "cref", "cmem")]

    def held(self, e):
        """kinds of protection held in every state before the event: None when some state holds nothing"""
        ss = self.at.get(e.id, set())
        r = None
        for h, p in ss:
            k = frozenset(x[0] for x in h)
            r = k if r is None else (r & k)
        return r or frozenset()

    # ------------------------------------------------------------ C05: access discipline
    def full(self, e):
        return self.offset(e.addr) == 0 and e.size == self.info.size

    def check_access(self):
        for e in self.strange:
            self.bad("access", "access to memory that is neither the object nor the library's own state: " + e.brief()[:120], e)
        for e in self.selfev:
            off = self.offset(e.addr)
            if e.size is None or off < 0 or off + e.size > self.info.size:
                self.bad("access", "access outside the object: " + e.brief()[:120], e)
                continue
            h = self.held(e)
            if e.kind == "copy" or e.impl == "plain" or e.impl == "volatile":
                if "lock" in h or "irq" in h or "cs" in h:
                    if e.kind == "store" and "lock" in h and "irq" not in h and "cs" not in h:
                        self.bad("access", "plain write inside the sequence lock races with optimistic readers", e)
                    self.ok("access")
                    continue
                self.bad("access", "non-atomic access to the object without exclusion: " + e.brief()[:100], e)
                continue
            if isinstance(e.x, dict) and e.x.get("neighbours") is False:
                self.bad("access", "word-wide read-modify-write changes bytes next to the object: " + e.brief()[:100], e)
            if e.kind in ("rmw", "cas"):
                if not self.full(e):
                    self.bad("access", "read-modify-write does not cover the object: " + e.brief()[:100], e)
            elif e.kind == "store":
                if not self.full(e) and "lock" not in h and "irq" not in h and "cs" not in h:
                    self.bad("access", "partial store to the object outside a critical region (torn write): " + e.brief()[:100], e)
            if isinstance(e.x, dict) and e.x.get("atomic") is False and e.kind == "store":
                self.bad("access", "store instruction is not single-copy atomic at this width: " + e.brief()[:100], e)
            self.ok("access")

    # external memory on which S32C1I is not atomic (ESP32 technical reference manual table 3.3-4; ESP32-S3: table 4-1)
    PSRAM = {"esp32": (0x3F800000, 0x3FC00000), "esp32s3": (0x3C000000, 0x3E000000)}

    def psram(self):
        for cpu, r in self.PSRAM.items():
            if 'portable_atomic_target_cpu="%s"' % cpu in self.D.cfgs:
                return r
        return None

    def bound_label(self, a, below=None, atleast=None):
        """edges on which address a < below, respectively a >= atleast"""
        a = self.norm(a)

        def lp(l):
            if not isinstance(l[0], T) or l[0].op != "ult" or not isinstance(l[1], int):
                return False
            x, y = self.norm(l[0].a[0]), l[0].a[1]
            if x is not a or not tm.isc(y):
                return False
            return (below is not None and l[1] == 1 and y.a[0] <= below) or (atleast is not None and l[1] == 0 and y.a[0] >= atleast)

        return lp

    def check_psram(self):
        r = self.psram()
        if r is None:
            return
        cs = 'feature="critical-section"' in self.D.cfgs
        for e in self.mem:
            # (a seqlock's halves are read and written natively, under its own exclusion)
            native = e.kind in ("rmw", "cas") or (cs and e.kind in ("load", "store") and e.impl == "core" and self.on_self(e) and e.size == self.info.size)
            if not native or e.impl in ("plain", "api") or root_of(e.addr).op == "laddr":
                continue
            lo, hi = self.bound_label(e.addr, below=r[0]), self.bound_label(e.addr, atleast=r[1])
            if self.gg.guarded(e.id[0], lambda l: lo(l) or hi(l)):
                self.ok("psram")
            else:
                self.bad("psram", "native %s may address external memory, where it is not atomic: %s" % (e.kind, e.brief()[:80]), e)

    def psram_panic(self, n):
        """the documented panic: a read-modify-write of external memory without the critical-section feature"""
        r = self.psram()
        if r is None or 'feature="critical-section"' in self.D.cfgs:
            return False
        addrs = {self.norm(x) for x in [self.self_] + list(self.lockaddrs) + [e.addr for e in self.mem if root_of(e.addr).op == "static"]}
        for a in addrs:
            if self.gg.guarded(n, self.bound_label(a, atleast=r[0])) and self.gg.guarded(n, self.bound_label(a, below=r[1])):
                self.ok("psram")
                return True
        return False

    # ------------------------------------------------------------ locks
    def check_locks(self):
        self.used = set()
        for e in self.gg.evs.values():
            for h, p in self.at.get(e.id, ()):
                for x in h:
                    self.used.add(x[0])
        for k, e in self.lockerr:
            self.bad("irq", k, e)
        # the state restored at the end of a region is the state saved at its beginning
        for e in self.gg.evs.values():
            if (e.kind == "irq" and e.op == "restore") or (e.kind == "ext" and e.op.endswith(REL_EXT)):
                kind = "irq" if e.kind == "irq" else "cs"
                ws = [[x for x in h if x[0] == kind][-1][2] for h, p in self.at.get(e.id, ()) if any(x[0] == kind for x in h)]
                for want in set(ws):
                    self.ok("irq")
                    got = e.args[0] if e.args else None
                    if kind == "cs" and want is not None and got is not None and tm.size(want) in (0, None) and (want is got or want.op == "agg" or got is UNIT):
                        continue
                    if want is None or got is None or not self.gg.prove(lambda q: any(w is not None and self.same_state(q, w, (e.x or {}).get("mask", 0) if isinstance(e.x, dict) else 0) for w in ws), (got,)):
                        self.bad("irq", "the region ends by restoring a state other than the one saved when it began: %s instead of %s" % (tm.show(got)[:60] if got is not None else "nothing", tm.show(want)[:60] if want is not None else "nothing"), e)
        for n, k, v in self.gg.exits:
            if k in ("unreachable", "diverge"):
                continue
            for h, p in self.end.get(n, ()):
                if h:
                    ks = sorted(set(x[0] for x in h))
                    for c in ("lock", "irq"):
                        kk = [x for x in ks if (x == "lock") == (c == "lock")]
                        if kk:
                            self.bad(c, "%s leaves with %s still held" % (k, "/".join(kk)), None, self.g.nodes[n])
                else:
                    if "lock" in self.used:
                        self.ok("lock")
                    if self.used & {"irq", "cs"}:
                        self.ok("irq")
        # nesting: a lock may not be acquired while the same kind is held; irq before lock
        for e in self.gg.evs.values():
            for h, p in self.at.get(e.id, ()):
                ks = [x[0] for x in h]
                if ks.count("lock") > 1 or ks.count("cs") > 1:
                    self.bad("lock" if ks.count("lock") > 1 else "irq", "lock acquired while already held", e)
        # the lock is a function of the object's address only
        self.lockaddrs = set()
        for e in self.gg.evs.values():
            for h, p in self.at.get(e.id, ()):
                for x in h:
                    if x[0] == "lock":
                        self.lockaddrs.add(x[2])
                        self.locks.add(x[2])
        for a in self.lockaddrs:
            if tm.has_dyn(a):
                self.bad("lock", "the lock protecting the object is not a function of its address: " + tm.show(a)[:100])
            elif not tm.contains(a, lambda x: x is self.self_) and not (root_of(a).op == "static" and not tm.contains(a, lambda x: x.op == "param")):
                self.bad("lock", "the lock protecting the object depends on something else than its address: " + tm.show(a)[:100])
            else:
                self.ok("lock")

    def unlocked_before(self, ae):
        """(value found when the lock was taken, value that marks it taken)"""
        if ae.kind == "store":
            lds = [self.gg.evs[p[1]] for h, p in self.at.get(ae.id, ()) if isinstance(p, tuple) and p and p[0] == "L"]
            lds = [l for l in lds if l.addr is ae.addr]
            return (lds[0].old, ae.new) if lds else (None, ae.new)
        return ae.old, ae.new

    def initial(self, addr, sz):
        """the values the word may have at first, None when not known"""
        st = self.D.d["statics"].get(root_of(addr).a[0], {})
        off, stride, t = 0, None, addr
        while t.op != "static":
            if t.op == "ptr" and (isinstance(t.a[1], int) or tm.isc(t.a[1])):
                off += t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]
                t = t.a[0]
            elif t.op == "idx" and stride is None and isinstance(t.a[2], int):
                stride = t.a[2]
                t = t.a[0]
            else:
                return None
        if "nz" not in st:
            return None
        nz = dict(map(tuple, st["nz"]))
        rd = lambda o: int.from_bytes(bytes(nz.get(o + i, 0) for i in range(sz)), "big" if self.D.d.get("endian") == "big" else "little")
        offs = range(off, st["size"] - sz + 1, stride) if stride else [off]
        if nz and stride:
            offs = {off + ((k - off) // stride) * stride for k in nz} | {off + i * stride for i in range(len(nz) + 1)}
        elif stride:
            offs = [off]
        return {rd(o) for o in offs if 0 <= o <= st["size"] - sz}

    def never(self, n, x, v):
        """x is not v at node n, by what was tested on every way since it was obtained"""
        if tm.isc(x):
            return x is not v
        q = tm.eq(x, v)
        if any(t is q and not k for t, k in self.g.nodes[n].env["$f"]):
            return True
        src = set(tm.evnodes(x)) | set(self.gg.expandable(x))
        return bool(src) and self.gg.guarded(n, lambda l: isinstance(l, tuple) and l[0] is q and l[1] == 0, list(src))

    def excludes(self, l, x, v):
        """the edge label l is false when x has the value v"""
        return isinstance(l[0], T) and isinstance(l[1], int) and (lambda r: tm.isc(r) and r.a[0] != l[1])(tm.subst(l[0], {x: v}))

    def check_stamps(self):
        """what each release of a sequence lock leaves in the lock word: never the locked mark, and a new stamp when the object was written"""
        gg = self.gg
        writes = [e for e in self.selfev if e.kind in ("store", "rmw", "cas", "copy")]
        for r in gg.evs.values():
            if r.kind != "store" or not self.is_release(r):
                continue
            xs = {x for h, p in self.at.get(r.id, ()) for x in h if x[0] == "lock" and x[2] is r.addr}
            olds, marks = set(), set()
            for x in xs:
                ae = gg.evs[x[1]]
                old, mark = self.unlocked_before(ae)
                if old is None or not tm.isc(mark) or not tm.size(old):
                    self.bad("lock", "the value that marks the lock as taken is not known", ae)
                    return
                olds.add(old)
                if ae.kind == "cas":
                    olds.add(ae.exp)
                    if not self.never(ae.id[0], ae.exp, mark):
                        self.bad("lock", "the lock may be taken by exchanging the mark of another holder", ae)
                        return
                marks.add(mark.a[0])
            if not olds:
                continue
            sz = tm.size(next(iter(olds)))
            # the initial values and everything a release leaves agree in the low bits, where the mark differs; or the mark is ruled out by a test
            inits = self.initial(r.addr, sz)
            if inits is None or inits & marks:
                self.bad("lock", "the lock word is not known to start unlocked", r)
                continue

            def free(j):
                m = (1 << j) - 1
                cs = {v & m for v in inits}
                if len(cs) != 1 or any((k & m) in cs for k in marks):
                    return False
                c0 = next(iter(cs))

                def ok(v):
                    if v in olds:
                        return True
                    for o in olds:
                        d = tm.sub(v, o, sz)
                        if tm.isc(d) and not d.a[0] & m:
                            return True
                    if c0:
                        return tm.isc(v) and v.a[0] & m == c0
                    tm.ALIGN.update({o: 1 << j for o in olds})
                    try:
                        return tm.lowbits(v, j) == 0
                    finally:
                        tm.ALIGN.clear()
                return gg.prove(ok, (r.new,))
            if not (any(free(j) for j in (1, 2, 3)) or all(self.never(r.id[0], r.new, ci(k, sz)) for k in marks)):
                self.bad("lock", "the lock is released with a value that may be the locked mark: " + tm.show(r.new)[:80], r)
                continue
            between = lambda f: any(f.id == x[1] for x in xs) or (f.id != r.id and self.is_release(f) and f.addr is r.addr)
            dirty = [w for w in writes if any(y in xs for h, p in self.at.get(w.id, ()) for y in h) and not gg.passes_between(w.id, r.id, between)]
            if dirty:
                ks = set()

                def moved(v):
                    for o in olds:
                        d = tm.sub(v, o, sz)
                        if tm.isc(d) and d.a[0]:
                            ks.add(d.a[0])
                            return True
                    return False
                for w in dirty:
                    rel = lambda f: self.fence_s(f, {})[1]
                    if w.impl != "plain" and not (self.strength_all(w.ord, {}) or (False,) * 3)[1] and not all(gg.passes_between(x[1], w.id, rel) for x in xs):
                        self.bad("order", "the object is written with no release fence after the lock is taken: a reader may see the new value and still find the old stamp", w)
                        break
                if not gg.prove(moved, (r.new,)):
                    self.bad("lock", "the lock is released with the stamp readers saw before although the object was written: " + tm.show(r.new)[:80], r)
                    continue
                if sz < 8:
                    self.check_wrap(r, xs, olds, sz, ks)
            self.ok("lock")

    def check_wrap(self, r, xs, olds, sz, ks):
        """a stamp narrower than 64 bits continues in another word that changes before the narrow one wraps around"""
        gg = self.gg

        def carry(e):
            if e.kind != "store" or e.addr is r.addr or root_of(e.addr) is not root_of(r.addr) or not any(y in xs for h, p in self.at.get(e.id, ()) for y in h):
                return False
            return any(l.kind == "load" and l.addr is e.addr and l.old is not None and tm.size(l.old) and (lambda d: tm.isc(d) and d.a[0])(tm.sub(e.new, l.old, tm.size(l.old)))
                       and any(y in xs for h, p in self.at.get(l.id, ()) for y in h) for l in gg.evs.values())
        if any(k > 16 for k in ks):
            return
        wraps = [ci(-j, sz) for k in ks for j in range(1, k + 1) if not j & 1]
        stop = {n for n in gg.live if any(carry(e) for e in gg.nodes[n].events)}
        skip = lambda a, b, l: l is not None and l != "unwind" and self.no_wrap(l, olds, wraps)
        for x in xs:
            if r.id[0] in gg.reach(gg.after(x[1]), stop=stop, stop_edge=skip):
                self.bad("lock", "the %d-bit stamp may wrap around with no further word changing: readers cannot tell" % (8 * sz), r)
                return

    def no_wrap(self, l, olds, wraps):
        """the edge label is false whenever the stamp before is one of wraps"""
        if not isinstance(l[0], T) or not isinstance(l[1], int):
            return False
        return all(self.gg.prove(lambda c: any(self.excludes((c, l[1]), o, w) for o in olds), (l[0],)) for w in wraps)

    def same_state(self, got, want, mask=0):
        """restoring `got` re-establishes the interrupt state saved in `want`"""
        if got is want:
            return True
        if want.op == "junk":
            return False
        if mask and got.op == "and" and want in got.a and any(tm.isc(x) and x.a[0] & mask == mask for x in got.a if isinstance(x, T)):
            return True
        return False

    # ------------------------------------------------------------ commits of a return
    def regions(self, e):
        return frozenset(x[1] for h, p in self.at.get(e.id, ()) for x in h)

    def commits(self, n):
        """commits of the history at node n: [Commit] or None on a malformed group"""
        h = self.g.nodes[n].env["$h"]
        out = []
        group = []

        def flush():
            if not group:
                return True
            parts = {}
            for e in group:
                off = self.offset(e.addr)
                if off in parts:
                    # the same cell stored twice by alternative paths (joined history)
                    parts[off].append(e)
                else:
                    parts[off] = [e]
            c = Commit()
            c.kind, c.o, c.noop, c.label = "region", None, False, None
            c.evs = list(group)
            o = 0
            vals = []
            good = True
            for off in sorted(parts):
                es = parts[off]
                if off != o or len(es) != 1:
                    good = False
                    break
                vals.append(es[0].new)
                o += es[0].size
            good = good and o == self.info.size
            if good:
                c.n = vals[0] if len(vals) == 1 else tm.cat(vals)
            else:
                c.n = None
            out.append(c)
            del group[:]
            return good

        for evid in h:
            e = self.gg.evs.get(evid)
            if e is None or not self.on_self(e):
                if e is not None and e in self.strange:
                    c = Commit()
                    c.kind, c.o, c.n, c.noop, c.evs, c.label = "strange", None, None, False, [e], None
                    out.append(c)
                continue
            if e.kind == "store":
                hd = self.held(e)
                if not hd and self.full(e):
                    flush()
                    c = Commit()
                    c.kind, c.o, c.n, c.evs, c.noop, c.label = "store", None, e.new, [e], False, None
                    out.append(c)
                else:
                    if self.full(e):
                        flush()
                    group.append(e)
                continue
            flush()
            c = Commit()
            c.evs = [e]
            c.label = None
            if e.kind == "rmw":
                c.kind, c.o, c.n = "rmw", e.old, e.new
            elif e.kind == "cas":
                c.kind, c.o, c.n = "cas", e.exp, e.new
                c.label = ("cas", e.id, 1)
            else:
                c.kind, c.o, c.n = e.kind, None, None
            c.noop = c.o is not None and c.n is c.o
            out.append(c)
        flush()
        return out

    # ------------------------------------------------------------ values
    def norm(self, t):
        return strip_expose(t)

    def same(self, facts):
        isb = self.info.kind == "bool"
        fs = [(t, v) for t, v in facts if tm.is_bool(t)]

        def eqv(a, b):
            if a is b:
                return True
            a, b = self.norm(a), self.norm(b)
            if a is b:
                return True
            if isb and tm.size(a) == 1 and tm.size(b) == 1:
                return bool_equal([(a, b)], fs)
            if same_bytes(a, b) or tm.bitwise_equal(a, b):
                return True
            # equalities established on the path
            m = {}
            for t, v in fs:
                if v == 1 and t.op == "eq":
                    m[t.a[0]] = t.a[1]
            if m:
                x, y = tm.subst(a, m), tm.subst(b, m)
                if x is y:
                    return True
            return False

        return eqv

    def boolval(self, v):
        """a bool result and the byte it was read from are interchangeable"""
        return v

    def sources(self, v, facts, depth=0):
        """events whose observation v is, or None when v is not an observation of the whole object"""
        found = set()

        def pred(t):
            t = self.norm(t)
            if self.info.kind == "bool":
                if t.op == "lnot" and t.a[0].op == "eq" and t.a[0].a[1] is ci(0, 1):
                    t = t.a[0].a[0]
            if t.op == "cat":
                off = 0
                es = []
                for p in t.a:
                    e = self.gg.ev(p)
                    if e is None or e.kind != "load" or e.old is not p or self.offset(e.addr) != off:
                        return False
                    es.append(e)
                    off += e.size
                if off != self.info.size:
                    return False
                for e in es:
                    found.add(e.id)
                self.tiled.add(tuple(e.id for e in es))
                return True
            e = self.gg.ev(t)
            if e is None or not self.on_self(e) or not self.full(e):
                return False
            if e.kind == "load" or (e.kind in ("cas", "rmw") and e.old is t):
                found.add(e.id)
                return True
            return False

        self.tiled = getattr(self, "tiled", set())
        if self.gg.prove(pred, (v,)):
            return [self.gg.evs[i] for i in sorted(found)]
        if self.info.kind == "bool":
            # a constant chosen by what was observed
            def chosen(eqs, t):
                if pred(t):
                    return True
                if not tm.isc(t):
                    return False
                fs = [(p, q.a[0]) for p, q in eqs if tm.isc(q) and tm.is_bool(p)] + [(tm.eq(p, q), 1) for p, q in eqs if tm.isc(q) and not tm.is_bool(p)]
                for x in sorted({x for p, _ in fs for x in tm.evterms(p)}, key=lambda x: x.id):
                    if pred(x) and bool_equal([(t, x)], fs):
                        return True
                return False
            st = tuple((t, ci(k, 1 if tm.is_bool(t) else self.info.size)) for t, k in facts if tm.has_dyn(t) and (tm.is_bool(t) or tm.size(t) == self.info.size))[-8:]
            if self.gg.prove(chosen, (v,), eqs=st):
                return [self.gg.evs[i] for i in sorted(found)]
        return None

    # ------------------------------------------------------------ orderings
    def ordset(self, n, p):
        vs = {x["d"]: x["n"] for x in self.an.tys[self.an.ordty]["v"]}
        a = self.args[p]
        d = mk("discr", a)
        s = set(vs.values())
        for t, v in self.g.nodes[n].env["$f"]:
            if t is d:
                s &= {vs[v]}
            elif t.op == "notin" and t.a[0] is d and v == 1:
                s -= {vs[k] for k in t.a[1]}
            elif t.op == "eq" and t.a[0] is d and tm.isc(t.a[1]):
                if v == 1:
                    s &= {vs.get(t.a[1].a[0])}
                else:
                    s -= {vs.get(t.a[1].a[0])}
        return s

    def strength(self, o, req, reqp):
        """(acq, rel, sc) of an event ordering when the orderings requested are {param index: name}"""
        if o is None:
            return (False, False, False)
        if isinstance(o, tuple):
            return o[1:4]
        if o.op == "agg":
            nm = self.an.tys[self.an.ordty]["v"][o.a[1]]["n"]
        else:
            nm = None
            for p, r in reqp.items():
                if o is self.args[p]:
                    nm = r
            if nm is None:
                return None
        return (nm in ACQS, nm in RELS, nm == "SeqCst")

    def strength_all(self, o, reqp):
        """meet over everything a joined ordering may be"""
        if o is None or isinstance(o, tuple):
            return self.strength(o, None, reqp)
        r = [True, True, True]

        def pred(t):
            if isinstance(t, T) and t.op == "ev":
                return False
            s = self.strength(t, None, reqp)
            if s is None:
                return False
            for i in range(3):
                r[i] = r[i] and s[i]
            return True

        if self.gg.prove(pred, (o,)):
            return tuple(r)
        return None

    def fence_s(self, e, reqp):
        if e.kind == "fence":
            return self.strength_all(e.ord, reqp) or (False, False, False)
        if e.kind in ("rmw", "cas") and e.addr is not None and root_of(e.addr).op == "laddr" and isinstance(e.ord, tuple) and e.ord[3]:
            return (True, True, True)
        return (False, False, False)

    def sc_table(self):
        a = self.D.arch
        if a in ("x86_64", "i686", "i586"):
            return {"load": "free", "store": ("trail",)}
        if a.startswith("powerpc"):
            return {"load": ("lead",), "store": ("lead",), "rmw": ("lead",)}
        if a.startswith("riscv"):
            return {"load": ("lead",), "store": ("trail",), "rmw": ()}
        if a == "s390x":
            return {"load": "free", "store": ("trail",), "rmw": "free"}
        if self.D.kuser and not any(c.startswith('target_feature="v6') for c in self.D.cfgs):
            # pre-v6 Linux: plain accesses, each followed by the kernel's full barrier
            return {"load": ("trail",), "store": ("trail",)}
        if a.startswith(("aarch64", "arm64")):
            return {"load": ("leadld",), "store": ("trail",), "rmw": ()}
        return {"load": (), "store": (), "rmw": ()}

    def check_order_event(self, e, n, p, what, aspect, label=None):
        """event e realises (for return node n) the ordering requested by parameter p.

        aspect: 'rmw' (acquire and release parts), 'load' (acquire part), 'store' (release part)"""
        S = self.ordset(n, p)
        others = [q for q in self.ords if q != p]
        for o in sorted(S):
            if aspect == "load" and o in ("Release", "AcqRel"):
                continue
            if aspect == "store" and o in ("Acquire", "AcqRel"):
                continue
            combos = [{}]
            for q in others:
                combos = [dict(c, **{str(q): x}) for c in combos for x in sorted(self.ordset(n, q))]
            for c in combos:
                reqp = {p: o}
                reqp.update({int(k): v for k, v in c.items()})
                self.order1(e, n, reqp, o, what, aspect, label)

    def order1(self, e, n, reqp, o, what, aspect, label):
        gg = self.gg
        na = o in ACQS and aspect in ("load", "rmw")
        nr = o in RELS and aspect in ("store", "rmw")
        ns = o == "SeqCst"
        # events inside a region are ordered by the region
        regs = [x for h, p in self.at.get(e.id, ()) for x in h]
        hd = self.held(e)
        self.ok("order")
        if "irq" in hd and "lock" not in hd or "cs" in hd:
            return
        if "lock" in hd:
            for x in regs:
                if x[0] != "lock":
                    continue
                ae = gg.evs[x[1]]
                # a lock word that is itself emulated inside a critical section is ordered by that section
                under = lambda f: f.impl == "plain" and self.held(f) & {"cs", "irq"}
                s = (True, True, False) if under(ae) else self.strength_all(ae.ord, reqp) or (False,) * 3
                if not s[0]:
                    self.bad("order", "the lock is acquired without acquire ordering", ae)
                for r in self.releases(x[2]):
                    if not under(r) and not (self.strength_all(r.ord, reqp) or (False,) * 3)[1] and not self.gg.passes_between(e.id, r.id, lambda f: self.fence_s(f, reqp)[1], label):
                        self.bad("order", "the lock is released without release ordering", r)
                if ns:
                    sc = lambda f: self.fence_s(f, reqp)[2]
                    if not gg.entry_passes(x[1], sc):
                        self.bad("scfence", "%s with SeqCst takes the lock without a SeqCst fence before it" % self.name, ae)
                    elif not gg.end_passes(e.id, n, sc, label):
                        self.bad("scfence", "%s with SeqCst returns without a SeqCst fence after the locked region" % self.name, e)
                    else:
                        self.ok("scfence")
            return
        eo = e.ford if (aspect == "load" and e.kind == "cas" and label is not None and label[2] == 0) else e.ord
        s = self.strength_all(eo, reqp)
        if s is None:
            self.bad("order", "%s: ordering of the access cannot be related to the requested one" % what, e)
            return
        acq, rel, sc = s
        if self.D.single and isinstance(e.impl, str) and e.impl.startswith("asm:"):
            # one core: an assembly access is a compiler barrier (nomem/readonly would be a broken operand contract), and
            # the core observes its own accesses in program order
            self.ok("order")
            return
        if na and not acq:
            acq = gg.end_passes(e.id, n, lambda f: self.fence_s(f, reqp)[0], label)
        if nr and not rel:
            rel = gg.entry_passes(e.id, lambda f: self.fence_s(f, reqp)[1])
        if ns and not sc:
            t = self.sc_table().get("rmw" if e.kind in ("rmw", "cas") else e.kind, ())
            if aspect == "load" and e.kind == "cas" and isinstance(t, tuple):
                # a compare that only loads is ordered like a load
                t2 = self.sc_table().get("load", ())
                t = t2 if t2 == "free" else tuple(t) + tuple(t2)
            if t == "free":
                sc = True
            else:
                isc = lambda f: self.fence_s(f, reqp)[2]
                # a load-acquire (RCsc) of the object orders the following loads after earlier SeqCst operations
                ild = lambda f: isc(f) or (f.kind == "load" and isinstance(f.ord, tuple) and f.ord[3] and self.on_self(f))
                sc = ("lead" in t and gg.entry_passes(e.id, isc)) or ("leadld" in t and gg.entry_passes(e.id, ild) and (acq or not na)) or ("trail" in t and gg.end_passes(e.id, n, isc, label))
            if not sc and e.kind == "load" and self.optimistic(e):
                isc = lambda f: self.fence_s(f, reqp)[2]
                sc = gg.entry_passes(e.id, isc) and gg.end_passes(e.id, n, isc, label)
                if not sc:
                    self.bad("scfence", "%s with SeqCst reads optimistically without SeqCst fences on both sides" % self.name, e)
                    sc = True
                else:
                    self.ok("scfence")
        if na and not acq and e.kind == "load" and self.optimistic(e):
            # the stamp was read with acquire ordering before the data
            fa = lambda f: self.fence_s(f, reqp)[0]
            acq = gg.entry_passes(e.id, lambda f: f.kind == "load" and root_of(f.addr).op == "static" and ((self.strength_all(f.ord, reqp) or (False,) * 3)[0] or gg.passes_between(f.id, e.id, fa)))
        for want, have, nm in ((na, acq, "acquire"), (nr, rel, "release"), (ns, sc, "sequentially consistent")):
            if want and not have:
                self.bad("order", "%s with %s is not %s: %s" % (what, o, nm, e.brief()[:80]), e)

    def releases(self, addr):
        return [e for e in self.gg.evs.values() if e.kind == "store" and e.addr is addr and any(x[0] == "lock" and x[2] is addr for h, p in self.at.get(e.id, ()) for x in h)]

    def optimistic(self, e):
        """a relaxed read validated by the sequence lock (checked by the protocol rule)"""
        return self.uses_seqlock() and not self.held(e)

    def uses_seqlock(self):
        return any(e.kind in ("load", "rmw", "cas") and e.addr is not None and e.addr in self.lockaddrs_any() for e in self.gg.evs.values())

    def lockaddrs_any(self):
        return self.lockaddrs

    # ------------------------------------------------------------ semantics
    def arg(self, i):
        an, f = self.an, self.f
        return scalar(an, self.args[i], f["locals"][i + 1])

    def retscalar(self, v, ti):
        return scalar(self.an, v, ti)

    def esz(self):
        t = self.an.tys[self.rty]
        to = t.get("to")
        return self.an.sizeof(to) if to is not None else None

    def check_sem(self):
        nm = self.name
        P = "rmw" if nm in RMW_RET + RMW_NORET + RMW_BIT else "access-op"
        P = {"fetch_update": "update"}.get(nm, P)
        self.P = P
        if not self.rets:
            self.bad(P, "never returns")
            return
        for n, v in self.rets:
            nd = self.g.nodes[n]
            cs = self.commits(n)
            if any(c.kind in ("strange", "copy") or c.n is None for c in cs):
                self.bad(P, "object written in a way that does not cover it exactly once", cs[0].evs[0], nd)
                continue
            facts = nd.env["$f"]
            self.cls(n, cs, facts)
            real = [c for c in cs if not c.noop]
            noop = [c for c in cs if c.noop]
            if nm == "load":
                self.ret_load(n, v, real, noop, facts)
            elif nm == "store":
                self.ret_store(n, v, real, noop, facts)
            elif nm in CASES:
                self.ret_cas(n, v, real, noop, facts)
            elif nm == "fetch_update":
                self.ret_update(n, v, real, noop, facts)
            else:
                self.ret_rmw(n, v, cs, real, noop, facts)
        # a commit is not repeated
        for n, v in self.rets:
            for c in self.commits(n):
                if c.noop or c.kind == "strange":
                    continue
                e = c.evs[0]
                again = self.gg.reach(self.gg.after(e.id, c.label))
                if e.id[0] in again:
                    self.bad(P, "the object may be modified more than once", e)
        self.ok(P, len(self.rets))

    def one(self, n, real, noop, what):
        if len(real) > 1:
            self.bad(self.P, "%s modifies the object %d times on one path" % (what, len(real)), real[1].evs[0])
            return False
        return True

    def order_src(self, n, v, facts, p, what):
        """the observation v satisfies the load ordering p"""
        src = self.sources(v, facts)
        if src is None:
            return None
        for e in src:
            lab = ("cas", e.id, 0) if e.kind == "cas" else None
            if p is not None:
                self.check_order_event(e, n, p, what, "load", lab)
        return src

    def ret_load(self, n, v, real, noop, facts):
        P = self.P
        nd = self.g.nodes[n]
        if real:
            self.bad(P, "load modifies the object", real[0].evs[0])
        val = self.retscalar(v, self.rty)
        eqv = self.same(facts)
        for c in noop:
            if self.gg.prove(eqv, (val, c.o)):
                for e in c.evs:
                    self.check_order_event(e, n, self.ords[0], "load", "load", c.label)
                return
        src = self.order_src(n, val, facts, self.ords[0], "load")
        if src is None:
            self.bad(P, "load returns something other than one whole-object observation: " + tm.show(val)[:100], None, nd)
            return
        self.check_tear(n, src)

    def check_tear(self, n, src):
        for e in src:
            x = e.x if isinstance(e.x, dict) else {}
            if e.kind == "load" and (x.get("atomic") is False or x.get("ll")) and not self.held(e):
                self.bad("access", "value comes from a load that is not single-copy atomic: " + e.brief()[:80], e)
            if e.kind == "load" and not self.full(e) and not self.held(e):
                if not self.validated(n, e):
                    for t in ("seqlock", "access"):
                        self.bad(t, "a partial read of the object is used without validation", e)
                else:
                    self.ok("seqlock")
            elif e.kind == "load" and self.held(e) and not self.full(e):
                self.ok("access")

    def validated(self, n, e):
        """optimistic read protocol around a partial load e that reaches return n"""
        gg = self.gg
        acq = lambda f: (self.strength_all(f.ord, {}) or (False,) * 3)[0] if f.kind == "fence" else False
        # loads of lock words after e
        stat = [f for f in gg.evs.values() if f.kind == "load" and root_of(f.addr).op == "static"]
        good_before = {}
        for f in stat:
            # read before e on every path, with acquire ordering
            s = self.strength_all(f.ord, {})
            ga = bool(s and s[0]) or (e.id[0] in gg.reach(gg.after(f.id)) and gg.passes_between(f.id, e.id, acq))
            good_before.setdefault(f.addr, []).append((f, ga))
        okaddrs = set()
        for a in good_before:
            pairs = set()
            first = {f.id: f for f, fa in good_before[a] if fa and self.follows(f, e) and self.seen_free(n, f, e, a)}
            if first and gg.entry_passes(e.id, lambda q: q.id in first):
                for f in first.values():
                    for h, _ in good_before[a]:
                        pairs.add(tm.eq(h.old, f.old))
            # must pass (after a fence following e) an edge on which both reads were equal
            def lp(l):
                return isinstance(l[0], T) and l[1] == 1 and l[0].op == "eq" and l[0] in pairs
            if pairs and gg.guarded(n, lp, gg.after(e.id)):
                # the validating read comes after an acquire fence that follows the data read
                okf = True
                for h, _ in good_before[a]:
                    if any(tm.contains(q, lambda x: x is h.old) for q in pairs) and e.id[0] != h.id[0] and h.id[0] in gg.reach(gg.after(e.id)):
                        if not gg.passes_between(e.id, h.id, acq):
                            okf = False
                if okf:
                    okaddrs.add(a)
        la = [a for a in okaddrs if a in self.lockaddrs] if self.lockaddrs else list(okaddrs)
        good = bool(la) and (max(tm.size(f.old) or 0 for a in la for f, _ in good_before[a]) >= 8 or self.wide_order(e, la[0], okaddrs - {la[0]}, good_before))
        self.validated_addrs = getattr(self, "validated_addrs", None)
        self.validated_addrs = okaddrs if self.validated_addrs is None else (self.validated_addrs & okaddrs)
        return good

    def seen_free(self, n, f, e, a):
        """the stamp f read before e was not the locked mark (words that are never locked have none)"""
        gg = self.gg
        marks = [gg.evs[x[1]].new for ev in gg.evs.values() for h, p in self.at.get(ev.id, ()) for x in h if x[0] == "lock" and x[2] is a]
        for m in set(marks):
            lp = lambda l: self.excludes(l, f.old, m)
            if not gg.guarded(e.id[0], lp, gg.after(f.id)) and not gg.guarded(n, lp, gg.after(e.id)):
                return False
        return True

    def follows(self, a, b):
        """b can come after a"""
        return a.id[0] == b.id[0] and a.id[1] < b.id[1] or b.id[0] in self.gg.reach(self.gg.after(a.id))

    def wide_order(self, e, lo, his, reads):
        """two-word stamp: high word read (acquire) before the low one, and validated after it (acquire)"""
        gg = self.gg
        ac = lambda f: bool((self.strength_all(f.ord, {}) or (False,) * 3)[0])
        acq = lambda q, to: ac(q) or gg.passes_between(q.id, to.id, lambda z: z.kind == "fence" and ac(z))
        isld = lambda a, q: q.kind == "load" and q.addr is a
        for hi in his:
            bef = [l for l, _ in reads[lo] if self.follows(l, e)]
            aft = [h for h, _ in reads[hi] if self.follows(e, h)]
            first = bef and all(gg.entry_passes(l.id, lambda q: isld(hi, q) and acq(q, l)) for l in bef)
            last = aft and all(gg.passes_between(e.id, h.id, lambda q: isld(lo, q) and acq(q, h)) for h in aft)
            if first and last:
                return True
        return False

    def ret_store(self, n, v, real, noop, facts):
        P = self.P
        if not self.one(n, real, noop, "store"):
            return
        if not real:
            self.bad(P, "store returns without writing the object", None, self.g.nodes[n])
            return
        c = real[0]
        eqv = self.same(facts)
        if not self.gg.prove(eqv, (c.n, self.arg(1))):
            self.bad(P, "store writes a different value: " + tm.show(c.n)[:100], c.evs[0])
        for e in c.evs:
            self.check_order_event(e, n, self.ords[0], "store", "store", c.label)

    def ret_cas(self, n, v, real, noop, facts):
        P = self.P
        nd = self.g.nodes[n]
        if v.op != "agg" or self.an.tys[self.rty]["k"] != "enum":
            self.bad(P, "result variant is not determined: " + tm.show(v)[:100], None, nd)
            return
        eqv = self.same(facts)
        pty = self.f["locals"][2]
        pay = self.retscalar(v.a[2][0], pty)
        exp, new = self.arg(1), self.arg(2)
        isok = self.an.tys[self.rty]["v"][v.a[1]]["n"] == "Ok" if "n" in self.an.tys[self.rty]["v"][0] else v.a[1] == 0
        if isok:
            cand = real if real else noop
            if len(real) > 1 or not cand:
                self.bad(P, "compare_exchange reports success after %d modifications" % len(real), None, nd)
                return
            c = cand[-1]
            o = c.o
            if c.kind == "cas":
                good = self.gg.prove(lambda a, b, x: eqv(a, exp) and eqv(b, new) and (eqv(x, exp) or eqv(x, a)), (c.o, c.n, pay))
                if not good and not real:
                    good = self.bool_cas(n, c, pay, exp, new, facts, True)
                if not good:
                    self.bad(P, "successful compare_exchange does not replace the expected value by the new one: exp=%s new=%s returns %s" % (tm.show(c.o)[:60], tm.show(c.n)[:60], tm.show(pay)[:60]), c.evs[0])
            elif c.kind == "region" and self.bool_cas(n, c, pay, exp, new, facts, True):
                pass
            elif c.kind == "region":
                if not self.gg.prove(lambda b, x: eqv(b, new) and (eqv(x, exp) or self.region_obs(n, c, x)), (c.n, pay)):
                    self.bad(P, "successful compare_exchange writes or returns a wrong value: " + tm.show(c.n)[:80], c.evs[0])
                for e in c.evs:
                    if not self.gg.guarded(e.id[0], lambda l: self.cmp_label(l, exp, 1, c)):
                        self.bad(P, "compare_exchange writes the object without having found the expected value", e)
            else:
                if not self.bool_cas(n, c, pay, exp, new, facts, True):
                    self.bad(P, "successful compare_exchange does not replace the expected value by the new one: " + tm.show(c.n)[:80], c.evs[0])
            for e in c.evs:
                self.check_order_event(e, n, self.ords[0], "compare_exchange (success)", "rmw", c.label)
            if c.kind == "region":
                self.check_region(n, c)
        else:
            if real:
                if not (len(real) == 1 and self.bool_cas(n, real[0], pay, exp, new, facts, False)):
                    self.bad(P, "compare_exchange reports failure but modified the object", real[0].evs[0])
                    return
                noop, real = real, []
            okv = False
            for c in noop:
                if (c.o is not None and self.gg.prove(lambda a, b: eqv(a, b), (pay, c.o))) or self.bool_cas(n, c, pay, exp, new, facts, False):
                    okv = True
                    for e in c.evs:
                        self.check_order_event(e, n, self.ords[1], "compare_exchange (failure)", "load", c.label)
                    fs = [(t, x) for t, x in facts]
                    if self.name == "compare_exchange" and not self.differs(n, pay, exp, c, facts):
                        self.bad(P, "strong compare_exchange may fail although the value was the expected one", c.evs[0])
            if not okv:
                src = self.order_src(n, pay, facts, self.ords[1], "compare_exchange (failure)")
                if src is None:
                    self.bad(P, "failed compare_exchange returns something other than the observed value: " + tm.show(pay)[:100], None, nd)
                    return
                self.check_tear(n, src)
                if self.name == "compare_exchange":
                    if not self.strong_fail(n, src, pay, exp, facts):
                        self.bad(P, "strong compare_exchange may fail although the value was the expected one", src[0])

    def cmp_label(self, l, exp, val, c):
        if not isinstance(l[0], T) or l[0].op != "eq" or l[1] != val:
            return False
        a, b = l[0].a
        for x, y in ((a, b), (b, a)):
            if self.norm(y) is self.norm(exp) and self.region_obs(None, c, x):
                return True
        return False

    def region_obs(self, n, c, x):
        """x is the object's value as read inside the region of commit c"""
        src = self.sources(x, ())
        if src is None:
            return False
        return all(self.held(e) for e in src)

    def compared_obs(self, n, c, N, rel):
        """on every way to the writes, since the values N is made of were obtained, the value N was computed from was
        found equal to the object's value read in the region"""
        src = set(tm.evnodes(N)) | self.gg.expandable(N)
        memo = {}

        def lp(l):
            if not (isinstance(l[0], T) and l[0].op == "eq" and l[1] == 1):
                return False
            r = memo.get(l[0])
            if r is None:
                a, b = l[0].a
                r = memo[l[0]] = (rel(N, a) and self.region_obs(n, c, b)) or (rel(N, b) and self.region_obs(n, c, a))
            return r

        return bool(src) and all(self.gg.guarded(e.id[0], lp, list(src)) for e in c.evs)

    def differs(self, n, pay, exp, c, facts):
        for t, v in facts:
            if c.o is not None and t.op == "eq" and v == 0 and {self.norm(t.a[0]), self.norm(t.a[1])} == {self.norm(c.o), self.norm(exp)}:
                return True
        def lp(l):
            return isinstance(l[0], T) and l[0].op == "eq" and l[1] == 0 and self.norm(exp) in [self.norm(x) for x in l[0].a]
        if self.gg.guarded(n, lp):
            return True
        return self.bool_cas(n, c, pay, exp, self.arg(2), facts, False)

    def strong_fail(self, n, src, pay, exp, facts):
        def lp(l):
            if l[0] == "cas" and l[2] == 0:
                e = self.gg.evs.get(l[1])
                return e is not None and not e.weak and self.on_self(e) and self.gg.prove(self.same(()), (e.exp, exp))
            if isinstance(l[0], T) and l[0].op == "eq" and l[1] == 0:
                a, b = l[0].a
                return self.norm(exp) in (self.norm(a), self.norm(b))
            if isinstance(l[0], T) and self.info.kind == "bool" and tm.is_bool(l[0]):
                return False
            return False

        return self.gg.guarded(n, lp) or self.bool_fail(n, src, pay, exp, facts)

    def bool_cas(self, n, c, pay, exp, new, facts, ok):
        """AtomicBool only: a read-modify-write used as compare-and-exchange, decided over all truth assignments"""
        if self.info.kind != "bool":
            return False
        if c.o is None and c.kind == "region":
            reg = set()
            for e in c.evs:
                reg |= self.regions(e)
            for l in self.selfev:
                if l.kind == "load" and self.full(l) and self.regions(l) & reg:
                    c2 = Commit()
                    c2.kind, c2.o, c2.n, c2.evs, c2.noop, c2.label = "rmw", l.old, c.n, c.evs, c.noop, None
                    if self.bool_cas(n, c2, pay, exp, new, facts, ok):
                        return True
            return False
        if c.o is None or any(tm.size(x) != 1 for x in (c.o, c.n, pay, exp, new)):
            return False
        fs = [(t, v) for t, v in facts if tm.is_bool(t)]
        if ok:
            return bool_equal([(c.o, exp), (c.n, new), (pay, exp)], fs)
        # failure: nothing changed, the observed value differs and is returned
        return bool_equal([(c.n, c.o), (pay, c.o), (tm.lnot(exp), c.o)], fs)

    def bool_fail(self, n, src, pay, exp, facts):
        if self.info.kind != "bool":
            return False
        fs = [(t, v) for t, v in facts if tm.is_bool(t)]
        return bool_equal([(pay, tm.lnot(exp))], fs)

    def check_region(self, n, c):
        """the value read and the value written belong to one uninterrupted region"""
        # no release between the reads the commit depends on and the commit
        gg = self.gg
        loads = [e for e in self.selfev if e.kind == "load" and self.held(e)]
        reg = set()
        for e in c.evs:
            reg |= self.regions(e)
        for l in loads:
            r = gg.reach(gg.after(l.id))
            for rel in gg.evs.values():
                if rel.id[0] in r and self.is_release(rel):
                    r2 = gg.reach(gg.after(rel.id), stop=(l.id[0],))
                    for e in c.evs:
                        if e.id[0] in r2 and l.id[0] not in gg.reach([e.id[0]]) and any(x in reg for x in self.regions(l)):
                            # could the store follow the release without a fresh read?
                            fresh = [k for k in loads if k.id[0] in r2]
                            if not gg._before(gg.after(rel.id), e.id, lambda f: f in fresh):
                                self.bad("lock" if rel.kind == "store" else "irq", "the region is left between reading and writing the object", rel)
        self.ok("lock" if any("lock" in self.held(e) for e in c.evs) else "irq")

    def is_release(self, e):
        if e.kind == "irq":
            return e.op == "restore"
        if e.kind == "ext":
            return e.op.endswith(REL_EXT)
        if e.kind == "store" and root_of(e.addr).op == "static":
            return any(x[0] == "lock" and x[2] is e.addr for h, p in self.at.get(e.id, ()) for x in h)
        return False

    def ret_rmw(self, n, v, cs, real, noop, facts):
        P, nm, info = self.P, self.name, self.info
        nd = self.g.nodes[n]
        if not self.one(n, real, noop, nm):
            return
        gg = self.gg
        cand = real if real else noop
        if not cand:
            c = self.kept(n, v, facts)
            if c is None:
                self.bad(P, "%s returns without performing the read-modify-write" % nm, None, nd)
                return
            cand = [c]
        c = cand[-1]
        f = self.f
        a = None
        for i in range(1, f["argc"]):
            if i not in self.ords:
                a = self.arg(i)
        eqv = self.same(facts)
        lexf = [(t, x) for t, x in list(facts) + [y for e in c.evs for y in self.g.nodes[e.id[0]].env["$f"]] if tm.is_bool(t)]
        esz = self.esz() if "ptr_" in nm else None
        opn = nm

        def rel_new(N, O):
            if info.kind == "float" and nm in ("fetch_max", "fetch_min"):
                return float_same(nm, N, O, a)
            s = spec_new(info, opn, O, a, esz)
            if eqv(N, s):
                return True
            if nm in ("fetch_max", "fetch_min"):
                O1, a1 = self.norm(O), self.norm(a)
                def chosen(x, y):
                    kp = lambda fs: keeps(nm, info.kind == "int", x, y, fs)
                    src = tm.evnodes(O1)
                    return kp(lexf) or bool(src) and bool(c.evs) and all(gg.guarded(e.id[0], lambda l: isinstance(l[0], T) and kp((l[:2],)), list(src)) for e in c.evs)
                if eqv(N, O) and chosen(O1, a1) or eqv(N, a) and chosen(a1, O1):
                    return True
            if info.kind == "float" and nm == "fetch_sub" and N.op == "fop" and N.a[0] == "Add":
                # x - y and x + (-y) are the same operation
                y = N.a[2] if eqv(N.a[1], O) else N.a[1]
                sg = ci(1 << (8 * info.size - 1), info.size)
                return {eqv(N.a[1], O), eqv(N.a[2], O)} != {False} and ((y.op == "fop" and y.a[0] == "Neg" and eqv(y.a[1], a)) or eqv(y, tm.bxor(a, sg, info.size)))
            s2 = self.norm(spec_new(info, opn, self.norm(O), self.norm(a) if a is not None else None, esz))
            if eqv(self.norm(N), s2):
                return True
            if nm in ("fetch_max", "fetch_min") and info.size > self.D.ptr:
                return lex_minmax(nm == "fetch_max", info.kind == "int", self.norm(N), self.norm(O), self.norm(a), info.size, lexf)
            return False

        if nm in RMW_RET:
            val = self.retscalar(v, self.rty)
            if c.kind in ("rmw", "cas"):
                good = self.gg.prove(lambda N, O, V: rel_new(N, O) and eqv(V, O), (c.n, c.o, val))
                if not good and info.kind == "bool":
                    fs = [(t, x) for t, x in facts if tm.is_bool(t)]
                    good = self.gg.prove(lambda N, O, V: self.bool_rel(nm, N, O, V, a, fs), (c.n, c.o, val))
            elif nm == "swap" and c.kind == "store":
                good = False
            else:
                good = self.gg.prove(lambda N, V: rel_new(N, V) and self.region_obs(n, c, V), (c.n, val))
                if not good:
                    # the value computed from may have been compared with the value read instead
                    def releq(eqs, N, V):
                        if not self.region_obs(n, c, V):
                            return False
                        v = self.norm(V)
                        if nm in ("fetch_max", "fetch_min"):
                            fs = [(p, q.a[0]) for p, q in eqs if p.op in ("ult", "slt") and tm.isc(q)]
                            a1 = self.norm(a)
                            if eqv(N, V) and keeps(nm, info.kind == "int", v, a1, fs) or eqv(N, a) and keeps(nm, info.kind == "int", a1, v, fs):
                                return True
                        return rel_new(N, V) or any(rel_new(N, y) for p, q in eqs for x, y in ((p, q), (q, p)) if self.norm(x) is v)
                    good = self.gg.prove(releq, (c.n, val), eqs=())
        elif nm in RMW_BIT:
            m = tm.shl(ci(1, info.size), a, info.size)
            val = self.retscalar(v, self.rty)

            def relv(O, V):
                # the bit is set: the masked value is not zero, or is the mask; or the bit shifted down is
                for o in (O, self.norm(O)):
                    b = tm.band(o, m, info.size)
                    d = tm.band(tm.shr(o, a, info.size, False), ci(1, info.size), info.size)
                    for w in (tm.lnot(tm.eq(b, ci(0, info.size))), tm.eq(b, m), tm.lnot(tm.eq(d, ci(0, info.size))), tm.eq(d, ci(1, info.size))):
                        if V is w or self.norm(V) is self.norm(w) or self.norm(V) is w:
                            return True
                return False

            def relb(N, O, V, O2=None):
                if O2 is not None:
                    return rel_new(N, O2) and relv(O, V)
                return rel_new(N, O) and relv(O, V)

            if c.kind in ("rmw", "cas"):
                good = self.gg.prove(relb, (c.n, c.o, val))
            else:
                good = self.gg.prove(lambda N, V: any(relb(N, O, V) and self.region_obs(n, c, O) for O in self.obs_in((N, V))), (c.n, val))
                if not good:
                    good = self.gg.prove(lambda eqs, N, V: any(relb(N, O, V) and self.region_obs(n, c, O) for O in self.obs_in((N, V)))
                                         or any(relb(N, y, V, x) and self.region_obs(n, c, y) for p, q in eqs for x, y in ((p, q), (q, p))), (c.n, val), eqs=())
        else:
            val = None
            if c.kind in ("rmw", "cas"):
                good = self.gg.prove(rel_new, (c.n, c.o))
                if not good and info.kind == "bool":
                    fs = [(t, x) for t, x in facts if tm.is_bool(t)]
                    good = self.gg.prove(lambda N, O: self.bool_rel(nm, N, O, None, a, fs), (c.n, c.o))
            else:
                good = self.gg.prove(lambda N: any(rel_new(N, O) and self.region_obs(n, c, O) for O in self.obs_in((N,))), (c.n,))
                if not good:
                    good = self.gg.prove(lambda N: any(rel_new(N, O) and self.region_obs(n, c, O) for O in self.obs_in((N,))) or self.compared_obs(n, c, N, rel_new), (c.n,))
                if not good:
                    good = self.gg.prove(lambda eqs, N: any(rel_new(N, x) and self.region_obs(n, c, y) for p, q in eqs for x, y in ((p, q), (q, p))), (c.n,), eqs=())
        if not good:
            self.bad(P, "%s: wrong result: leaves %s%s" % (nm, tm.show(c.n)[:120], "" if val is None else ", returns " + tm.show(val)[:80]), c.evs[0])
        if c.kind == "cas" and self.info.kind != "bool" and False:
            pass
        for e in c.evs:
            self.check_order_event(e, n, self.ords[0], nm, "rmw", c.label)
        if c.kind == "region":
            self.check_region(n, c)

    def kept(self, n, v, facts):
        """a region that reads the object and, because the operation leaves this value as it is, writes nothing: the commit it stands for"""
        if self.name in RMW_RET:
            cands = [self.retscalar(v, self.rty)]
        else:
            cands = self.obs_in(tuple(t for t, _ in facts) + ((v,) if isinstance(v, T) else ()))
        for O in cands:
            src = self.sources(O, facts) if O is not None else None
            if src and all(self.held(e) for e in src):
                c = Commit()
                c.kind, c.o, c.n, c.evs, c.noop, c.label = "region", None, O, list(src), True, None
                return c
        return None

    def bool_rel(self, nm, N, O, V, a, fs):
        base = {"fetch_and": lambda o: tm.band(o, a, 1), "and": lambda o: tm.band(o, a, 1), "fetch_or": lambda o: tm.bor(o, a, 1), "or": lambda o: tm.bor(o, a, 1),
                "fetch_xor": lambda o: tm.bxor(o, a, 1), "xor": lambda o: tm.bxor(o, a, 1), "fetch_nand": lambda o: tm.lnot(tm.band(o, a, 1)),
                "fetch_not": lambda o: tm.lnot(o), "not": lambda o: tm.lnot(o), "swap": lambda o: a}.get(nm)
        if base is None:
            return False
        ob = O
        ps = [(N, base(ob))]
        if V is not None:
            ps.append((V, O))
        return bool_equal(ps, fs)

    def obs_in(self, ts):
        """whole-object observations occurring in terms"""
        out = []
        evs = set()
        for t in ts:
            evs |= tm.evterms(t)
        part = {}
        for x in evs:
            e = self.gg.ev(x)
            if e is not None and self.on_self(e) and e.kind in ("load", "cas", "rmw") and e.old is x:
                if self.full(e):
                    out.append(x)
                else:
                    part[self.offset(e.addr)] = (e.size, x)
        off = 0
        xs = []
        while off in part:
            xs.append(part[off][1])
            off += part[off][0]
        if off == self.info.size and xs:
            out.append(tm.cat(xs))
        return out

    # ------------------------------------------------------------ fetch_update
    def ret_update(self, n, v, real, noop, facts):
        P = self.P
        nd = self.g.nodes[n]
        if v.op != "agg":
            self.bad(P, "result variant is not determined", None, nd)
            return
        pty = [i for i in range(len(self.an.tys)) if False]
        payt = self.an.tys[self.rty]["v"][v.a[1]]["f"][0]
        pay = self.retscalar(v.a[2][0], payt)
        eqv = self.same(facts)
        cbs = [e for e in self.gg.evs.values() if e.kind == "callback"]
        if not cbs:
            self.bad(P, "the closure is never called", None, nd)
            return

        def cbarg(e):
            x = e.args[-1] if e.args else UNDEF
            if x.op == "agg" and len(x.a[2]) == 1:
                x = x.a[2][0]
            return scalar(self.an, x, payt)

        setp, fetchp = self.ords[0], self.ords[1]
        if v.a[1] == 0:
            if len(real) + len(noop) != 1:
                self.bad(P, "fetch_update succeeds after %d modifications" % len(real), None, nd)
                return
            c = (real + noop)[0]

            def good(N, O, V):
                for e in cbs:
                    r = e.res
                    x = self.norm(N)
                    want = self.cbpay(e, payt)
                    if want is not None and eqv(N, want) and eqv(O, cbarg(e)) and eqv(V, O):
                        return True
                return False

            if c.kind != "cas" or not self.gg.prove(good, (c.n, c.o, pay)):
                self.bad(P, "fetch_update does not install the closure's result for the value it was given: new=%s exp=%s returns %s" % (tm.show(c.n)[:60], tm.show(c.o)[:60], tm.show(pay)[:60]), c.evs[0])
            for e in c.evs:
                self.check_order_event(e, n, setp, "fetch_update (set)", "rmw", c.label)
        else:
            if real:
                self.bad(P, "fetch_update reports failure but modified the object", real[0].evs[0])
            lp = lambda l: isinstance(l[0], T) and l[0].op == "discr" and any(l[0].a[0] is e.res for e in cbs) and l[1] == 0
            if not self.gg.guarded(n, lp):
                self.bad(P, "fetch_update fails although the closure did not return None", None, nd)
            if not self.gg.prove(lambda V: any(eqv(V, cbarg(e)) for e in cbs), (pay,)):
                self.bad(P, "failed fetch_update returns a value the closure was not given", None, nd)
        for e in cbs:
            src = self.sources(cbarg(e), ())
            if src is None:
                self.bad(P, "the closure is given something other than an observed value: " + tm.show(cbarg(e))[:80], e)
                continue
            for s in src:
                lab = ("cas", s.id, 0) if s.kind == "cas" else None
                self.check_order_event(s, n, fetchp, "fetch_update (fetch)", "load", lab)

    def cbpay(self, e, payt):
        v = e.res
        t = self.an.tys[self.D.fns[self.root["fn"]]["locals"][0]]
        # payload of Some(..) of the closure's result
        r = v
        if r.op == "agg":
            return None
        for x in self.gg.evs.values():
            pass
        def leaf(p, tt):
            nm = (1, 0) + p
            if tt["k"] == "bool":
                return mk("fld", r, nm, "bool", 1)
            return mk("fld", r, nm, tt["k"], tt.get("size") or 0)
        return scalar(self.an, self.an.opaque_val(payt, leaf), payt)

    # ------------------------------------------------------------ panics (C04/C19)
    def check_panics(self):
        """which orderings lead to a panic, and that nothing was touched before it"""
        nm = self.name
        if not self.ords:
            badsets = {}
        elif nm == "load":
            badsets = {self.ords[0]: {"Release", "AcqRel"}}
        elif nm == "store":
            badsets = {self.ords[0]: {"Acquire", "AcqRel"}}
        elif nm in CASES:
            badsets = {self.ords[1]: {"Release", "AcqRel"}}
        elif nm == "fetch_update":
            badsets = {self.ords[1]: {"Release", "AcqRel"}}
        else:
            badsets = {}
        for n, k, v in self.gg.exits:
            nd = self.g.nodes[n]
            if k == "return":
                for p, b in badsets.items():
                    s = self.ordset(n, p) & b
                    if s:
                        self.bad("reject", "%s returns normally although the ordering argument is %s" % (nm, "/".join(sorted(s))), None, nd)
                    else:
                        self.ok("reject")
                continue
            if k in ("unwind", "abort"):
                if self.only_bad(n, badsets):
                    self.ok("reject")
                    h = [e for e in nd.env["$h"] if e in self.gg.evs and self.on_self(self.gg.evs[e])]
                    if h:
                        self.bad("reject", "%s modifies the object before rejecting the ordering" % nm, self.gg.evs[h[0]])
                    continue
                cb = [e for e in nd.events if e.kind == "callback"] or k == "unwind" and self.from_callback(n)
                if cb:
                    self.ok("nopanic")
                    continue
                if self.psram_panic(n):
                    continue
                self.bad("nopanic", "%s may %s with valid arguments" % (nm, "panic" if k == "unwind" else "abort"), self.panic_ev(n), nd)
        # the object is untouched before a rejection
        for e in self.gg.evs.values():
            if e.kind == "panic":
                self.ok("nopanic")
        # rejection happens before the object is accessed
        for e in self.selfev:
            for p, b in badsets.items():
                s = self.ordset(e.id[0], p)
                if s and s <= b:
                    self.bad("reject", "%s accesses the object although the ordering argument is %s" % (nm, "/".join(sorted(s))), e)
                elif s & b and not isinstance(e.ord, tuple) and e.impl == "core" and nm != "fetch_update":
                    self.ok("reject")

    def panic_ev(self, n):
        ps = [e for e in self.g.nodes[n].events if e.kind == "panic"]
        if ps:
            return ps[0]
        # walk back to a panic event
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for p, l in self.gg.pred.get(x, ()):
                es = [e for e in self.g.nodes[p].events if e.kind in ("panic", "abort", "ext")]
                if l == "unwind" and es:
                    return es[-1]
                st.append(p)
        return None

    def from_callback(self, n):
        seen = set()
        st = [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == self.g.entry or any(e.kind in ("panic", "abort", "ext") for e in self.g.nodes[x].events):
                # the panic begins here, not in the callback
                return False
            for p, l in self.gg.pred.get(x, ()):
                if l == "unwind":
                    if not any(e.kind == "callback" for e in self.g.nodes[p].events):
                        return False
                else:
                    st.append(p)
        return True

    def only_bad(self, n, badsets):
        """reached only with an invalid ordering"""
        for p, b in badsets.items():
            s = self.ordset(n, p)
            if s and s <= b:
                return True
        # a core primitive called with the invalid ordering panics at the event's node: facts are on the edge
        nd = self.g.nodes[n]
        pan = [e for e in nd.events if e.kind == "panic" and e.op in ("load-order", "store-order", "cas-order")]
        if pan:
            o = pan[0].args[0]
            for p, b in badsets.items():
                if o is self.args[p]:
                    return True
        return False

    # ------------------------------------------------------------ implementation class (C09)
    def cls(self, n, cs, facts):
        rt = tuple(sorted(((tm.show(t), v) for t, v in facts if tm.contains(t, lambda x: x.op in ("rt", "rtfn"))), key=str))
        k = set()
        for c in cs:
            for e in c.evs:
                h = self.held(e)
                k.add("+".join(sorted(h)) if h else "native")
        if not cs:
            k.add("read")
        self.classes.append((rt, tuple(sorted(k))))
