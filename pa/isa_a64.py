"""AArch64 / Arm64EC assembly."""
import re
from . import terms as tm
from .terms import mk, ci, TRUE, FALSE, T
from .engine import Ev, Unsupported
from .isa import Isa, split_ops, num, junk

SIZES = {"w": 4, "x": 8, "b": 1, "h": 2, "s": 4, "d": 8, "q": 16}


eqpair = tm.eqpair


class LLSC(Isa):
    """load-linked / store-conditional pairs as confirmed compare-and-exchange"""

    def ll(self, addr, sz, impl, acq, feat=None, single=False):
        v = self.load(addr, sz, impl, acq=acq, ll=not single, feat=feat, atomic=True)
        self.setE("s:res", mk("resv", addr, v, 1 if acq else 0))
        return v

    def sc(self, addr, sz, new, impl, rel, sc=None, feat=None):
        """environments after success and after failure"""
        r = self.E("s:res")
        if r is None or r.op != "resv":
            raise Unsupported("store-conditional without a reservation")
        if r.a[0] is not addr or tm.size(r.a[1]) != sz:
            raise Unsupported("store-conditional to another location than the reservation")
        self.an.E.pop((self.fr, "s:res"), None)
        acq = bool(r.a[2])
        ev, ok, bad = self.cas(addr, sz, r.a[1], new, impl, acq, rel, (acq and rel) if sc is None else sc, weak=True, feat=feat)
        return ev, ok, bad


class A64(LLSC):
    ZEROS = ("xzr",)
    COMMENT = r"(//).*$"
    CC = {"eq": "e", "ne": "!e", "lo": "b", "cc": "b", "hs": "!b", "cs": "!b", "lt": "l", "ge": "!l", "hi": "a", "ls": "!a", "gt": "g", "le": "!g", "mi": "s", "pl": "!s"}

    def canon(self, r):
        m = re.match(r"^[wx](\d+|zr)$", r)
        if m:
            return "x" + m.group(1)
        m = re.match(r"^[bhsdqv](\d+)$", r)
        if m:
            return "v" + m.group(1)
        return r

    def opd(self, tok):
        tok = tok.strip()
        if tok.startswith("\x01"):
            m = re.match(r"^\x01(\d+)(?::(\w+))?\x02$", tok)
            i = int(m.group(1))
            o = self.p.ops[i]
            if o["k"] == "const":
                return ("i", int(o["v"]["v"]))
            return ("r", self.p.byname[i], SIZES.get(m.group(2), 8))
        if re.match(r"^#?-?(0x[0-9a-fA-F]+|\d+)$", tok):
            return ("i", num(tok))
        m = re.match(r"^([wxbhsdq])(\d+|zr)$", tok)
        if m:
            return ("r", self.canon(tok), SIZES[m.group(1)])
        raise Unsupported("aarch64 operand " + re.sub(r"[\x01\x02]", "%", tok))

    def mem(self, tok):
        m = re.match(r"^\[(.*)\]$", tok.strip())
        if not m:
            raise Unsupported("aarch64 address " + tok)
        ps = split_ops(m.group(1))
        r = self.regname(ps[0])
        off = num(ps[1]) if len(ps) > 1 else 0
        base = self.getraw(r) if r in self.ZEROS else self.get(r, self.W)
        return self.padd(base, off)

    def rd(self, o, sz=None):
        sz = sz or (o[2] if o[0] == "r" else 8)
        if o[0] == "i":
            return ci(o[1], sz)
        if o[1] in self.ZEROS:
            return ci(0, sz)
        return self.get(o[1], sz)

    def wr(self, o, v):
        if o[2] < 8 and o[1][0] != "v" and not self.isv(o[1]):
            v = tm.zext(v, 8)
        self.set(o[1], v)

    def isv(self, r):
        if r.startswith("op"):
            o = self.p.ops[int(r[2:])]
            return o["r"][1].startswith(("vreg", "freg"))
        return r[0] == "v"

    def flags(self, *f):
        self.flagsmod()
        self.setE("s:fl", mk("fl", *f))

    def cond(self, cc):
        c = self.CC.get(cc)
        if c is None:
            raise Unsupported("condition " + cc)
        n = c[0] == "!"
        c = c.lstrip("!")
        f = self.E("s:fl")
        if f is None or f.op != "fl":
            raise Unsupported("flags read before being set")
        k = f.a[0]
        r = None
        if k == "sub":
            _, x, y, sz, zx, zy = f.a
            r = {"e": lambda: tm.eq(zx, zy), "b": lambda: tm.ult(x, y), "l": lambda: tm.slt(x, y), "a": lambda: tm.ult(y, x) if zx is x else None,
                 "g": lambda: tm.slt(y, x) if zx is x else None, "s": lambda: tm.slt(tm.sub(x, y, sz), ci(0, sz))}[c]()
        elif k == "z" and c == "e":
            r = f.a[1]
        elif k == "res":
            _, v, sz, cf = f.a
            r = {"e": lambda: tm.eq(v, ci(0, sz)), "b": lambda: tm.lnot(cf) if isinstance(cf, T) else None, "s": lambda: tm.slt(v, ci(0, sz))}.get(c, lambda: None)()
        if r is None:
            raise Unsupported("condition %s after %s" % (cc, k))
        return tm.lnot(r) if n else r

    def arith(self, mn, d, x, y, z):
        """add/sub families; returns the result"""
        setf = mn.endswith("s") and mn not in ("bics",)
        b = mn[:-1] if setf and mn not in ("subs", "adds", "negs", "adcs", "sbcs") else mn.rstrip("s") if setf else mn
        if b == "add":
            v = tm.add(x, y, z)
            if setf:
                self.flags("res", v, z, mk("carry", x, y))
        elif b == "sub":
            v = tm.sub(x, y, z)
            if setf:
                self.flags("sub", x, y, z, x, y)
        elif b == "adc":
            f = self.E("s:fl")
            if f is None or f.op != "fl" or f.a[0] != "res" or not isinstance(f.a[3], T):
                raise Unsupported("add with carry without a carry")
            v = tm.adc(x, y, f.a[3], z)
            if setf:
                self.flags("res", v, z, 0)
        elif b == "sbc":
            br = self.cond("lo")
            v = tm.sbb(x, y, br, z)
            if setf:
                pq = tm.borrow_parts(br)
                if pq is None or not tm.size(pq[0]) or not tm.size(pq[1]):
                    self.flags("res", v, z, 0)
                else:
                    self.flags("sub", self.join(pq[0], x), self.join(pq[1], y), tm.size(pq[0]) + z, v, ci(0, z))
        else:
            raise Unsupported("arith " + mn)
        return v

    def decode(self, w):
        """the instructions written as raw words because old assemblers do not know them"""
        b = lambda hi, lo: w >> lo & (1 << hi - lo + 1) - 1
        al = ("a" if b(23, 23) else "") + ("l" if b(22, 22) else "")
        rn = "x%d" % b(9, 5)
        if b(9, 5) == 31:
            return None
        x = lambda n: "xzr" if n == 31 else "x%d" % n
        if b(31, 24) == 0x19 and b(21, 21) == 1 and b(11, 10) == 0:
            k = {(1, 0): "swpp", (0, 1): "ldclrp", (0, 3): "ldsetp"}.get((b(15, 15), b(14, 12)))
            return k and "%s%s %s, %s, [%s]" % (k, al, x(b(4, 0)), x(b(20, 16)), rn)
        if b(31, 23) == 0b110110010 and b(21, 21) == 0 and b(15, 10) == 0b000110:
            return "%s %s, %s, [%s]" % ("ldiapp" if b(22, 22) else "stilp", x(b(4, 0)), x(b(20, 16)), rn)
        if b(29, 24) == 0b111100 and b(21, 21) == 1 and b(11, 10) == 0 and b(15, 15) == 0:
            k = {0: "ldfadd", 6: "ldfmaxnm", 7: "ldfminnm"}.get(b(14, 12))
            s = {1: "h", 2: "s", 3: "d"}.get(b(31, 30))
            return k and s and "%s%s %s%d, %s%d, [%s]" % (k, al, s, b(20, 16), s, b(4, 0), rn)
        return None

    def exec(self, ins):
        an = self.an
        mn, _, rest = ins.strip().partition(" ")
        a = split_ops(rest)
        if mn.startswith("."):
            t = self.directive(ins)
            return None if t is None else self.exec(t)
        if mn in ("nop", "yield", "hint"):
            return None
        if mn in ("dmb", "dsb"):
            k = a[0].strip().lower()
            if k in ("ish", "sy", "osh"):
                self.fence("%s %s" % (mn, k), mn, True, True, True)
            elif k in ("ishld", "ld"):
                self.fence("%s %s" % (mn, k), mn, True, False, False)
            elif k in ("ishst", "st"):
                self.fence("%s %s" % (mn, k), mn, False, False, False)
            else:
                raise Unsupported("barrier " + ins)
            return None
        if mn == "mrs":
            d = self.opd(a[0])
            self.set(d[1], mk("fop", "mrs:" + a[1].strip().lower(), ci(0, 8), ci(0, 8), 8))
            return None
        if mn == "mov":
            d, s = self.opd(a[0]), self.opd(a[1])
            self.wr(d, self.rd(s, d[2]))
            return None
        if mn == "mvn":
            d, s = self.opd(a[0]), self.opd(a[1])
            self.wr(d, tm.bnot(self.rd(s, d[2]), d[2]))
            return None
        if mn in ("and", "orr", "eor", "bic", "orn", "ands", "eon"):
            d, x, y = [self.opd(t) for t in a]
            z = d[2]
            x, y = self.rd(x, z), self.rd(y, z)
            if mn in ("bic", "orn", "eon"):
                y = tm.bnot(y, z)
            v = {"and": tm.band, "ands": tm.band, "bic": tm.band, "orr": tm.bor, "orn": tm.bor, "eor": tm.bxor, "eon": tm.bxor}[mn](x, y, z)
            self.wr(d, v)
            if mn == "ands":
                self.flags("res", v, z, FALSE)
            return None
        if mn in ("add", "adds", "sub", "subs", "adc", "adcs", "sbc", "sbcs"):
            d, x, y = [self.opd(t) for t in a]
            z = d[2] if d[1] not in self.ZEROS else x[2]
            self.wr(d, self.arith(mn, d, self.rd(x, z), self.rd(y, z), z))
            return None
        if mn in ("neg", "negs", "ngc", "ngcs"):
            d, x = [self.opd(t) for t in a]
            b = {"neg": "sub", "negs": "subs", "ngc": "sbc", "ngcs": "sbcs"}[mn]
            self.wr(d, self.arith(b, d, ci(0, d[2]), self.rd(x, d[2]), d[2]))
            return None
        if mn == "cmp":
            x, y = [self.opd(t) for t in a]
            self.arith("subs", None, self.rd(x), self.rd(y, x[2]), x[2])
            return None
        if mn == "cmn":
            x, y = [self.opd(t) for t in a]
            self.arith("adds", None, self.rd(x), self.rd(y, x[2]), x[2])
            return None
        if mn == "tst":
            x, y = [self.opd(t) for t in a]
            self.flags("res", tm.band(self.rd(x), self.rd(y, x[2]), x[2]), x[2], FALSE)
            return None
        if mn == "ccmp":
            x, y = self.opd(a[0]), self.opd(a[1])
            imm = num(a[2])
            cc = a[3].strip()
            if self.CC.get(cc) == "e" and not imm & 4:
                # Z set exactly when both comparisons are equal
                f = self.E("s:fl")
                if f is not None and f.op == "fl" and f.a[0] == "sub" and f.a[1] is f.a[4]:
                    r = eqpair(f.a[1], f.a[2], self.rd(x), self.rd(y, x[2]))
                else:
                    r = tm.band(self.cond(cc), tm.eq(self.rd(x), self.rd(y, x[2])), 1)
                self.flags("z", r)
                return None
            if self.CC.get(cc) == "!e" and imm & 4:
                r = tm.bor(self.cond("eq"), tm.eq(self.rd(x), self.rd(y, x[2])), 1)
                self.flags("z", r)
                return None
            raise Unsupported("ccmp " + ins)
        if mn in ("csel", "cset"):
            d = self.opd(a[0])
            c = self.cond(a[-1].strip())
            t, f = (self.rd(self.opd(a[1]), d[2]), self.rd(self.opd(a[2]), d[2])) if mn == "csel" else (ci(1, d[2]), ci(0, d[2]))
            return self.sel(d, c, t, f)
        if mn in ("cbz", "cbnz"):
            x = self.opd(a[0])
            c = tm.eq(self.rd(x), ci(0, x[2]))
            return self.branch(c if mn == "cbz" else tm.lnot(c), self.p.target(self.pc, a[1].strip()))
        m = re.match(r"^b\.?(\w\w)$", mn)
        if m and m.group(1) in self.CC:
            return self.branch(self.cond(m.group(1)), self.p.target(self.pc, a[0]))
        if mn == "b":
            return [(an.E, self.p.target(self.pc, a[0]), None)]
        # ---- memory
        m = re.match(r"^(ldr|ldrb|ldrh|ldar|ldarb|ldarh|ldapr|ldaprb|ldaprh)$", mn)
        if m:
            d = self.opd(a[0])
            z = {"b": 1, "h": 2}.get(mn[-1] if mn not in ("ldr", "ldar", "ldapr") else "", d[2])
            if mn == "ldr" or mn[:3] == "ldr":
                acq = sc = False
            else:
                acq, sc = True, mn.startswith("ldar")
            v = self.load(self.mem(a[1]), z, mn, acq=acq, sc=sc)
            self.wr(d, v if z == d[2] else tm.zext(v, d[2]))
            return None
        m = re.match(r"^(str|strb|strh|stlr|stlrb|stlrh)$", mn)
        if m:
            d = self.opd(a[0])
            z = {"b": 1, "h": 2}.get(mn[-1] if mn not in ("str", "stlr") else "", d[2])
            self.store(self.mem(a[1]), z, self.rd(d, z), mn, rel=mn.startswith("stl"), sc=mn.startswith("stl"))
            return None
        if mn in ("ldp", "ldiapp"):
            d, e = self.opd(a[0]), self.opd(a[1])
            z = d[2]
            if d[1] == e[1]:
                raise Unsupported("load pair into one register")
            v = self.load(self.mem(a[2]), 2 * z, mn, acq=mn == "ldiapp", feat="rcpc3" if mn == "ldiapp" else "lse2", atomic="lse2")
            self.wr(d, tm.ext(v, 0, z))
            self.wr(e, tm.ext(v, z, z))
            return None
        if mn in ("stp", "stilp"):
            d, e = self.opd(a[0]), self.opd(a[1])
            z = d[2]
            self.store(self.mem(a[2]), 2 * z, tm.cat([self.rd(d), self.rd(e)]), mn, rel=mn == "stilp", feat="rcpc3" if mn == "stilp" else "lse2", atomic="lse2")
            return None
        if mn in ("ldxp", "ldaxp"):
            d, e = self.opd(a[0]), self.opd(a[1])
            z = d[2]
            if d[1] == e[1]:
                raise Unsupported("load pair into one register")
            v = self.ll(self.mem(a[2]), 2 * z, mn, mn == "ldaxp")
            self.wr(d, tm.ext(v, 0, z))
            self.wr(e, tm.ext(v, z, z))
            return None
        if mn in ("ldxr", "ldaxr"):
            d = self.opd(a[0])
            self.wr(d, self.ll(self.mem(a[1]), d[2], mn, mn == "ldaxr"))
            return None
        if mn in ("stxp", "stlxp", "stxr", "stlxr"):
            s = self.opd(a[0])
            if mn.endswith("p"):
                d, e = self.opd(a[1]), self.opd(a[2])
                z, v, m = 2 * d[2], tm.cat([self.rd(d), self.rd(e)]), a[3]
                srcs = (d[1], e[1])
            else:
                d = self.opd(a[1])
                z, v, m = d[2], self.rd(d), a[2]
                srcs = (d[1],)
            if s[1] in srcs:
                raise Unsupported("store-exclusive status overlaps its data")
            addr = self.mem(m)
            if mn.endswith("p") and "LITTLE":
                pass
            ev, ok, bad = self.sc(addr, z, v, mn, mn.startswith("stl"))
            out = []
            for e, st in ((ok, 0), (bad, 1)):
                an.E = e
                self.wr(s, ci(st, s[2]))
                out.append((an.E, self.pc + 1, ("cas", ev.id, 1 - st)))
            return out
        m = re.match(r"^casp(a?)(l?)$", mn)
        if m:
            r = [self.opd(t) for t in a[:4]]
            z = r[0][2]
            for i in (0, 2):
                n1, n2 = r[i][1], r[i + 1][1]
                if not (n1[0] == "x" and n2[0] == "x" and n1[1:].isdigit() and int(n1[1:]) % 2 == 0 and int(n2[1:]) == int(n1[1:]) + 1):
                    raise Unsupported("casp register pair")
            exp, new = tm.cat([self.rd(r[0]), self.rd(r[1])]), tm.cat([self.rd(r[2]), self.rd(r[3])])
            acq, rel = bool(m.group(1)), bool(m.group(2))
            ev, ok, bad = self.cas(self.mem(a[4]), 2 * z, exp, new, mn, acq, rel, acq and rel, feat="lse")
            an.E = bad
            self.wr(r[0], tm.ext(ev.old, 0, z))
            self.wr(r[1], tm.ext(ev.old, z, z))
            bad = an.E
            an.E = ok
            self.wr(r[0], self.rd(r[0]))
            self.wr(r[1], self.rd(r[1]))
            return [(an.E, self.pc + 1, ("cas", ev.id, 1)), (bad, self.pc + 1, ("cas", ev.id, 0))]
        m = re.match(r"^cas(a?)(l?)([bh]?)$", mn)
        if m:
            d, s = self.opd(a[0]), self.opd(a[1])
            z = {"b": 1, "h": 2, "": d[2]}[m.group(3)]
            exp, new = self.rd(d, z), self.rd(s, z)
            acq, rel = bool(m.group(1)), bool(m.group(2))
            ev, ok, bad = self.cas(self.mem(a[2]), z, exp, new, mn, acq, rel, acq and rel, feat="lse")
            an.E = bad
            self.wr(d, tm.zext(ev.old, d[2]) if z < d[2] else ev.old)
            bad = an.E
            an.E = ok
            self.wr(d, tm.zext(exp, d[2]) if z < d[2] else exp)
            return [(an.E, self.pc + 1, ("cas", ev.id, 1)), (bad, self.pc + 1, ("cas", ev.id, 0))]
        m = re.match(r"^(swpp|ldclrp|ldsetp)(a?)(l?)$", mn)
        if m:
            d, e = self.opd(a[0]), self.opd(a[1])
            z = d[2]
            n = 2 * z
            y = tm.cat([self.rd(d), self.rd(e)])
            f = {"swpp": lambda o: y, "ldclrp": lambda o: tm.band(o, tm.bnot(y, n), n), "ldsetp": lambda o: tm.bor(o, y, n)}[m.group(1)]
            acq, rel = bool(m.group(2)), bool(m.group(3))
            o = self.rmw(self.mem(a[2]), n, m.group(1), y, f, mn, acq, rel, acq and rel, feat="lse128")
            self.wr(d, tm.ext(o, 0, z))
            self.wr(e, tm.ext(o, z, z))
            return None
        m = re.match(r"^(swp|ldadd|ldclr|ldset|ldeor|ldsmax|ldsmin|ldumax|ldumin)(a?)(l?)([bh]?)$", mn)
        if m:
            s, d = self.opd(a[0]), self.opd(a[1])
            z = {"b": 1, "h": 2, "": s[2]}[m.group(4)]
            y = self.rd(s, z)
            f = {"swp": lambda o: y, "ldadd": lambda o: tm.add(o, y, z), "ldclr": lambda o: tm.band(o, tm.bnot(y, z), z), "ldset": lambda o: tm.bor(o, y, z), "ldeor": lambda o: tm.bxor(o, y, z),
                 "ldsmax": lambda o: tm.minmax("smax", o, y, z), "ldsmin": lambda o: tm.minmax("smin", o, y, z), "ldumax": lambda o: tm.minmax("umax", o, y, z), "ldumin": lambda o: tm.minmax("umin", o, y, z)}[m.group(1)]
            # an atomic whose destination is the zero register loses its acquire part
            acq, rel = bool(m.group(2)) and d[1] not in self.ZEROS, bool(m.group(3))
            o = self.rmw(self.mem(a[2]), z, m.group(1), y, f, mn, acq, rel, acq and rel, feat="lse")
            self.wr(d, tm.zext(o, d[2]) if z < d[2] else o)
            return None
        m = re.match(r"^(ldfadd|ldfmaxnm|ldfminnm)(a?)(l?)$", mn)
        if m:
            s, d = self.opd(a[0]), self.opd(a[1])
            z = s[2]
            if d[2] != z:
                raise Unsupported("mixed float widths")
            y = self.rd(s, z)
            nm = {"ldfadd": "Add", "ldfmaxnm": "maxNum", "ldfminnm": "minNum"}[m.group(1)]
            acq, rel = bool(m.group(2)), bool(m.group(3))
            o = self.rmw(self.mem(a[2]), z, m.group(1), y, lambda o: mk("fop", nm, o, y, z), mn, acq, rel, acq and rel, feat="lsfe")
            self.set(d[1], o)
            return None
        raise Unsupported("aarch64 instruction " + re.sub(r"[\x01\x02]", "%", ins))

    def sel(self, d, c, t, f):
        """conditional select: an equality splits the path, an inequality becomes a minimum or maximum"""
        an = self.an
        base, pos = (c.a[0], True) if c.op == "lnot" else (c, False)
        kn = an.known(base)
        if tm.isc(c) or kn is not None:
            v = bool(c.a[0]) if tm.isc(c) else (bool(kn) != pos)
            self.wr(d, t if v else f)
            return None
        if base.op in ("ult", "slt"):
            self.wr(d, tm.select(c, t, f))
            return None
        out = []
        e0 = an.E
        for val in (1, 0):
            e = an.with_fact(e0, base, val)
            if e is None:
                continue
            an.E = dict(e)
            self.wr(d, t if (bool(val) != pos) else f)
            out.append((an.E, self.pc + 1, (base, val)))
        return out


def get(D):
    return A64(D)
