"""z/Architecture assembly."""
import re
from . import terms as tm
from .terms import mk, ci, TRUE, FALSE, T
from .engine import Unsupported
from .isa import Isa, split_ops, num, junk

CC = {"h": ">", "l": "<", "e": "=", "nh": "!>", "nl": "!<", "ne": "!=", "he": "!<", "le": "!>"}


class S390(Isa):
    COMMENT = r"(//|#).*$"

    def canon(self, r):
        return r.lstrip("%")

    def reg(self, tok):
        tok = tok.strip()
        r = self.regname(tok)
        if r is None or not (r.startswith("op") or re.match(r"^r\d+$", r)):
            raise Unsupported("s390x register " + re.sub(r"[\x01\x02]", "%", tok))
        return r

    def rd(self, tok):
        return self.get(self.reg(tok), 8)

    def wr(self, tok, v):
        self.set(self.reg(tok), v)

    def mem(self, tok):
        m = re.match(r"^(-?\d+)\((.*)\)$", tok.strip())
        if not m:
            raise Unsupported("s390x address " + tok)
        r = self.reg(m.group(2))
        # register 0 in an address means no base; an `addr` class operand is never register 0
        self.nonzero(r)
        return self.padd(self.get(r, 8), int(m.group(1)))

    def nonzero(self, r):
        if r == "r0":
            raise Unsupported("r0 as a base register")
        if r.startswith("op") and self.p.ops[int(r[2:])]["r"][1] not in ("reg_addr",) and not self.p.taken("r0"):
            self.clob("register 0 used as a base address")

    def clob(self, what):
        from .engine import Ev
        self.an.event(Ev("clobber", op=what, where=self.where))

    def pair(self, tok):
        r = self.reg(tok)
        m = re.match(r"^r(\d+)$", r)
        if not m or int(m.group(1)) % 2:
            raise Unsupported("register pair " + tok)
        return r, "r%d" % (int(m.group(1)) + 1)

    def rdpair(self, p):
        return self.join(self.get(p[1], 8), self.get(p[0], 8))

    def wrpair(self, p, v):
        lo, hi = (0, 8) if tm.LITTLE[0] else (8, 0)
        self.set(p[1], tm.ext(v, lo, 8))
        self.set(p[0], tm.ext(v, hi, 8))

    def cc(self, *k):
        self.flagsmod()
        self.an.E.pop((self.fr, "s:ccv"), None)
        self.setE("s:cc", mk("cc", *k))

    def ccval(self, v):
        """the condition code is known: one of 0..3"""
        self.flagsmod()
        self.an.E.pop((self.fr, "s:cc"), None)
        self.setE("s:ccv", ci(v, 1))

    def cmp(self, rel, x, y, signed):
        lt = tm.slt if signed else tm.ult
        n = rel[0] == "!"
        k = rel[-1]
        r = {">": lambda: lt(y, x), "<": lambda: lt(x, y), "=": lambda: tm.eq(x, y)}[k]()
        return tm.lnot(r) if n else r

    def cond(self, c):
        rel = CC[c]
        v = self.E("s:ccv")
        if v is not None and tm.isc(v):
            t = v.a[0] == {">": 2, "<": 1, "=": 0}[rel[-1]]
            return TRUE if t != (rel[0] == "!") else FALSE
        f = self.E("s:cc")
        if f is None or f.op != "cc":
            raise Unsupported("condition code read before being set")
        if f.a[0] == "cmp":
            return self.cmp(rel, f.a[1], f.a[2], bool(f.a[3]))
        raise Unsupported("condition %s after %s" % (c, f.a[0]))

    def exec(self, ins):
        an = self.an
        mn, _, rest = ins.strip().partition(" ")
        a = split_ops(rest)
        if mn.startswith("."):
            t = self.directive(ins)
            return None if t is None else self.exec(t)
        if mn in ("nop", "nopr"):
            return None
        if mn == "bcr":
            if num(a[0]) in (14, 15) and a[1].strip() in ("0", "%r0"):
                self.fence("bcr %d,0" % num(a[0]), mn, True, True, True, feat="fast-serialization" if num(a[0]) == 14 else None)
                return None
            raise Unsupported("s390x " + ins)
        if mn == "lg":
            self.wr(a[0], self.load(self.mem(a[1]), 8, mn, acq=True))
            return None
        if mn == "stg":
            self.store(self.mem(a[1]), 8, self.rd(a[0]), mn, rel=True)
            return None
        if mn == "lpq":
            self.wrpair(self.pair(a[0]), self.load(self.mem(a[1]), 16, mn, acq=True))
            return None
        if mn == "stpq":
            self.store(self.mem(a[1]), 16, self.rdpair(self.pair(a[0])), mn, rel=True)
            return None
        if mn in ("cdsg", "csg"):
            if mn == "cdsg":
                d, s = self.pair(a[0]), self.pair(a[1])
                exp, new, z = self.rdpair(d), self.rdpair(s), 16
            else:
                exp, new, z = self.rd(a[0]), self.rd(a[1]), 8
            ev, ok, bad = self.cas(self.mem(a[2]), z, exp, new, mn, True, True, True)
            an.E = bad
            if z == 16:
                self.wrpair(d, ev.old)
            else:
                self.wr(a[0], ev.old)
            self.ccval(1)
            bad = an.E
            an.E = ok
            self.ccval(0)
            return [(an.E, self.pc + 1, ("cas", ev.id, 1)), (bad, self.pc + 1, ("cas", ev.id, 0))]
        if mn == "ipm":
            v = self.E("s:ccv")
            d = self.reg(a[0])
            if v is None or not tm.isc(v):
                raise Unsupported("ipm of an unknown condition code")
            # bits 2-3 of the byte are the condition code, bits 4-7 the program mask; the rest of the register is unchanged
            old = self.getraw(d)
            old = old if tm.size(old) == 8 else mk("junk", "ipm", self.fr, self.pc, 8)
            self.set(d, tm.bor(tm.band(old, ci(~0xF0000000, 8), 8), ci(v.a[0] << 28, 8), 8))
            return None
        if mn in ("lgr", "lghi", "lgfi"):
            self.wr(a[0], self.rd(a[1]) if mn == "lgr" else ci(num(a[1]), 8))
            return None
        if mn == "lcgr":
            x = self.rd(a[1])
            self.wr(a[0], tm.neg(x, 8))
            self.cc("arith")
            return None
        if mn in ("aghi", "aghik"):
            x = self.rd(a[0] if mn == "aghi" else a[1])
            self.wr(a[0], tm.add(x, ci(num(a[-1]), 8), 8))
            self.cc("arith")
            return None
        m = re.match(r"^(n|o|x|nn|no|nx|nc|oc)gr(k?)$", mn)
        if m and not (len(m.group(1)) == 2 and not m.group(2)):
            x, y = (self.rd(a[1]), self.rd(a[2])) if m.group(2) else (self.rd(a[0]), self.rd(a[1]))
            b = m.group(1)
            v = {"n": lambda: tm.band(x, y, 8), "o": lambda: tm.bor(x, y, 8), "x": lambda: tm.bxor(x, y, 8), "nn": lambda: tm.bnot(tm.band(x, y, 8), 8), "no": lambda: tm.bnot(tm.bor(x, y, 8), 8),
                 "nx": lambda: tm.bnot(tm.bxor(x, y, 8), 8), "nc": lambda: tm.band(x, tm.bnot(y, 8), 8), "oc": lambda: tm.bor(x, tm.bnot(y, 8), 8)}[b]()
            self.wr(a[0], v)
            self.cc("arith")
            return None
        m = re.match(r"^(a|s)l?gr(k?)$", mn)
        if m:
            x, y = (self.rd(a[1]), self.rd(a[2])) if m.group(2) else (self.rd(a[0]), self.rd(a[1]))
            self.wr(a[0], tm.add(x, y, 8) if m.group(1) == "a" else tm.sub(x, y, 8))
            if "l" in mn:
                self.cc("carry", mk("carry", x, y)) if m.group(1) == "a" else self.cc("borrow", tm.ult(x, y))
            else:
                self.cc("arith")
            return None
        if mn in ("alcgr", "slbgr"):
            f = self.E("s:cc")
            want = "carry" if mn == "alcgr" else "borrow"
            if f is None or f.op != "cc" or f.a[0] != want:
                raise Unsupported("%s without a %s" % (mn, want))
            x, y = self.rd(a[0]), self.rd(a[1])
            self.wr(a[0], tm.adc(x, y, f.a[1], 8) if mn == "alcgr" else tm.sbb(x, y, f.a[1], 8))
            self.cc("arith")
            return None
        if mn in ("cgr", "clgr"):
            self.cc("cmp", self.rd(a[0]), self.rd(a[1]), 1 if mn == "cgr" else 0)
            return None
        m = re.match(r"^(locgr|selgr)(h|l|e|nh|nl|ne|he|le)$", mn)
        if m:
            c = self.cond(m.group(2))
            t, f = (self.rd(a[1]), self.rd(a[0])) if m.group(1) == "locgr" else (self.rd(a[1]), self.rd(a[2]))
            self.wr(a[0], tm.select(c, t, f))
            return None
        m = re.match(r"^c(l?)grj(h|l|e|nh|nl|ne|he|le)$", mn)
        if m:
            return self.branch(self.cmp(CC[m.group(2)], self.rd(a[0]), self.rd(a[1]), not m.group(1)), self.p.target(self.pc, a[2].strip()))
        if mn == "j":
            return [(an.E, self.p.target(self.pc, a[0].strip()), None)]
        m = re.match(r"^j(h|l|e|nh|nl|ne|he|le)$", mn)
        if m:
            return self.branch(self.cond(m.group(1)), self.p.target(self.pc, a[0].strip()))
        raise Unsupported("s390x instruction " + re.sub(r"[\x01\x02]", "%", ins))


def get(D):
    return S390(D)
