"""64-bit PowerPC assembly."""
import re
from . import terms as tm
from .terms import mk, ci, TRUE, FALSE, T
from .engine import Ev, Unsupported
from .isa import split_ops, num, junk
from .isa_a64 import LLSC, eqpair


class Ppc(LLSC):
    COMMENT = r"(//|#).*$"

    def canon(self, r):
        return r.lstrip("%")

    def reg(self, tok):
        tok = tok.strip()
        r = self.regname(tok)
        if r is None or not (r.startswith("op") or re.match(r"^r\d+$", r)):
            raise Unsupported("powerpc register " + re.sub(r"[\x01\x02]", "%", tok))
        return r

    def rd(self, tok):
        return self.get(self.reg(tok), 8)

    def wr(self, tok, v):
        self.set(self.reg(tok), v)

    def rd0(self, tok):
        """an RA field in which register 0 stands for the value zero"""
        tok = tok.strip()
        if tok in ("0", "%r0", "r0"):
            return ci(0, 8)
        r = self.reg(tok)
        if r.startswith("op") and self.p.ops[int(r[2:])]["r"][1] != "reg_nonzero" and not self.p.taken("r0"):
            self.an.event(Ev("clobber", op="register 0 where it reads as zero", where=self.where))
        return self.get(r, 8)

    def mem(self, tok):
        m = re.match(r"^(-?\d+)\((.*)\)$", tok.strip())
        if not m:
            raise Unsupported("powerpc address " + tok)
        return self.padd(self.rd0(m.group(2)), int(m.group(1)))

    def memx(self, x, y):
        if x.strip() not in ("0", "%r0"):
            raise Unsupported("indexed address")
        r = self.reg(y)
        return self.get(r, 8)

    def pair(self, tok):
        r = self.reg(tok)
        m = re.match(r"^r(\d+)$", r)
        if not m or int(m.group(1)) % 2:
            raise Unsupported("register pair " + tok)
        return r, "r%d" % (int(m.group(1)) + 1)

    def rdpair(self, p):
        return self.join(self.get(p[1], 8), self.get(p[0], 8))

    def wrpair(self, p, v):
        lo, hi = (0, 8) if tm.LITTLE[0] else (8, 0)
        self.set(p[1], tm.ext(v, lo, 8))
        self.set(p[0], tm.ext(v, hi, 8))

    def begin_state(self, an, fr, env, p):
        env[(fr, "s:pend")] = ci(0, 1)

    # ---- condition register
    def touch(self, cr):
        """a condition register field may be changed only when it is an output"""
        n = "cr%d" % cr
        self.an.E[(self.fr, "r:" + n)] = mk("crf", self.fr, self.pc)

    def setcr(self, cr, x, y, signed, dep):
        self.touch(cr)
        self.an.E.pop((self.fr, "s:eq%d" % cr), None)
        self.setE("s:cr%d" % cr, mk("crc", x, y, 1 if signed else 0))
        self.setE("s:dep%d" % cr, dep)

    def bit(self, cr, b):
        e = self.E("s:eq%d" % cr)
        if b == 2 and e is not None:
            if tm.isc(e):
                return TRUE if e.a[0] else FALSE
            return e
        f = self.E("s:cr%d" % cr)
        if f is None or f.op != "crc" or b > 2:
            raise Unsupported("condition register field read before being set")
        x, y, s = f.a
        lt = tm.slt if s else tm.ult
        if b == 2 and x.op == "or" and len(x.a) == 3 and tm.isc(y) and y.a[0] == 0 and all(z.op == "xor" and len(z.a) == 3 for z in x.a[:2]):
            (p, q), (r, t) = x.a[0].a[:2], x.a[1].a[:2]
            for u, v in ((p, q), (q, p)):
                for w, z in ((r, t), (t, r)):
                    e = eqpair(u, v, w, z)
                    if e.op == "eq" and tm.size(e.a[0]) == 16:
                        return e
        return [lambda: lt(x, y), lambda: lt(y, x), lambda: tm.eq(x, y)][b]()

    def setca(self, k, t):
        n = "xer"
        self.an.E[(self.fr, "r:" + n)] = mk("xer", self.fr, self.pc)
        self.setE("s:ca", mk("ca", k, t))

    def ca(self, k):
        f = self.E("s:ca")
        if f is None or f.op != "ca" or f.a[0] != k:
            raise Unsupported("carry used as a " + k)
        return f.a[1]

    # ---- control dependencies: isync orders the load a preceding branch depends on
    # s:pend  0 no load awaits a dependent branch, 1 the last one does, 2 an earlier one does
    def pend(self, t):
        s = self.E("s:pend")
        self.setE("s:pend", ci(1 if s is not None and s.op == "i" and s.a[0] == 0 else 2, 1))
        self.setE("s:last", t)

    def resolve(self):
        s = self.E("s:pend")
        if s is not None and s.op == "i" and s.a[0] == 1:
            self.setE("s:pend", ci(0, 1))

    def depends(self, *ts):
        l = self.E("s:last")
        return ci(1 if l is not None and any(l in tm.evterms(t) for t in ts) else 0, 1)

    def exec(self, ins):
        an = self.an
        mn, _, rest = ins.strip().partition(" ")
        a = split_ops(rest)
        if mn.startswith("."):
            t = self.directive(ins)
            return None if t is None else self.exec(t)
        if mn == "nop":
            return None
        if mn == "sync":
            self.fence("sync", mn, True, True, True)
            return None
        if mn == "lwsync":
            self.fence("lwsync", mn, True, True, False)
            return None
        if mn == "isync":
            s = self.E("s:pend")
            self.fence("isync", mn, tm.isc(s) and s.a[0] == 0, False, False)
            return None
        if mn in ("lq", "ld"):
            z = 16 if mn == "lq" else 8
            v = self.load(self.mem(a[1]), z, mn, feat="quadword" if z == 16 else None)
            self.pend(v)
            if z == 16:
                self.wrpair(self.pair(a[0]), v)
            else:
                self.wr(a[0], v)
            return None
        if mn in ("stq", "std"):
            z = 16 if mn == "stq" else 8
            self.store(self.mem(a[1]), z, self.rdpair(self.pair(a[0])) if z == 16 else self.rd(a[0]), mn, feat="quadword" if z == 16 else None)
            return None
        if mn in ("lqarx", "ldarx"):
            z = 16 if mn == "lqarx" else 8
            # (the load is single-copy atomic whether or not a store-conditional follows)
            v = self.ll(self.memx(a[1], a[2]), z, mn, False, feat="quadword" if z == 16 else None, single=True)
            self.pend(v)
            if z == 16:
                self.wrpair(self.pair(a[0]), v)
            else:
                self.wr(a[0], v)
            return None
        if mn in ("stqcx.", "stdcx."):
            z = 16 if mn == "stqcx." else 8
            v = self.rdpair(self.pair(a[0])) if z == 16 else self.rd(a[0])
            self.touch(0)
            ev, ok, bad = self.sc(self.memx(a[1], a[2]), z, v, mn, False, False, feat="quadword" if z == 16 else None)
            out = []
            for e, st in ((ok, 1), (bad, 0)):
                an.E = e
                an.E.pop((self.fr, "s:cr0"), None)
                self.setE("s:eq0", ci(st, 1))
                # the flag tells that the reservation, hence the load, succeeded
                self.setE("s:dep0", ci(1, 1))
                out.append((an.E, self.pc + 1, ("cas", ev.id, st)))
            return out
        m = re.match(r"^(and|or|xor|nand|nor|eqv|andc|orc)(\.?)$", mn)
        if m:
            x, y = self.rd(a[1]), self.rd(a[2])
            v = {"and": lambda: tm.band(x, y, 8), "or": lambda: tm.bor(x, y, 8), "xor": lambda: tm.bxor(x, y, 8), "nand": lambda: tm.bnot(tm.band(x, y, 8), 8), "nor": lambda: tm.bnot(tm.bor(x, y, 8), 8),
                 "eqv": lambda: tm.bnot(tm.bxor(x, y, 8), 8), "andc": lambda: tm.band(x, tm.bnot(y, 8), 8), "orc": lambda: tm.bor(x, tm.bnot(y, 8), 8)}[m.group(1)]()
            self.wr(a[0], v)
            if m.group(2):
                self.setcr(0, v, ci(0, 8), True, self.depends(x, y))
            return None
        if mn in ("mr", "li", "neg"):
            self.wr(a[0], {"mr": lambda: self.rd(a[1]), "li": lambda: ci(num(a[1]), 8), "neg": lambda: tm.neg(self.rd(a[1]), 8)}[mn]())
            return None
        if mn in ("add", "addc"):
            x, y = self.rd(a[1]), self.rd(a[2])
            self.wr(a[0], tm.add(x, y, 8))
            if mn == "addc":
                self.setca("carry", mk("carry", x, y))
            return None
        if mn in ("adde", "addze"):
            x, y = self.rd(a[1]), self.rd(a[2]) if mn == "adde" else ci(0, 8)
            c = self.ca("carry")
            self.wr(a[0], tm.adc(x, y, c, 8))
            self.setca("none", FALSE)
            return None
        if mn in ("subc", "subfc", "sub", "subf", "subfic"):
            x, y = {"subc": lambda: (self.rd(a[1]), self.rd(a[2])), "sub": lambda: (self.rd(a[1]), self.rd(a[2])), "subfc": lambda: (self.rd(a[2]), self.rd(a[1])),
                    "subf": lambda: (self.rd(a[2]), self.rd(a[1])), "subfic": lambda: (ci(num(a[2]), 8), self.rd(a[1]))}[mn]()
            self.wr(a[0], tm.sub(x, y, 8))
            if mn not in ("sub", "subf"):
                self.setca("borrow", tm.ult(x, y))
            return None
        if mn in ("subfe", "subfze", "subfme"):
            x, y = {"subfe": lambda: (self.rd(a[2]), self.rd(a[1])), "subfze": lambda: (ci(0, 8), self.rd(a[1])), "subfme": lambda: (ci(-1, 8), self.rd(a[1]))}[mn]()
            b = self.ca("borrow")
            self.wr(a[0], tm.sbb(x, y, b, 8))
            self.setca("none", FALSE)
            return None
        m = re.match(r"^cmp(l?)([dw])(i?)$", mn)
        if m:
            cr = 0
            if re.match(r"^%?cr\d$", a[0].strip()):
                cr = int(a[0].strip()[-1])
                a = a[1:]
            x = self.rd(a[0])
            y = ci(num(a[1]), 8) if m.group(3) else self.rd(a[1])
            dep = self.depends(x, y)
            if m.group(2) == "w":
                x, y = tm.trunc(x, 4), tm.trunc(y, 4)
            self.setcr(cr, x, y, not m.group(1), dep)
            return None
        m = re.match(r"^isel(lt|gt|eq)?$", mn)
        if m:
            n = {"lt": 0, "gt": 1, "eq": 2}[m.group(1)] if m.group(1) else num(a[3])
            c = self.bit(n // 4, n % 4)
            t = self.rd0(a[1])
            self.wr(a[0], tm.select(c, t, self.rd(a[2])))
            return None
        m = re.match(r"^b(ne|eq|lt|gt|ge|le)[+-]?$", mn)
        if m:
            cr, lab = 0, a[-1].strip()
            if len(a) == 2:
                cr = int(a[0].strip()[-1])
            d = self.E("s:dep%d" % cr)
            b, neg = {"ne": (2, 1), "eq": (2, 0), "lt": (0, 0), "gt": (1, 0), "ge": (0, 1), "le": (1, 1)}[m.group(1)]
            c = self.bit(cr, b)
            c = tm.lnot(c) if neg else c
            if d is not None and tm.isc(d) and d.a[0]:
                self.resolve()
            r = self.branch(c, self.p.target(self.pc, lab))
            out = []
            for e, pc, l in r:
                e = dict(e)
                if b == 2 and self.E("s:eq%d" % cr) is None:
                    taken = pc == self.p.target(self.pc, lab)
                    if self.p.target(self.pc, lab) != self.pc + 1:
                        e[(self.fr, "s:eq%d" % cr)] = ci(1 if taken != bool(neg) else 0, 1)
                out.append((e, pc, l))
            return out
        if mn == "b":
            return [(an.E, self.p.target(self.pc, a[0].strip()), None)]
        if mn == "mfcr":
            e = self.E("s:eq0")
            j = mk("junk", "mfcr", self.fr, self.pc, 8)
            # only the EQ bit of field 0 is tracked
            bit = ci(e.a[0] << 29, 8) if e is not None and tm.isc(e) else None
            if bit is None:
                raise Unsupported("mfcr of an unknown comparison")
            self.wr(a[0], tm.bor(tm.band(j, ci(~0x20000000 & 0xFFFFFFFF, 8), 8), bit, 8))
            return None
        raise Unsupported("powerpc instruction " + re.sub(r"[\x01\x02]", "%", ins))


def get(D):
    return Ppc(D)
