"""32-bit Arm assembly (interrupt masking, single-instruction accesses)."""
import re
from . import terms as tm
from .terms import mk, ci, TRUE
from .engine import Ev, Unsupported
from .isa import Isa, split_ops, num, junk


class IrqIsa(Isa):
    """interrupt state: `s:irqread` remembers the state word last read, masking makes it the saved state of a region"""

    def irq_disable(self, saved, how):
        self.an.event(Ev("irq", op="disable", res=saved, impl="asm:" + how, where=self.where))
        self.memacc(True)

    def irq_restore(self, val, how, mask=0):
        """mask: the bits of the operand that the instruction looks at, when the rest is irrelevant"""
        self.an.event(Ev("irq", op="restore", args=[val], impl="asm:" + how, where=self.where, x={"mask": mask}))
        self.memacc(True)

    def status(self, name, sz=None):
        """read a status register"""
        sz = sz or self.W
        ev = self.an.event(Ev("status", op=name, impl="asm", where=self.where))
        ev.old = mk("ev", ev.id[0], ev.id[1], "status", "uint", sz)
        self.setE("s:st:" + name, ev.old)
        return ev.old

    def saved(self, name):
        """the state word last read in this block"""
        return self.E("s:st:" + name) or junk("unsaved")


class Arm(IrqIsa):
    COMMENT = r"(@|//).*$"

    def opd(self, tok):
        tok = tok.strip()
        if re.match(r"^#?-?(0x[0-9a-fA-F]+|\d+)$", tok):
            return ("i", num(tok))
        r = self.regname(tok)
        if r is None:
            raise Unsupported("arm operand " + tok)
        return ("r", r)

    def rd(self, o, z=4):
        return ci(o[1], z) if o[0] == "i" else self.get(o[1], z)

    def mem(self, tok):
        m = re.match(r"^\[(.*)\]$", tok.strip())
        if not m:
            raise Unsupported("arm address " + tok)
        ps = split_ops(m.group(1))
        return self.padd(self.get(self.regname(ps[0]), self.W), num(ps[1]) if len(ps) > 1 else 0)

    def exec(self, ins):
        mn, _, rest = ins.strip().partition(" ")
        a = split_ops(rest)
        if mn.startswith("."):
            t = self.directive(ins)
            return None if t is None else self.exec(t)
        if mn == "nop":
            return None
        if mn == "mrs":
            d, s = self.opd(a[0]), a[1].strip().lower()
            if s not in ("cpsr", "apsr", "primask"):
                raise Unsupported("status register " + s)
            self.set(d[1], self.status(s, 4))
            return None
        if mn == "msr":
            s, v = a[0].strip().lower(), self.rd(self.opd(a[1]))
            if s not in ("cpsr_c", "primask"):
                raise Unsupported("status register " + s)
            base = "cpsr" if s == "cpsr_c" else s
            if s == "cpsr_c":
                # masking: the status word read in this block with I (and F) set and nothing else changed
                o = self.saved(base)
                for bits in (0x80, 0xC0):
                    if tm.size(o) == 4 and v is tm.bor(o, ci(bits, 4), 4):
                        self.irq_disable(o, "msr cpsr_c,|%#x" % bits)
                        return None
            self.irq_restore(v, mn + " " + s)
            return None
        if mn == "cpsid":
            if "i" not in a[0].strip():
                raise Unsupported("cpsid " + a[0])
            self.irq_disable(self.saved("primask"), "cpsid")
            return None
        if mn == "cpsie":
            self.irq_restore(mk("junk", "enabled"), "cpsie")
            return None
        m = re.match(r"^(ldr|str)(b|h|)$", mn)
        if m:
            z = {"b": 1, "h": 2, "": 4}[m.group(2)]
            d = self.opd(a[0])
            if m.group(1) == "ldr":
                v = self.load(self.mem(a[1]), z, mn)
                self.set(d[1], v if z == 4 else tm.zext(v, 4))
            else:
                self.store(self.mem(a[1]), z, self.rd(d, z), mn)
            return None
        if mn in ("mov", "orr", "and", "eor", "bic", "add", "sub"):
            d = self.opd(a[0])
            x = self.rd(self.opd(a[1]))
            if mn == "mov":
                self.set(d[1], x)
                return None
            y = self.rd(self.opd(a[2]))
            f = {"orr": tm.bor, "and": tm.band, "eor": tm.bxor, "add": tm.add, "sub": tm.sub}.get(mn)
            self.set(d[1], f(x, y, 4) if f else tm.band(x, tm.bnot(y, 4), 4))
            return None
        if mn in ("dmb", "dsb"):
            k = a[0].strip().lower() if a else "sy"
            if k not in ("ish", "sy"):
                raise Unsupported("barrier " + ins)
            self.fence(mn, mn, True, True, True)
            return None
        raise Unsupported("arm instruction " + re.sub(r"[\x01\x02]", "%", ins))


def get(D):
    return Arm(D)
