"""Hash-consed value terms (the value-numbering domain of the dataflow engine)."""

PTR = [8]
_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "id", "_sz")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._sz = None
        _tab[k] = t
    return t


def reset():
    ALIGN.clear()
    PALIGN.clear()
    _tab.clear()
    _evs.clear()
    _evn.clear()
    for k in list(_cache_any):
        _cache_any.pop(k)


_cache_any = {}


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 6:
        return "…"
    o, a = t.op, t.a
    if o == "i":
        return hex(a[0]) if a[0] > 9 else str(a[0])
    if o == "param":
        return "$" + str(a[0])
    if o == "ev":
        return "%s@%s.%s" % (a[2], a[0], a[1])
    if o == "agg":
        return "{%s#%s %s}" % (a[0], a[1], ",".join(show(x, d + 1) for x in a[2]))
    if o == "phi":
        return "phi%d" % t.id
    return "%s(%s)" % (o, ",".join(show(x, d + 1) if isinstance(x, T) else str(x) for x in a))


def ci(v, size):
    return mk("i", v & ((1 << (8 * size)) - 1), size)


TRUE = ci(1, 1)
FALSE = ci(0, 1)
UNDEF = mk("undef")
UNIT = mk("agg", "()", 0, ())


def isc(t):
    return t.op == "i"


def size(t):
    """size in bytes of a scalar term, None when unknown"""
    o, a = t.op, t.a
    if o == "i":
        return a[1]
    if o in ("ev", "param", "phi", "fld", "bin", "un", "ext", "cast", "select", "rt", "fop", "zx", "sx"):
        return a[-1] if isinstance(a[-1], int) else None
    if o in ("eq", "ult", "slt", "lnot", "carry", "flt"):
        return 1
    if o in ("adc", "sbb"):
        return a[3]
    if o in ("ptr", "idx", "laddr", "fnptr", "static", "cref"):
        return PTR[0]
    if o in ("reg0", "junk") and isinstance(a[-1], int) and len(a) > 1:
        return a[-1]
    if o == "cat":
        r = 0
        for x in a:
            z = size(x)
            if z is None:
                return None
            r += z
        return r
    if o in ("umax", "umin", "smax", "smin", "add", "mul", "and", "or", "xor", "bnot", "neg"):
        return a[-1]
    return None


def sgn(v, sz):
    return v - (1 << (8 * sz)) if v >> (8 * sz - 1) else v


def is_bool(t):
    if t.op in ("eq", "ult", "slt", "lnot", "carry", "flt"):
        return True
    if t.op == "i":
        return t.a[0] in (0, 1) and t.a[1] == 1
    if t.op == "param":
        return len(t.a) > 2 and t.a[1] == "bool"
    if t.op in ("and", "or", "xor") and t.a[-1] == 1:
        return all(is_bool(x) for x in t.a[:-1])
    if t.op in ("ev", "fld", "rt", "phi", "fop") and len(t.a) > 1 and t.a[-2] == "bool":
        return True
    if t.op == "select":
        return is_bool(t.a[1]) and is_bool(t.a[2])
    return False


def lnot(t):
    if t.op == "lnot":
        return t.a[0]
    if t.op == "i":
        return ci(1 - (t.a[0] & 1), 1)
    if t.op == "xor" and t.a[-1] == 1 and t.a[0] is TRUE:
        return t.a[1]
    return mk("lnot", t)


def eq(a, b):
    if a is b:
        return TRUE
    if isc(a) and isc(b):
        return TRUE if a.a[0] == b.a[0] else FALSE
    if isc(a):
        a, b = b, a
    if isc(b) and is_bool(a):
        if b.a[0] == 1:
            return a
        if b.a[0] == 0:
            return lnot(a)
        return FALSE
    if not isc(b) and (a.op == "and") != (b.op == "and"):
        # (x & m) == m where m is one bit
        a, b = (a, b) if a.op == "and" else (b, a)
        if onebit(b) and any(x is b for x in a.a[:-1]):
            return lnot(eq(a, ci(0, a.a[-1])))
    if isc(b) and a.op == "and":
        if b.a[0] and b.a[0] & (b.a[0] - 1) == 0 and any(isc(x) and x.a[0] == b.a[0] for x in a.a[:-1]):
            return lnot(eq(a, ci(0, b.a[1])))
        if b.a[0] == 0 and len(a.a) == 3 and any(isc(x) and x.a[0] == 1 for x in a.a[:-1]):
            # (x >> s) & 1: the bit itself
            x = next(x for x in a.a[:-1] if not isc(x))
            if x.op == "bin" and x.a[0] in ("shr", "sar") and size(x.a[1]) == a.a[-1]:
                n = a.a[-1]
                return eq(band(x.a[1], shl(ci(1, n), x.a[2], n), n), ci(0, n))
    if isc(b) and b.a[0] == 0 and a.op in ("xor", "or", "cat"):
        # a difference is zero exactly when its operands agree; a union when all of its members are zero
        ds = _differences(a)
        if ds:
            if len(ds) == 2:
                return eqpair(*ds[0], *ds[1])
            r = eq(*ds[0])
            for d in ds[1:]:
                r = band(r, eq(*d), 1)
            return r
    if not isc(b) and b.id < a.id:
        a, b = b, a
    # distinct known-different pointers
    return mk("eq", a, b)


def onebit(a):
    return a.op == "bin" and a.a[0] == "shl" and isc(a.a[1]) and a.a[1].a[0] == 1


def _differences(a):
    if a.op == "xor" and len(a.a) == 3 and not isc(a.a[0]) and not isc(a.a[1]):
        return [(a.a[0], a.a[1])]
    if a.op in ("or", "cat"):
        out = []
        for x in a.a[:-1] if a.op == "or" else a.a:
            ds = _differences(x)
            if not ds:
                return None
            out += ds
        return out
    return None


def eqpair(p1, q1, p2, q2):
    """(p1,p2) == (q1,q2), as one comparison of the wide value when the halves come from one"""
    if all(size(x) for x in (p1, q1, p2, q2)):
        for a, b, c, d in ((p1, q1, p2, q2), (p2, q2, p1, q1), (p1, q1, q2, p2), (q2, p2, p1, q1)):
            x, y = cat([a, c]), cat([b, d])
            if x.op != "cat" or y.op != "cat":
                return eq(x, y)
    return band(eq(p1, q1), eq(p2, q2), 1)


def ult(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if a.a[0] < b.a[0] else FALSE
    if isc(b) and b.a[0] == 0:
        return FALSE
    if isc(a) and a.a[0] == 0:
        return lnot(eq(b, a))
    if isc(b) and b.a[0] == 1 :
        return eq(a, ci(0, b.a[1]))
    if isc(b):
        m = umaxval(a)
        if m is not None and m < b.a[0]:
            return TRUE
    return mk("ult", a, b)


def umaxval(a):
    """an upper bound of a value, when one is evident"""
    if isc(a):
        return a.a[0]
    if a.op == "bin" and a.a[0] == "uRem" and isc(a.a[2]) and a.a[2].a[0]:
        return a.a[2].a[0] - 1
    if a.op == "and":
        ms = [umaxval(x) for x in a.a[:-1] if isc(x)]
        if ms:
            return min(ms)
    if a.op == "zx":
        z = size(a.a[0])
        m = umaxval(a.a[0])
        return m if m is not None else ((1 << (8 * z)) - 1 if z else None)
    if a.op == "bin" and a.a[0] == "shr" and isc(a.a[2]):
        return ((1 << (8 * a.a[3])) - 1) >> a.a[2].a[0]
    if a.op == "cat":
        # high zero bytes
        ps = list(a.a)[::-1] if LITTLE[0] else list(a.a)
        n = sum(size(x) or 0 for x in ps)
        for x in ps:
            if isc(x) and x.a[0] == 0:
                n -= x.a[1]
            else:
                break
        return (1 << (8 * n)) - 1
    return None


def slt(a, b):
    if a is b:
        return FALSE
    if isc(a) and isc(b):
        return TRUE if sgn(*a.a) < sgn(*b.a) else FALSE
    return mk("slt", a, b)


def _ac(op, a, b, sz):
    """flattened associative-commutative operation"""
    xs = []
    for t in (a, b):
        if t.op == op and t.a[-1] == sz:
            xs += t.a[:-1]
        else:
            xs.append(t)
    return xs


def _mask(sz):
    return (1 << (8 * sz)) - 1


# symbols whose address is a multiple of a power of two
ALIGN = {}
PALIGN = {}  # alignment of parameters that are references


def lowbits(t, k):
    """the low k bits of an integer or address, None when unknown"""
    if k <= 0:
        return 0
    o = t.op
    if o == "i":
        return t.a[0] & ((1 << k) - 1)
    if t in ALIGN:
        return 0 if ALIGN[t] >> k and ALIGN[t] % (1 << k) == 0 else None
    if t in PALIGN:
        return 0 if PALIGN[t] >> k else None
    if o == "ptr" and isinstance(t.a[1], int):
        b = lowbits(t.a[0], k)
        return None if b is None else (b + t.a[1]) & ((1 << k) - 1)
    if o == "cast":
        return lowbits(t.a[1], k)
    if o in ("zx", "sx", "ext"):
        z = size(t.a[0])
        if o == "ext" and not (z and t.a[1] == (0 if LITTLE[0] else z - t.a[2])) or z is None:
            return None
        return lowbits(t.a[0], k) if 8 * size(t) >= k and 8 * z >= k else None
    if o == "add":
        r = 0
        for x in t.a[:-1]:
            b = lowbits(x, k)
            if b is None:
                return None
            r += b
        return r & ((1 << k) - 1)
    if o == "neg":
        b = lowbits(t.a[0], k)
        return None if b is None else (-b) & ((1 << k) - 1)
    if o == "mul" and isc(t.a[1]) and t.a[1].a[0]:
        m = t.a[1].a[0]
        j = (m & -m).bit_length() - 1
        b = lowbits(t.a[0], k - j)
        return None if b is None else (b * m) & ((1 << k) - 1)
    return None


def _unptr(t):
    """an address of a symbol with known alignment, as an integer sum"""
    if t.op == "ptr" and t.a[0] in ALIGN and isinstance(t.a[1], int):
        return [t.a[0], ci(t.a[1], PTR[0])]
    if t.op == "neg" and t.a[0].op == "ptr" and t.a[0].a[0] in ALIGN and isinstance(t.a[0].a[1], int):
        return [neg(t.a[0].a[0], t.a[1]), ci(-t.a[0].a[1], PTR[0])]
    return [t]


def add(a, b, sz):
    xs = _ac("add", a, b, sz)
    if ALIGN:
        xs = [y for x in xs for y in _unptr(x)]
    c = 0
    out = []
    for t in xs:
        if isc(t):
            c += t.a[0]
        elif t.op == "cat" and len(xs) > 1 and all(x.op == "bnot" and size(x) for x in t.a):
            # !x == -1 - x
            c -= 1
            out.append(neg(cat([x.a[0] for x in t.a]), sz))
        else:
            out.append(t)
    # cancel x + neg(x)
    res = list(out)
    for t in out:
        if t.op == "neg" and t.a[0] in res and t in res:
            res.remove(t)
            res.remove(t.a[0])
    c &= _mask(sz)
    # neg(x) - 1 == !x ; !x + 1 == neg(x)
    if c == 1 and len(res) == 1 and res[0].op == "bnot":
        return mk("neg", res[0].a[0], sz)
    if c:
        res.append(ci(c, sz))
    if not res:
        return ci(0, sz)
    if len(res) == 1:
        return res[0]
    if len(res) == 2 and isc(res[1]) and res[1].a[0] == _mask(sz) and res[0].op == "neg":
        return mk("bnot", res[0].a[0], sz)
    return mk("add", *(sorted(res, key=lambda t: t.id) + [sz]))


def neg(a, sz):
    if isc(a):
        return ci(-a.a[0], sz)
    if a.op == "neg":
        return a.a[0]
    if a.op == "add":
        r = ci(0, sz)
        for t in a.a[:-1]:
            r = add(r, neg(t, sz), sz)
        return r
    return mk("neg", a, sz)


def sub(a, b, sz):
    return add(a, neg(b, sz), sz)


def mul(a, b, sz):
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return ci(a.a[0] * b.a[0], sz)
    if isc(b):
        if b.a[0] == 1:
            return a
        if b.a[0] == 0:
            return b
        if a.op == "mul" and isc(a.a[1]):
            return mul(a.a[0], ci(a.a[1].a[0] * b.a[0], sz), sz)
        if a.op == "neg":
            return neg(mul(a.a[0], b, sz), sz)
    if not isc(b) and b.id < a.id:
        a, b = b, a
    return mk("mul", a, b, sz)


def bnot(a, sz):
    if isc(a):
        return ci(~a.a[0], sz)
    if a.op == "bnot":
        return a.a[0]
    if a.op == "cat" and all(size(x) for x in a.a):
        return cat([bnot(x, size(x)) for x in a.a])
    if sz == 1 and is_bool(a):
        # as an integer !0x01 == 0xfe; callers on bool use lnot
        return mk("bnot", a, sz)
    return mk("bnot", a, sz)


def knownbits(t, d=4):
    """(mask, value): the bits of t that are the same in every run"""
    n = size(t)
    if isc(t):
        return _mask(n), t.a[0]
    if d and n and t.op in ("and", "or", "add"):
        ks = [knownbits(x, d - 1) for x in t.a[:-1]]
        m, v = ks[0]
        for m2, v2 in ks[1:]:
            if t.op == "and":
                z = (m & ~v) | (m2 & ~v2)
                o = m & v & m2 & v2
            elif t.op == "or":
                z = m & ~v & m2 & ~v2
                o = (m & v) | (m2 & v2)
            else:
                # ripple carry
                z = o = 0
                cin = (1, 0)
                for i in range(8 * n):
                    b = [(m >> i & 1, v >> i & 1), (m2 >> i & 1, v2 >> i & 1), cin]
                    lo = sum(x for k, x in b if k)
                    un = sum(1 for k, x in b if not k)
                    if un == 0:
                        if lo & 1:
                            o |= 1 << i
                        else:
                            z |= 1 << i
                    cin = (1, lo >> 1) if un == 0 else (1, 1) if lo >= 2 else (1, 0) if lo + un < 2 else (0, 0)
            m, v = z | o, o
        return m, v
    return 0, 0


def band(a, b, sz):
    if (ALIGN or PALIGN) and isc(a) ^ isc(b):
        x, c = (b, a.a[0]) if isc(a) else (a, b.a[0])
        if c and c & (c + 1) == 0:
            r = lowbits(x, c.bit_length())
            if r is not None:
                return ci(r, sz)
        n = ~c & _mask(sz)
        if n and n & (n + 1) == 0:
            r = lowbits(x, n.bit_length())
            if r is not None:
                return sub(x, ci(r, sz), sz) if r else x
    if a.op == "cat" or b.op == "cat":
        r = _split2(a, b, sz, band)
        if r is not None:
            return r
    if isc(b) ^ isc(a):
        x, c = (b, a.a[0]) if isc(a) else (a, b.a[0])
        if c and c & (c - 1) == 0 and x.op in ("or", "add"):
            km, kv = knownbits(x)
            if km & c:
                return ci(kv & c, sz)
    xs = _ac("and", a, b, sz)
    c = _mask(sz)
    s = []
    for t in xs:
        if isc(t):
            c &= t.a[0]
        elif t not in s:
            s.append(t)
    if c == 0:
        return ci(0, sz)
    for t in s:
        if t.op == "bnot" and t.a[0] in s:
            return ci(0, sz)
    if c != _mask(sz) and not (c & 1 and len(s) and all(is_bool(x) for x in s)):
        s.append(ci(c, sz))
    if not s:
        return ci(c, sz)
    if len(s) == 1:
        return s[0]
    if all(t.op == "bnot" for t in s):
        return bnot(_all(bor, [t.a[0] for t in s], sz), sz)
    return mk("and", *(sorted(s, key=lambda t: t.id) + [sz]))


def bitwise_equal(a, b, limit=7):
    """two values built by bitwise operations agree for every assignment of 0 and ~0 to their leaves, and so in every bit"""
    leaves = []
    ok = [True]

    def walk(t, z):
        if isc(t):
            return
        if t.op in ("and", "or", "xor", "bnot"):
            if t.a[-1] != z:
                ok[0] = False
            for x in t.a[:-1]:
                walk(x, z)
        elif t not in leaves:
            leaves.append(t)

    z = size(a)
    if z is None or z != size(b) or not any(x.op in ("and", "or", "xor", "bnot") for x in (a, b)):
        return False
    walk(a, z)
    walk(b, z)
    if not ok[0] or len(leaves) > limit or any(size(x) not in (None, z) for x in leaves):
        return False
    full = _mask(z)

    def val(t, m):
        if isc(t):
            return t.a[0] & full
        if t in m:
            return m[t]
        xs = [val(x, m) for x in t.a[:-1]]
        if t.op == "bnot":
            return full ^ xs[0]
        r = xs[0]
        for x in xs[1:]:
            r = r & x if t.op == "and" else r | x if t.op == "or" else r ^ x
        return r

    for k in range(1 << len(leaves)):
        m = {x: full if k >> i & 1 else 0 for i, x in enumerate(leaves)}
        if val(a, m) != val(b, m):
            return False
    return True


def bor(a, b, sz):
    if a.op == "cat" or b.op == "cat":
        r = _split2(a, b, sz, bor)
        if r is not None:
            return r
    xs = _ac("or", a, b, sz)
    c = 0
    s = []
    for t in xs:
        if isc(t):
            c |= t.a[0]
        elif t not in s:
            s.append(t)
    if c == _mask(sz):
        return ci(c, sz)
    for t in s:
        if t.op == "bnot" and t.a[0] in s:
            return ci(-1, sz)
    if c:
        s.append(ci(c, sz))
    if not s:
        return ci(0, sz)
    if len(s) == 1:
        return s[0]
    if all(t.op == "bnot" for t in s):
        return bnot(_all(band, [t.a[0] for t in s], sz), sz)
    return mk("or", *(sorted(s, key=lambda t: t.id) + [sz]))


def _all(f, xs, sz):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x, sz)
    return r


def bxor(a, b, sz):
    if a.op == "cat" or b.op == "cat":
        r = _split2(a, b, sz, bxor)
        if r is not None:
            return r
    xs = []
    inv = 0
    for t in _ac("xor", a, b, sz):
        if t.op == "bnot":
            inv ^= _mask(sz)
            if t.a[0].op == "xor":
                xs += t.a[0].a[:-1]
            else:
                xs.append(t.a[0])
        else:
            xs.append(t)
    c = inv
    s = []
    for t in xs:
        if isc(t):
            c ^= t.a[0]
        elif t in s:
            s.remove(t)
        else:
            s.append(t)
    full = c == _mask(sz)
    if c and not full:
        s.append(ci(c, sz))
    if not s:
        return ci(c, sz)
    r = s[0] if len(s) == 1 else mk("xor", *(sorted(s, key=lambda t: t.id) + [sz]))
    return bnot(r, sz) if full else r


def _split2(a, b, sz, f):
    """bitwise operation distributed over a two-part concatenation"""
    x = a if a.op == "cat" else b
    zs = [size(p) for p in x.a]
    if None in zs:
        return None
    o = 0
    out = []
    for z in zs:
        out.append(f(ext(a, o, z), ext(b, o, z), z))
        o += z
    return cat(out)


LITTLE = [True]


def ext(v, off, sz):
    """bytes [off, off+sz) of v in memory order"""
    vs = size(v)
    if vs is not None and off == 0 and vs == sz:
        return v
    if isc(v):
        n = v.a[1]
        sh = off if LITTLE[0] else n - off - sz
        return ci(v.a[0] >> (8 * sh), sz)
    if v.op == "ext":
        return ext(v.a[0], v.a[1] + off, sz)
    if v.op == "cat":
        o = 0
        acc = []
        for p in v.a:
            z = size(p)
            if z is None:
                break
            if o >= off + sz:
                break
            if o + z > off:
                lo = max(o, off)
                hi = min(o + z, off + sz)
                acc.append(ext(p, lo - o, hi - lo))
            o += z
        else:
            return cat(acc)
        if acc:
            return cat(acc)
    if v.op in ("and", "or", "xor") and vs:
        r = ext(v.a[0], off, sz)
        f = {"and": band, "or": bor, "xor": bxor}[v.op]
        for x in v.a[1:-1]:
            r = f(r, ext(x, off, sz), sz)
        return r
    if v.op == "bnot":
        return bnot(ext(v.a[0], off, sz), sz)
    if v.op in ("add", "neg", "mul") and vs:
        lowoff = 0 if LITTLE[0] else vs - sz
        if off == lowoff:
            if v.op == "add":
                r = ext(v.a[0], off, sz)
                for x in v.a[1:-1]:
                    r = add(r, ext(x, off, sz), sz)
                return r
            if v.op == "neg":
                return neg(ext(v.a[0], off, sz), sz)
    if v.op == "select":
        return select(v.a[0], ext(v.a[1], off, sz), ext(v.a[2], off, sz))
    if v.op in ("zx", "sx"):
        is_ = size(v.a[0])
        if is_ is not None:
            base = 0 if LITTLE[0] else v.a[-1] - is_
            if off >= base and off + sz <= base + is_:
                return ext(v.a[0], off - base, sz)
            if v.op == "zx":
                low, high = (off, off + sz)
                if high <= base or low >= base + is_:
                    return ci(0, sz)
    return mk("ext", v, off, sz)


def trunc(v, sz):
    vs = size(v)
    if vs is None or vs == sz:
        return v
    return ext(v, 0 if LITTLE[0] else vs - sz, sz)


def zext(v, sz):
    vs = size(v)
    if vs == sz or vs is None and not isc(v):
        return v
    if isc(v):
        return ci(v.a[0], sz)
    if v.op == "zx":
        return mk("zx", v.a[0], sz)
    return mk("zx", v, sz)


def sext(v, sz):
    vs = size(v)
    if vs == sz or vs is None:
        return v
    if isc(v):
        return ci(sgn(*v.a), sz)
    return mk("sx", v, sz)


def cat(parts):
    parts = [p for p in parts]
    out = []
    for p in parts:
        if p.op == "cat":
            out += p.a
        else:
            out.append(p)
    # merge adjacent extracts of one value
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        m = _merge(a, b)
        if m is not None:
            out[i:i + 2] = [m]
            i = max(0, i - 1)
        else:
            i += 1
    if len(out) == 1:
        return out[0]
    # cat of selects on one condition
    if all(x.op == "select" and x.a[0] is out[0].a[0] for x in out):
        return select(out[0].a[0], cat([x.a[1] for x in out]), cat([x.a[2] for x in out]))
    return mk("cat", *out)


def _merge(a, b):
    if isc(a) and isc(b):
        n = a.a[1] + b.a[1]
        if LITTLE[0]:
            return ci(a.a[0] | (b.a[0] << (8 * a.a[1])), n)
        return ci((a.a[0] << (8 * b.a[1])) | b.a[0], n)
    if a.op == "ext" and b.op == "ext" and a.a[0] is b.a[0] and a.a[1] + a.a[2] == b.a[1]:
        return ext(a.a[0], a.a[1], a.a[2] + b.a[2])
    sa, sb = size(a), size(b)
    if b.op == "ext" and sa is not None and b.a[1] >= sa and a.op != "ext" and not isc(a):
        if ext(b.a[0], b.a[1] - sa, sa) is a:
            return ext(b.a[0], b.a[1] - sa, sa + b.a[2])
    if a.op == "ext" and sb is not None and b.op != "ext" and not isc(b):
        xs = size(a.a[0])
        if xs is not None and a.a[1] + a.a[2] + sb <= xs and ext(a.a[0], a.a[1] + a.a[2], sb) is b:
            return ext(a.a[0], a.a[1], a.a[2] + sb)
    if a.op == b.op and a.op in ("and", "or", "xor") and len(a.a) == len(b.a):
        xs, ys = list(a.a[:-1]), list(b.a[:-1])
        r = []
        for x in xs:
            for y in ys:
                m = _merge(x, y) if not (isc(x) ^ isc(y)) else None
                if m is not None:
                    r.append(m)
                    ys.remove(y)
                    break
            else:
                break
        else:
            n = a.a[-1] + b.a[-1]
            f = {"and": band, "or": bor, "xor": bxor}[a.op]
            v = r[0]
            for x in r[1:]:
                v = f(v, x, n)
            return v
    lo, hi = (a, b) if LITTLE[0] else (b, a)
    if hi.op in ("adc", "sbb"):
        m = _merge_arith(lo, hi)
        if m is not None:
            return m
    if a.op == "bnot" and b.op == "bnot":
        m = _merge(a.a[0], b.a[0])
        if m is not None:
            return bnot(m, size(m))
    return None


def select(c, a, b):
    if isc(c):
        return a if c.a[0] else b
    if a is b:
        return a
    if c.op == "lnot":
        return select(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return lnot(c)
    sz = size(a) or size(b)
    # lower/higher of two values
    for o, mx, mn in (("ult", "umax", "umin"), ("slt", "smax", "smin")):
        if c.op == o:
            x, y = c.a
            if a is x and b is y:
                return minmax(mn, x, y, sz)
            if a is y and b is x:
                return minmax(mx, x, y, sz)
    return mk("select", c, a, b, sz)


def minmax(op, a, b, sz):
    if a is b:
        return a
    if isc(a) and isc(b):
        if op[0] == "u":
            x, y = a.a[0], b.a[0]
        else:
            x, y = sgn(*a.a), sgn(*b.a)
        return (a if x > y else b) if op.endswith("max") else (a if x < y else b)
    if b.id < a.id:
        a, b = b, a
    return mk(op, a, b, sz)


def shl(a, b, sz):
    if isc(a) and isc(b):
        return ci(a.a[0] << (b.a[0] % (8 * sz)), sz)
    if isc(b):
        n = b.a[0] % (8 * sz)
        if n == 0:
            return a
        if n % 8 == 0 and LITTLE[0]:
            return cat([ci(0, n // 8), ext(a, 0, sz - n // 8)])
        if n % 8 == 0:
            return cat([ext(a, n // 8, sz - n // 8), ci(0, n // 8)])
    # shift amounts are taken modulo the width
    b = _shamt(b, sz)
    return mk("bin", "shl", a, b, sz)


def _shamt(b, sz):
    """canonical shift amount: value modulo width, as a 1-byte-agnostic term"""
    w = 8 * sz - 1
    while True:
        if b.op in ("zx",):
            b = b.a[0]
            continue
        if b.op == "ext" and (b.a[1] == 0 if LITTLE[0] else True):
            b = b.a[0]
            continue
        if b.op == "and":
            xs = [x for x in b.a[:-1] if not (isc(x) and (x.a[0] & w) == w)]
            if len(xs) != len(b.a) - 1 and len(xs) == 1:
                b = xs[0]
                continue
        return b


def shr(a, b, sz, signed):
    if isc(a) and isc(b):
        n = b.a[0] % (8 * sz)
        return ci((sgn(*a.a) if signed else a.a[0]) >> n, sz)
    if isc(b) and not signed:
        n = b.a[0] % (8 * sz)
        if n == 0:
            return a
        if n % 8 == 0 and LITTLE[0]:
            return cat([ext(a, n // 8, sz - n // 8), ci(0, n // 8)])
        if n % 8 == 0:
            return cat([ci(0, n // 8), ext(a, 0, sz - n // 8)])
    return mk("bin", "sar" if signed else "shr", a, _shamt(b, sz), sz)


def subst(t, m, memo=None):
    """replace terms by terms, rebuilding with simplification"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(isinstance(x, T) or isinstance(x, tuple) for x in t.a):
        memo[t] = t
        return t
    na = []
    ch = False
    for x in t.a:
        if isinstance(x, T):
            y = subst(x, m, memo)
        elif isinstance(x, tuple) and x and all(isinstance(z, T) for z in x):
            y = tuple(subst(z, m, memo) for z in x)
            if all(p is q for p, q in zip(x, y)):
                y = x
        else:
            y = x
        ch = ch or (y is not x)
        na.append(y)
    r = rebuild(t.op, na) if ch else t
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "lnot":
        return lnot(a[0])
    if op == "eq":
        return eq(a[0], a[1])
    if op == "ult":
        return ult(a[0], a[1])
    if op == "slt":
        return slt(a[0], a[1])
    if op in ("add", "and", "or", "xor"):
        f = {"add": add, "and": band, "or": bor, "xor": bxor}[op]
        r = a[0]
        for x in a[1:-1]:
            r = f(r, x, a[-1])
        return r
    if op == "neg":
        return neg(a[0], a[1])
    if op == "bnot":
        return bnot(a[0], a[1])
    if op == "mul":
        return mul(a[0], a[1], a[2])
    if op == "select":
        return select(a[0], a[1], a[2])
    if op in ("umax", "umin", "smax", "smin"):
        return minmax(op, a[0], a[1], a[2])
    if op == "ext":
        return ext(a[0], a[1], a[2])
    if op == "cat":
        return cat(a)
    if op == "adc":
        return adc(*a)
    if op == "sbb":
        return sbb(*a)
    if op == "zx":
        return zext(a[0], a[1])
    if op == "sx":
        return sext(a[0], a[1])
    if op == "bin":
        if a[0] == "shl":
            return shl(a[1], a[2], a[3])
        if a[0] in ("shr", "sar"):
            return shr(a[1], a[2], a[3], a[0] == "sar")
    return mk(op, *a)


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    r = pred(t)
    if not r:
        for x in t.a:
            if isinstance(x, T):
                if contains(x, pred, memo):
                    r = True
                    break
            elif isinstance(x, tuple):
                if any(isinstance(y, T) and contains(y, pred, memo) for y in x):
                    r = True
                    break
    memo[t] = r
    return r


def has_dyn(t):
    """mentions an event result or a phi (a value that may differ between loop iterations)"""
    r = _cache_any.get(t)
    if r is None:
        r = contains(t, lambda x: x.op in ("ev", "phi", "fld0"))
        _cache_any[t] = r
    return r


def evalc(t, m):
    """evaluate a closed term under an assignment of leaves; None when not evaluable"""
    s = subst(t, m)
    return s.a[0] if isc(s) else None


def adc(x, y, c, sz):
    """x + y + carry-in"""
    if c is FALSE:
        return add(x, y, sz)
    return mk("adc", x, y, c, sz)


def sbb(x, y, c, sz):
    """x - y - borrow-in"""
    if c is FALSE:
        return sub(x, y, sz)
    return mk("sbb", x, y, c, sz)


def borrow_parts(c):
    """(p, q) such that c is the borrow of p - q"""
    if c.op == "ult":
        return c.a
    if c.op == "lnot" and c.a[0].op == "eq":
        x, y = c.a[0].a
        if isc(y) and y.a[0] == 0:
            return ci(0, y.a[1]), x
    if is_bool(c) and c.op in ("eq", "ev", "param", "fld"):
        return None
    return None


def _merge_arith(lo, hi):
    if hi.op == "adc" and hi.a[2].op == "carry":
        p, q = hi.a[2].a
        z = size(p)
        if z == size(lo) and add(p, q, z) is lo:
            f = (lambda l, h: cat([l, h])) if LITTLE[0] else (lambda l, h: cat([h, l]))
            return add(f(p, hi.a[0]), f(q, hi.a[1]), z + hi.a[3])
    if hi.op == "sbb":
        pq = borrow_parts(hi.a[2])
        if pq:
            p, q = pq
            z = size(p)
            if z is not None and z == size(lo) and sub(p, q, z) is lo:
                f = (lambda l, h: cat([l, h])) if LITTLE[0] else (lambda l, h: cat([h, l]))
                return sub(f(p, hi.a[0]), f(q, hi.a[1]), z + hi.a[3])
    return None


_evs = {}
_NONE = frozenset()


def evterms(t):
    """event-result leaves occurring in a term"""
    r = _evs.get(t)
    if r is None:
        if t.op == "ev":
            r = frozenset((t,))
        else:
            r = _NONE
            for x in t.a:
                if isinstance(x, T):
                    y = evterms(x)
                    if y:
                        r = r | y
                elif isinstance(x, tuple):
                    for z in x:
                        if isinstance(z, T):
                            y = evterms(z)
                            if y:
                                r = r | y
        _evs[t] = r
    return r


_evn = {}


def evnodes(t):
    r = _evn.get(t)
    if r is None:
        r = _evn[t] = frozenset(x.a[0] for x in evterms(t))
    return r
