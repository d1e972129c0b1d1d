"""Semantic models of body-less functions: compiler intrinsics, core's atomic primitives, panics, a few externs.

model(an, nd, f, args, where) -> (outcomes, unwinds) or None when the function has no model.
An outcome is (env, value) or (env, value, edge label).
"""
from . import terms as tm
from .terms import mk, ci, TRUE, FALSE, UNDEF, UNIT
from .engine import Ev, Unsupported, ORDERS, root_of

PANIC = ("core::panicking::", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed",
         "core::slice::index::slice_", "core::str::slice_error", "core::cell::panic_", "alloc::alloc::handle_alloc_error")
ABORT = ("std::process::abort", "core::intrinsics::abort")


def bits_ty(an, ti):
    t = an.tys[ti]
    return t["k"], t.get("size")


def scalar(an, v, ti):
    """the bit pattern of a value of type ti as one scalar term"""
    fl = an.flatten(v, ti)
    sz = an.sizeof(ti)
    if fl is None:
        return v
    if len(fl) == 1:
        return fl[0][2]
    if all(tm.size(x[2]) is not None for x in fl) and sum(x[1] for x in fl) == sz:
        return tm.cat([x[2] for x in sorted(fl, key=lambda x: x[0])])
    return v


def rmw_new(op, o, a, sz, kind):
    signed = kind == "int"
    if op == "swap":
        return a
    if kind == "bool":
        if op == "fetch_and":
            return tm.band(o, a, 1)
        if op == "fetch_or":
            return tm.bor(o, a, 1)
        if op == "fetch_xor":
            return tm.bxor(o, a, 1)
        if op == "fetch_nand":
            return tm.lnot(tm.band(o, a, 1))
    if op in ("fetch_add", "fetch_byte_add"):
        return tm.add(o, a, sz)
    if op in ("fetch_sub", "fetch_byte_sub"):
        return tm.sub(o, a, sz)
    if op == "fetch_and":
        return tm.band(o, a, sz)
    if op == "fetch_nand":
        return tm.bnot(tm.band(o, a, sz), sz)
    if op == "fetch_or":
        return tm.bor(o, a, sz)
    if op == "fetch_xor":
        return tm.bxor(o, a, sz)
    if op == "fetch_max":
        return tm.minmax("smax" if signed else "umax", o, a, sz)
    if op == "fetch_min":
        return tm.minmax("smin" if signed else "umin", o, a, sz)
    raise Unsupported("core atomic " + op)


BADLOAD = ("Release", "AcqRel")
BADSTORE = ("Acquire", "AcqRel")


def ord_split(an, o, bad):
    """(env for valid orderings | None, env for invalid orderings list)"""
    if o.op == "agg":
        n = an.tys[an.ordty]["v"][o.a[1]]["n"]
        return (None, [an.E]) if n in bad else (an.E, [])
    d = mk("discr", o)
    vs = an.tys[an.ordty]["v"]
    k = an.fact(d)
    if k is not None:
        n = [x["n"] for x in vs if x["d"] == k][0]
        return (None, [an.E]) if n in bad else (an.E, [])
    ok = an.E
    errs = []
    badd = tuple(sorted(x["d"] for x in vs if x["n"] in bad))
    for x in vs:
        if x["n"] in bad:
            e = an.with_fact(an.E, d, x["d"])
            if e is not None:
                errs.append(e)
    ok = an.with_fact(an.E, mk("notin", d, badd), 1)
    return ok, errs


def atomic(an, nd, f, args, where, impl="core"):
    name = f["path"].rsplit("::", 1)[-1]
    if name in ("fence", "compiler_fence"):
        ok, errs = ord_split(an, args[0], ("Relaxed",))
        unw = False
        if errs:
            an.event(Ev("panic", op="fence", where=where, args=[args[0]]))
            unw = True
        if ok is None:
            return [], True
        an.event(Ev("fence" if name == "fence" else "cfence", ord=args[0], where=where, impl="core"))
        return [(ok, UNIT)], unw
    if name == "spin_loop_hint":
        return [(an.E, UNIT)], False
    ps, rt = f["sig"]
    if name == "new":
        return [(an.E, an.build(rt, [(0, an.sizeof(ps[0]), scalar(an, args[0], ps[0]))]))], False
    addr = args[0]
    if addr.op in ("laddr", "cref"):
        raise Unsupported("atomic access to a local")
    if name == "load":
        ti = rt
    else:
        ti = ps[1]
    k, sz = bits_ty(an, an.atomic_elem(f, ti))
    if name == "load":
        ok, errs = ord_split(an, args[1], BADLOAD)
        if errs:
            an.event(Ev("panic", op="load-order", where=where, args=[args[1]]))
        if ok is None:
            return [], errs
        ev = an.event(Ev("load", addr=addr, size=sz, ord=args[1], impl=impl, where=where))
        v = an.evterm(ev.id, "ld", rt)
        ev.old = scalar(an, v, rt)
        return [(ok, v)], errs
    if name == "store":
        ok, errs = ord_split(an, args[2], BADSTORE)
        if errs:
            an.event(Ev("panic", op="store-order", where=where, args=[args[2]]))
        if ok is None:
            return [], errs
        sv = an.E
        an.E = ok = dict(ok)
        an.event(Ev("store", addr=addr, size=sz, ord=args[2], new=scalar(an, args[1], ti), impl=impl, where=where), commit=True)
        an.E = sv
        return [(ok, UNIT)], errs
    if name in ("compare_exchange", "compare_exchange_weak"):
        ok, errs = ord_split(an, args[4], BADLOAD)
        if errs:
            an.event(Ev("panic", op="cas-order", where=where, args=[args[4]]))
        if ok is None:
            return [], errs
        exp, new = scalar(an, args[1], ti), scalar(an, args[2], ti)
        ev = an.event(Ev("cas", addr=addr, size=sz, exp=exp, new=new, ord=args[3], ford=args[4], weak=name.endswith("weak"), impl=impl, where=where))
        old = an.evterm(ev.id, "old", ti)
        ev.old = scalar(an, old, ti)
        outs = []
        e = dict(ok)
        an.hist(ev, e)
        if an.inline_rt and root_of(addr).op == "static":
            e2 = an.with_fact(e, tm.eq(ev.old, exp), 1)
            e = e2 if e2 is not None else e
        outs.append((e, mk("agg", rt, 0, (args[1],)), ("cas", ev.id, 1)))
        e = dict(ok)
        if not ev.weak:
            e2 = an.with_fact(e, tm.eq(ev.old, exp), 0)
            e = e2 if e2 is not None else e
        outs.append((e, mk("agg", rt, 1, (old,)), ("cas", ev.id, 0)))
        return outs, errs
    # read-modify-write
    a = scalar(an, args[1], ti)
    if name.startswith("fetch_byte_"):
        k, sz = "ptr", an.D.ptr
        ti = rt
    ev = an.event(Ev("rmw", op=name, addr=addr, size=sz, val=a, ord=args[2], impl=impl, where=where), commit=True)
    v = an.evterm(ev.id, "old", rt)
    ev.old = scalar(an, v, rt)
    ev.signed = k == "int"
    ev.new = rmw_new(name, ev.old, a, sz, k)
    return [(an.E, v)], False


def model(an, nd, f, args, where):
    p = f["path"]
    k = f["kind"]
    if k == "item" and not f["leaf"] and not (p.endswith("::cmpxchg16b") and p.startswith("core::")):
        return None
    if p.startswith("core::sync::atomic::"):
        return atomic(an, nd, f, args, where)
    if p.endswith("::cmpxchg16b") and p.startswith("core::"):
        # core::arch::x86_64::cmpxchg16b(dst, old, new, success, failure) -> previous value
        rt = f["sig"][1] if "sig" in f else f["locals"][0]
        ok, errs = ord_split(an, args[4], BADLOAD)
        if errs:
            an.event(Ev("panic", op="cas-order", where=where, args=[args[4]]))
        if ok is None:
            return [], errs
        exp = scalar(an, args[1], rt)
        ev = an.event(Ev("cas", addr=args[0], size=16, exp=exp, new=scalar(an, args[2], rt), ord=args[3], ford=args[4], weak=False, impl="asm:cmpxchg16b", where=where, x={"feat": "cmpxchg16b", "atomic": True}))
        old = an.evterm(ev.id, "old", rt)
        ev.old = scalar(an, old, rt)
        g, b = dict(ok), dict(ok)
        an.hist(ev, g)
        e2 = an.with_fact(b, tm.eq(ev.old, exp), 0)
        return [(g, args[1], ("cas", ev.id, 1)), (e2 if e2 is not None else b, old, ("cas", ev.id, 0))], errs
    if p.startswith(PANIC):
        nounw = "nounwind" in p or "cannot_unwind" in p or "in_cleanup" in p
        an.event(Ev("panic", op=p.rsplit("::", 1)[-1], where=where, args=args))
        if nounw:
            nd.exit = ("abort", None)
        return [], not nounw
    if p in ABORT:
        an.event(Ev("abort", op=p, where=where))
        nd.exit = ("abort", None)
        return [], False
    if p == "core::ub_checks::check_language_ub" or p == "core::intrinsics::ub_checks":
        return [(an.E, FALSE)], False
    if p.startswith("core::ub_checks::"):
        return [(an.E, TRUE)], False
    if p.startswith("core::hint::spin_loop"):
        return [(an.E, UNIT)], False
    if p == "core::hint::black_box":
        return [(an.E, args[0])], False
    if k == "intrinsic" or p.startswith("core::intrinsics::"):
        return intrinsic(an, nd, f, args, where)
    if k == "llvm" or p == "core::core_arch::x86::xsave::xgetbv" or p.endswith("::_xgetbv"):
        ps, rt = f["sig"]
        if len(args) == 1 and an.tys[rt]["k"] in ("int", "uint"):
            an.event(Ev("ext", op=p, args=args, where=where))
            return [(an.E, mk("hw", p, args[0], an.sizeof(rt)) if False else mk("fop", "hw:" + p, args[0], an.sizeof(rt)))], False
    return None


def intrinsic(an, nd, f, args, where):
    n = f["path"].rsplit("::", 1)[-1]
    ps, rt = f["sig"]
    E = an.E
    t = an.tys[rt]
    sz = t.get("size")

    def one(v):
        return [(E, v)], False

    if n in ("cold_path", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid", "assume", "forget", "nontemporal_store_hint"):
        return one(UNIT)
    if n in ("likely", "unlikely", "black_box"):
        return one(args[0])
    if n in ("integer_max", "integer_min"):
        return one(tm.minmax(("s" if t["k"] == "int" else "u") + n[-3:], args[0], args[1], sz))
    if n in ("arith_offset", "offset"):
        return one(an.ptroff(args[0], args[1], ps[0]))
    if n in ("ptr_offset_from", "ptr_offset_from_unsigned"):
        p, q = an.place(args[0]), an.place(args[1])
        z = an.sizeof(an.tys[ps[0]]["to"])
        if p and q and p[0] == q[0] and z and (p[1] - q[1]) % z == 0:
            return one(ci((p[1] - q[1]) // z, sz))
        return one(mk("fop", n, args[0], args[1], sz))
    if n in ("volatile_load", "unaligned_volatile_load", "read_via_copy"):
        to = an.tys[ps[0]]["to"]
        loc = an.deref(args[0], to)
        v = an.read(loc, to, where)
        if n != "read_via_copy" and nd.events and nd.events[-1].kind == "load":
            nd.events[-1].impl = "volatile"
        return one(v)
    if n in ("volatile_store", "unaligned_volatile_store", "write_via_move"):
        to = an.tys[ps[0]]["to"]
        loc = an.deref(args[0], to)
        an.E = E = dict(E)
        an.write(loc, to, args[1], where)
        if n != "write_via_move" and nd.events and nd.events[-1].kind == "store":
            nd.events[-1].impl = "volatile"
        return [(an.E, UNIT)], False
    if n == "write_bytes":
        to = an.tys[ps[0]]["to"]
        if args[0].op == "laddr" and args[2].op == "i" and args[1].op == "i" and args[1].a[0] == 0:
            loc = an.deref(args[0], to)
            if loc[0] == "L":
                an.E = dict(E)
                z = an.sizeof(to)
                an.write(loc, to, an.build(to, [(0, z, ci(0, z))]), where)
                return [(an.E, UNIT)], False
        an.event(Ev("store", addr=args[0], size=None, new=UNDEF, impl="plain", where=where), commit=True)
        return one(UNIT)
    if n == "transmute" or n == "transmute_unchecked":
        return one(an.reint(args[0], ps[0], rt))
    if n == "select_unpredictable":
        return one(tm.select(args[0], args[1], args[2]) if tm.size(args[1]) else mk("sel", args[0], args[1], args[2]))
    if n in ("wrapping_add", "unchecked_add"):
        return one(tm.add(args[0], args[1], sz))
    if n in ("wrapping_sub", "unchecked_sub"):
        return one(tm.sub(args[0], args[1], sz))
    if n in ("wrapping_mul", "unchecked_mul"):
        return one(tm.mul(args[0], args[1], sz))
    if n == "rotate_left" or n == "rotate_right":
        if args[1].op == "i" and sz:
            k = args[1].a[0] % (8 * sz)
            if n == "rotate_right":
                k = (8 * sz - k) % (8 * sz)
            if k == 0:
                return one(args[0])
            a = tm.shl(args[0], ci(k, 4), sz)
            b = tm.shr(args[0], ci(8 * sz - k, 4), sz, False)
            return one(tm.bor(a, b, sz))
    if n == "bswap" and sz:
        return one(tm.cat([tm.ext(args[0], i, 1) for i in range(sz)][::-1]))
    if n == "abort":
        an.event(Ev("abort", op=n, where=where))
        nd.exit = ("abort", None)
        return [], False
    if n == "unreachable":
        nd.exit = ("unreachable", None)
        return [], False
    if n.startswith("atomic_"):
        raise Unsupported("raw atomic intrinsic " + n)
    if n == "copy_nonoverlapping" or n == "copy":
        an.event(Ev("copy", addr=args[1], val=args[0], args=[args[2]], impl="plain", where=where), commit=True)
        return one(UNIT)
    if n == "compare_bytes":
        def content(a):
            r = root_of(a)
            if r.op != "laddr":
                return r
            loc = ("L", r.a[0], r.a[1], r.a[2])
            while loc[3] and loc[3][-1][0] == "c":
                loc = ("L", loc[1], loc[2], loc[3][:-1])
            ty = an.loctype(loc)
            fl = an.flatten(an.read(loc, ty, where), ty)
            return fl[0][2] if fl and root_of(a) is a else mk("unk", "bytes")

        return one(mk("fop", n, content(args[0]), content(args[1]), args[2], sz))
    # any other intrinsic on scalars is an uninterpreted pure function of its arguments
    if sz and t["k"] in ("int", "uint", "bool", "float", "char") and all(an.tys[x]["k"] in ("int", "uint", "bool", "float", "char") for x in ps):
        if t["k"] == "bool":
            return one(mk("fop", n, *(list(args) + ["bool", 1])))
        return one(mk("fop", n, *(list(args) + [sz])))
    raise Unsupported("intrinsic " + n)
