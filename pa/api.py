"""The offered API (C18): the same documented methods on every type in every configuration, and cfg macros that tell the truth."""
import json, os, re, subprocess
from . import build

VAL = {"AtomicBool": "bool", "AtomicPtr": "*mut T"}
CASONLY = {"compare_exchange", "compare_exchange_weak", "fetch_update"}
# what the type needs a compare-exchange loop for where only read-modify-write instructions exist
AMOLESS = {"int": {"fetch_nand", "fetch_neg", "neg"}, "bool": set(), "float": {"fetch_add", "fetch_sub", "fetch_max", "fetch_min"}, "ptr": set()}
SUBWORD = {"swap", "add", "sub", "fetch_add", "fetch_sub", "fetch_max", "fetch_min"}
RMW_PREFIX = ("fetch_", "bit_", "compare_exchange")
RMW = {"swap", "add", "sub", "and", "or", "xor", "not", "neg"}
# widths natively supported, where the fallback feature is off
NATIVE = {"x86_64-nofb": 64, "x86_64-nofb-std": 64, "x86_64-nofb-cs": 64, "x86_64-nofb-cmpxchg16b": 128, "i686-nofb": 64, "i586-nofb": 64, "aarch64-nofb": 128, "armv7-nofb": 64, "armv5te-nofb": 32, "riscv64gc-nofb": 64,
          "riscv32imac-nofb": 32, "riscv32imac-nofb-cs": 32, "powerpc64-nofb": 64, "s390x-nofb": 128, "mips-nofb": 32, "wasm32-nofb": 64, "thumbv6m-nofb": 32, "thumbv7em-nofb": 32,
          "riscv32i-nofb": 32, "riscv32-zacas-nofb": 64, "riscv64-zacas-nofb": 128, "powerpc64-pwr8-nofb": 128, "thumbv6m-nofb-cs": 32, "msp430-nofb": 16, "avr-nofb": 16}
# no compare-exchange and nothing opted into
LOADSTORE = {"riscv32imc-bare": (8, 16, 32), "thumbv6m-bare": (8, 16, 32), "bpf": (64,), "armv5te-none-bare": ()}
AMOONLY = {"riscv32imc-amo-bare": (8, 16, 32), "riscv32imc-zabha-bare": (8, 16, 32), "riscv64im-amo-bare": (8, 16, 32, 64), "riscv64im-zabha-bare": (8, 16, 32, 64)}


def kind(ty):
    return {"AtomicBool": "bool", "AtomicPtr": "ptr"}.get(ty) or ("float" if ty.startswith("AtomicF") else "int")


def val(ty):
    return VAL.get(ty) or ty[6:].lower()


def bits(ty):
    return "AtomicU" + ty[7:] if ty.startswith("AtomicF") else "-"


def abstract(s, ty):
    s = norm(s)
    s = re.sub(r"\b%s\b(<T>)?" % ty, "$A", s)
    if bits(ty) != "-":
        s = re.sub(r"\b%s\b" % bits(ty), "$B", s)
    v = re.escape(val(ty))
    return re.sub(r"(?<![\w])%s(?![\w])" % v, "$V", s)


def concrete(s, ty):
    return s.replace("$A", ty + ("<T>" if ty == "AtomicPtr" else "")).replace("$B", bits(ty)).replace("$V", val(ty))


def norm(s):
    """without the names of lifetimes"""
    s = re.sub(r"for<[^>]*> ", "", s)
    return re.sub(r"<'\w+>", "", re.sub(r"'\w+ ", "", s))


def sig(m, s):
    """signature up to the names of lifetimes and of fetch_update's closure type"""
    s = norm(s)
    return re.sub(r", [^,]*\) ->", ") ->", re.sub(r"impl FnMut\([^)]*\) -> [\w:]*<[^>]*>", "F", s)) if m == "fetch_update" else s


def widths(cfg):
    n = cfg["name"]
    if n in LOADSTORE:
        return LOADSTORE[n], "ls"
    if n in AMOONLY:
        return AMOONLY[n], "amo"
    if "fallback" in cfg["features"]:
        return (8, 16, 32, 64, 128), "cas"
    return tuple(w for w in (8, 16, 32, 64, 128) if w <= NATIVE[n]), "cas"


def types(cfg, ptr):
    """the types that must exist"""
    W, cap = widths(cfg)
    out = set()
    for w in W:
        out |= {"AtomicI%d" % w, "AtomicU%d" % w}
        if "float" in cfg["features"] and (w in (32, 64) or w == 16 and "portable_atomic_unstable_f16" in cfg.get("cfgs", ()) or w == 128 and "portable_atomic_unstable_f128" in cfg.get("cfgs", ())):
            out.add("AtomicF%d" % w)
    if 8 in W:
        out.add("AtomicBool")
    if 8 * ptr in W:
        out |= {"AtomicIsize", "AtomicUsize", "AtomicPtr"}
    return out, W, cap


def check(D, cfg):
    """[(type, message, span)], obligations"""
    spec = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "api.json")))
    out, n = [], 0
    want, W, cap = types(cfg, D.ptr)
    have = {p["n"] for p in D.d["pub"] if re.match(r"Atomic[A-Z]\w*$", p["n"]) and p["k"] == "Struct"}
    for t in sorted(want - have):
        out.append((t, "%s is not offered" % t, ""))
    for t in sorted(t for t in have - want if not re.search(r"F(16|128)$", t)):
        out.append((t, "%s is offered although the configuration has no means to implement it without a lock it was not allowed to use" % t, ""))
    n += len(want)
    by = {}
    for r in D.d["roots"]:
        by.setdefault(r["ty"], {})[r["name"] if not r["trait"] else "%s/%s" % (norm(r["trait"]), r["name"])] = r
    for t in sorted(want & have):
        k = kind(t)
        for m, s in sorted(spec[k]["methods"].items()):
            if s["hidden"]:
                continue
            if m in CASONLY and cap != "cas" and (cap, k) != ("amo", "bool") or cap == "ls" and (m in RMW or m.startswith(RMW_PREFIX)) or cap == "amo" and (m in AMOLESS[k] or re.search(r"[IU](8|16)$", t) and m in SUBWORD and "zabha" not in cfg["name"]):
                r = by.get(t, {}).get(m)
                n += 1
                if r is not None and not r.get("impossible"):
                    out.append((t, "%s::%s is offered where the target has no instruction for it and nothing was opted into" % (t, m), r["span"]))
                continue
            n += 1
            r = by.get(t, {}).get(norm(concrete(m, t)) if "/" in m else m)
            if r is None or r.get("impossible"):
                out.append((t, "%s::%s is missing" % (t, m), r["span"] if r else ""))
                continue
            if sig(m, r["sig"]) != sig(m, concrete(s["sig"], t)):
                out.append((t, "%s::%s has signature %s instead of %s" % (t, m, norm(r["sig"]), norm(concrete(s["sig"], t))), r["span"]))
            if s["const"] and not r["const"] and "ver" not in cfg:
                out.append((t, "%s::%s is no longer a const fn" % (t, m), r["span"]))
        a = next(x for x in D.d["atomics"] if x["n"] == t)
        tr = {norm(x["full"]) for x in a["traits"] if not x["neg"]}
        for x in spec[k]["traits"]:
            if "core::marker::" in x or "panic" in x:
                continue
            n += 1
            if norm(concrete(x, t)) not in tr:
                out.append((t, "%s is not implemented" % norm(concrete(x, t)), ""))
    return out, n


def witness(D, cfg, work):
    """a crate that uses the exported macros and constants; it type-checks only if they tell the truth"""
    have = {p["n"] for p in D.d["pub"] if p["k"] == "Struct"}
    off = lambda t: any(r["ty"] == t and r["name"] == "compare_exchange" and not r.get("impossible") for r in D.d["roots"])
    L = ["#![no_std]", "#![allow(dead_code)]", "use portable_atomic as pa;"]
    n = 0
    for w in ("8", "16", "32", "64", "128", "ptr"):
        tys = ["Atomic%s%s" % (c, w) for c in "IU"] if w != "ptr" else ["AtomicPtr<u8>", "AtomicUsize", "AtomicIsize"]
        v = all(t.split("<")[0] in have for t in tys)
        L.append("pa::cfg_has_atomic_%s! { const HAS_%s: bool = true; %s }" % (w, w, " ".join("fn uses_%s(_: &pa::%s) {}" % (t.split("<")[0].lower(), t) for t in tys)))
        L.append("pa::cfg_no_atomic_%s! { const HAS_%s: bool = false; }" % (w, w))
        L.append('const _: () = assert!(HAS_%s == %s, "cfg_has_atomic_%s! disagrees with the types offered");' % (w, str(v).lower(), w))
        n += 3
    cas = [t for t in have if t.startswith("Atomic") and t != "AtomicBool" and off(t)]
    L.append("pa::cfg_has_atomic_cas! { const HAS_CAS: bool = true; }")
    L.append("pa::cfg_no_atomic_cas! { const HAS_CAS: bool = false; }")
    L.append('const _: () = assert!(HAS_CAS == %s, "cfg_has_atomic_cas! disagrees with compare_exchange being offered");' % str(bool(cas)).lower())
    n += 3
    for t in sorted(x for x in have if x.startswith("Atomic")):
        k = kind(t)
        ty = t + ("<u8>" if k == "ptr" else "")
        v = {"bool": "true", "ptr": "core::ptr::null_mut()", "float": "1.0", "int": "1"}[k]
        vt = {"ptr": "*mut u8"}.get(k, val(t))
        if k == "float" and t in ("AtomicF16", "AtomicF128"):
            continue
        L.append("static S_%s: pa::%s = <pa::%s>::new(%s);" % (t.upper(), ty, ty, v))
        L.append("const LF_%s: bool = <pa::%s>::is_always_lock_free();" % (t.upper(), ty))
        n += 2
        if "ver" not in cfg:
            L.append("const unsafe fn from_%s(p: *mut %s) -> &'static pa::%s { unsafe { <pa::%s>::from_ptr(p) } }" % (t.lower(), vt, ty, ty))
            L.append("const fn into_%s(x: pa::%s) -> %s { x.into_inner() }" % (t.lower(), ty, vt))
            L.append("const fn ptr_%s(x: &pa::%s) -> *mut %s { x.as_ptr() }" % (t.lower(), ty, vt))
            n += 3
    src = os.path.join(work, "w-%s.rs" % cfg["name"])
    with open(src, "w") as f:
        f.write("\n".join(L) + "\n")
    rm = os.path.join(work, "w-%s" % cfg["name"])
    os.makedirs(rm, exist_ok=True)
    env = build.drv_env({"RUSTC_BOOTSTRAP": "1", "CARGO_PKG_NAME": "portable-atomic", "CARGO_MANIFEST_DIR": build.REPO})
    lib = os.path.join(rm, "libportable_atomic.rmeta")
    r = build._run([build.driver()] + json.load(open(os.path.join(work, cfg["name"] + ".cmd"))) + ["--emit", "metadata", "-o", lib], env=env, cwd=work)
    if r.returncode:
        return ["the crate does not build: " + r.stderr[-400:]], n
    cd = build.core_for(cfg["target"])
    cmd = [build.driver(), "--crate-name", "witness", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(rm, "libwitness.rmeta"), "--target", cfg["target"], "--cap-lints", "allow",
           "--extern", "portable_atomic=" + lib, "-L", work, "-Cunsafe-allow-abi-mismatch=target-cpu", src]
    cmd += ["--sysroot", build.empty_sysroot(), "-L", cd] if cd else ["--sysroot", build.sysroot("nightly")]
    for c in cfg.get("cflags", ()):
        cmd += ["-C", c]
    r = build._run(cmd, env=env, cwd=work)
    if r.returncode:
        out = []
        for b in re.split(r"\n(?=error)", r.stderr):
            if b.startswith("error") and not b.startswith("error: aborting"):
                ls = [x.strip() for x in b.splitlines()]
                code = [x for x in ls if re.match(r"^\d+\s*\|", x)]
                out.append("%s (%s)" % (ls[0], code[0].split("|", 1)[1].strip()[:120] if code else ""))
        return out or ["the witness does not compile: " + r.stderr[-300:]], n
    return [], n
