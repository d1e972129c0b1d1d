"""Views of the object: construction, conversion and formatting, and what the type system promises about the types."""
from . import engine, terms as tm
from .engine import Unsupported, root_of
from .models import scalar
from .spec import TyInfo

IDENT = ("new", "from", "from_ptr", "as_ptr", "get_mut", "into_inner", "as_bits")
VIEWS = IDENT + ("default",)


def analyse(D, isa, r, api=None):
    an = engine.Analyzer(D, isa=isa, api=api)
    f = D.fns[r["fn"]]
    a = [an.param_val(f["locals"][i + 1], "a%d" % i) for i in range(f["argc"])]
    return an, f, a, an.run(r["fn"], a)


def events(g):
    return [(nd, e) for nd in g.nodes if nd.env is not None for e in nd.events]


def same(v, w, bool_):
    if v is w:
        return True
    # 0 and 1 survive a comparison with 0
    return bool_ and v is tm.lnot(tm.eq(w, tm.ci(0, 1)))


def view(D, isa, r):
    """violations of one construction or conversion: it must hand on its argument's bits (or address) and touch nothing"""
    out = []
    an, f, a, g = analyse(D, isa, r)
    info = TyInfo(D, r["ty"])
    touched = [e for nd, e in events(g) if e.kind in ("store", "rmw", "cas", "ext", "fence", "copy", "irq", "asmx") or (e.kind == "load" and root_of(e.addr).op != "laddr")]
    if touched:
        out.append(("%s performs %s" % (r["name"], touched[0].brief()[:100]), touched[0]))
    if not g.exits:
        out.append(("%s never returns" % r["name"], None))
    for n, k, v in g.exits:
        if k != "return":
            out.append(("%s may end in %s" % (r["name"], k), None))
            continue
        got = scalar(an, v, f["locals"][0])
        if r["name"] == "default":
            want, ok = "zero", tm.isc(got) and got.a[0] == 0
        else:
            w = scalar(an, a[0], f["locals"][1])
            want, ok = str(w), same(got, w, info.kind == "bool")
        if not ok:
            out.append(("%s yields %s instead of %s" % (r["name"], str(got)[:120], want[:60] if want == "zero" else "its argument's " + ("address" if r["name"] in ("from_ptr", "as_ptr", "get_mut", "as_bits") else "bits")), None))
    return out


def formats(D, isa, r):
    """Debug/Pointer/Serialize: one load of the object, its value formatted by the same trait, the result handed on"""
    if r["name"] == "deserialize":
        return restores(D, isa, r)
    ser = r["name"] == "serialize"
    out = []
    api = {x["fn"]: "load" for x in D.d["roots"] if x["ty"] == r["ty"] and x["name"] == "load" and not x["trait"]}
    for x in D.fns:
        # formatting of a bool is core's business
        if not x["local"] and x["path"].startswith("<bool as core::fmt::") and x.get("bbs"):
            x["leaf"] = True
    an, f, a, g = analyse(D, isa, r, api)
    evs = events(g)
    loads = [e for nd, e in evs if e.kind == "load" and e.addr is a[0]]
    other = [e for nd, e in evs if e.kind in ("store", "rmw", "cas", "copy", "irq") or (e.kind == "load" and e.addr is not a[0] and root_of(e.addr).op != "laddr")]
    ext = [e for nd, e in evs if e.kind == "ext"]
    if other:
        out.append(("formatting performs %s" % other[0].brief()[:100], other[0]))
    if len(loads) != 1:
        out.append(("formatting reads the object %d times" % len(loads), None))
        return out
    o = loads[0].ord
    if not (isinstance(o, tm.T) and o.op == "agg" and an.tys[o.a[0]]["v"][o.a[1]]["n"] in ("Relaxed", "Acquire", "SeqCst")):
        out.append(("formatting reads the object with an ordering that load does not accept", loads[0]))
    ptr = r["trait"].endswith("Pointer>")
    if len(ext) != 1:
        out.append(("formatting makes %d calls" % len(ext), None))
        return out
    e = ext[0]
    v = e.args[0]
    if root_of(v).op == "laddr" and isinstance(e.x, dict):
        v = e.x.get("pre", {}).get(0, (v,))[0]
    while isinstance(v, tm.T) and v.op == "cast":
        v = v.a[1]
    if v is not loads[0].old:
        out.append(("the formatted value is not the one read (%s)" % str(v)[:80], e))
    if e.args[1] is not a[1]:
        out.append(("the formatter passed on is not the caller's", e))
    kind = TyInfo(D, r["ty"]).kind
    nm = e.op or ""
    good = {"ptr": ("pointer_fmt_inner", "fmt::Pointer", "fmt::Debug"), "bool": ("<bool as",), "int": ("Debug for i",), "uint": ("Debug for u",), "float": ("Debug for f",)}[kind]
    if ser:
        t = D.d["tys"][D.fns[next(iter(api))]["locals"][0]]
        want = {"bool": "bool", "uint": "u%d", "int": "i%d", "float": "f%d"}[kind]
        if "%" in want:
            want = want % (8 * t["size"]) if not r["ty"].endswith("size") else want[0] + "size"
        good = ("Serialize for %s>" % want, "<%s as serde_core::ser::Serialize>" % want)
    if not any(x in nm for x in good):
        out.append(("the value is formatted by %s" % nm, e))
    for n, k, v in g.exits:
        if k == "return" and v is not e.res:
            out.append(("the formatting result is not handed on", e))
    return out


def from_result(t, res, variant, bool_=False):
    """is t, leaf by leaf, the payload of the given variant of an opaque result?"""
    if t.op == "agg":
        return all(from_result(x, res, variant) for x in t.a[2])
    base = t
    if bool_ and t.op == "lnot" and t.a[0].op == "eq":
        base = next((x for x in t.a[0].a[:2] if not tm.isc(x)), t)
    return base.op == "fld" and base.a[0] is res and tuple(base.a[1][:2]) == (variant, 0)


def restores(D, isa, r):
    """Deserialize: the value type's own deserialization, its success wrapped as the new object's bits, its failure handed on"""
    out = []
    an, f, a, g = analyse(D, isa, r)
    info = TyInfo(D, r["ty"])
    evs = events(g)
    touched = [e for nd, e in evs if e.kind in ("store", "rmw", "cas", "fence", "copy", "irq", "asmx") or (e.kind == "load" and root_of(e.addr).op != "laddr")]
    if touched:
        out.append(("deserialization performs %s" % touched[0].brief()[:100], touched[0]))
    ext = {e.id: e for nd, e in evs if e.kind == "ext"}
    if len(ext) != 1:
        out.append(("deserialization makes %d calls" % len(ext), None))
        return out
    e = next(iter(ext.values()))
    if len(e.args) != 1 or e.args[0] is not a[0]:
        out.append(("the deserializer passed on is not the caller's", e))
    nm = e.op or ""
    w = nm.split("Deserialize<'de> for ")[-1].split(">")[0]
    want = {"bool": "bool", "uint": "u", "int": "i", "float": "f"}[info.kind]
    if "Deserialize" not in nm or not (w == want or w[:1] == want and (w[1:] == "size") == r["ty"].endswith("size") and (w[1:] == "size" or w[1:] == str(8 * info.size))):
        out.append(("the value is deserialized by %s" % nm, e))
    ok = set()
    for n, k, v in g.exits:
        if k != "return":
            continue
        if v is e.res:
            ok |= {0, 1}
            continue
        if v.op != "agg":
            out.append(("the result is %s" % str(v)[:100], e))
            continue
        ok.add(v.a[1])
        fs = v.a[2]
        got = fs[0] if v.a[1] else scalar(an, fs[0], an.tys[f["locals"][0]]["v"][0]["f"][0])
        # the payload of the call's result in the same variant
        if not from_result(got, e.res, v.a[1], info.kind == "bool"):
            out.append(("%s carries %s instead of the deserialized %s" % (("success", "failure")[v.a[1]], str(got)[:100], ("value", "error")[v.a[1]]), e))
    if ok != {0, 1}:
        out.append(("deserialization never returns %s" % ("success" if 0 not in ok else "an error"), e))
    return out


AUTO = {"Send": "can be moved to", "Sync": "can be shared with", "Unpin": "Unpin", "UnwindSafe": "UnwindSafe", "RefUnwindSafe": "RefUnwindSafe"}


def types(D):
    """[(type, message)], number of obligations: what the compiler's trait solver and layout computation say"""
    out, n = [], 0
    for a in D.d["atomics"]:
        nm = a["n"]
        try:
            info = TyInfo(D, nm)
        except AttributeError:
            continue
        for t in AUTO:
            if t == "UnwindSafe" and nm == "AtomicPtr":
                continue
            n += 1
            if a["autos"].get(t) is not True:
                out.append((nm, "%s is not %s" % (nm, t)))
        for t in ("Copy", "Clone"):
            n += 1
            if a["autos"].get(t) or a["copy"]:
                out.append((nm, "%s is %s: a copy would be an unsynchronised read of the object" % (nm, t)))
        for ok, m in ((not a["freeze"], "has no interior mutability: the compiler may assume shared objects do not change"),
                      (a["niche"] is False, "has invalid bit patterns: an Option of it would read the object non-atomically"),
                      (not a["drop"], "runs code when dropped"),
                      (a["size"] == info.size, "has size %s instead of %d" % (a["size"], info.size)),
                      (a["align"] == info.size, "has alignment %s instead of %d" % (a["align"], info.size))):
            n += 1
            if not ok:
                out.append((nm, "%s %s" % (nm, m)))
    for r in D.d["roots"]:
        if r["trait"] is None and r["name"] in ("new", "is_always_lock_free"):
            n += 1
            if not r["const"]:
                out.append((r["ty"], "%s::%s is not usable in constants and statics" % (r["ty"], r["name"])))
    return out, n
