"""Builds what the analyses read: the MIR exporter, `core` metadata per target, build-script cfgs and MIR dumps.

Nothing here decides a property.  Everything is derived from /repo's current working tree on every run;
only the exporter binary and the `core` metadata (toolchain-only inputs) are cached under /verif/.cache.
"""
import concurrent.futures as cf
import threading, hashlib, json, os, shutil, subprocess, sys, tempfile, time, fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PA_REPO", "/repo")
HOST = "x86_64-unknown-linux-gnu"


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


_sysroot = {}


def sysroot(tc):
    if tc not in _sysroot:
        r = _run(["rustc", "+" + tc, "--print", "sysroot"])
        if r.returncode:
            raise RuntimeError("rustc +%s: %s" % (tc, r.stderr))
        _sysroot[tc] = r.stdout.strip()
    return _sysroot[tc]


def cache_dir():
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "pa-verif-cache")):
        try:
            os.makedirs(d, exist_ok=True)
            if os.access(d, os.W_OK):
                return d
        except OSError:
            continue
    raise RuntimeError("no writable cache directory")


def rustc_env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e


def rustc_bin(tc):
    return os.path.join(sysroot(tc), "bin", "rustc")


class Lock:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def driver():
    src = os.path.join(VERIF, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read() + sysroot("nightly").encode()).hexdigest()[:16]
    out = os.path.join(cache_dir(), "driver-" + h)
    if os.path.exists(out):
        return out
    with Lock(out + ".lock"):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp%d" % os.getpid()
        r = _run([rustc_bin("nightly"), "-O", "--edition", "2021", "-Awarnings", src, "-o", tmp], env=rustc_env())
        if r.returncode:
            raise RuntimeError("driver build failed:\n" + r.stderr)
        os.rename(tmp, out)
    return out


def drv_env(extra=None):
    e = rustc_env(extra)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot("nightly"), "lib")
    return e


def core_for(target, cflags=()):
    """Directory with libcore.rmeta for `target`; None means the nightly sysroot ships it."""
    if target == HOST:
        return None
    key = target + "".join("_" + c.replace("=", "-").replace("+", "") for c in cflags)
    d = os.path.join(cache_dir(), "core", key)
    if os.path.exists(os.path.join(d, "libcore.rmeta")):
        return d
    os.makedirs(d, exist_ok=True)
    with Lock(d + ".lock"):
        if os.path.exists(os.path.join(d, "libcore.rmeta")):
            return d
        src = os.path.join(sysroot("nightly"), "lib/rustlib/src/rust/library/core/src/lib.rs")
        tmp = os.path.join(d, "tmp%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        cmd = [rustc_bin("nightly"), "--edition", "2024", "--crate-name", "core", "--crate-type", "lib", "--emit", "metadata",
               "-Zforce-unstable-if-unmarked", "-Zalways-encode-mir", "-Copt-level=0", "-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off",
               "--cap-lints", "allow", "--target", target, "-o", os.path.join(tmp, "libcore.rmeta"), src]
        for c in cflags:
            cmd += ["-C", c]
        r = _run(cmd, env=rustc_env())
        if r.returncode:
            raise RuntimeError("core for %s failed:\n%s" % (target, r.stderr[-3000:]))
        # `#![no_std]` crates also name compiler_builtins; only its existence matters for metadata builds
        cb = os.path.join(tmp, "cb.rs")
        with open(cb, "w") as f:
            f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
        cmd = [rustc_bin("nightly"), "--edition", "2024", "--crate-name", "compiler_builtins", "--crate-type", "lib", "--emit", "metadata", "-Zforce-unstable-if-unmarked",
               "--cap-lints", "allow", "--target", target, "--sysroot", empty_sysroot(), "-L", tmp, "-o", os.path.join(d, "libcompiler_builtins.rmeta"), cb]
        for c in cflags:
            cmd += ["-C", c]
        r = _run(cmd, env=rustc_env())
        if r.returncode:
            raise RuntimeError("compiler_builtins stub for %s failed:\n%s" % (target, r.stderr[-3000:]))
        os.rename(os.path.join(tmp, "libcore.rmeta"), os.path.join(d, "libcore.rmeta"))
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def dep_crate(name, core_dir, target, work, cfgs=()):
    """metadata of a dependency crate (critical-section) from the cargo cache."""
    import glob
    roots = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/%s-1.*" % name)) + glob.glob("/root/.cargo/registry/src/*/%s-1.*" % name)
                   + glob.glob("/opt/**/registry/src/*/%s-1.*" % name, recursive=True))
    if not roots:
        return None
    out = os.path.join(work, "lib%s-%s.rmeta" % (name.replace("-", "_"), target))
    cmd = [rustc_bin("nightly"), "--edition", "2021" if name == "serde_core" else "2018", "--crate-name", name.replace("-", "_"), "--crate-type", "lib", "--emit", "metadata",
           "-Copt-level=0", "-Zmir-opt-level=0", "-Zalways-encode-mir", "--cap-lints", "allow", "--target", target, "-o", out, os.path.join(roots[-1], "src/lib.rs")]
    if core_dir:
        cmd += ["--sysroot", empty_sysroot(), "-L", core_dir]
    for c in cfgs:
        cmd += ["--cfg", c]
    # what serde_core's build script generates
    gen = os.path.join(work, "gen-" + target)
    os.makedirs(gen, exist_ok=True)
    with open(os.path.join(gen, "private.rs"), "w") as f:
        f.write("#[doc(hidden)]\npub mod __private%s {\n    #[doc(hidden)]\n    pub use crate::private::*;\n}\n" % roots[-1].split(".")[-1])
    r = _run(cmd, env=rustc_env({"OUT_DIR": gen}))
    if r.returncode:
        raise RuntimeError("dep %s: %s" % (name, r.stderr[-2000:]))
    return out


def empty_sysroot():
    d = os.path.join(cache_dir(), "empty-sysroot", "lib", "rustlib")
    os.makedirs(d, exist_ok=True)
    return os.path.dirname(os.path.dirname(d))


_bs = {}
_bs_lock = threading.Lock()


def build_script(work, features=()):
    """Compile /repo/build.rs; returns the executable."""
    feats = tuple(sorted(f for f in features if f not in ("fallback", "float", "std", "critical-section", "serde")))
    with _bs_lock:
        if (work, feats) not in _bs:
            _bs[(work, feats)] = _build_script(work, feats)
        return _bs[(work, feats)]


def _build_script(work, feats):
    out = os.path.join(work, "build-script-" + "-".join(feats))
    r = _run([rustc_bin("stable"), "--edition", "2018", "--cap-lints", "allow", "--crate-name", "build_script_build",
              os.path.join(REPO, "build.rs"), "-o", out] + [x for f in feats for x in ("--cfg", 'feature="%s"' % f)], env=rustc_env({"CARGO_PKG_NAME": "portable-atomic", "CARGO_MANIFEST_DIR": REPO}))
    if r.returncode:
        raise BuildError("build.rs does not compile:\n" + r.stderr[-3000:])
    return out


class BuildError(Exception):
    pass


def target_cfg(tc, target, cflags):
    cmd = [rustc_bin(tc), "--print", "cfg", "--target", target]
    for c in cflags:
        cmd += ["-C", c]
    r = _run(cmd, env=rustc_env())
    if r.returncode:
        raise RuntimeError(r.stderr)
    return [l for l in r.stdout.splitlines() if l]


def script_cfgs(cfg, work, cfgs=None):
    tc = cfg.get("tc", "stable")
    env = rustc_env()
    for k in list(env):
        if k.startswith("CARGO_"):
            if k not in ("CARGO_HOME",):
                env.pop(k)
    env["TARGET"] = cfg["target"]
    env["HOST"] = HOST
    env["RUSTC"] = rustc_bin(tc)
    env["OUT_DIR"] = work
    env["CARGO_MANIFEST_DIR"] = REPO
    cflags = list(cfg.get("cflags", ()))
    rf = []
    for c in cflags:
        rf += ["-C", c]
    for c in cfg.get("cfgs", ()):
        rf += ["--cfg", c]
    env["CARGO_ENCODED_RUSTFLAGS"] = "\x1f".join(rf)
    for f in cfg.get("features", ()):
        env["CARGO_FEATURE_" + f.upper().replace("-", "_")] = "1"
    d = {}
    for l in cfgs or target_cfg(tc, cfg["target"], cflags):
        if "=" in l:
            k, v = l.split("=", 1)
            d.setdefault(k, []).append(v.strip('"'))
        else:
            d.setdefault(l, []).append("")
    for k, v in d.items():
        env["CARGO_CFG_" + k.upper()] = ",".join(x for x in v)
    if "ver" in cfg:
        # impersonate an older compiler: the build script reads only `rustc -vV`
        p = os.path.join(work, "rustc-%s" % cfg["name"])
        with open(p, "w") as f:
            f.write("#!/bin/sh\ncat <<'X'\nrustc %s (000000000 2020-01-01)\nbinary: rustc\ncommit-hash: 0000000000000000000000000000000000000000\ncommit-date: 2020-01-01\nhost: %s\nrelease: %s\nLLVM version: %s\nX\n" % (cfg["ver"][0], HOST, cfg["ver"][0], cfg["ver"][1]))
        os.chmod(p, 0o755)
        env["RUSTC"] = p
    r = _run([build_script(work, cfg.get('features', ()))], env=env, cwd=REPO)
    if r.returncode:
        raise BuildError("build script failed for %s: %s" % (cfg["name"], r.stderr[-2000:]))
    out = []
    for l in r.stdout.splitlines():
        if l.startswith("cargo:rustc-cfg="):
            out.append(l[len("cargo:rustc-cfg="):])
    return out


def crate_cmd(cfg, work, script=None):
    if script is None:
        script = script_cfgs(cfg, work)
    cflags = list(cfg.get("cflags", ()))
    cd = core_for(cfg["target"])
    cmd = ["--crate-name", "portable_atomic", "--edition", "2018", "--crate-type", "lib", "--target", cfg["target"],
           "-Zmir-opt-level=0", "-Cdebug-assertions=%s" % ("on" if cfg.get("debug") else "off"), "-Coverflow-checks=%s" % ("on" if cfg.get("debug") else "off"), "--cap-lints", "allow",
           "-Cpanic=%s" % cfg.get("panic", "unwind"), "-Cunsafe-allow-abi-mismatch=target-cpu"]
    if cd:
        cmd += ["--sysroot", empty_sysroot(), "-L", cd]
    else:
        cmd += ["--sysroot", sysroot("nightly")]
    for f in cfg.get("features", ()):
        cmd += ["--cfg", 'feature="%s"' % f]
    for c in cflags:
        cmd += ["-C", c]
    for c in list(cfg.get("cfgs", ())) + script + list(cfg.get("extra", ())):
        cmd += ["--cfg", c]
    if "critical-section" in cfg.get("features", ()):
        p = dep_crate("critical-section", cd, cfg["target"], work, cfg.get("cs_cfgs", ("feature=\"restore-state-none\"",) if False else ()))
        if p is None:
            raise RuntimeError("critical-section crate not found")
        cmd += ["--extern", "critical_section=" + p]
    if "serde" in cfg.get("features", ()):
        p = dep_crate("serde_core", cd, cfg["target"], work, () if cd else ('feature="std"',))
        if p is None:
            raise RuntimeError("serde_core crate not found")
        cmd += ["--extern", "serde=" + p]
    cmd += [os.path.join(REPO, "src/lib.rs")]
    return cmd


def dump(cfg, work):
    """Returns (dump dict | None, stderr)."""
    out = os.path.join(work, cfg["name"] + ".json")
    cc = crate_cmd(cfg, work)
    with open(os.path.join(work, cfg["name"] + ".cmd"), "w") as f:
        json.dump(cc, f)
    cmd = [driver(), ] + cc + ["--pa-out", out]
    extra = {"RUSTC_BOOTSTRAP": "1", "CARGO_PKG_NAME": "portable-atomic", "CARGO_MANIFEST_DIR": REPO}
    r = _run(cmd, env=drv_env(extra), cwd=work)
    if r.returncode or not os.path.exists(out):
        return None, r.stderr
    return out, r.stderr


def load(path):
    with open(path) as f:
        return json.load(f)
