"""build /verif/seeded/<id> from definitions; verify on scratch copies"""
import json, os, subprocess, sys, shutil, textwrap
OUT = "/verif/seeded"
DEMO = '''#!/bin/bash
# Runs main.rs against the crate in the current directory; exit 0 when the property holds.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
portable-atomic = {{ path = "$repo", features = [{features}]{extra} }}
[profile.release]
debug-assertions = {dbg}
[workspace]
EOF
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN={tc} RUSTFLAGS='{rustflags}' RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
export CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER=aarch64-linux-gnu-gcc
export CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_RUNNER="qemu-aarch64 {qemu}-L /usr/aarch64-linux-gnu"
export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER=i686-linux-gnu-gcc
export CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUNNER="qemu-i386 -L /usr/i686-linux-gnu"
cd "$work" || exit 3
cargo build --offline -q --release --target {target} >"$work/log" 2>&1 || {{ cat "$work/log"; exit {builderr}; }}
timeout 200 cargo run --offline -q --release --target {target}
'''
DEFS = {}
def S(id, prop, edits, needs, breaks, demo, rustflags="", target="x86_64-unknown-linux-gnu", features='"float"', tc="1.99.1", qemu="", dbg="false", builderr=3, script=None, extra=""):
    DEFS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, rustflags=rustflags, target=target, features=features, tc=tc, qemu=qemu, dbg=dbg, builderr=builderr, script=script, extra=extra)

def main(ids):
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.startswith("defs") and f.endswith(".py"):
            exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read(), globals())
    for id in ids or sorted(DEFS):
        d = DEFS[id]
        w = "/tmp/seed/wt-" + id
        shutil.rmtree(w, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
        good = "/tmp/seed/good"
        if not os.path.exists(good):
            subprocess.run(["git", "clone", "-q", "/repo", good], check=True)
        for e in d["edits"]:
            f, a, b = e[:3]
            p = os.path.join(w, f)
            s = open(p).read()
            n = s.count(a)
            want = e[3] if len(e) > 3 else 1
            if isinstance(want, tuple):
                # nth occurrence
                k, = want
                i = -1
                for _ in range(k): i = s.index(a, i + 1)
                s = s[:i] + b + s[i + len(a):]
            else:
                assert n == want, (id, f, a, n)
                s = s.replace(a, b)
            open(p, "w").write(s)
        o = os.path.join(OUT, id)
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout)
        open(o + "/main.rs", "w").write(d["demo"].lstrip())
        open(o + "/demo.sh", "w").write(d["script"] or DEMO.format(**{k: d[k] for k in ("features", "dbg", "tc", "rustflags", "qemu", "target", "builderr", "extra")}))
        os.chmod(o + "/demo.sh", 0o755)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", o + "/demo.sh"], cwd=good, capture_output=True, text=True)
        r2 = subprocess.run(["bash", o + "/demo.sh"], cwd=w, capture_output=True, text=True)
        print(id, "good", r.returncode, "bug", r2.returncode, "OK" if r.returncode == 0 and r2.returncode not in (0, 3) else "XXXXXX")
        if r.returncode: print(r.stdout[-600:], r.stderr[-1500:])
        print("   ", (r2.stdout[-300:] + r2.stderr[-300:]).replace("\n", " | ")[:400])
        shutil.rmtree(w, ignore_errors=True)
main(sys.argv[1:])
