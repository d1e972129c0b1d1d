NOOUT = "--cfg portable_atomic_no_outline_atomics"
S("rmw-not-stale", "C01",
  [("src/imp/atomic128/x86_64.rs", """                            "2:",
                                $($op)*
                                concat!("lock cmpxchg16b xmmword ptr [", $dst, "]"),
                                "jne 2b",
                            concat!("mov rbx, ", $save), // restore rbx
                            out($save) _,
                            out("rcx") _,
                            out("rax") prev_lo,
                            out("rdx") prev_hi,
                            in($dst) dst,
                            // Do""", """                            $($op)*
                            "2:",
                                concat!("lock cmpxchg16b xmmword ptr [", $dst, "]"),
                                "jne 2b",
                            concat!("mov rbx, ", $save), // restore rbx
                            out($save) _,
                            out("rcx") _,
                            out("rax") prev_lo,
                            out("rdx") prev_hi,
                            in($dst) dst,
                            // Do""")],
  "another thread modifies the object between the initial read and the cmpxchg16b of fetch_not/fetch_neg",
  "the retried compare-exchange stores the result computed from the stale value: the concurrent update is lost",
  """
use portable_atomic::{AtomicU128, Ordering};
static A: AtomicU128 = AtomicU128::new(0);
fn main() {
    for round in 0..200u32 {
        A.store(0, Ordering::SeqCst);
        let go = std::sync::Barrier::new(2);
        std::thread::scope(|s| {
            s.spawn(|| { go.wait(); for _ in 0..20000 { A.fetch_not(Ordering::AcqRel); } });
            s.spawn(|| { go.wait(); for i in 0..20000u128 { let b = 1 << (i % 97); A.fetch_xor(b, Ordering::AcqRel); A.fetch_xor(b, Ordering::AcqRel); } });
        });
        let v = A.load(Ordering::SeqCst);
        if v != 0 { println!("round {round}: {v:#x}"); std::process::exit(1); }
    }
}
""")
S("max-abort-after-write", "C06",
  [("src/imp/fallback/mod.rs", """                self.write(core::cmp::max(prev, val), &guard);
                prev""", """                if val > prev {
                    self.write(val, &guard);
                }
                // Usually unchanged. Drop the guard without incrementing the stamp.
                guard.abort();
                prev""")],
  "lock-based implementation, and a whole fetch_max that changes the value runs between the two validations of an optimistic load",
  "the stamp of the sequence lock does not change although the value did, so a torn read validates",
  """
use portable_atomic::{AtomicU128, Ordering};
static A: AtomicU128 = AtomicU128::new(0);
fn main() {
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..4 {
            s.spawn(|| while !stop.load(Ordering::Relaxed) {
                let v = A.load(Ordering::Acquire);
                if (v >> 64) as u64 != v as u64 { bad.store(true, Ordering::Relaxed); }
            });
        }
        let t = std::time::Instant::now();
        let mut i = 0u128;
        while t.elapsed().as_secs() < 8 && !bad.load(Ordering::Relaxed) {
            for _ in 0..5000 { i += 1; A.fetch_max(i << 64 | i, Ordering::AcqRel); }
        }
        stop.store(true, Ordering::Relaxed);
    });
    if bad.load(Ordering::Relaxed) { println!("torn"); std::process::exit(1); }
}
""", rustflags=NOOUT)
S("cas-failfast-torn", "C05",
  [("src/imp/fallback/mod.rs", """                let guard = lock(self.v.get().addr()).write();
                let prev = self.read(&guard);
                if prev == current {""", """                let prev = self.optimistic_read();
                if prev != current {
                    // Fail fast without contending for the lock.
                    return Err(prev);
                }
                let guard = lock(self.v.get().addr()).write();
                let prev = self.read(&guard);
                if prev == current {""")],
  "lock-based implementation, and a failing compare_exchange that runs while another thread is between the two half-writes",
  "a failing compare_exchange returns a torn value that the object never held",
  """
use portable_atomic::{AtomicU128, Ordering};
static A: AtomicU128 = AtomicU128::new(0);
fn main() {
    let stop = std::sync::atomic::AtomicBool::new(false);
    let bad = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        for _ in 0..3 {
            s.spawn(|| while !stop.load(Ordering::Relaxed) {
                if let Err(v) = A.compare_exchange(5, 6, Ordering::AcqRel, Ordering::Acquire) {
                    if (v >> 64) as u64 != v as u64 { bad.store(true, Ordering::Relaxed); }
                }
            });
        }
        let t = std::time::Instant::now();
        let mut i = 0u128;
        while t.elapsed().as_secs() < 8 && !bad.load(Ordering::Relaxed) {
            for _ in 0..5000 { i += 1; A.store(i << 64 | i, Ordering::Release); }
        }
        stop.store(true, Ordering::Relaxed);
    });
    if bad.load(Ordering::Relaxed) { println!("torn"); std::process::exit(1); }
}
""", rustflags=NOOUT)
S("hwcap-lse-bit", "C10",
  [("src/imp/detect/auxv.rs", "pub(crate) const HWCAP_ATOMICS: ffi::c_ulong = 1 << 8;", "pub(crate) const HWCAP_ATOMICS: ffi::c_ulong = 1 << 7;")],
  "an AArch64 CPU that has the CRC32 instructions but not FEAT_LSE (e.g. Cortex-A53) and no compile-time lse",
  "CASP is executed on a CPU that does not have it: SIGILL",
  """
use portable_atomic::{AtomicU128, Ordering};
static A: AtomicU128 = AtomicU128::new(1 << 100);
fn main() {
    assert_eq!(A.fetch_add(1, Ordering::AcqRel), 1 << 100);
    assert_eq!(A.compare_exchange((1 << 100) + 1, 3, Ordering::AcqRel, Ordering::Acquire), Ok((1 << 100) + 1));
    assert_eq!(A.swap(4, Ordering::SeqCst), 3);
    assert_eq!(A.load(Ordering::SeqCst), 4);
}
""", target="aarch64-unknown-linux-gnu", qemu="-cpu cortex-a53 ")
S("neg-always-fallback", "C09",
  [("src/imp/atomic128/x86_64.rs", """select_atomic_rmw! {
    unsafe fn atomic_neg(dst: *mut u128) -> u128;
    cmpxchg16b = atomic_neg_cmpxchg16b;
    fallback = atomic_neg_seqcst;
}""", """// neg is rare: avoid the code size of another run-time selected function.
#[cfg(any(target_feature = "cmpxchg16b", portable_atomic_target_feature = "cmpxchg16b"))]
use self::atomic_neg_cmpxchg16b as atomic_neg;
#[cfg(not(any(target_feature = "cmpxchg16b", portable_atomic_target_feature = "cmpxchg16b")))]
#[inline]
unsafe fn atomic_neg(dst: *mut u128, order: Ordering) -> u128 {
    #[allow(dead_code)]
    let _ = atomic_neg_cmpxchg16b;
    // SAFETY: the caller must uphold the safety contract.
    unsafe { (*(dst as *const fallback::AtomicUdw)).fetch_neg(order) }
}""")],
  "x86_64 CPU with CMPXCHG16B found at run time, and fetch_neg concurrent with another modification of the same object",
  "fetch_neg runs under the lock while all other operations use cmpxchg16b: neither excludes the other and updates are lost",
  """
use portable_atomic::{AtomicI128, Ordering};
static A: AtomicI128 = AtomicI128::new(1);
fn main() {
    let stop = std::sync::atomic::AtomicBool::new(false);
    let mut bad = false;
    std::thread::scope(|s| {
        s.spawn(|| while !stop.load(Ordering::Relaxed) { A.fetch_neg(Ordering::AcqRel); });
        let t = std::time::Instant::now();
        let mut last = A.load(Ordering::SeqCst).abs();
        while t.elapsed().as_secs() < 5 && !bad {
            for i in 1..5000i128 {
                let v = i << 70 | i;
                let p = A.swap(v, Ordering::AcqRel);
                if p.abs() != last { bad = true; }
                last = v;
            }
        }
        stop.store(true, Ordering::Relaxed);
    });
    if bad { println!("lost update"); std::process::exit(1); }
}
""")
S("float-new-canonical-nan", "C13",
  [("src/lib.rs", """        impl From<$float_type> for $atomic_type {
            #[inline]
            fn from(v: $float_type) -> Self {
                Self::new(v)
            }""", """        impl From<$float_type> for $atomic_type {
            #[inline]
            fn from(v: $float_type) -> Self {
                // All NaNs are equivalent, use the canonical one.
                #[allow(clippy::eq_op)]
                Self::new(if v != v { $float_type::NAN } else { v })
            }""")],
  "a NaN with a payload or sign bit passed through From",
  "From does not keep the bits: NaN payloads and signs are replaced by the canonical NaN",
  """
use portable_atomic::{AtomicF32, AtomicF64};
fn main() {
    for b in [0x7fa0_1234u32, 0xffc0_0001, 0x7fc0_0000, 0x8000_0000] {
        assert_eq!(AtomicF32::from(f32::from_bits(b)).into_inner().to_bits(), b);
    }
    for b in [0x7ff4_0000_0000_1234u64, 0xfff8_0000_0000_0001, 1 << 63] {
        assert_eq!(AtomicF64::from(f64::from_bits(b)).into_inner().to_bits(), b);
    }
}
""")
S("debug-ignores-formatter", "C20",
  [("src/utils.rs", """                fmt::Debug::fmt(&self.load(Ordering::Relaxed), f)
            }""", """                f.write_fmt(format_args!("{:?}", self.load(Ordering::Relaxed)))
            }""")],
  "a Debug format with a width, precision, sign, fill or hexadecimal flag",
  "Debug drops the caller's formatting parameters instead of formatting the value as the plain type does",
  """
use portable_atomic::{AtomicU32, AtomicBool, AtomicI128, AtomicF32};
fn main() {
    assert_eq!(format!("{:?}", AtomicU32::new(7)), "7");
    assert_eq!(format!("{:#06x?}|{:>5?}", AtomicU32::new(7), AtomicU32::new(7)), format!("{:#06x?}|{:>5?}", 7u32, 7u32));
    assert_eq!(format!("{:<9?}|", AtomicBool::new(true)), format!("{:<9?}|", true));
    assert_eq!(format!("{:+?}", AtomicI128::new(7)), format!("{:+?}", 7i128));
    assert_eq!(format!("{:.3?}", AtomicF32::new(1.5)), format!("{:.3?}", 1.5f32));
}
""")
S("cfg128-needs-avx", "C18",
  [("src/cfgs.rs", """            any(not(portable_atomic_no_asm), portable_atomic_unstable_asm),
            any(target_feature = "cmpxchg16b", portable_atomic_target_feature = "cmpxchg16b"),""", """            any(not(portable_atomic_no_asm), portable_atomic_unstable_asm),
            any(target_feature = "cmpxchg16b", portable_atomic_target_feature = "cmpxchg16b"),
            target_feature = "avx",""", 2)],
  "fallback feature off, x86_64 with cmpxchg16b enabled at compile time but not avx",
  "AtomicI128/AtomicU128 disappear and cfg_no_atomic_128! expands although the target has 128-bit atomics",
  """
portable_atomic::cfg_no_atomic_128! { compile_error!("no 128-bit atomics"); }
use portable_atomic::{AtomicU128, Ordering};
static A: AtomicU128 = AtomicU128::new(5);
fn main() { assert_eq!(A.fetch_add(1, Ordering::AcqRel), 5); }
""", rustflags="-C target-feature=+cmpxchg16b", features='', extra=', default-features = false', builderr=1)
S("x86-fence-lfence", "C16",
  [("src/imp/x86.rs", """                concat!("xchg qword ptr [{p", ptr_modifier!(), "}], {tmp}"),
                p = in(reg) p.get(),
                tmp = out(reg) _,""", """                concat!("mov qword ptr [{p", ptr_modifier!(), "}], {tmp}"),
                "lfence",
                p = in(reg) p.get(),
                tmp = out(reg) _,""")],
  "store buffering between two cores with relaxed accesses around fence(SeqCst)",
  "fence(SeqCst) is no full barrier: a later load can be performed before an earlier store is visible",
  """
use portable_atomic::{fence, Ordering::*};
use std::sync::atomic::{AtomicUsize, AtomicU32};
#[repr(align(256))] struct P<T>(T);
static X: P<AtomicU32> = P(AtomicU32::new(0));
static Y: P<AtomicU32> = P(AtomicU32::new(0));
static R: P<AtomicU32> = P(AtomicU32::new(0));
static GO: P<AtomicUsize> = P(AtomicUsize::new(0));
static DONE: P<AtomicUsize> = P(AtomicUsize::new(0));
fn main() {
    const N: usize = 3_000_000;
    let t = std::thread::spawn(|| for i in 1..=N {
        while GO.0.load(Acquire) != i { std::hint::spin_loop(); }
        Y.0.store(1, Relaxed);
        fence(SeqCst);
        R.0.store(X.0.load(Relaxed), Relaxed);
        DONE.0.store(i, Release);
    });
    for i in 1..=N {
        X.0.store(0, SeqCst); Y.0.store(0, SeqCst);
        GO.0.store(i, Release);
        for _ in 0..(i % 40) { std::hint::spin_loop(); }
        X.0.store(1, Relaxed);
        fence(SeqCst);
        let a = Y.0.load(Relaxed);
        while DONE.0.load(Acquire) != i { std::hint::spin_loop(); }
        if a == 0 && R.0.load(Relaxed) == 0 { println!("iteration {i}: both loads missed both stores"); std::process::exit(1); }
    }
    t.join().unwrap();
}
""")
S("bool-clone", "C14",
  [("src/lib.rs", """impl From<bool> for AtomicBool {
    /// Converts a `bool` into an `AtomicBool`.""", """impl Clone for AtomicBool {
    #[inline]
    fn clone(&self) -> Self {
        Self::new(self.load(Ordering::Acquire))
    }
}

impl From<bool> for AtomicBool {
    /// Converts a `bool` into an `AtomicBool`.""")],
  "generic code (or #[derive(Clone)]) that relies on atomics not being Clone",
  "AtomicBool is Clone: a derived Clone silently gives every copy its own flag",
  """
use portable_atomic::*;
trait NotClone { fn is_clone(&self) -> bool { false } }
impl<T> NotClone for &std::marker::PhantomData<T> {}
struct W<T>(std::marker::PhantomData<T>);
trait Yes { fn is_clone(&self) -> bool { true } }
impl<T: Clone> Yes for W<T> {}
trait No { fn is_clone(&self) -> bool { false } }
impl<T> No for &W<T> {}
macro_rules! t { ($($t:ty),*) => { $( if (&W::<$t>(std::marker::PhantomData)).is_clone() { println!("{} is Clone", stringify!($t)); std::process::exit(1); } )* } }
fn main() {
    let _ = &std::marker::PhantomData::<u8>;
    t!(AtomicBool, AtomicU8, AtomicI16, AtomicU32, AtomicUsize, AtomicI128, AtomicU128, AtomicF32, AtomicPtr<u8>);
}
""")
S("swap-save-not-clobbered", "C12",
  [("src/imp/atomic128/x86_64.rs", "                    inout($save) val.pair.lo => _,\n                    in(\"rcx\") val.pair.hi,\n                    out(\"rax\") prev_lo,\n                    out(\"rdx\") prev_hi,\n                    in($dst) dst,\n                    // Do not use `preserves_flags` because CMPXCHG16B modifies the ZF flag.\n                    options(nostack),\n                )\n            };\n        }\n        // rdi and rsi are call-preserved on Windows.\n        #[cfg(not(windows))]\n        #[cfg(target_pointer_width = \"32\")]\n        cmpxchg16b!(\"edi\", \"rsi\");", "                    in($save) val.pair.lo,\n                    in(\"rcx\") val.pair.hi,\n                    out(\"rax\") prev_lo,\n                    out(\"rdx\") prev_hi,\n                    in($dst) dst,\n                    // Do not use `preserves_flags` because CMPXCHG16B modifies the ZF flag.\n                    options(nostack),\n                )\n            };\n        }\n        // rdi and rsi are call-preserved on Windows.\n        #[cfg(not(windows))]\n        #[cfg(target_pointer_width = \"32\")]\n        cmpxchg16b!(\"edi\", \"rsi\");")],
  "cmpxchg16b enabled at compile time (so that swap is inlined) and the swapped-in value still live in rsi afterwards",
  "the assembly changes a register it declares as a plain input: the caller goes on with a garbage value",
  """
use portable_atomic::{AtomicU128, Ordering};
use std::hint::black_box;
#[inline(never)]
extern "C" fn f(a: &AtomicU128, lo: u64, hi: u64) -> u64 {
    a.swap((hi as u128) << 64 | lo as u128, Ordering::AcqRel);
    lo
}
#[inline(never)]
extern "C" fn g(a: &AtomicU128, lo: u64, hi: u64, n: u64) -> u64 {
    let mut s = 0u64;
    for _ in 0..n {
        a.swap((hi as u128) << 64 | lo as u128, Ordering::AcqRel);
        s = s.wrapping_add(lo).rotate_left(7);
    }
    s
}
fn main() {
    let a = AtomicU128::new(1);
    for i in 0..100u64 {
        let (lo, hi) = (black_box(i * 3 + 7), black_box(i * 5 + 11));
        assert_eq!(f(&a, lo, hi), lo);
        assert_eq!(a.load(Ordering::SeqCst), (hi as u128) << 64 | lo as u128);
        let mut s = 0u64;
        for _ in 0..5 { s = s.wrapping_add(lo).rotate_left(7); }
        assert_eq!(g(&a, lo, hi, 5), s);
    }
}
""", rustflags="-C target-feature=+cmpxchg16b")
S("outline-cfg-x86", "C22",
  [("src/lib.rs", """    target_arch = "aarch64",
    target_arch = "powerpc64",
    target_arch = "riscv32",
    target_arch = "riscv64",
)))]
compile_error!("`portable_atomic_outline""", """    target_arch = "aarch64",
    target_arch = "powerpc64",
    target_arch = "riscv32",
    target_arch = "riscv64",
    target_arch = "x86_64", // cmpxchg16b is detected at run time
)))]
compile_error!("`portable_atomic_outline""")],
  "--cfg portable_atomic_outline_atomics on x86_64, where it has no effect",
  "the cfg is accepted on an architecture where it is documented to be rejected, and silently ignored",
  "", script="""#!/bin/bash
# The crate must not build with --cfg portable_atomic_outline_atomics on x86_64.
set -u
repo=$PWD
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"; echo 'pub use portable_atomic::AtomicU64;' >"$work/src/lib.rs"
cat >"$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
portable-atomic = { path = "$repo" }
[workspace]
EOF
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.99.1 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
t() { (cd "$work" && RUSTFLAGS="$1" cargo check --offline -q --target x86_64-unknown-linux-gnu >"$work/log" 2>&1); }
t '' || { cat "$work/log"; exit 3; }
if t '--cfg portable_atomic_outline_atomics'; then echo accepted; exit 1; fi
exit 0
""")
