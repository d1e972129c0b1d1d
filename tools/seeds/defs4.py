S("seq-stamp-overflow", "C04",
  [("src/imp/fallback/seq_lock_wide.rs", "let state_lo = self.state.wrapping_add(2);", "let state_lo = self.state + 2;")],
  "2^31 modifications of objects sharing one lock of the fallback on a 32-bit target, in a build with overflow checks",
  "the operation that lets the low half of the lock's stamp wrap around panics, and leaves the lock taken",
  """
use portable_atomic::{AtomicU128, Ordering::Relaxed};
static A: AtomicU128 = AtomicU128::new(0);
fn main() {
    for i in 0..(1u64 << 31) + 16 {
        A.store(i as u128, Relaxed);
    }
    assert_eq!(A.load(Relaxed), (1 << 31) + 15);
}
""", target="i686-unknown-linux-gnu", dbg="true\noverflow-checks = true")

S("lock-free-peeks-cache", "C11",
  [("src/imp/atomic128/x86_64.rs", """        detect::detect().cmpxchg16b()
    }
}
const IS_ALWAYS""", """        // Answering must not cost a detection.
        detect::detected().cmpxchg16b()
    }
}
const IS_ALWAYS"""),
   ("src/imp/detect/common.rs", """#[inline]
pub(crate) fn detect() -> CpuInfo {
    use core::sync::atomic::{AtomicU32, Ordering};

    static CACHE: AtomicU32 = AtomicU32::new(0);
    let mut info""", """static CACHE: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);

/// What has been detected so far.
#[allow(dead_code)]
#[inline]
pub(crate) fn detected() -> CpuInfo {
    CpuInfo(CACHE.load(core::sync::atomic::Ordering::Relaxed))
}

#[inline]
pub(crate) fn detect() -> CpuInfo {
    use core::sync::atomic::Ordering;

    let mut info""")],
  "is_lock_free called before any operation of the type, on a CPU with CMPXCHG16B, without it in the baseline",
  "is_lock_free returns false although no operation reaches a lock",
  """
use portable_atomic::{AtomicI128, AtomicU128, Ordering};
fn main() {
    let before = AtomicU128::is_lock_free();
    let before_i = AtomicI128::is_lock_free();
    let a = AtomicU128::new(1);
    assert_eq!(a.fetch_add(1, Ordering::SeqCst), 1);
    assert_eq!(before, std::is_x86_feature_detected!("cmpxchg16b"));
    assert_eq!(before, before_i);
    assert_eq!(before, AtomicU128::is_lock_free());
}
""")

S("detect-reads-env", "C19",
  [("src/imp/detect/x86_64.rs", """    let CpuidResult { ecx: proc_info_ecx, .. } = __cpuid(1);
""", """    let CpuidResult { ecx: proc_info_ecx, .. } = __cpuid(1);

    // Let users rule out CMPXCHG16B like RUST_STD_DETECT_UNSTABLE does.
    #[cfg(feature = "std")]
    if std::env::var_os("PORTABLE_ATOMIC_NO_DETECT").is_some() {
        return info;
    }
""")],
  "the first 128-bit operation of a program, with the std feature and the variable set",
  "an atomic operation allocates and takes the process-wide environment lock: it cannot be used in an allocator or a signal handler",
  """
use portable_atomic::{AtomicU128, Ordering};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering as O};
struct Count;
static ON: AtomicBool = AtomicBool::new(false);
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(O::Relaxed) { N.fetch_add(1, O::Relaxed); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: Count = Count;
static A: AtomicU128 = AtomicU128::new(0);
fn main() {
    std::env::set_var("PORTABLE_ATOMIC_NO_DETECT", "1");
    ON.store(true, O::SeqCst);
    A.fetch_add(1, Ordering::SeqCst);
    ON.store(false, O::SeqCst);
    let n = N.load(O::Relaxed);
    assert_eq!(n, 0, "an atomic operation allocated");
}
""", features='"std"')

S("std-implies-fallback", "C21",
  [("src/imp/mod.rs", """#[cfg(feature = "fallback")]
#[cfg_attr(portable_atomic_no_cfg_target_has_atomic, cfg(not(portable_atomic_no_atomic_cas)))]
#[cfg_attr(not(portable_atomic_no_cfg_target_has_atomic), cfg(target_has_atomic = "ptr"))]
#[cfg_attr(
    not(test),""", """#[cfg(any(feature = "fallback", feature = "std"))]
#[cfg_attr(portable_atomic_no_cfg_target_has_atomic, cfg(not(portable_atomic_no_atomic_cas)))]
#[cfg_attr(not(portable_atomic_no_cfg_target_has_atomic), cfg(target_has_atomic = "ptr"))]
#[cfg_attr(
    not(test),"""),
   ("src/imp/mod.rs", """    // no core 128-bit atomic & has CAS => use lock-base fallback
    #[cfg_attr(
        portable_atomic_no_cfg_target_has_atomic,
        cfg(all(feature = "fallback", not(portable_atomic_no_atomic_cas)))
    )]
    #[cfg_attr(
        not(portable_atomic_no_cfg_target_has_atomic),
        cfg(all(feature = "fallback", target_has_atomic = "ptr"))
    )]
    {
        pub(crate) use self::fallback::{AtomicI128, AtomicU128};""", """    // no core 128-bit atomic & has CAS => use lock-base fallback
    #[cfg_attr(
        portable_atomic_no_cfg_target_has_atomic,
        cfg(all(any(feature = "fallback", feature = "std"), not(portable_atomic_no_atomic_cas)))
    )]
    #[cfg_attr(
        not(portable_atomic_no_cfg_target_has_atomic),
        cfg(all(any(feature = "fallback", feature = "std"), target_has_atomic = "ptr"))
    )]
    {
        pub(crate) use self::fallback::{AtomicI128, AtomicU128};"""),
   ("src/imp/mod.rs", """            target_feature = "cmpxchg16b",
            portable_atomic_target_feature = "cmpxchg16b",
            all(
                feature = "fallback",""", """            target_feature = "cmpxchg16b",
            portable_atomic_target_feature = "cmpxchg16b",
            all(
                any(feature = "fallback", feature = "std"),"""),
   ("src/imp/atomic128/mod.rs", """        portable_atomic_target_feature = "cmpxchg16b",
        all(
            feature = "fallback",""", """        portable_atomic_target_feature = "cmpxchg16b",
        all(
            any(feature = "fallback", feature = "std"),"""),
   ("src/cfgs.rs", """    not(feature = "fallback"),
    cfg(""", """    not(any(feature = "fallback", feature = "std")),
    cfg(""", 2),
   ("src/cfgs.rs", """    all(feature = "fallback", portable_atomic_no_cfg_target_has_atomic),""", """    all(
        any(feature = "fallback", feature = "std"),
        portable_atomic_no_cfg_target_has_atomic,
    ),""", 2),
   ("src/cfgs.rs", """    all(feature = "fallback", not(portable_atomic_no_cfg_target_has_atomic)),""", """    all(
        any(feature = "fallback", feature = "std"),
        not(portable_atomic_no_cfg_target_has_atomic),
    ),""", 2)],
  "default-features = false with the std feature, on a target without 128-bit atomics",
  "without the fallback feature AtomicU128 is offered and implemented with a global lock",
  """
portable_atomic::cfg_has_atomic_128! {
    fn check() {
        assert!(portable_atomic::AtomicU128::is_lock_free() && portable_atomic::AtomicU128::is_always_lock_free(), "offered without the fallback feature, but with a lock");
    }
}
portable_atomic::cfg_no_atomic_128! {
    fn check() {}
}
fn main() { check() }
""", features='"std"', extra=", default-features = false")
