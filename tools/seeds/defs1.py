S("update-retry-stale", "C15",
  [("src/lib.rs", """                    let mut prev = self.load(fetch_order);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
                            x @ Ok(_) => return x,
                            Err(next_prev) => prev = next_prev,
                        }
                    }
                    Err(prev)
                }
            }
            } // cfg_has_atomic_cas!

            $cfg_has""", """                    let mut prev = self.load(fetch_order);
                    if let Some(next) = f(prev) {
                        loop {
                            match self.compare_exchange_weak(prev, next, set_order, fetch_order) {
                                x @ Ok(_) => return x,
                                Err(next_prev) => prev = next_prev,
                            }
                        }
                    }
                    Err(prev)
                }
            }
            } // cfg_has_atomic_cas!

            $cfg_has""")],
  "another modification of the same integer between fetch_update's load and its compare_exchange (so that the retry path runs)",
  "the retry installs the closure's result for the old value: an intervening update is lost",
  """
use portable_atomic::{AtomicU32, AtomicU128, Ordering};
fn main() {
    let a = AtomicU32::new(10);
    let mut first = true;
    let r = a.fetch_update(Ordering::AcqRel, Ordering::Acquire, |v| {
        if first { first = false; a.store(100, Ordering::Release); }
        Some(v + 1)
    });
    assert_eq!((r, a.load(Ordering::SeqCst)), (Ok(100), 101));
    let b = AtomicU128::new(10);
    let mut first = true;
    let r = b.fetch_update(Ordering::AcqRel, Ordering::Acquire, |v| {
        if first { first = false; b.store(1 << 100, Ordering::Release); }
        Some(v + 1)
    });
    assert_eq!((r, b.load(Ordering::SeqCst)), (Ok(1 << 100), (1 << 100) + 1));
}
""")
S("fallback-cas-low-half", "C02",
  [("src/imp/fallback/mod.rs", """                if prev == current {
                    self.write(new, &guard);
                    Ok(prev)""", """                if (prev ^ current) as Chunk == 0 {
                    self.write(new, &guard);
                    Ok(prev)""")],
  "lock-based implementation selected, and an expected value that differs from the stored one only above the first machine word",
  "compare_exchange succeeds although the value was not the expected one",
  """
use portable_atomic::{AtomicU128, AtomicI128, Ordering};
fn main() {
    let a = AtomicU128::new((7u128 << 90) | 5);
    assert_eq!(a.compare_exchange(5, 6, Ordering::SeqCst, Ordering::SeqCst), Err((7u128 << 90) | 5));
    assert_eq!(a.load(Ordering::SeqCst), (7u128 << 90) | 5);
    let a = AtomicI128::new(-1);
    assert_eq!(a.compare_exchange(u64::MAX as i128, 6, Ordering::SeqCst, Ordering::SeqCst), Err(-1));
}
""", rustflags="--cfg portable_atomic_no_outline_atomics")
S("vmovdqa-fence-before-store", "C03",
  [("src/imp/atomic128/x86_64.rs", """                asm!(
                    concat!("vmovdqa xmmword ptr [{dst", ptr_modifier!(), "}], {val}"),
                    // Equivalent""", """                asm!(
                    // Equivalent"""),
   ("src/imp/atomic128/x86_64.rs", """                    concat!("xchg qword ptr [{p", ptr_modifier!(), "}], {tmp}"),
""", """                    concat!("xchg qword ptr [{p", ptr_modifier!(), "}], {tmp}"),
                    concat!("vmovdqa xmmword ptr [{dst", ptr_modifier!(), "}], {val}"),
""")],
  "two threads running the store-buffering pattern on two 128-bit objects with SeqCst on a CPU with AVX",
  "a SeqCst 128-bit store may be delayed past a later SeqCst load: both threads read the old values",
  """
use portable_atomic::{AtomicU128, Ordering::*};
use std::sync::atomic::AtomicUsize;
#[repr(align(128))]
struct P<T>(T);
static X: P<AtomicU128> = P(AtomicU128::new(0));
static Y: P<AtomicU128> = P(AtomicU128::new(0));
static R: P<AtomicUsize> = P(AtomicUsize::new(0));
static CA: P<AtomicUsize> = P(AtomicUsize::new(0));
static CB: P<AtomicUsize> = P(AtomicUsize::new(0));
fn sync(me: &AtomicUsize, other: &AtomicUsize, n: usize) {
    me.store(n, SeqCst);
    let mut k = 0u32;
    while other.load(SeqCst) < n {
        k += 1;
        if k > 10000 { std::thread::yield_now(); }
    }
}
fn main() {
    let n: usize = 400_000;
    let t = std::thread::spawn(move || {
        for i in 1..=n {
            sync(&CA.0, &CB.0, 2 * i);
            X.0.store(i as u128, SeqCst);
            let r = Y.0.load(SeqCst);
            R.0.store(r as usize, SeqCst);
            sync(&CA.0, &CB.0, 2 * i + 1);
        }
    });
    let mut bad = 0;
    for i in 1..=n {
        sync(&CB.0, &CA.0, 2 * i);
        Y.0.store(i as u128, SeqCst);
        let r = X.0.load(SeqCst);
        sync(&CB.0, &CA.0, 2 * i + 1);
        if r != i as u128 && R.0.load(SeqCst) != i { bad += 1; }
    }
    t.join().unwrap();
    println!("{} store-buffering outcomes", bad);
    assert_eq!(bad, 0);
}
""")
S("seqlock-read-after-validate", "C06",
  [("src/imp/fallback/mod.rs", """                    let val = self.optimistic_read();

                    if lock.validate_read(stamp) {
                        return val;
                    }""", """                    if lock.validate_read(stamp) {
                        return self.optimistic_read();
                    }""")],
  "a load of a lock-based object racing with a store of another thread",
  "the optimistic read happens after the validation, so a torn value is returned",
  """
use portable_atomic::{AtomicU128, AtomicBool, Ordering::*};
use std::sync::Arc;
fn main() {
    let a = Arc::new((AtomicU128::new(0), AtomicBool::new(false)));
    let t = {
        let a = a.clone();
        std::thread::spawn(move || {
            let mut i = 0u128;
            while !a.1.load(Relaxed) {
                i += 1;
                a.0.store(i | (i << 64), Release);
            }
        })
    };
    let mut bad = 0;
    for _ in 0..20_000_000u64 {
        let v = a.0.load(Acquire);
        if (v >> 64) as u64 != v as u64 { bad += 1; break; }
    }
    a.1.store(true, Relaxed);
    t.join().unwrap();
    assert_eq!(bad, 0, "torn read");
}
""", rustflags="--cfg portable_atomic_no_outline_atomics")
