S("float-zero-retry", "C17",
  [("src/imp/float/int.rs", "Err(next_prev) => prev = next_prev,", """// Keep the value we already computed `next` from if nothing changed.
                        Err(next_prev) if next_prev == prev => {}
                        Err(next_prev) => prev = next_prev,""")],
  "a float read-modify-write (CAS loop) whose compare-exchange fails because another thread replaced 0.0 by -0.0 (or back), and nobody writes again",
  "the retry keeps expecting the old zero, which compares equal to the new one as a float but differs in bits: the operation never completes although it runs alone",
  """
use portable_atomic::{AtomicF64, Ordering};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as O};
use std::time::{Duration, Instant};
static A: AtomicF64 = AtomicF64::new(0.0);
static DONE: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
fn main() {
    let w = std::thread::spawn(|| {
        while !STOP.load(O::Relaxed) {
            A.fetch_max(f64::NEG_INFINITY, Ordering::AcqRel);
            DONE.fetch_add(1, O::Relaxed);
        }
    });
    let end = Instant::now() + Duration::from_secs(20);
    while Instant::now() < end {
        // other threads change the value for a while ...
        for i in 0..2000 {
            A.store(if i & 1 == 0 { -0.0 } else { 0.0 }, Ordering::Release);
        }
        // ... and then leave it alone: the operation must get through
        let seen = DONE.load(O::Relaxed);
        let t = Instant::now();
        while DONE.load(O::Relaxed) == seen {
            if t.elapsed() > Duration::from_secs(10) {
                println!("fetch_max running alone does not complete");
                std::process::exit(1);
            }
            std::thread::yield_now();
        }
    }
    STOP.store(true, O::Relaxed);
    w.join().unwrap();
}
""")
