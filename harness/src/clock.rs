//! Virtual wall clock. The harness defines `clock_gettime`, which std uses for
//! `SystemTime::now()`; CLOCK_REALTIME is thread-local virtual time when set.
//! Not available under Miri or sanitizers (feature detection by cfg below): there
//! `set` returns false and workloads use real time with wide margins.
use std::cell::Cell;

thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static TICK: Cell<i64> = const { Cell::new(0) };
    static READS: Cell<u64> = const { Cell::new(0) };
}

pub const ENABLED: bool = !cfg!(any(miri, no_virtual_clock));

/// Freeze the wall clock of this thread.
pub fn set(secs: i64, nanos: i64) {
    NOW.with(|n| n.set(Some((secs, nanos))));
    TICK.with(|t| t.set(0));
}
/// Every read of the clock advances it by `ns`.
pub fn set_tick(ns: i64) {
    TICK.with(|t| t.set(ns));
}
pub fn real() {
    NOW.with(|n| n.set(None));
    TICK.with(|t| t.set(0));
}
pub fn reads() -> u64 {
    READS.with(|r| r.get())
}

#[cfg(not(any(miri, no_virtual_clock)))]
mod hook {
    use super::*;
    #[repr(C)]
    pub struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    /// # Safety
    /// Called by libc users with a valid pointer.
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
        // (processor time is the harness's own business)
        if id != 3 {
            crate::probe::clock_read();
        }
        if id == 0 {
            if let Ok(Some((s, n))) = NOW.try_with(|n| n.get()) {
                let _ = READS.try_with(|r| r.set(r.get() + 1));
                (*ts).sec = s;
                (*ts).nsec = n;
                let t = TICK.try_with(|t| t.get()).unwrap_or(0);
                if t != 0 {
                    let total = n + t;
                    let _ = NOW.try_with(|c| {
                        c.set(Some((
                            s + total.div_euclid(1_000_000_000),
                            total.rem_euclid(1_000_000_000),
                        )))
                    });
                }
                return 0;
            }
        }
        syscall(228, id as i64, ts) as i32
    }
}

/// Proof that the virtual clock is in effect (otherwise every time verdict would be void).
pub fn self_test() -> Result<(), String> {
    if !ENABLED {
        return Ok(());
    }
    set(1_234_567_890, 123_456_789);
    let t = chrono::Utc::now();
    real();
    let u = chrono::Utc::now();
    if t.timestamp() == 1_234_567_890
        && t.timestamp_subsec_nanos() == 123_456_789
        && u.timestamp() > 1_600_000_000
    {
        Ok(())
    } else {
        Err(format!("virtual clock not in effect: {t} {u}"))
    }
}
