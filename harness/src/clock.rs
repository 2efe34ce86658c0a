//! A virtual clock. `std::time::Instant::now` calls `clock_gettime`, which is defined here instead
//! of in the C library: a thread which has set a virtual time reads that, others the real one.
use std::cell::Cell;

thread_local! {
    static VIRT: Cell<i64> = const { Cell::new(-1) };
}

const BASE_SECS: i64 = 1_000_000;
/// One unit of time of the specification.
pub const UNIT: u64 = 1 << 26;

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

/// # Safety
/// As `clock_gettime(3)`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let v = VIRT.try_with(|v| v.get()).unwrap_or(-1);
    if clk == 1 && v >= 0 {
        (*ts).sec = BASE_SECS + v / 1_000_000_000;
        (*ts).nsec = v % 1_000_000_000;
        return 0;
    }
    syscall(228, clk as i64, ts) as i32
}

/// Sets this thread's time, in nanoseconds.
pub fn set_ns(ns: u64) {
    VIRT.with(|v| v.set(ns as i64));
}
pub fn set(units: u64) {
    set_ns(units * UNIT);
}
pub fn now_units() -> u64 {
    VIRT.with(|v| v.get() as u64 / UNIT)
}

// The rest is for runs with several threads; here there is one.
pub fn controlled() -> bool {
    false
}
pub fn block_on<F: std::future::Future>(_f: F) -> F::Output {
    unreachable!()
}
pub async fn pause() {}
pub fn hook(_what: &'static str, _n: i64) {}
pub fn notified(_k: u32, _n: i64, _c: &'static str) {}
pub fn notified_inner(_k: u32, _n: i64) {}
pub fn notified_end(_k: u32, _n: i64) {}
pub fn is_drop(_e: &(dyn std::any::Any + Send)) -> bool {
    false
}
