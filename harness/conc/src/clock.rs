//! The scheduler (rt.c) and the recording of events, under the names which the shared modules use.
use serde_json::{json, Value};
use std::cell::{Cell, UnsafeCell};
use std::future::Future;
use std::pin::{pin, Pin};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub const UNIT: u64 = 1 << 26;

extern "C" {
    pub fn sch_point();
    pub fn sch_begin(n: i32, seed: u64, strategy: i32, mean: i64, nch: i32, len: u64, limit: u64);
    pub fn sch_worker_enter(id: i32);
    pub fn sch_worker_leave();
    pub fn sch_run() -> i32;
    pub fn sch_points() -> u64;
    pub fn sch_switches() -> u64;
    pub fn sch_me() -> i32;
    pub fn clk_mode(v: i64);
    pub fn clk_set(ns: u64);
    pub fn clk_now() -> u64;
}

pub fn controlled() -> bool {
    unsafe { sch_me() >= 0 }
}
pub fn me() -> i64 {
    // 0: the main thread; workers from 1.
    unsafe { sch_me() as i64 + 1 }
}
pub fn point() {
    unsafe { sch_point() }
}

// --- events. Only one thread runs at a time, so that no lock is needed.
pub struct Rec(UnsafeCell<Vec<Value>>);
unsafe impl Sync for Rec {}
pub static REC: Rec = Rec(UnsafeCell::new(Vec::new()));
pub fn record(v: Value) {
    unsafe { (*REC.0.get()).push(v) }
}
pub fn take() -> Vec<Value> {
    unsafe { std::mem::take(&mut *REC.0.get()) }
}
pub fn ev(e: &str, k: i64, n: i64, s: &str) {
    record(json!({"e": e, "t": me(), "k": k, "n": n, "s": s}));
}

pub static ASYNC_LIS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn hook(what: &'static str, n: i64) {
    ev(what, 0, n, "");
    point();
}
/// Notifications of fillers, by key.
pub static HEARD: Rec2 = Rec2(UnsafeCell::new(Vec::new()));
pub struct Rec2(pub UnsafeCell<Vec<u32>>);
unsafe impl Sync for Rec2 {}
const FILLERS: u32 = 1000;

pub fn notified(k: u32, n: i64, c: &'static str) {
    if k >= FILLERS {
        unsafe { (*HEARD.0.get()).push(k) };
        point();
        return;
    }
    ev("n", k as i64, n, c);
    point();
}
pub fn notified_inner(k: u32, n: i64) {
    if k >= FILLERS {
        return;
    }
    if !ASYNC_LIS.load(std::sync::atomic::Ordering::Relaxed) || !controlled() {
        ev("m", k as i64, n, "");
    }
}
pub fn notified_end(k: u32, n: i64) {
    if k >= FILLERS {
        return;
    }
    ev("m", k as i64, n, "");
}

// --- futures
thread_local! {
    /// How often the current future may be polled before it is dropped (-1: as often as needed).
    pub static POLLS: Cell<i64> = const { Cell::new(-1) };
    pub static PAUSES: Cell<u32> = const { Cell::new(0) };
}
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
pub struct Dropped;
/// Drives a future, parking the thread while it is pending; unwinds with `Dropped` once it has been
/// polled too often.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    {
        let mut f = pin!(f);
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
                return x;
            }
            let left = POLLS.get();
            if left == 0 {
                ev("d", 0, 0, "");
                break;
            }
            POLLS.set(left - 1);
            if left > 0 {
                // To be dropped: it need not wait to be woken.
                point();
                std::thread::yield_now();
            } else {
                std::thread::park();
            }
        }
    }
    std::panic::panic_any(Dropped)
}
struct Pause(u32);
impl Future for Pause {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub async fn pause() {
    Pause(PAUSES.get()).await
}
pub fn is_drop(e: &(dyn std::any::Any + Send)) -> bool {
    e.is::<Dropped>()
}
