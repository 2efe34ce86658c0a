//! One interface to the three caches, by operation of the specification.
use crate::model::*;
use moka::ops::compute::{CompResult, Op as MOp};
use moka::policy::EvictionPolicy;
use moka::{Entry, PredicateError};
use serde_json::Value;
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::pin;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Op {
    pub op: String,
    pub k: u32,
    pub n: i64,
    pub w: u32,
    pub x: usize,
    pub c: i64,
    pub o: String,
    pub oi: i64,
}
impl Op {
    pub fn parse(v: &Value) -> Op {
        let val = &v["v"];
        Op {
            op: v["op"].as_str().unwrap().into(),
            k: v["k"].as_u64().unwrap() as u32,
            n: val["n"].as_i64().unwrap(),
            w: val["w"].as_u64().unwrap() as u32,
            x: val["x"].as_u64().unwrap() as usize,
            c: val["c"].as_i64().unwrap(),
            o: v["o"].as_str().unwrap_or("").into(),
            oi: v["o"].as_i64().unwrap_or(0),
        }
    }
}

/// What an operation answered. `fr`, `rp`, `key`: where the answer is an `Entry`.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Res {
    pub r: String,
    pub n: i64,
    pub fr: Option<bool>,
    pub rp: Option<bool>,
    pub key: Option<u32>,
    /// what the compute closure was given
    pub g: Option<i64>,
    /// how often user closures were run
    pub runs: u32,
}
pub fn res(r: &str, n: i64) -> Res {
    Res { r: r.into(), n, ..Default::default() }
}
fn ent(e: Entry<Key, Val>) -> Res {
    Res {
        r: "val".into(),
        n: e.value().0.n,
        fr: Some(e.is_fresh()),
        rp: Some(e.is_old_value_replaced()),
        key: Some(e.key().k),
        ..Default::default()
    }
}
fn comp(c: CompResult<Key, Val>) -> Res {
    let (name, e) = match c {
        CompResult::StillNone(k) => {
            return Res { key: Some(k.k), ..res("StillNone", 0) };
        }
        CompResult::Inserted(e) => ("Inserted", e),
        CompResult::ReplacedWith(e) => ("ReplacedWith", e),
        CompResult::Removed(e) => ("Removed", e),
        CompResult::Unchanged(e) => ("Unchanged", e),
    };
    Res { r: name.into(), ..ent(e) }
}

pub trait Api {
    fn exec(&self, op: &Op, form: u32, env: &Env) -> Res;
    fn contains(&self, k: &Key) -> bool;
    fn iter(&self) -> Vec<(u32, i64)>;
    fn counts(&self) -> (u64, u64);
    fn sync(&self);
    fn get(&self, k: &Key) -> Option<i64>;
    fn policy(&self) -> moka::Policy;
    fn name(&self) -> Option<String>;
}

pub struct Env {
    pub cfg: Cfg,
    pub reg: Arc<Registry>,
    pub log: Arc<Log>,
    pub keys: Vec<Key>,
    pub base: Instant,
    pub lis_panic_at: Option<usize>,
}
impl Env {
    pub fn key(&self, k: u32) -> Key {
        // (Once the keys are there, they tell the hashes.)
        let h = self.keys.get(k as usize - 1).map(|x| x.h).unwrap_or_else(|| self.cfg.hash(k));
        Key::new(k, h, &self.reg)
    }
    pub fn kref(&self, k: u32) -> &Key {
        &self.keys[k as usize - 1]
    }
    /// A key to look up with, for a call on `k`.
    pub fn look(&self, k: u32) -> std::borrow::Cow<'_, Key> {
        match self.keys.get(k as usize - 1) {
            Some(key) => std::borrow::Cow::Borrowed(key),
            None => std::borrow::Cow::Owned(self.key(k)),
        }
    }
    pub fn val(&self, op: &Op) -> Val {
        Val::new(op.n, op.w, op.x, op.c, &self.reg)
    }
}

thread_local! { static DEFAULT: RefCell<Option<Val>> = const { RefCell::new(None) }; }
impl Default for Val {
    fn default() -> Val {
        DEFAULT.with(|d| d.borrow_mut().take()).expect("or_default evaluated unexpectedly")
    }
}

pub fn noop_waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RAW, |_| {}, |_| {}, |_| {});
    const RAW: RawWaker = RawWaker::new(std::ptr::null(), &VT);
    unsafe { Waker::from_raw(RAW) }
}
struct Unpark(std::thread::Thread);
impl std::task::Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
/// Whether several threads use a cache, so that futures have to wait for each other.
pub static PARKING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn block_on<F: Future>(f: F) -> F::Output {
    if PARKING.load(Ordering::Relaxed) {
        let w = Waker::from(Arc::new(Unpark(std::thread::current())));
        let mut cx = Context::from_waker(&w);
        let mut f = pin!(f);
        loop {
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(x) => return x,
                Poll::Pending => std::thread::park(),
            }
        }
    }
    if crate::clock::controlled() {
        return crate::clock::block_on(f);
    }
    let mut f = pin!(f);
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..100_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
    panic!("STUCK: a future of a single task does not complete");
}

macro_rules! common_api {
    () => {
        fn contains(&self, k: &Key) -> bool {
            self.contains_key(k)
        }
        fn iter(&self) -> Vec<(u32, i64)> {
            let mut v: Vec<_> = self.iter().map(|(k, v)| (k.k, v.0.n)).collect();
            v.sort();
            v
        }
        fn counts(&self) -> (u64, u64) {
            (self.entry_count(), self.weighted_size())
        }
        fn policy(&self) -> moka::Policy {
            self.policy()
        }
        fn name(&self) -> Option<String> {
            self.name().map(|s| s.to_string())
        }
    };
}

fn none_or(v: Option<Val>) -> Res {
    match v {
        Some(v) => res("val", v.0.n),
        None => res("none", 0),
    }
}

fn guarded(f: impl FnOnce() -> Res) -> Res {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) if crate::clock::is_drop(&*e) => res("dropped", 0),
        Err(e) => {
            let msg = e
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_default();
            if msg == "planned" {
                res("panic", 0)
            } else {
                res(&format!("PANIC: {msg}"), 0)
            }
        }
    }
}

macro_rules! sync_api {
    ($t:ty) => {
        impl Api for $t {
            common_api!();
            fn sync(&self) {
                self.run_pending_tasks()
            }
            fn get(&self, k: &Key) -> Option<i64> {
                <$t>::get(self, k).map(|v| v.0.n)
            }
            fn exec(&self, op: &Op, form: u32, env: &Env) -> Res {
                let runs = RefCell::new(0u32);
                let given = RefCell::new(None);
                let by_ref = form & 1 == 1;
                let entry = form & 2 == 2;
                let v = || {
                    *runs.borrow_mut() += 1;
                    crate::clock::hook("i", given.borrow().unwrap_or(0));
                    let v = env.val(op);
                    crate::clock::hook("j", 0);
                    if op.o == "panic" {
                        std::panic::panic_any("planned");
                    }
                    v
                };
                let vo = || {
                    let v = v();
                    if op.o == "none" { None } else { Some(v) }
                };
                let vr = || {
                    let v = v();
                    if op.o == "err" { Err(op.n) } else { Ok(v) }
                };
                let mop = |e: Option<Entry<Key, Val>>| {
                    *given.borrow_mut() = Some(e.map(|e| e.into_value().0.n).unwrap_or(0));
                    let v = v();
                    match op.o.as_str() {
                        "put" => MOp::Put(v),
                        "rem" => MOp::Remove,
                        _ => MOp::Nop,
                    }
                };
                let look = env.look(op.k);
                let kr: &Key = &look;
                let ko = || env.key(op.k);
                let mut out = guarded(|| match op.op.as_str() {
                    "ins" => {
                        self.insert(ko(), env.val(op));
                        res("unit", 0)
                    }
                    "con" => res(if self.contains_key(kr) { "val" } else { "none" }, 0),
                    "get" => none_or(self.get(kr)),
                    "rem" => none_or(self.remove(kr)),
                    "inv" => {
                        self.invalidate(kr);
                        res("unit", 0)
                    }
                    "ia" => {
                        self.invalidate_all();
                        res("unit", 0)
                    }
                    "iif" => {
                        let p = op.oi;
                        match self.invalidate_entries_if(move |k, v| pred_holds(p, k, v)) {
                            Ok(_) => res("unit", 0),
                            Err(PredicateError::InvalidationClosuresDisabled) => res("err", 0),
                        }
                    }
                    "sync" => {
                        self.run_pending_tasks();
                        res("unit", 0)
                    }
                    "gw" => match (entry, by_ref) {
                        (false, false) => res("val", self.get_with(ko(), v).0.n),
                        (false, true) => res("val", self.get_with_by_ref(kr, v).0.n),
                        (true, false) => ent(self.entry(ko()).or_insert_with(v)),
                        (true, true) => ent(self.entry_by_ref(kr).or_insert_with(v)),
                    },
                    "gwif" => {
                        let ri = |v: &Val| v.0.c == 1;
                        match (entry, by_ref) {
                            #[allow(deprecated)]
                            (false, _) => res("val", self.get_with_if(ko(), v, ri).0.n),
                            (true, false) => ent(self.entry(ko()).or_insert_with_if(v, ri)),
                            (true, true) => ent(self.entry_by_ref(kr).or_insert_with_if(v, ri)),
                        }
                    }
                    "ogw" => match (entry, by_ref) {
                        (false, false) => none_or(self.optionally_get_with(ko(), vo)),
                        (false, true) => none_or(self.optionally_get_with_by_ref(kr, vo)),
                        (true, false) => self.entry(ko()).or_optionally_insert_with(vo).map(ent).unwrap_or(res("none", 0)),
                        (true, true) => self.entry_by_ref(kr).or_optionally_insert_with(vo).map(ent).unwrap_or(res("none", 0)),
                    },
                    "tgw" => {
                        let r = match (entry, by_ref) {
                            (false, false) => self.try_get_with(ko(), vr).map(|v| res("val", v.0.n)),
                            (false, true) => self.try_get_with_by_ref(kr, vr).map(|v| res("val", v.0.n)),
                            (true, false) => self.entry(ko()).or_try_insert_with(vr).map(ent),
                            (true, true) => self.entry_by_ref(kr).or_try_insert_with(vr).map(ent),
                        };
                        r.unwrap_or_else(|e| if *e == op.n { res("err", 0) } else { res("other err", *e) })
                    }
                    "oi" => {
                        if entry {
                            // `or_default` takes its value from a thread-local.
                            DEFAULT.with(|d| *d.borrow_mut() = Some(env.val(op)));
                            let r = if by_ref { self.entry_by_ref(kr).or_default() } else { self.entry(ko()).or_default() };
                            DEFAULT.with(|d| *d.borrow_mut() = None);
                            ent(r)
                        } else if by_ref {
                            ent(self.entry_by_ref(kr).or_insert(env.val(op)))
                        } else {
                            ent(self.entry(ko()).or_insert(env.val(op)))
                        }
                    }
                    "cmp" => comp(if by_ref {
                        self.entry_by_ref(kr).and_compute_with(mop)
                    } else {
                        self.entry(ko()).and_compute_with(mop)
                    }),
                    "tcmp" => {
                        let f = |e: Option<Entry<Key, Val>>| {
                            let m = mop(e);
                            if op.o == "err" { Err(op.n) } else { Ok(m) }
                        };
                        let r = if by_ref {
                            self.entry_by_ref(kr).and_try_compute_with(f)
                        } else {
                            self.entry(ko()).and_try_compute_with(f)
                        };
                        r.map(comp).unwrap_or_else(|e| if e == op.n { res("err", 0) } else { res("other err", e) })
                    }
                    "ups" => {
                        let f = |e: Option<Entry<Key, Val>>| {
                            *given.borrow_mut() = Some(e.map(|e| e.into_value().0.n).unwrap_or(0));
                            v()
                        };
                        let r = ent(if by_ref {
                            self.entry_by_ref(kr).and_upsert_with(f)
                        } else {
                            self.entry(ko()).and_upsert_with(f)
                        });
                        Res { r: if r.rp == Some(true) { "ReplacedWith".into() } else { "Inserted".into() }, ..r }
                    }
                    z => panic!("unknown operation {z}"),
                });
                out.runs = runs.into_inner();
                out.g = given.into_inner();
                out
            }
        }
    };
}
sync_api!(moka::sync::Cache<Key, Val, PassHash>);
sync_api!(moka::sync::SegmentedCache<Key, Val, PassHash>);

impl Api for moka::future::Cache<Key, Val, PassHash> {
    common_api!();
    fn sync(&self) {
        block_on(self.run_pending_tasks())
    }
    fn get(&self, k: &Key) -> Option<i64> {
        block_on(self.get(k)).map(|v| v.0.n)
    }
    fn exec(&self, op: &Op, form: u32, env: &Env) -> Res {
        let runs = RefCell::new(0u32);
        let given = RefCell::new(None);
        let by_ref = form & 1 == 1;
        let entry = form & 2 == 2;
        let mk = || async {
            *runs.borrow_mut() += 1;
            let g = given.borrow().unwrap_or(0);
            crate::clock::hook("i", g);
            let v = env.val(op);
            crate::clock::pause().await;
            crate::clock::hook("j", 0);
            if op.o == "panic" {
                std::panic::panic_any("planned");
            }
            v
        };
        let look = env.look(op.k);
        let kr: &Key = &look;
        let ko = || env.key(op.k);
        let mut out = guarded(|| {
            block_on(async {
                let v = mk();
                let vo = async {
                    let v = mk().await;
                    if op.o == "none" { None } else { Some(v) }
                };
                let vr = async {
                    let v = mk().await;
                    if op.o == "err" { Err(op.n) } else { Ok(v) }
                };
                let note = |e: Option<Entry<Key, Val>>| {
                    *given.borrow_mut() = Some(e.map(|e| e.into_value().0.n).unwrap_or(0));
                };
                let pick = || async {
                    let v = mk().await;
                    match op.o.as_str() {
                        "put" => MOp::Put(v),
                        "rem" => MOp::Remove,
                        _ => MOp::Nop,
                    }
                };
                let mop = |e: Option<Entry<Key, Val>>| {
                    note(e);
                    pick()
                };
                match op.op.as_str() {
                    "ins" => {
                        self.insert(ko(), env.val(op)).await;
                        res("unit", 0)
                    }
                    "con" => res(if self.contains_key(kr) { "val" } else { "none" }, 0),
                    "get" => none_or(self.get(kr).await),
                    "rem" => none_or(self.remove(kr).await),
                    "inv" => {
                        self.invalidate(kr).await;
                        res("unit", 0)
                    }
                    "ia" => {
                        self.invalidate_all();
                        res("unit", 0)
                    }
                    "iif" => {
                        let p = op.oi;
                        match self.invalidate_entries_if(move |k, v| pred_holds(p, k, v)) {
                            Ok(_) => res("unit", 0),
                            Err(PredicateError::InvalidationClosuresDisabled) => res("err", 0),
                        }
                    }
                    "sync" => {
                        self.run_pending_tasks().await;
                        res("unit", 0)
                    }
                    "gw" => match (entry, by_ref) {
                        (false, false) => res("val", self.get_with(ko(), v).await.0.n),
                        (false, true) => res("val", self.get_with_by_ref(kr, v).await.0.n),
                        (true, false) => ent(self.entry(ko()).or_insert_with(v).await),
                        (true, true) => ent(self.entry_by_ref(kr).or_insert_with(v).await),
                    },
                    "gwif" => {
                        let ri = |v: &Val| v.0.c == 1;
                        match (entry, by_ref) {
                            #[allow(deprecated)]
                            (false, _) => res("val", self.get_with_if(ko(), v, ri).await.0.n),
                            (true, false) => ent(self.entry(ko()).or_insert_with_if(v, ri).await),
                            (true, true) => ent(self.entry_by_ref(kr).or_insert_with_if(v, ri).await),
                        }
                    }
                    "ogw" => match (entry, by_ref) {
                        (false, false) => none_or(self.optionally_get_with(ko(), vo).await),
                        (false, true) => none_or(self.optionally_get_with_by_ref(kr, vo).await),
                        (true, false) => self.entry(ko()).or_optionally_insert_with(vo).await.map(ent).unwrap_or(res("none", 0)),
                        (true, true) => self.entry_by_ref(kr).or_optionally_insert_with(vo).await.map(ent).unwrap_or(res("none", 0)),
                    },
                    "tgw" => {
                        let r = match (entry, by_ref) {
                            (false, false) => self.try_get_with(ko(), vr).await.map(|v| res("val", v.0.n)),
                            (false, true) => self.try_get_with_by_ref(kr, vr).await.map(|v| res("val", v.0.n)),
                            (true, false) => self.entry(ko()).or_try_insert_with(vr).await.map(ent),
                            (true, true) => self.entry_by_ref(kr).or_try_insert_with(vr).await.map(ent),
                        };
                        r.unwrap_or_else(|e| if *e == op.n { res("err", 0) } else { res("other err", *e) })
                    }
                    "oi" => {
                        if entry {
                            DEFAULT.with(|d| *d.borrow_mut() = Some(env.val(op)));
                            let r = if by_ref {
                                self.entry_by_ref(kr).or_default().await
                            } else {
                                self.entry(ko()).or_default().await
                            };
                            DEFAULT.with(|d| *d.borrow_mut() = None);
                            ent(r)
                        } else if by_ref {
                            ent(self.entry_by_ref(kr).or_insert(env.val(op)).await)
                        } else {
                            ent(self.entry(ko()).or_insert(env.val(op)).await)
                        }
                    }
                    "cmp" => comp(if by_ref {
                        self.entry_by_ref(kr).and_compute_with(mop).await
                    } else {
                        self.entry(ko()).and_compute_with(mop).await
                    }),
                    "tcmp" => {
                        let f = |e: Option<Entry<Key, Val>>| {
                            note(e);
                            async {
                                let m = pick().await;
                                if op.o == "err" { Err(op.n) } else { Ok(m) }
                            }
                        };
                        let r = if by_ref {
                            self.entry_by_ref(kr).and_try_compute_with(f).await
                        } else {
                            self.entry(ko()).and_try_compute_with(f).await
                        };
                        r.map(comp).unwrap_or_else(|e| if e == op.n { res("err", 0) } else { res("other err", e) })
                    }
                    "ups" => {
                        let f = |e: Option<Entry<Key, Val>>| {
                            note(e);
                            mk()
                        };
                        let r = ent(if by_ref {
                            self.entry_by_ref(kr).and_upsert_with(f).await
                        } else {
                            self.entry(ko()).and_upsert_with(f).await
                        });
                        Res { r: if r.rp == Some(true) { "ReplacedWith".into() } else { "Inserted".into() }, ..r }
                    }
                    z => panic!("unknown operation {z}"),
                }
            })
        });
        out.runs = runs.into_inner();
        out.g = given.into_inner();
        out
    }
}

macro_rules! configure {
    ($b:expr, $env:expr, $afut:expr) => {{
        let cfg = &$env.cfg;
        let mut b = $b;
        if cfg.icap >= 0 {
            b = b.initial_capacity(cfg.icap as usize);
        }
        if cfg.cap >= 0 {
            b = b.max_capacity(cfg.cap as u64);
        }
        b = b.eviction_policy(if cfg.pol == "lru" { EvictionPolicy::lru() } else { EvictionPolicy::tiny_lfu() });
        if cfg.ttl >= 0 {
            b = b.time_to_live(dur(cfg.ttl));
        }
        if cfg.tti >= 0 {
            b = b.time_to_idle(dur(cfg.tti));
        }
        if cfg.exp {
            b = b.expire_after(Exp { table: cfg.table.clone(), log: Arc::clone(&$env.log), base: $env.base });
        }
        if cfg.wgh {
            b = b.weigher(|_k: &Key, v: &Val| v.0.w);
        }
        if cfg.inval {
            b = b.support_invalidation_closures();
        }
        b
    }};
}

fn heard(log: &Log, panic_at: Option<usize>, k: u32, n: i64, c: &'static str) {
    crate::clock::notified(k, n, c);
    log.ev.lock().unwrap().push((k, n, c));
    let i = log.ev_count.fetch_add(1, Ordering::SeqCst);
    crate::clock::notified_inner(k, n);
    if panic_at == Some(i) {
        std::panic::panic_any("planned");
    }
}

pub fn build_sync(env: &Env) -> moka::sync::Cache<Key, Val, PassHash> {
    let mut b = configure!(moka::sync::Cache::builder(), env, false);
    if env.cfg.lis {
        let (log, p) = (Arc::clone(&env.log), env.lis_panic_at);
        b = b.eviction_listener(move |k: Arc<Key>, v: Val, c| heard(&log, p, k.k, v.0.n, cause_name(c)));
    }
    b.build_with_hasher(PassHash)
}
pub fn build_seg(env: &Env) -> moka::sync::SegmentedCache<Key, Val, PassHash> {
    let mut b = configure!(moka::sync::SegmentedCache::builder(env.cfg.nseg as usize), env, false);
    if env.cfg.lis {
        let (log, p) = (Arc::clone(&env.log), env.lis_panic_at);
        b = b.eviction_listener(move |k: Arc<Key>, v: Val, c| heard(&log, p, k.k, v.0.n, cause_name(c)));
    }
    b.build_with_hasher(PassHash)
}
pub fn build_future(env: &Env, asynchronous: bool) -> moka::future::Cache<Key, Val, PassHash> {
    let mut b = configure!(moka::future::Cache::builder(), env, true);
    if env.cfg.lis {
        let (log, p) = (Arc::clone(&env.log), env.lis_panic_at);
        if asynchronous {
            b = b.async_eviction_listener(move |k: Arc<Key>, v: Val, c| {
                let log = Arc::clone(&log);
                Box::pin(async move {
                    heard(&log, p, k.k, v.0.n, cause_name(c));
                    if crate::clock::controlled() {
                        crate::clock::pause().await;
                        crate::clock::notified_end(k.k, v.0.n);
                    }
                })
            });
        } else {
            b = b.eviction_listener(move |k: Arc<Key>, v: Val, c| heard(&log, p, k.k, v.0.n, cause_name(c)));
        }
    }
    b.build_with_hasher(PassHash)
}
