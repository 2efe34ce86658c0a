//! Keys, values, hashing and the user-supplied callbacks of the caches under test.
use crate::clock;
use moka::notification::RemovalCause;
use moka::Expiry;
use serde_json::{json, Value};
use std::hash::{BuildHasher, Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const NONE: i64 = -1;
pub const KEEP: i64 = -2;

#[derive(Default)]
pub struct Registry {
    pub live_vals: AtomicI64,
    pub live_keys: AtomicI64,
}

pub struct KeyTok(Arc<Registry>);
impl Drop for KeyTok {
    fn drop(&mut self) {
        self.0.live_keys.fetch_sub(1, Ordering::SeqCst);
    }
}

/// A key: number, the hash it is to have, and a token to see it dropped.
#[derive(Clone)]
pub struct Key {
    pub k: u32,
    pub h: u64,
    _tok: Arc<KeyTok>,
}
impl Key {
    pub fn new(k: u32, h: u64, reg: &Arc<Registry>) -> Self {
        reg.live_keys.fetch_add(1, Ordering::SeqCst);
        Key { k, h, _tok: Arc::new(KeyTok(Arc::clone(reg))) }
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.k == o.k
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h)
    }
}
impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.k)
    }
}

/// Passes a single `u64` through, and mixes several.
#[derive(Clone, Default)]
pub struct PassHash;
pub struct PassHasher(u64, bool);
impl BuildHasher for PassHash {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0, true)
    }
}
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0.rotate_left(5) ^ (*c as u64)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
        self.1 = false;
    }
    fn write_u64(&mut self, x: u64) {
        if self.1 {
            self.0 = x;
            self.1 = false;
        } else {
            self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        }
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

/// The hash of key `k`, which belongs in segment `seg` (from 0) of `n` (a power of two).
pub fn hash_for(k: u32, seg: u64, n: u64) -> u64 {
    let bits = n.trailing_zeros();
    let h = mix(k as u64 * 7919 + 13);
    if bits == 0 {
        h
    } else {
        (h >> bits) | (seg << (64 - bits))
    }
}

pub struct Inner {
    pub n: i64,
    pub w: u32,
    pub x: usize,
    pub c: i64,
    reg: Arc<Registry>,
}
impl Drop for Inner {
    fn drop(&mut self) {
        self.reg.live_vals.fetch_sub(1, Ordering::SeqCst);
    }
}
#[derive(Clone)]
pub struct Val(pub Arc<Inner>);
impl Val {
    pub fn new(n: i64, w: u32, x: usize, c: i64, reg: &Arc<Registry>) -> Val {
        reg.live_vals.fetch_add(1, Ordering::SeqCst);
        Val(Arc::new(Inner { n, w, x, c, reg: Arc::clone(reg) }))
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.0.n)
    }
}

pub fn dur(units: i64) -> Duration {
    Duration::from_nanos(units as u64 * clock::UNIT)
}

/// Whole units, or -999 if it is no whole number of units.
pub fn units_of(d: Duration) -> i64 {
    let n = d.as_nanos() as u64;
    if n % clock::UNIT == 0 {
        (n / clock::UNIT) as i64
    } else {
        -999
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub cap: i64,
    pub icap: i64,
    pub pol: String,
    pub ttl: i64,
    pub tti: i64,
    pub exp: bool,
    pub table: Vec<[i64; 3]>,
    pub wgh: bool,
    pub lis: bool,
    pub inval: bool,
    pub nseg: u64,
    pub seg: Vec<u64>,
    /// how fillers hash
    pub fh: i64,
    /// how many keys are looked up in a scan
    pub nf: usize,
}
/// The first of the keys which only take room.
pub const FILLERS: u32 = 1000;
impl Cfg {
    pub fn parse(v: &Value) -> Cfg {
        Cfg {
            cap: v["cap"].as_i64().unwrap(),
            icap: v["icap"].as_i64().unwrap_or(NONE),
            pol: v["pol"].as_str().unwrap().into(),
            ttl: v["ttl"].as_i64().unwrap(),
            tti: v["tti"].as_i64().unwrap(),
            exp: v["exp"].as_bool().unwrap(),
            table: v["table"]
                .as_array()
                .unwrap()
                .iter()
                .map(|t| [t["c"].as_i64().unwrap(), t["u"].as_i64().unwrap(), t["r"].as_i64().unwrap()])
                .collect(),
            wgh: v["wgh"].as_bool().unwrap(),
            lis: v["lis"].as_bool().unwrap(),
            inval: v["inval"].as_bool().unwrap(),
            nseg: v["nseg"].as_u64().unwrap(),
            nf: v["nf"].as_u64().unwrap_or(0) as usize,
            fh: v["fh"].as_i64().unwrap_or(0),
            seg: v["seg"].as_array().map(|a| a.iter().map(|s| s.as_u64().unwrap()).collect()).unwrap_or_default(),
        }
    }
    pub fn hash(&self, k: u32) -> u64 {
        if k >= FILLERS {
            return match self.fh {
                2 => (mix(k as u64) & !0xf_ffff) | 0x1_2345,
                3 => mix(k as u64) >> 8,
                _ => mix(k as u64),
            };
        }
        hash_for(k, self.seg[k as usize - 1] - 1, self.nseg)
    }
}

/// Hashes which share no counter of the popularity sketch with one another or those given.
pub fn apart(taken: &[u64], n: usize) -> Vec<u64> {
    const SEED: [u64; 4] = [0xc3a5_c85c_97cb_3127, 0xb492_b66f_be98_f273, 0x9ae1_6a3b_2f90_404f, 0xcbf2_9ce4_8422_2325];
    let places = |h: u64| -> [(u64, usize, u64); 4] {
        [0, 1, 2, 3].map(|i| {
            let x = h.wrapping_add(SEED[i]).wrapping_mul(SEED[i]);
            (h & 3, i, x.wrapping_add(x >> 32) & 127)
        })
    };
    let mut used: std::collections::HashSet<_> = taken.iter().flat_map(|h| places(*h)).collect();
    let mut out = vec![];
    for j in 0.. {
        if out.len() == n {
            break;
        }
        let h = mix(j + 0x5_0000);
        let p = places(h);
        if p.iter().all(|x| !used.contains(x)) {
            used.extend(p);
            out.push(h);
        }
    }
    out
}

#[derive(Default)]
pub struct Log {
    pub ev: Mutex<Vec<(u32, i64, &'static str)>>,
    pub cb: Mutex<Vec<Value>>,
    pub ev_count: AtomicUsize,
}

pub fn cause_name(c: RemovalCause) -> &'static str {
    match c {
        RemovalCause::Expired => "Expired",
        RemovalCause::Explicit => "Explicit",
        RemovalCause::Replaced => "Replaced",
        RemovalCause::Size => "Size",
    }
}

pub struct Exp {
    pub table: Vec<[i64; 3]>,
    pub log: Arc<Log>,
    pub base: Instant,
}
impl Exp {
    fn ans(&self, x: usize, which: usize, given: Option<Duration>) -> Option<Duration> {
        match self.table[x - 1][which] {
            NONE => None,
            KEEP => given,
            d => Some(dur(d)),
        }
    }
    fn at(&self, t: Instant) -> i64 {
        t.checked_duration_since(self.base).map(units_of).unwrap_or(-998)
    }
    fn d(d: Option<Duration>) -> i64 {
        d.map(units_of).unwrap_or(NONE)
    }
}
impl Expiry<Key, Val> for Exp {
    fn expire_after_create(&self, k: &Key, v: &Val, t: Instant) -> Option<Duration> {
        self.log.cb.lock().unwrap().push(
            json!({"f": "create", "k": k.k, "n": v.0.n, "t": self.at(t), "d": NONE}),
        );
        self.ans(v.0.x, 0, None)
    }
    fn expire_after_update(&self, k: &Key, v: &Val, t: Instant, d: Option<Duration>) -> Option<Duration> {
        self.log.cb.lock().unwrap().push(
            json!({"f": "update", "k": k.k, "n": v.0.n, "t": self.at(t), "d": Self::d(d)}),
        );
        self.ans(v.0.x, 1, d)
    }
    fn expire_after_read(&self, k: &Key, v: &Val, t: Instant, d: Option<Duration>, lm: Instant) -> Option<Duration> {
        self.log.cb.lock().unwrap().push(
            json!({"f": "read", "k": k.k, "n": v.0.n, "t": self.at(t), "d": Self::d(d), "lm": self.at(lm)}),
        );
        self.ans(v.0.x, 2, d)
    }
}

pub fn pred_holds(p: i64, k: &Key, v: &Val) -> bool {
    match p {
        1 => k.k % 2 == 1,
        2 => v.0.c == 1,
        // (MokaBulk: keys of p - 100 groups alternate.)
        p if p >= 100 => (k.k as i64 - 1) % (p - 100) % 2 == 0,
        _ => true,
    }
}

/// Runs pending destructors of the epoch collector.
pub fn flush_epoch(done: impl Fn() -> bool) -> bool {
    use std::sync::atomic::{AtomicU32, Ordering};
    // (Other threads hold the epoch back for a moment, so be patient; but a real leak is not
    // waited for again and again.)
    static GAVE_UP: AtomicU32 = AtomicU32::new(0);
    let most = if GAVE_UP.load(Ordering::Relaxed) < 8 { 3000 } else { 600 };
    for i in 0..most {
        if done() {
            return true;
        }
        crossbeam_epoch::pin().flush();
        if i > 500 {
            std::thread::sleep(std::time::Duration::from_millis(2));
        } else if i > 100 {
            std::thread::yield_now();
        }
    }
    if !done() {
        GAVE_UP.fetch_add(1, Ordering::Relaxed);
        return false;
    }
    true
}
