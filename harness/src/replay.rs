//! Replays behaviours of MokaSim on the real caches and compares every observation.
use crate::api::*;
use crate::clock;
use crate::model::*;
use serde_json::{json, Value};
use crate::pool::*;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Sync,
    Seg,
    Future,
    FutureAsync,
}

pub struct Mode {
    /// probe (contains_key for all keys, iterate, counters) after each step, or only at the end
    pub probe: bool,
    /// the listener panics at this call
    pub lis_panic_at: Option<usize>,
}

/// Values by number, 0 for none: what is wrong with the one that was observed.
fn direction(want: i64, got: i64) -> &'static str {
    match (want, got) {
        (0, _) => "ghost",
        (_, 0) => "lost",
        _ => "wrong",
    }
}

fn ev_json(e: &[(u32, i64, &'static str)]) -> Value {
    Value::Array(e.iter().map(|(k, n, c)| json!([k, n, c])).collect())
}

/// What happened `m` times.
fn expand(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for e in v.as_array().unwrap() {
        let mut e = e.clone();
        let m = e.as_object_mut().unwrap().remove("m").and_then(|m| m.as_u64()).unwrap_or(1);
        out.extend((0..m).map(|_| e.clone()));
    }
    out
}

/// Operations which are carried out many times, each followed by a maintenance (or every so often where it does not matter).
fn exec_many(cache: &dyn Api, env: &Env, op: &Op, form: u32, slot: &Slot) -> Res {
    let one = |what: &str, k: u32, form: u32| cache.exec(&Op { op: what.into(), k, o: String::new(), oi: 0, ..op.clone() }, form, env);
    let mut r = res("unit", 0);
    cache.sync();
    match op.op.as_str() {
        "rpi" | "rpg" => {
            let what = if op.op == "rpi" { "ins" } else { "get" };
            let free = what == "get" && env.cfg.pol == "lru" || env.cfg.cap == NONE && !env.cfg.exp && env.cfg.ttl == NONE && env.cfg.tti == NONE;
            let every = if free { [1, 7, 50, 100_000][form as usize / 4 % 4] } else { 1 };
            let mut ns = BTreeSet::new();
            for i in 1..=op.oi {
                let a = one(what, op.k, form);
                ns.insert(a.n);
                if i % every == 0 {
                    cache.sync();
                    slot.beat();
                }
                if i == op.oi {
                    r = a;
                }
            }
            if ns.len() > 1 {
                r.n = 999999;
            }
        }
        "churn" => {
            let mut dropped = 0;
            for i in 0..op.oi as u32 {
                one("ins", FILLERS + i, form);
                one(if form & 1 == 1 { "rem" } else { "inv" }, FILLERS + i, form);
                if i % 50 == 0 {
                    slot.beat();
                    let mut l = env.log.ev.lock().unwrap();
                    let n = l.len();
                    l.retain(|e| !(e.0 >= FILLERS && e.1 == op.n && e.2 == "Explicit"));
                    dropped += n - l.len();
                    env.log.cb.lock().unwrap().retain(|c| c["k"].as_u64().unwrap() < FILLERS as u64);
                }
            }
            cache.sync();
            env.log.cb.lock().unwrap().retain(|c| c["k"].as_u64().unwrap() < FILLERS as u64);
            let mut l = env.log.ev.lock().unwrap();
            let n = l.len();
            l.retain(|e| !(e.0 >= FILLERS && e.1 == op.n && e.2 == "Explicit"));
            dropped += n - l.len();
            if env.cfg.lis && dropped != op.oi as usize {
                l.push((FILLERS, dropped as i64, "fillers notified"));
            }
        }
        "scan" => {
            let hs: Vec<u64> = env.keys.iter().map(|k| k.h).collect();
            let fs = apart(&hs, env.cfg.nf);
            for _ in 0..op.oi {
                for (j, h) in fs.iter().enumerate() {
                    let key = Key::new(FILLERS + j as u32, *h, &env.reg);
                    if let Some(v) = cache.get(&key) {
                        r = res("val", v);
                    }
                    if j % 50 == 49 {
                        cache.sync();
                    }
                }
            }
        }
        x => unreachable!("{x}"),
    }
    cache.sync();
    r
}

pub fn run_one(b: &Value, idx: usize, kind: Kind, mode: &Mode, slot: &Slot) -> Vec<Diff> {
    let cfg = Cfg::parse(&b["cfg"]);
    let nk = b["nk"].as_u64().unwrap() as u32;
    clock::set(0);
    let base = Instant::now();
    let reg = Arc::new(Registry::default());
    let mut env = Env {
        keys: vec![],
        cfg,
        reg: Arc::clone(&reg),
        log: Arc::new(Log::default()),
        base,
        lis_panic_at: mode.lis_panic_at,
    };
    let env_keys: Vec<Key> = (1..=8).map(|k| env.key(k)).collect();
    env.keys = env_keys;
    let cache: Box<dyn Api> = match kind {
        Kind::Sync => Box::new(build_sync(&env)),
        Kind::Seg => Box::new(build_seg(&env)),
        Kind::Future => Box::new(build_future(&env, false)),
        Kind::FutureAsync => Box::new(build_future(&env, true)),
    };
    let mut diffs = vec![];
    check_policy(&*cache, &env, kind, &mut diffs);
    let steps = b["steps"].as_array().unwrap();
    let mut heard_before = 0usize;
    for (i, st) in steps.iter().enumerate() {
        let op = Op::parse(&st["op"]);
        slot.note(format!("{kind:?} step {i} {}", op.op));
        let mut d = |aspect: &str, want: Value, got: Value| {
            if want != got {
                diffs.push(Diff { step: i, aspect: aspect.into(), want, got });
            }
        };
        // The same behaviour takes every form of its operations over the runs.
        let form = (mix((idx * 131 + i * 7 + kind as usize) as u64) >> 20) as u32;
        let got = if matches!(op.op.as_str(), "rpi" | "rpg" | "churn" | "scan") {
            exec_many(&*cache, &env, &op, form, slot)
        } else if op.op == "adv" {
            clock::set(clock::now_units() + op.oi as u64);
            res("unit", 0)
        } else if op.op == "ia" || (op.op == "iif" && env.cfg.inval) {
            clock::set(clock::now_units() + 1);
            let r = cache.exec(&op, form, &env);
            clock::set(clock::now_units() + 1);
            r
        } else {
            cache.exec(&op, form, &env)
        };
        // The answer.
        let w = &st["res"];
        let same = w["r"] == got.r.as_str() && w["n"] == got.n;
        let alt = w["alt"] == true && (got.r == "none" || got.r == "StillNone");
        let ev_want: Vec<Value> = expand(&st["ev"]).iter().map(|e| json!([e["k"], e["n"], e["c"]])).collect();
        if !same && !alt {
            let g = json!({"r": got.r, "n": got.n, "form": form & 3});
            if got.r.starts_with("PANIC") {
                d(&format!("panic:{}", op.op), w.clone(), g);
            } else {
                // An initialiser that ran means that nothing was found.
                let found = |r: &Value, n: i64, fresh: bool| if r == "val" && !fresh || r == "Removed" || r == "Unchanged" || r == "ReplacedWith" { n } else { 0 };
                let how = direction(
                    found(&w["r"], w["n"].as_i64().unwrap(), w["fr"] == true),
                    found(&json!(got.r), got.n, got.runs > 0),
                );
                d(&format!("res:{}:{how}", op.op), w.clone(), g);
            }
        } else if same {
            if let Some(f) = got.fr {
                d(&format!("fresh:{}", op.op), w["fr"].clone(), json!(f));
            }
            if let Some(f) = got.rp {
                d(&format!("replaced:{}", op.op), w["rp"].clone(), json!(f));
            }
            if let Some(k) = got.key {
                d(&format!("key:{}", op.op), json!(op.k), json!(k));
            }
        }
        if let Some(g) = got.g {
            let how = direction(w["g"].as_i64().unwrap(), g);
            d(&format!("given:{}:{how}", op.op), w["g"].clone(), json!(g));
        }
        if matches!(op.op.as_str(), "gw" | "gwif" | "ogw" | "tgw") {
            let want = if w["fr"] == true || w["r"] != "val" { 1 } else { 0 };
            if env.cfg.cap != 0 || w["r"] != "val" {
                d(&format!("runs:{}", op.op), json!(want), json!(got.runs));
            }
        }
        // Notifications.
        let heard: Vec<_> = std::mem::take(&mut *env.log.ev.lock().unwrap());
        let mut want = if env.cfg.lis { ev_want } else { vec![] };
        if let Some(p) = mode.lis_panic_at {
            want.truncate((p + 1).saturating_sub(heard_before));
        }
        heard_before += heard.len();
        let got_ev = ev_json(&heard);
        if Value::Array(want.clone()) != got_ev {
            let strip = |v: &Value, how: usize| -> Vec<String> {
                let mut x: Vec<String> = v.as_array().unwrap().iter()
                    .map(|e| if how == 0 { format!("{}/{}", e[0], e[1]) } else { e.to_string() })
                    .collect();
                x.sort();
                x
            };
            let w = Value::Array(want);
            let aspect = if strip(&w, 0) != strip(&got_ev, 0) {
                let per_key_extra = strip(&got_ev, 0).iter().any(|e| !strip(&w, 0).contains(e));
                if per_key_extra { "ev-extra" } else { "ev-missing" }
            } else if strip(&w, 1) != strip(&got_ev, 1) {
                "ev-cause"
            } else {
                "ev-order"
            };
            d(aspect, w, got_ev);
        }
        // Calls to the Expiry.
        let cb = Value::Array(std::mem::take(&mut *env.log.cb.lock().unwrap()));
        d("cb", Value::Array(expand(&st["cb"])), cb);
        d("time", st["t"].clone(), json!(clock::now_units()));
        if mode.probe || i + 1 == steps.len() {
            let lk: BTreeSet<(u64, i64)> = st["lk"].as_array().unwrap().iter()
                .map(|e| (e[0].as_u64().unwrap(), e[1].as_i64().unwrap())).collect();
            for k in 1..=nk as u64 {
                let want = lk.iter().any(|e| e.0 == k);
                let got = cache.contains(env.kref(k as u32));
                d(if want { "contains:lost" } else { "contains:ghost" }, json!([k, want]), json!([k, got]));
            }
            let it: Vec<(u64, i64)> = cache.iter().iter().map(|(k, n)| (*k as u64, *n)).collect();
            let set: BTreeSet<(u64, i64)> = it.iter().cloned().collect();
            d("iter:twice", json!(set.len()), json!(it.len()));
            for k in 1..=nk as u64 {
                let f = |s: &BTreeSet<(u64, i64)>| s.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(0);
                let (w, g) = (f(&lk), f(&set));
                d(&format!("iter:{}", direction(w, g)), json!([k, w]), json!([k, g]));
            }
            let (ec, ws) = cache.counts();
            d("ec", st["ec"].clone(), json!(ec));
            d("ws", st["ws"].clone(), json!(ws));
            let n_cb = env.log.cb.lock().unwrap().len();
            d("probe-cb", json!(0), json!(n_cb));
            env.log.cb.lock().unwrap().clear();
            let n_ev = env.log.ev.lock().unwrap().len();
            d("probe-ev", json!(0), json!(n_ev));
        }
        if diffs.iter().any(|d| d.aspect.starts_with("panic")) {
            break;
        }
        if diffs.len() > 200 {
            break;
        }
    }
    // After a maintenance, the values alive are those in the cache; after dropping it, none.
    // (Maintenance is repeated: what the first run removed is dropped by the collector later.)
    cache.sync();
    let entries = cache.counts().0 as i64;
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) <= entries);
    let live = reg.live_vals.load(Ordering::SeqCst);
    if !done || live != entries {
        diffs.push(Diff { step: steps.len(), aspect: "retained".into(), want: json!(entries), got: json!(live) });
    }
    drop(cache);
    env.keys.clear();
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) == 0 && reg.live_keys.load(Ordering::SeqCst) == 0);
    if !done {
        let v = json!([reg.live_vals.load(Ordering::SeqCst), reg.live_keys.load(Ordering::SeqCst)]);
        diffs.push(Diff { step: steps.len(), aspect: "leak".into(), want: json!([0, 0]), got: v });
    }
    diffs
}

fn check_policy(c: &dyn Api, env: &Env, kind: Kind, diffs: &mut Vec<Diff>) {
    let p = c.policy();
    let some = |x: i64| if x == NONE { Value::Null } else { json!(x) };
    let want = json!([
        some(env.cfg.cap), some(env.cfg.ttl), some(env.cfg.tti),
        if kind == Kind::Seg { env.cfg.nseg } else { 1 }
    ]);
    let got = json!([
        p.max_capacity().map(|c| json!(c)).unwrap_or(Value::Null),
        p.time_to_live().map(|d| json!(units_of(d))).unwrap_or(Value::Null),
        p.time_to_idle().map(|d| json!(units_of(d))).unwrap_or(Value::Null),
        p.num_segments()
    ]);
    if want != got {
        diffs.push(Diff { step: 0, aspect: "policy".into(), want, got });
    }
}

/// `replay FILE...`: every behaviour on every kind of cache it applies to.
pub fn main(args: &[String]) {
    let mut behaviours: Vec<Value> = vec![];
    let mut lis_panic = false;
    let mut only: Option<usize> = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--listener-panics" {
            lis_panic = true;
            continue;
        }
        if a == "--only" {
            only = it.next().map(|x| x.parse().unwrap());
            continue;
        }
        let text = std::fs::read_to_string(a).expect("behaviour file");
        for l in text.lines().filter(|l| !l.is_empty()) {
            behaviours.push(serde_json::from_str(l).expect("behaviour"));
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let n = behaviours.len();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    run_all(n, workers, only, move |i, slot, rep| {
        let b = &behaviours[i];
        let nseg = b["cfg"]["nseg"].as_u64().unwrap();
        let mut plans: Vec<(Kind, Mode)> = vec![];
        let m = |probe, p| Mode { probe, lis_panic_at: p };
        if lis_panic {
            for p in [0, 1, 2, 4] {
                plans.push((Kind::Sync, m(true, Some(p))));
                plans.push((Kind::Future, m(true, Some(p))));
                plans.push((Kind::FutureAsync, m(true, Some(p))));
            }
        } else if nseg == 1 {
            plans.push((Kind::Sync, m(true, None)));
            plans.push((Kind::Sync, m(false, None)));
            plans.push((Kind::FutureAsync, m(true, None)));
            plans.push((Kind::Future, m(false, None)));
            plans.push((Kind::Seg, m(i % 2 == 0, None)));
        } else {
            plans.push((Kind::Seg, m(true, None)));
            plans.push((Kind::Seg, m(false, None)));
        }
        for (kind, mode) in plans {
            let name = format!("{kind:?}");
            slot.note(format!("{name} probe {}", mode.probe));
            let ds = run_one(b, i, kind, &mode, slot);
            rep.add(i, &name, json!({"probe": mode.probe, "lis_panic_at": mode.lis_panic_at}), b["steps"].as_array().unwrap().len(), &ds);
        }
    });
}
