//! Replays behaviours of MokaBulk: caches with many entries, in groups.
use crate::api::*;
use crate::clock;
use crate::model::*;
use crate::pool::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Instant;

type Cache = Box<dyn Api + Send + Sync>;

struct GOp {
    op: String,
    g: usize,
    n: i64,
    c: i64,
    w: u32,
    x: usize,
    o: i64,
}
impl GOp {
    fn parse(v: &Value) -> GOp {
        let i = |s: &str| v[s].as_i64().unwrap();
        GOp { op: v["op"].as_str().unwrap().into(), g: i("g") as usize - 1, n: i("n"), c: i("c"), w: i("w") as u32, x: i("x") as usize, o: i("o") }
    }
    fn op(&self, k: u32) -> Op {
        Op { op: self.op.clone(), k, n: self.n, w: self.w, x: self.x, c: self.c, o: String::new(), oi: self.o }
    }
}

fn hash(mode: i64, id: u64) -> u64 {
    match mode {
        1 => mix(1),
        2 => (mix(id + 77) & !0xf_ffff) | 0x1_2345,
        3 => mix(id + 77) >> 8,
        4 => id,
        _ => mix(id + 77),
    }
}

struct Run {
    cache: Cache,
    env: Env,
    ng: usize,
    sz: Vec<usize>,
    diffs: Mutex<Vec<Diff>>,
    step: usize,
}
// (What is not Sync in there, is only read.)
unsafe impl Sync for Env {}

impl Run {
    /// The number of a member (from 1) of a group (from 0). Members of all groups alternate.
    fn key(&self, g: usize, m: usize) -> u32 {
        ((m - 1) * self.ng + g + 1) as u32
    }
    fn member(&self, k: u32) -> (usize, usize) {
        ((k as usize - 1) % self.ng, (k as usize - 1) / self.ng + 1)
    }
    fn diff(&self, aspect: &str, want: Value, got: Value) {
        let mut d = self.diffs.lock().unwrap();
        if d.len() < 100 {
            d.push(Diff { step: self.step, aspect: aspect.into(), want, got });
        }
    }
    fn settle(&self) {
        let total: usize = self.sz.iter().sum();
        for _ in 0..3 * (total / 384) + 6 {
            self.cache.sync();
        }
    }
    /// One operation on the members `ms` of its group.
    fn some(&self, op: &GOp, ms: &[usize], have: &Have, hidden: &[i64], form: u32) {
        for m in ms {
            let k = self.key(op.g, *m);
            let was = have.get(op.g, *m);
            let r = self.cache.exec(&op.op(k), form.wrapping_add(*m as u32 / 7), &self.env);
            if r.r.starts_with("PANIC") {
                self.diff(&format!("panic:{}", op.op), json!("an answer"), json!(r.r));
                return;
            }
            let want: Option<(&str, i64)> = match op.op.as_str() {
                // (What is no longer visible may still be given by a removal.)
                "rem" if was == 0 && r.r == "val" && hidden[op.g] == r.n => None,
                "get" | "rem" => Some(if was > 0 { ("val", was) } else { ("none", 0) }),
                "con" => Some((if was > 0 { "val" } else { "none" }, 0)),
                _ => None,
            };
            if let Some((r1, n1)) = want {
                if r.r != r1 || r.n != n1 {
                    let how = if was == 0 { "ghost" } else if r.r == "none" { "lost" } else { "wrong" };
                    self.diff(&format!("res:{}:{how}", op.op), json!([op.g + 1, m, r1, n1]), json!([r.r, r.n]));
                }
            }
        }
    }
    fn iterate(&self, before: &Have, after: &Have, touched: &[usize]) {
        let mut seen: HashMap<u32, i64> = HashMap::new();
        for (k, n) in self.cache.iter() {
            if seen.insert(k, n).is_some() {
                self.diff("iter:twice", json!("once"), json!([k, n]));
            }
        }
        for g in 0..self.ng {
            for m in 1..=self.sz[g] {
                let (b, a) = (before.get(g, m), after.get(g, m));
                let got = seen.get(&self.key(g, m)).copied().unwrap_or(0);
                let ok = if touched.contains(&g) { got == a || got == b } else { got == b };
                if !ok {
                    let how = if got == 0 { "lost" } else if b == 0 { "ghost" } else { "wrong" };
                    self.diff(&format!("iter:{how}"), json!([g + 1, m, b, a]), json!(got));
                }
            }
        }
        if let Some(k) = seen.keys().find(|k| { let (g, m) = self.member(**k); m > self.sz[g] }) {
            self.diff("iter:ghost", json!("no such key"), json!(k));
        }
    }
}

/// What is visible of each group: the generation of each member.
#[derive(Clone)]
struct Have(Vec<Vec<i64>>);
impl Have {
    fn parse(v: &Value, sz: &[usize]) -> Have {
        let mut h: Vec<Vec<i64>> = sz.iter().map(|z| vec![0; z + 1]).collect();
        for (g, rs) in v.as_array().unwrap().iter().enumerate() {
            for r in rs.as_array().unwrap() {
                let i = |j: usize| r[j].as_i64().unwrap();
                for m in i(1)..=i(2) {
                    h[g][m as usize] = i(0);
                }
            }
        }
        Have(h)
    }
    fn get(&self, g: usize, m: usize) -> i64 {
        self.0[g][m]
    }
}

pub fn run_one(b: &Value, idx: usize, kind: &str, slot: &Slot) -> Vec<Diff> {
    let c = &b["cfg"];
    let cfg = Cfg::parse(c);
    let sz: Vec<usize> = c["sz"].as_array().unwrap().iter().map(|z| z.as_u64().unwrap() as usize).collect();
    let ng = sz.len();
    let mode = c["hash"].as_i64().unwrap();
    clock::set(0);
    let reg = Arc::new(Registry::default());
    let mut env = Env { keys: vec![], cfg, reg: Arc::clone(&reg), log: Arc::new(Log::default()), base: Instant::now(), lis_panic_at: None };
    let most = *sz.iter().max().unwrap();
    env.keys = (1..=(most * ng) as u32).map(|k| Key::new(k, hash(mode, k as u64), &reg)).collect();
    let cache: Cache = match kind {
        "Sync" => Box::new(build_sync(&env)),
        "Seg" => Box::new(build_seg(&env)),
        "Future" => Box::new(build_future(&env, false)),
        _ => Box::new(build_future(&env, true)),
    };
    let bounded = env.cfg.cap >= 0;
    let mut run = Run { cache, env, ng, sz, diffs: Mutex::new(vec![]), step: 0 };
    let mut have = Have(run.sz.iter().map(|z| vec![0; z + 1]).collect());
    let mut heard: HashMap<i64, usize> = HashMap::new();
    let mut causes: HashMap<i64, Vec<&'static str>> = HashMap::new();
    let steps = b["steps"].as_array().unwrap();
    for (i, st) in steps.iter().enumerate() {
        run.step = i;
        let ops: Vec<GOp> = st["ops"].as_array().unwrap().iter().map(GOp::parse).collect();
        let th = st["th"].as_u64().unwrap() as usize;
        slot.note(format!("{kind} step {i} {}", ops.iter().map(|o| o.op.as_str()).collect::<Vec<_>>().join("+")));
        let hidden: Vec<i64> = st["hid"].as_array().unwrap().iter().map(|h| h.as_i64().unwrap()).collect();
        let after = Have::parse(&st["have"], &run.sz);
        let form = (mix((idx * 131 + i * 7) as u64) >> 20) as u32;
        let touched: Vec<usize> = ops.iter().filter(|o| o.op == "ins" || o.op == "rem" || o.op == "inv").map(|o| o.g).collect();
        let do_op = |op: &GOp, ms: &[usize]| match op.op.as_str() {
            "it" => run.iterate(&have, &after, &touched),
            _ => run.some(op, ms, &have, &hidden, form),
        };
        match ops[0].op.as_str() {
            "settle" => run.settle(),
            "sync" => run.cache.sync(),
            "adv" => clock::set(clock::now_units() + ops[0].o as u64),
            "ia" | "iif" => {
                clock::set(clock::now_units() + 8);
                let mut o = ops[0].op(1);
                if o.oi == 1 {
                    o.oi = 100 + ng as i64;
                }
                let r = run.cache.exec(&o, form, &run.env);
                if r.r != "unit" {
                    run.diff(&format!("res:{}:wrong", ops[0].op), json!("unit"), json!(r.r));
                }
                clock::set(clock::now_units() + 8);
            }
            _ => {
                if bounded || (run.env.cfg.tti >= 0 && ops.iter().any(|o| o.op == "get")) {
                    run.settle();
                }
                let now = clock::now_units();
                if ops.len() == 1 && th == 1 {
                    let all: Vec<usize> = (1..=run.sz[ops[0].g]).collect();
                    do_op(&ops[0], &all);
                } else {
                    std::thread::scope(|s| {
                        for op in &ops {
                            let n = if op.op == "it" { 1 } else { th };
                            for t in 0..n {
                                // (Parts one behind the other, or alternating.)
                                let z = run.sz[op.g];
                                let ms: Vec<usize> = if form & 1 == 0 {
                                    (1..=z).filter(|m| m % n == t).collect()
                                } else {
                                    (z * t / n + 1..=z * (t + 1) / n).collect()
                                };
                                let do_op = &do_op;
                                s.spawn(move || {
                                    clock::set(now);
                                    do_op(op, &ms);
                                });
                            }
                        }
                    });
                }
                if bounded {
                    run.settle();
                }
            }
        }
        slot.beat();
        run.env.log.cb.lock().unwrap().clear();
        if clock::now_units() as i64 != st["t"].as_i64().unwrap() {
            run.diff("time", st["t"].clone(), json!(clock::now_units()));
        }
        // What is there now.
        for g in 0..ng {
            for m in 1..=run.sz[g] {
                let want = after.get(g, m) > 0;
                let got = run.cache.contains(run.env.kref(run.key(g, m)));
                if want != got {
                    run.diff(if want { "contains:lost" } else { "contains:ghost" }, json!([g + 1, m, want]), json!(got));
                }
            }
        }
        run.iterate(&after, &after, &[]);
        let settled = st["settled"] == true;
        let new: Vec<_> = std::mem::take(&mut *run.env.log.ev.lock().unwrap());
        for (_, n, cause) in new {
            *heard.entry(n).or_default() += 1;
            let cs = causes.entry(n).or_default();
            if !cs.contains(&cause) {
                cs.push(cause);
            }
        }
        let gens = st["ev"].as_array().unwrap();
        let visible: Vec<i64> = after.0.iter().flatten().copied().filter(|n| *n > 0).collect();
        for (j, e) in gens.iter().enumerate() {
            let n = j as i64 + 1;
            let gone = if run.env.cfg.lis { e[0].as_u64().unwrap() as usize } else { 0 };
            let got = heard.get(&n).copied().unwrap_or(0);
            if settled && got < gone {
                run.diff("ev-missing", json!([n, gone]), json!(got));
            }
            if got > gone && (settled || visible.contains(&n)) {
                run.diff("ev-extra", json!([n, gone]), json!(got));
            }
            if settled {
                let may: Vec<&str> = e[1].as_array().unwrap().iter().map(|c| c.as_str().unwrap()).collect();
                for c in causes.get(&n).into_iter().flatten() {
                    if !may.contains(c) {
                        run.diff("ev-cause", json!([n, may]), json!(c));
                    }
                }
            }
        }
        if let Some(n) = heard.keys().find(|n| **n < 1 || **n > gens.len() as i64) {
            run.diff("ev-extra", json!("a value stored"), json!(n));
        }
        if settled {
            let (ec, ws) = run.cache.counts();
            if json!(ec) != st["ec"] {
                run.diff("ec", st["ec"].clone(), json!(ec));
            }
            if json!(ws) != st["ws"] {
                run.diff("ws", st["ws"].clone(), json!(ws));
            }
        }
        have = after;
        if run.diffs.lock().unwrap().len() >= 100 || run.diffs.lock().unwrap().iter().any(|d| d.aspect.starts_with("panic")) {
            break;
        }
    }
    slot.beat();
    let Run { cache, mut env, diffs, .. } = run;
    let mut diffs = diffs.into_inner().unwrap();
    let entries = cache.counts().0 as i64;
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) <= entries);
    let live = reg.live_vals.load(Ordering::SeqCst);
    if !done || live != entries {
        diffs.push(Diff { step: steps.len(), aspect: "retained".into(), want: json!(entries), got: json!(live) });
    }
    drop(cache);
    env.keys.clear();
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) == 0 && reg.live_keys.load(Ordering::SeqCst) == 0);
    if !done {
        let v = json!([reg.live_vals.load(Ordering::SeqCst), reg.live_keys.load(Ordering::SeqCst)]);
        diffs.push(Diff { step: steps.len(), aspect: "leak".into(), want: json!([0, 0]), got: v });
    }
    diffs
}

/// `bulk FILE`: each behaviour on each kind of cache it applies to.
pub fn main(args: &[String]) {
    let mut only: Option<usize> = None;
    let mut behaviours: Vec<Value> = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--only" {
            only = it.next().map(|x| x.parse().unwrap());
            continue;
        }
        let text = std::fs::read_to_string(a).expect("behaviour file");
        behaviours.extend(text.lines().filter(|l| !l.is_empty()).map(|l| serde_json::from_str::<Value>(l).expect("behaviour")));
    }
    std::panic::set_hook(Box::new(|_| {}));
    PARKING.store(true, Ordering::SeqCst);
    let n = behaviours.len();
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    run_all(n, workers, only, move |i, slot, rep| {
        let b = &behaviours[i];
        let kinds: &[&str] = if b["cfg"]["nseg"] == 1 { &["Sync", "FutureAsync", "Future"] } else { &["Seg"] };
        for kind in kinds {
            slot.note(kind.to_string());
            let ds = run_one(b, i, kind, slot);
            rep.add(i, kind, json!({}), b["steps"].as_array().unwrap().len(), &ds);
        }
    });
}
