//! Runs concurrent programs of the specification on the real caches under controlled schedules and
//! records the histories.
#[path = "../../src/api.rs"]
mod api;
mod clock;
#[path = "../../src/model.rs"]
mod model;

use api::*;
use clock::*;
use model::*;
use serde_json::{json, Value};
use std::cell::UnsafeCell;
use std::collections::HashMap;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};
use std::time::Instant;

const WORKERS: usize = 4;

struct Job {
    cache: Arc<dyn Api + Send + Sync>,
    env: Arc<Env>,
    ops: Vec<(Op, u32, i64)>, // operation, form, polls
    pauses: u32,
}
struct Pool {
    jobs: Vec<Arc<Mutex<Option<Job>>>>,
}

unsafe impl Send for Env {}
unsafe impl Sync for Env {}

/// What is to become of fillers: whether they must be there in the end, and how often each was stored.
#[derive(Default)]
struct Filled {
    there: HashMap<u32, Option<bool>>,
    stored: HashMap<u32, (u32, u32)>,
    next: u32,
}
struct Fills(UnsafeCell<Option<Filled>>);
unsafe impl Sync for Fills {}
static FILLS: Fills = Fills(UnsafeCell::new(None));
fn fills() -> &'static mut Filled {
    unsafe { (*FILLS.0.get()).get_or_insert_with(Default::default) }
}

/// Many writes on keys of its own: on distinct ones (0), on few (1), or inserting and removing (2).
fn fill(cache: &dyn Api, env: &Env, op: &Op, form: u32) -> Res {
    let many = op.oi as u32;
    let base = FILLERS + fills().next;
    fills().next += many;
    let one = |what: &str, k: u32| -> Res {
        cache.exec(&Op { op: what.into(), k, o: String::new(), oi: 0, ..op.clone() }, form, env)
    };
    for i in 0..many {
        let k = if op.c == 1 { base + i % 3 } else { base + i };
        let r = one("ins", k);
        let f = fills();
        let n = f.stored.entry(k).or_default();
        if r.r == "dropped" {
            n.1 += 1;
            f.there.insert(k, None);
            return r;
        }
        n.0 += 1;
        if f.there.get(&k) != Some(&None) {
            f.there.insert(k, Some(true));
        }
        if op.c == 2 && i % 4 != 3 {
            f.there.insert(k, None);
            let r = one(if form & 1 == 1 { "rem" } else { "inv" }, k);
            if r.r == "dropped" {
                return r;
            }
            fills().there.insert(k, Some(false));
        }
    }
    res("unit", 0)
}

/// Compares what there is of the fillers; returns how many there are.
fn check_fills(live: &[(u32, i64)], cache: &dyn Api, env: &Env, diffs: &mut Vec<Value>) -> usize {
    let f = fills();
    let mut diff = |a: &str, want: Value, got: Value| {
        if diffs.len() < 5 {
            diffs.push(json!({"aspect": a, "want": want, "got": got}));
        }
    };
    let mut heard: HashMap<u32, u32> = HashMap::new();
    for k in unsafe { std::mem::take(&mut *HEARD.0.get()) } {
        *heard.entry(k).or_default() += 1;
    }
    let mut there: HashMap<u32, u32> = HashMap::new();
    for (k, _) in live.iter().filter(|e| e.0 >= FILLERS) {
        *there.entry(*k).or_default() += 1;
        if !f.there.contains_key(k) {
            diff("fill:ghost", json!("not stored"), json!(k));
        }
    }
    for (k, want) in &f.there {
        let n = there.get(k).copied().unwrap_or(0);
        if n > 1 {
            diff("fill:twice", json!(1), json!([k, n]));
        }
        if cache.contains(&env.look(*k)) != (n > 0) {
            diff("fill:contains", json!(n > 0), json!(k));
        }
        match want {
            Some(true) if n == 0 && env.cfg.cap < 0 => diff("fill:lost", json!("present"), json!(k)),
            Some(false) if n > 0 => diff("fill:ghost", json!("absent"), json!(k)),
            _ => {}
        }
        let (sure, maybe) = f.stored[k];
        if env.cfg.lis && env.cfg.cap != 0 {
            let h = heard.get(k).copied().unwrap_or(0);
            if h + n < sure {
                diff("fill:ev-missing", json!([k, sure - n]), json!(h));
            }
            if h + n > sure + maybe {
                diff("fill:ev-extra", json!([k, sure + maybe - n]), json!(h));
            }
        }
    }
    there.len()
}

fn run_op(cache: &dyn Api, env: &Env, op: &Op, form: u32, polls: i64) {
    ev("c", op.k as i64, 0, &op.op);
    POLLS.set(polls);
    let r = match op.op.as_str() {
        "fill" => fill(cache, env, op, form),
        "adv" => {
            unsafe { clk_set(clk_now() + op.oi as u64 * UNIT) };
            res("unit", 0)
        }
        "it" => {
            let l: Vec<_> = cache.iter().into_iter().filter(|e| e.0 < FILLERS).collect();
            let mut v: Vec<Value> = l.iter().map(|(k, n)| json!([k, n])).collect();
            v.sort_by_key(|e| e[0].as_u64());
            record(json!({"e": "r", "t": me(), "k": 0, "n": v.len(), "s": "list", "l": v}));
            POLLS.set(-1);
            return;
        }
        _ => cache.exec(op, form, env),
    };
    POLLS.set(-1);
    if r.r == "dropped" {
        return;
    }
    // (An error is known by its number, unless it is the call's own.)
    let r = if r.r == "other err" { Res { r: "err".into(), ..r } } else { r };
    let fr = match r.fr { Some(true) => 1, Some(false) => 0, None => -1 };
    record(json!({"e": "r", "t": me(), "k": r.key.map(|k| k as i64).unwrap_or(op.k as i64), "n": r.n, "s": r.r, "f": fr}));
}

fn worker(id: usize, slot: Arc<Mutex<Option<Job>>>) {
    loop {
        unsafe { sch_worker_enter(id as i32) };
        let job = slot.lock().unwrap().take();
        if let Some(job) = &job {
            PAUSES.set(job.pauses);
            for (op, form, polls) in &job.ops {
                run_op(&*job.cache, &job.env, op, *form, *polls);
            }
        }
        drop(job);
        // What this thread has put aside for the collector must not stay with it.
        for _ in 0..3 {
            crossbeam_epoch::pin().flush();
        }
        unsafe { sch_worker_leave() };
    }
}

fn build(env: &Env, kind: &str) -> Arc<dyn Api + Send + Sync> {
    match kind {
        "sync" => Arc::new(build_sync(env)),
        "seg" => Arc::new(build_seg(env)),
        "future" => Arc::new(build_future(env, false)),
        _ => Arc::new(build_future(env, true)),
    }
}

struct Outcome {
    verdict: i32,
    events: Vec<Value>,
    points: u64,
    diffs: Vec<Value>,
}

struct Sched {
    seed: u64,
    strat: i32,
    mean: i64,
    nch: i32,
    len: u64,
}

fn run(prog: &Value, kind: &str, s: &Sched, pool: &Pool) -> Outcome {
    let cfg = Cfg::parse(&prog["cfg"]);
    let mut rng = s.seed;
    let mut rnd = move || {
        rng = mix(rng);
        rng >> 11
    };
    take();
    *fills() = Filled::default();
    unsafe {
        (*HEARD.0.get()).clear();
        clk_mode(-2);
        clk_set(0);
    }
    let base = Instant::now();
    let reg = Arc::new(Registry::default());
    let mut env = Env { keys: vec![], cfg, reg: Arc::clone(&reg), log: Arc::new(Log::default()), base, lis_panic_at: None };
    let keys: Vec<Key> = (1..=8).map(|k| env.key(k)).collect();
    env.keys = keys;
    let env = Arc::new(env);
    let cache = build(&env, kind);
    let ops_of = |v: &Value| -> Vec<Op> { v.as_array().unwrap().iter().map(Op::parse).collect() };
    PAUSES.set(0);
    for op in ops_of(&prog["pre"]) {
        run_op(&*cache, &env, &op, rnd() as u32, -1);
    }
    let ths: Vec<Vec<Op>> = prog["th"].as_array().unwrap().iter().map(ops_of).collect();
    let n = ths.len();
    let cancel = prog["cancel"].as_i64().unwrap_or(0);
    let fut = kind.starts_with("fut");
    let pauses = if fut { (rnd() % 3) as u32 } else { 0 };
    for (i, ops) in ths.into_iter().enumerate() {
        let ops = ops
            .into_iter()
            .map(|o| {
                let polls = if fut && cancel > 0 && rnd() % 100 < cancel as u64 { (rnd() % 4) as i64 } else { -1 };
                (o, rnd() as u32, polls)
            })
            .collect();
        *pool.jobs[i].lock().unwrap() = Some(Job { cache: Arc::clone(&cache), env: Arc::clone(&env), ops, pauses });
    }
    let verdict = unsafe {
        sch_begin(n as i32, s.seed, s.strat, s.mean, s.nch, s.len, 100_000_000);
        sch_run()
    };
    let points = unsafe { sch_points() };
    let mut diffs = vec![];
    if verdict != 0 {
        return Outcome { verdict, events: take(), points, diffs };
    }
    for op in ops_of(&prog["post"]) {
        run_op(&*cache, &env, &op, rnd() as u32, -1);
    }
    for _ in 0..2 + fills().next / 100 {
        cache.sync();
    }
    let all = cache.iter();
    let y = check_fills(&all, &*cache, &env, &mut diffs);
    let weight_of: HashMap<i64, u32> = std::iter::once(&prog["pre"]).chain(prog["th"].as_array().unwrap()).flat_map(|v| ops_of(v)).map(|o| (o.n, o.w)).collect();
    let z: u64 = all.iter().filter(|e| e.0 >= FILLERS).map(|e| if env.cfg.wgh { weight_of[&e.1] as u64 } else { 1 }).sum();
    let live: Vec<Value> = all.iter().filter(|e| e.0 < FILLERS).map(|(k, n)| json!([k, n])).collect();
    let con: Vec<Value> = (1..=8u32).filter(|k| cache.contains(env.kref(*k))).map(|k| json!(k)).collect();
    let (ec, ws) = cache.counts();
    record(json!({"e": "f", "t": 0, "k": ec, "n": ws, "s": "", "l": live, "x": con, "y": y, "z": z}));
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) <= ec as i64);
    let now = reg.live_vals.load(Ordering::SeqCst);
    if !done || now != ec as i64 {
        diffs.push(json!({"aspect": "retained", "want": ec, "got": now}));
    }
    drop(cache);
    drop(env);
    let done = flush_epoch(|| reg.live_vals.load(Ordering::SeqCst) == 0 && reg.live_keys.load(Ordering::SeqCst) == 0);
    if !done {
        let v = json!([reg.live_vals.load(Ordering::SeqCst), reg.live_keys.load(Ordering::SeqCst)]);
        diffs.push(json!({"aspect": "leak", "want": [0, 0], "got": v}));
    }
    Outcome { verdict, events: take(), points, diffs }
}

/// Runs of calls, and of returns, are put in order by thread: they concern no other event between them.
fn canonical(ev: &mut [Value]) {
    let mut i = 0;
    while i < ev.len() {
        let e = ev[i]["e"].as_str().unwrap().to_string();
        let mut j = i + 1;
        if e == "c" || e == "r" {
            while j < ev.len() && ev[j]["e"] == e.as_str() {
                j += 1;
            }
            ev[i..j].sort_by_key(|x| x["t"].as_i64());
        }
        i = j;
    }
}

/// What can be seen from outside, the order between threads apart.
fn outcome(ev: &[Value]) -> String {
    let mut per: Vec<String> = vec![];
    for x in ev {
        let t = x["t"].as_i64().unwrap() as usize;
        if per.len() <= t + 1 {
            per.resize(t + 2, String::new());
        }
        match x["e"].as_str().unwrap() {
            "c" | "m" => {}
            "n" => {
                per[0].push_str(&x.to_string());
            }
            _ => {
                per[t + 1].push_str(&x.to_string());
            }
        }
    }
    per.join("|")
}

/// `run FILE --schedules N --seed S --kinds a,b --out FILE [--most N]`
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str, dflt: &str| -> String {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned().unwrap_or(dflt.to_string())
    };
    let file = &args[0];
    let n: u64 = opt("--schedules", "50").parse().unwrap();
    let seed: u64 = opt("--seed", "1").parse().unwrap();
    let most: usize = opt("--most", "100000").parse().unwrap();
    let each: u32 = opt("--each", "1000000").parse().unwrap();
    let only: i64 = opt("--only", "-1").parse().unwrap();
    let base: u64 = opt("--base", "0").parse().unwrap();
    let one: i64 = opt("--schedule", "-1").parse().unwrap();
    let kinds: Vec<String> = opt("--kinds", "sync,async").split(',').map(|s| s.to_string()).collect();
    let (shard, shards): (usize, usize) = {
        let s = opt("--shard", "0/1");
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    };
    let out = opt("--out", "/dev/stdout");
    std::panic::set_hook(Box::new(|i| { if std::thread::current().name() == Some("main") { eprintln!("{i}") } }));
    let pool = Pool { jobs: (0..WORKERS).map(|_| Arc::new(Mutex::new(None))).collect() };
    for (i, j) in pool.jobs.iter().enumerate() {
        let j = Arc::clone(j);
        std::thread::spawn(move || worker(i, j));
    }
    let progs: Vec<Value> = std::fs::read_to_string(file).expect("programs").lines().filter(|l| !l.is_empty())
        .map(|l| serde_json::from_str(l).expect("program")).collect();
    let (mut runs, mut points, mut steps) = (0u64, 0u64, 0u64);
    let mut mism: Vec<Value> = vec![];
    let mut hist = String::new();
    let mut kept = 0usize;
    'all: for (pi, prog) in progs.iter().enumerate() {
        if pi % shards != shard || (only >= 0 && only != pi as i64) {
            continue;
        }
        for kind in &kinds {
            if (prog["cfg"]["nseg"] != 1) != (kind == "seg") {
                continue;
            }
            ASYNC_LIS.store(kind == "async", Ordering::SeqCst);
            let mut seen: HashMap<String, u32> = HashMap::new();
            let mut outs: HashMap<String, u32> = HashMap::new();
            let mut len = 0;
            for i in 0..n {
                // (The schedules before tell how long a run is, and which places there are.)
                if one >= 0 && i > one as u64 {
                    break;
                }
                let sseed = mix(seed ^ mix((base + pi as u64) * 1000003 + i));
                // (Long runs are switched less often.)
                let f = (len / 1000).max(1) as i64;
                let s = match i % 12 {
                    0 => Sched { seed: sseed, strat: 0, mean: 10 * f, nch: 0, len },
                    1 => Sched { seed: sseed, strat: 0, mean: 40 * f, nch: 0, len },
                    2 => Sched { seed: sseed, strat: 0, mean: 150 * f, nch: 0, len },
                    3 => Sched { seed: sseed, strat: 0, mean: 500 * f, nch: 0, len },
                    4 => Sched { seed: sseed, strat: 1, mean: 1, nch: 1, len },
                    5 => Sched { seed: sseed, strat: 1, mean: 1, nch: 2, len },
                    6 => Sched { seed: sseed, strat: 1, mean: 1, nch: 3, len },
                    7 => Sched { seed: sseed, strat: 1, mean: 1, nch: 5, len },
                    k => Sched { seed: sseed, strat: 2, mean: 1, nch: [1, 2, 3, 5][k as usize - 8], len },
                };
                let o = run(prog, kind, &s, &pool);
                runs += 1;
                points += o.points;
                if i == 0 {
                    len = o.points.max(10);
                }
                if one > i as i64 && o.verdict == 0 {
                    continue;
                }
                steps += o.events.len() as u64;
                for d in &o.diffs {
                    if mism.len() < 40 {
                        mism.push(json!({"behaviour": pi, "kind": kind, "schedule": i, "diffs": [d], "aspects": [d["aspect"]], "events": o.events}));
                    }
                }
                if o.verdict != 0 {
                    let what = if o.verdict == 1 { "deadlock" } else { "stuck" };
                    mism.push(json!({"behaviour": pi, "kind": kind, "schedule": i,
                        "diffs": [{"aspect": what, "want": "all operations return", "got": what, "step": 0}], "aspects": [what], "events": o.events}));
                    // The threads are lost.
                    break 'all;
                }
                let mut evs = o.events;
                canonical(&mut evs);
                let oc = outs.entry(outcome(&evs)).or_default();
                let key = Value::Array(evs).to_string();
                let c = seen.entry(key.clone()).or_default();
                *c += 1;
                if *c == 1 && kept < most && *oc < each {
                    *oc += 1;
                    kept += 1;
                    hist.push_str(&format!("{{\"p\":{pi},\"kind\":\"{kind}\",\"sch\":{i},\"ev\":{key}}}\n"));
                }
            }
        }
    }
    std::fs::write(out, hist).expect("histories");
    println!("{}", json!({"behaviours": progs.len(), "runs": runs, "steps": steps, "points": points, "distinct": kept,
        "counts": {}, "mismatches": mism}));
    std::process::exit(0);
}
