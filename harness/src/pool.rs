//! Runs behaviours on all cores and collects what went wrong; a behaviour which makes no progress for
//! long is given up and reported as stuck.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Diff {
    pub step: usize,
    pub aspect: String,
    pub want: Value,
    pub got: Value,
}

#[derive(Default)]
pub struct Report {
    out: Mutex<Vec<Value>>,
    counts: Mutex<BTreeMap<String, u64>>,
    runs: AtomicUsize,
    steps: AtomicUsize,
}
impl Report {
    /// The outcome of one run; `extra` describes it.
    pub fn add(&self, behaviour: usize, kind: &str, extra: Value, steps: usize, ds: &[Diff]) {
        self.runs.fetch_add(1, Ordering::SeqCst);
        self.steps.fetch_add(steps, Ordering::SeqCst);
        let mut counts = self.counts.lock().unwrap();
        for d in ds {
            *counts.entry(d.aspect.clone()).or_default() += 1;
        }
        if !ds.is_empty() {
            let mut o = self.out.lock().unwrap();
            if o.len() < 40 || ds.iter().any(|d| counts[&d.aspect] < 5) {
                let mut m = json!({
                    "behaviour": behaviour, "kind": kind,
                    "diffs": ds.iter().take(20).map(|d| json!({"step": d.step, "aspect": d.aspect, "want": d.want, "got": d.got})).collect::<Vec<_>>(),
                    "aspects": ds.iter().map(|d| d.aspect.clone()).collect::<BTreeSet<_>>(),
                });
                for (k, v) in extra.as_object().unwrap() {
                    m[k] = v.clone();
                }
                o.push(m);
            }
        }
    }
}

/// What each worker is doing: the behaviour, a note on how far it is, and a count of its runs.
#[derive(Default)]
pub struct Slot {
    what: AtomicUsize,
    beat: AtomicUsize,
    note: Mutex<String>,
}
impl Slot {
    pub fn note(&self, s: String) {
        self.beat.fetch_add(1, Ordering::SeqCst);
        *self.note.lock().unwrap() = s;
    }
    pub fn beat(&self) {
        self.beat.fetch_add(1, Ordering::SeqCst);
    }
}

const STALL: Duration = Duration::from_secs(30);

/// Does the work for each number below `n` and prints the report.
pub fn run_all(n: usize, workers: usize, only: Option<usize>, work: impl Fn(usize, &Slot, &Report) + Send + Sync + 'static) {
    let next = Arc::new(AtomicUsize::new(0));
    let rep = Arc::new(Report::default());
    let work = Arc::new(work);
    let start = || {
        let slot = Arc::new(Slot::default());
        let (s, next, rep, work) = (Arc::clone(&slot), Arc::clone(&next), Arc::clone(&rep), Arc::clone(&work));
        std::thread::spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                if only.is_some_and(|o| o != i) {
                    continue;
                }
                s.what.store(i + 1, Ordering::SeqCst);
                s.beat();
                work(i, &s, &rep);
            }
            s.what.store(usize::MAX, Ordering::SeqCst);
        });
        (slot, 0usize, Instant::now())
    };
    let mut slots: Vec<_> = (0..workers).map(|_| start()).collect();
    loop {
        std::thread::sleep(Duration::from_millis(5));
        let mut i = 0;
        while i < slots.len() {
            let (s, last, since) = &mut slots[i];
            let w = s.what.load(Ordering::SeqCst);
            let b = s.beat.load(Ordering::SeqCst);
            if w == usize::MAX {
                slots.swap_remove(i);
                continue;
            }
            if b != *last {
                (*last, *since) = (b, Instant::now());
            } else if w > 0 && since.elapsed() > STALL {
                let note = s.note.lock().unwrap().clone();
                let d = Diff { step: 0, aspect: "stuck".into(), want: json!("every operation returns"), got: json!(note) };
                rep.add(w - 1, note.split(' ').next().unwrap_or(""), json!({}), 0, &[d]);
                slots.swap_remove(i);
                // (No more work: it would get stuck as well.)
                next.store(n, Ordering::SeqCst);
                continue;
            }
            i += 1;
        }
        if slots.is_empty() {
            break;
        }
    }
    println!(
        "{}",
        json!({"behaviours": n, "runs": rep.runs.load(Ordering::SeqCst), "steps": rep.steps.load(Ordering::SeqCst),
               "counts": &*rep.counts.lock().unwrap(), "mismatches": &*rep.out.lock().unwrap()})
    );
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
