//! Minimal property-based testing engine: every random choice is drawn from a recorded tape
//! (a "choice sequence"), so that a whole generated case - geometry, configuration and
//! operation history alike - shrinks as one value and replays from the tape alone.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Src {
    state: u64,
    replay: Option<Vec<u64>>,
    pub tape: Vec<u64>,
}

fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(parts: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9ABC_DEF0u64;
    for p in parts {
        h ^= *p;
        let mut s = h;
        h = splitmix(&mut s).rotate_left(17) ^ s;
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    hash64(&s.bytes().map(|b| b as u64).collect::<Vec<_>>())
}

const F_RES: u64 = 1 << 20;

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            state: seed,
            replay: None,
            tape: vec![],
        }
    }
    pub fn from_tape(tape: Vec<u64>) -> Self {
        Src {
            state: 0,
            replay: Some(tape),
            tape: vec![],
        }
    }
    /// uniform in 0..n, shrinks towards 0
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(t) => t.get(self.tape.len()).copied().unwrap_or(0).min(n - 1),
            None => splitmix(&mut self.state) % n,
        };
        self.tape.push(v);
        v
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// lo..=hi, but once in `rare` times hi..=big: a limit hidden in the code needs crowds to show
    pub fn count(&mut self, lo: usize, hi: usize, big: usize, rare: u64) -> usize {
        if self.chance(1, rare) {
            self.usize(hi, big)
        } else {
            self.usize(lo, hi)
        }
    }
    pub fn f01(&mut self) -> f64 {
        self.below(F_RES) as f64 / F_RES as f64
    }
    pub fn float(&mut self, lo: f64, hi: f64) -> f64 {
        lo + self.f01() * (hi - lo)
    }
    /// shrinks towards 0.0 (needs lo <= 0 <= hi or lo == -hi)
    pub fn sym(&mut self, r: f64) -> f64 {
        let s = self.below(2);
        let v = self.f01() * r;
        if s == 1 {
            -v
        } else {
            v
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
}

#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    pub want_sample: bool,
}

impl Ctx {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, l: &str, n: u64) {
        *self.labels.entry(l.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static LAST_PANIC_ANY: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let m = format!("panic at {loc}: {msg}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m.clone()));
        if let Ok(mut g) = LAST_PANIC_ANY.lock() {
            *g = Some(m);
        }
    }));
}

/// Runs `f`, returning Err(panic message) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .or_else(|| LAST_PANIC_ANY.lock().ok().and_then(|mut g| g.take()))
            .unwrap_or_else(|| "panic (no message)".into())
    })
}

pub fn run_case(f: CaseFn, src: &mut Src, ctx: &mut Ctx) -> Result<(), String> {
    match guarded(|| f(src, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("unexpected {p}")),
    }
}

pub struct Failure {
    pub sub: &'static str,
    pub index: usize,
    pub tape: Vec<u64>,
    pub msg: String,
}

/// the first failure seen in this process, for the watchdog (another case may hang meanwhile)
pub static FOUND: Mutex<Option<(&'static str, Vec<u64>, String)>> = Mutex::new(None);

/// Journal of the cases in flight (one slot per thread), read by the supervising process when
/// this one is ended by a signal (stack overflow, abort).
pub static JOURNAL: Mutex<Option<std::fs::File>> = Mutex::new(None);

pub fn case_seed(seed: u64, prop: &str, sub: &str, index: u64) -> u64 {
    let base = hash64(&[seed, hash_str(prop), hash_str(sub)]);
    hash64(&[base, index])
}

pub struct SubReport {
    pub name: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
    pub truncated: bool,
    pub wall: f64,
}

pub fn run_sub(
    prop: &str,
    sub: &Sub,
    seed: u64,
    cases: usize,
    threads: usize,
    deadline: Instant,
) -> SubReport {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let min_fail = AtomicUsize::new(usize::MAX);
    let evals = AtomicU64::new(0);
    let truncated = AtomicBool::new(false);
    let labels: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let samples: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let journal = JOURNAL.lock().unwrap().as_ref().map(|f| f.try_clone().unwrap());
    let journal = journal.as_ref();
    if let Some(f) = journal {
        f.write_all_at(&[0u8; 8 * 256], 64).ok();
        let mut name = [b' '; 64];
        name[..sub.name.len()].copy_from_slice(sub.name.as_bytes());
        f.write_all_at(&name, 0).ok();
    }
    let (next, min_fail, evals, truncated) = (&next, &min_fail, &evals, &truncated);
    let (labels_r, distinct_r, samples_r, failure_r) = (&labels, &distinct, &samples, &failure);

    std::thread::scope(|s| {
        for thread in 0..threads {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let (labels, distinct, samples, failure) = (labels_r, distinct_r, samples_r, failure_r);
                    let mut my_labels: BTreeMap<String, u64> = BTreeMap::new();
                    let mut my_distinct = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > min_fail.load(Ordering::SeqCst) {
                            break;
                        }
                        if Instant::now() > deadline {
                            truncated.store(true, Ordering::SeqCst);
                            break;
                        }
                        if let Some(f) = journal {
                            f.write_all_at(&(i as u64 + 1).to_le_bytes(), 64 + 8 * (thread as u64 % 256)).ok();
                        }
                        let mut src = Src::random(case_seed(seed, prop, sub.name, i as u64));
                        let mut ctx = Ctx {
                            want_sample: i < 64,
                            ..Default::default()
                        };
                        let r = run_case(sub.f, &mut src, &mut ctx);
                        evals.fetch_add(1, Ordering::Relaxed);
                        if std::env::var_os("HARNESS_DUMP").is_some() {
                            eprintln!("case {i}: {:?} {:?}", r, ctx.labels);
                        }
                        for (k, v) in ctx.labels {
                            *my_labels.entry(k).or_insert(0) += v;
                        }
                        if ctx.nontrivial {
                            my_distinct.push(hash64(&src.tape));
                            if let Some(smp) = ctx.sample {
                                let mut g = samples.lock().unwrap();
                                g.insert(i, smp);
                                while g.len() > 3 {
                                    g.pop_last();
                                }
                            }
                        }
                        if let Err(msg) = r {
                            min_fail.fetch_min(i, Ordering::SeqCst);
                            FOUND.lock().unwrap().get_or_insert_with(|| (sub.name, src.tape.clone(), msg.clone()));
                            let mut g = failure.lock().unwrap();
                            if g.as_ref().map_or(true, |f| i < f.index) {
                                *g = Some(Failure {
                                    sub: sub.name,
                                    index: i,
                                    tape: src.tape,
                                    msg,
                                });
                            }
                        }
                    }
                    let mut g = labels.lock().unwrap();
                    for (k, v) in my_labels {
                        *g.entry(k).or_insert(0) += v;
                    }
                    distinct.lock().unwrap().extend(my_distinct);
                })
                .unwrap();
        }
    });

    let distinct_nontrivial = distinct.into_inner().unwrap().len() as u64;
    SubReport {
        name: sub.name,
        evaluations: evals.load(Ordering::Relaxed),
        distinct_nontrivial,
        labels: labels.into_inner().unwrap(),
        samples: samples.into_inner().unwrap().into_values().collect(),
        failure: failure.into_inner().unwrap(),
        truncated: truncated.load(Ordering::Relaxed),
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// Shrinks a failing tape: chunk deletion, chunk zeroing, per-value minimisation.
pub fn shrink(
    f: CaseFn,
    tape: Vec<u64>,
    msg: String,
    budget: Duration,
    mut progress: impl FnMut(&[u64], &str),
) -> (Vec<u64>, String, usize) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut n = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, best_msg: &mut String| -> bool {
        n += 1;
        let mut src = Src::from_tape(cand);
        let mut ctx = Ctx::default();
        match run_case(f, &mut src, &mut ctx) {
            Err(m) => {
                // keep the consumed tape; only accept if strictly simpler
                let t = src.tape;
                if (t.len(), t.iter().map(|v| *v as u128).sum::<u128>())
                    < (best.len(), best.iter().map(|v| *v as u128).sum::<u128>())
                {
                    *best = t;
                    *best_msg = m;
                    progress(best, best_msg);
                    true
                } else {
                    false
                }
            }
            Ok(()) => false,
        }
    };
    loop {
        let before = best.clone();
        // delete chunks
        for size in [32usize, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if t0.elapsed() > budget {
                    return (best, best_msg, n);
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut best_msg) {
                    i += size.max(1);
                }
            }
        }
        // zero chunks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    return (best, best_msg, n);
                }
                let hi = (i + size).min(best.len());
                if best[i..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..hi].iter_mut().for_each(|v| *v = 0);
                    attempt(c, &mut best, &mut best_msg);
                }
                i += size;
            }
        }
        // minimise single values
        let mut i = 0;
        while i < best.len() {
            let mut delta = best[i] / 2;
            while delta > 0 && i < best.len() {
                if t0.elapsed() > budget {
                    return (best, best_msg, n);
                }
                if best[i] >= delta {
                    let mut c = best.clone();
                    c[i] -= delta;
                    if attempt(c, &mut best, &mut best_msg) {
                        delta = delta.min(best.get(i).copied().unwrap_or(0));
                        continue;
                    }
                }
                delta /= 2;
            }
            i += 1;
        }
        if best == before {
            return (best, best_msg, n);
        }
    }
}
