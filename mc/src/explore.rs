//! Stateless, exhaustive explorer.
//!
//! A *scenario* is a function that builds one execution of the real library from a sequence of
//! choices (`Ctx::choose`).  The explorer enumerates *every* choice sequence the scenario can
//! produce, depth first (no sampling, no pruning); the first choice point is distributed over
//! worker threads.  An execution is therefore identified by its choice vector, which is what
//! replay files contain.
use crate::mem::Arena;
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAX_WORKERS: usize = 16;
pub const MAX_CHOICES: usize = 96;

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_ne_bytes(x);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}
pub type HashSet64 = HashSet<u64, BuildHasherDefault<IdHasher>>;

pub fn mix(mut h: u64, v: u64) -> u64 {
    h ^= v;
    h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h ^ (h >> 29)
}
pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    let mut it = b.chunks_exact(8);
    for c in &mut it {
        h = mix(h, u64::from_ne_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    mix(mix(h, u64::from_ne_bytes(last)), b.len() as u64)
}

/// What one worker is executing right now; read by the signal handler and the watchdog.
pub struct Current {
    pub scenario: AtomicUsize,
    pub seq: AtomicU64,
    pub len: AtomicUsize,
    pub choices: [AtomicUsize; MAX_CHOICES],
    pub arena_lo: AtomicUsize,
    pub arena_hi: AtomicUsize,
}
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicUsize = AtomicUsize::new(0);
#[allow(clippy::declare_interior_mutable_const)]
const CUR0: Current = Current {
    scenario: Z,
    seq: AtomicU64::new(0),
    len: Z,
    choices: [Z; MAX_CHOICES],
    arena_lo: Z,
    arena_hi: Z,
};
pub static CURRENT: [Current; MAX_WORKERS] = [CUR0; MAX_WORKERS];
pub static WORKERS: AtomicUsize = AtomicUsize::new(0);

#[derive(Clone, Debug)]
pub struct Failure {
    pub sig: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Stats {
    pub execs: u64,
    pub transitions: u64,
    pub compared: u64,
    pub samples_checked: u64,
    pub states: HashSet64,
    pub states_capped: bool,
    pub known: Vec<(String, String)>,
    pub samples: Vec<String>,
    pub max_dev: f64,
    pub counters: std::collections::BTreeMap<&'static str, u64>,
}
const STATE_CAP: usize = 6_000_000;
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.execs += o.execs;
        self.transitions += o.transitions;
        self.compared += o.compared;
        self.samples_checked += o.samples_checked;
        self.states_capped |= o.states_capped;
        self.states.extend(o.states);
        for k in o.known {
            if !self.known.contains(&k) {
                self.known.push(k)
            }
        }
        if self.samples.len() < 8 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
        if o.max_dev > self.max_dev {
            self.max_dev = o.max_dev
        }
        for (k, v) in o.counters {
            *self.counters.entry(k).or_default() += v;
        }
    }
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    pub log: Vec<(u32, u32, &'static str)>,
    pub arena: &'a mut Arena,
    pub stats: &'a mut Stats,
    /// the larger of the scenario's two bounds
    pub thorough: bool,
    /// thorough tier: bounds beyond what the quick tier affords
    pub deep: bool,
    pub want_desc: bool,
    pub desc: String,
    fails: Vec<Failure>,
    worker: usize,
}

impl Ctx<'_> {
    pub fn choose(&mut self, label: &'static str, n: usize) -> usize {
        assert!(n > 0, "ENGINE: empty choice {label}");
        let p = self.log.len();
        assert!(p < MAX_CHOICES, "ENGINE: too many choices");
        let c = if p < self.prefix.len() { self.prefix[p] as usize } else { 0 };
        assert!(c < n, "ENGINE: replay diverged at choice {p} ({label}): {c} of {n}");
        self.log.push((c as u32, n as u32, label));
        let cur = &CURRENT[self.worker];
        cur.choices[p].store(c, Relaxed);
        cur.len.store(p + 1, Relaxed);
        c
    }
    pub fn pick<'t, T>(&mut self, label: &'static str, xs: &'t [T]) -> &'t T {
        let i = self.choose(label, xs.len());
        &xs[i]
    }
    pub fn flag(&mut self, label: &'static str) -> bool {
        self.choose(label, 2) == 1
    }
    /// Report that the property is broken in this execution. `sig` identifies the failing class.
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        self.fails.push(Failure { sig: sig.into(), msg: msg.into() });
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            if !self.desc.is_empty() {
                self.desc.push_str("; ");
            }
            self.desc.push_str(&f());
        }
    }
    /// Run one call of the library under test; a panic becomes `Err(message)`.
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.stats.transitions += 1;
        IN_CALL.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CALL.with(|c| c.set(false));
        r.map_err(|e| {
            let t = panic_text(&*e);
            assert!(!t.contains("ENGINE"), "{t}");
            t
        })
    }
    pub fn state(&mut self, h: u64) {
        if self.stats.states.len() < STATE_CAP {
            self.stats.states.insert(h);
        } else {
            self.stats.states_capped = true;
        }
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.stats.counters.entry(k).or_default() += n;
    }
}

/// set while the library is being explored: a crash is then a violation, not an engine error
pub static ARMED: AtomicBool = AtomicBool::new(false);

thread_local! {
    pub static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    pub static IN_CALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    };
    let at = LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()));
    format!("panic: {s} {at}")
}

pub struct Scenario {
    pub name: &'static str,
    pub run: fn(&mut Ctx),
    /// uses its larger bound (`Ctx::thorough`) in the thorough tier only
    pub slow: bool,
}

pub struct Violation {
    pub scenario: usize,
    pub choices: Vec<u32>,
    pub labels: Vec<&'static str>,
    pub failure: Failure,
    pub desc: String,
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: Stats,
    pub per_scenario: Vec<(&'static str, u64)>,
    pub complete: bool,
}

pub struct Config {
    pub thorough: bool,
    pub workers: usize,
    /// explore the i-th of n parts only (the parts are explored by different processes)
    pub part: (usize, usize),
    pub deadline: Option<Instant>,
    pub is_known: Box<dyn Fn(&str) -> bool + Sync>,
}

/// Execute one choice vector; returns failures plus the full choice log.
pub fn execute(
    sc: &Scenario,
    si: usize,
    prefix: &[u32],
    arena: &mut Arena,
    stats: &mut Stats,
    thorough: bool,
    want_desc: bool,
    worker: usize,
) -> Result<(Vec<Failure>, Vec<(u32, u32, &'static str)>, String), String> {
    let cur = &CURRENT[worker];
    cur.scenario.store(si, Relaxed);
    cur.len.store(0, Relaxed);
    cur.seq.fetch_add(1, Relaxed);
    arena.reset();
    #[cfg(miri)]
    eprintln!("@ {} {prefix:?}", sc.name);
    let mut ctx = Ctx {
        prefix,
        log: Vec::with_capacity(24),
        arena,
        stats,
        thorough: thorough || !sc.slow,
        deep: thorough,
        want_desc,
        desc: String::new(),
        fails: vec![],
        worker,
    };
    let r = catch_unwind(AssertUnwindSafe(|| (sc.run)(&mut ctx)));
    if let Err(e) = r {
        return Err(format!("{} in {} choices {:?}", panic_text(&*e), sc.name, ctx.log));
    }
    if prefix.len() > ctx.log.len() {
        return Err(format!("ENGINE: replay diverged, {} of {} choices consumed", ctx.log.len(), prefix.len()));
    }
    ctx.stats.execs += 1;
    Ok((ctx.fails, ctx.log, ctx.desc))
}

fn next_prefix(log: &[(u32, u32, &'static str)], fixed: usize) -> Option<Vec<u32>> {
    let mut i = log.len();
    while i > fixed {
        i -= 1;
        if log[i].0 + 1 < log[i].1 {
            let mut p: Vec<u32> = log[..i].iter().map(|l| l.0).collect();
            p.push(log[i].0 + 1);
            return Some(p);
        }
    }
    None
}

pub fn explore(scenarios: &[Scenario], cfg: &Config) -> Result<Outcome, String> {
    let stop = AtomicBool::new(false);
    let incomplete = AtomicBool::new(false);
    let engine_err: Mutex<Option<String>> = Mutex::new(None);
    let violations: Mutex<Vec<Violation>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats::default());
    let mut per_scenario = vec![];

    // First pass: find each scenario's top-level arity by running its first execution.
    let mut shards: Vec<(usize, u32)> = vec![];
    {
        let mut arena = Arena::new(0);
        for (si, sc) in scenarios.iter().enumerate() {
            let mut st = Stats::default();
            let (_, log, _) = execute(sc, si, &[], &mut arena, &mut st, cfg.thorough, false, 0)?;
            let n = log.first().map_or(0, |l| l.1);
            if n == 0 {
                shards.push((si, u32::MAX));
            }
            for i in 0..n {
                shards.push((si, i));
            }
        }
    }
    let (part, parts) = cfg.part;
    let shards: Vec<(usize, u32)> = shards.into_iter().enumerate().filter(|(i, _)| i % parts == part).map(|(_, s)| s).collect();
    let next = AtomicUsize::new(0);
    let per: Vec<AtomicU64> = scenarios.iter().map(|_| AtomicU64::new(0)).collect();
    WORKERS.store(cfg.workers, SeqCst);

    std::thread::scope(|s| {
        for w in 0..cfg.workers {
            let (stop, incomplete, engine_err, violations, total, next, shards, per) =
                (&stop, &incomplete, &engine_err, &violations, &total, &next, &shards, &per);
            s.spawn(move || {
                let mut arena = Arena::new(w);
                WORKER.with(|x| x.set(w));
                let mut stats = Stats::default();
                'outer: loop {
                    let k = next.fetch_add(1, SeqCst);
                    if k >= shards.len() || stop.load(SeqCst) {
                        break;
                    }
                    let (si, first) = shards[k];
                    let sc = &scenarios[si];
                    let mut prefix = if first == u32::MAX { vec![] } else { vec![first] };
                    let mut n = 0u64;
                    loop {
                        n += 1;
                        let want = stats.samples.len() < 2 && n % 97 == 1;
                        let r = execute(sc, si, &prefix, &mut arena, &mut stats, cfg.thorough, want, w);
                        let (fails, log, desc) = match r {
                            Ok(x) => x,
                            Err(e) => {
                                *engine_err.lock().unwrap() = Some(e);
                                stop.store(true, SeqCst);
                                break 'outer;
                            }
                        };
                        if want && !desc.is_empty() {
                            stats.samples.push(format!("{}: {}", sc.name, desc));
                        }
                        for f in fails {
                            if (cfg.is_known)(&f.sig) {
                                let k = (f.sig.clone(), f.msg.clone());
                                if !stats.known.iter().any(|x| x.0 == k.0) {
                                    stats.known.push(k);
                                }
                            } else {
                                violations.lock().unwrap().push(Violation {
                                    scenario: si,
                                    choices: log.iter().map(|l| l.0).collect(),
                                    labels: log.iter().map(|l| l.2).collect(),
                                    failure: f,
                                    desc: String::new(),
                                });
                                stop.store(true, SeqCst);
                                break;
                            }
                        }
                        if stop.load(Relaxed) {
                            per[si].fetch_add(n, Relaxed);
                            break 'outer;
                        }
                        if let Some(d) = cfg.deadline {
                            if (cfg!(miri) || n % 64 == 0) && Instant::now() > d {
                                incomplete.store(true, SeqCst);
                                stop.store(true, SeqCst);
                                per[si].fetch_add(n, Relaxed);
                                break 'outer;
                            }
                        }
                        // a scenario without any choice has exactly one execution
                        match next_prefix(&log, 1) {
                            Some(p) => prefix = p,
                            None => break,
                        }
                    }
                    per[si].fetch_add(n, Relaxed);
                }
                CURRENT[w].len.store(0, Relaxed);
                CURRENT[w].seq.store(0, Relaxed);
                total.lock().unwrap().merge(stats);
            });
        }
    });
    if let Some(e) = engine_err.into_inner().unwrap() {
        return Err(e);
    }
    for (i, sc) in scenarios.iter().enumerate() {
        per_scenario.push((sc.name, per[i].load(SeqCst)));
    }
    Ok(Outcome {
        violations: violations.into_inner().unwrap(),
        stats: total.into_inner().unwrap(),
        per_scenario,
        complete: !incomplete.load(SeqCst),
    })
}

/// Ends the process with a violation when one execution makes no progress for `limit`.
pub fn watchdog(limit: Duration, report: fn(usize)) {
    std::thread::spawn(move || {
        let mut seen = [(0u64, Instant::now()); MAX_WORKERS];
        loop {
            std::thread::sleep(Duration::from_secs(2));
            for (w, s) in seen.iter_mut().enumerate() {
                let seq = CURRENT[w].seq.load(Relaxed);
                if seq == 0 || seq != s.0 {
                    *s = (seq, Instant::now());
                } else if s.1.elapsed() > limit {
                    report(w);
                }
            }
        }
    });
}
