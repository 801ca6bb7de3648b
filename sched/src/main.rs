//! Stateless exploration of the thread interleavings (and of the call histories) of ezk-image
//! under the controlled scheduler of rt.rs.  One execution is one child process, which begins
//! without any state of the library.  See DESIGN.md.
mod ops;
mod rt;

use ops::*;
use rt::*;
use std::collections::HashSet;
use std::io::Write;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

/// What every execution of a scenario does: first the main thread runs `prefix`, then one thread
/// per element of `threads` runs its list of operations.
#[derive(Clone, Debug)]
pub struct Scenario {
    prefix: Vec<usize>,
    threads: Vec<Vec<usize>>,
    cpus: usize,
    rayon: usize,
    /// Accesses to the destination are points as well
    watch: bool,
    bound: usize,
}
impl Scenario {
    fn nops(&self) -> usize {
        self.prefix.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
    fn op(&self, i: usize) -> usize {
        *self.prefix.iter().chain(self.threads.iter().flatten()).nth(i).unwrap()
    }
    fn describe(&self, ops: &[Op]) -> String {
        let l = |v: &Vec<usize>| v.iter().map(|i| ops[*i].name()).collect::<Vec<_>>().join("; ");
        let mut s = String::new();
        if !self.prefix.is_empty() {
            s += &format!("first [{}], then ", l(&self.prefix));
        }
        s += &self.threads.iter().map(|t| format!("[{}]", l(t))).collect::<Vec<_>>().join(" || ");
        s + &format!(" ({} CPUs, rayon pool of {})", self.cpus, self.rayon)
    }
}

#[repr(C)]
struct Global {
    next: AtomicUsize,
    stop: AtomicU32,
    incomplete: AtomicU32,
    execs: AtomicU64,
    calls: AtomicU64,
    points: AtomicU64,
    max_points: AtomicU64,
    steps: AtomicU64,
    compared: AtomicU64,
    distinct: AtomicU64,
    outcomes: AtomicU64,
    per_bound: [AtomicU64; 5],
    done: AtomicU64,
    found: AtomicU32,
    scenario: AtomicUsize,
    ndelays: AtomicU32,
    delays: [AtomicU32; MAX_DELAYS],
    text: [u8; 1024],
    engine: [u8; 512],
}
fn map<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<T>(), 3, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}
fn put(to: &[u8], s: &str) {
    let n = s.len().min(to.len() - 1);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), to.as_ptr() as *mut u8, n) };
}
fn get(from: &[u8]) -> String {
    String::from_utf8_lossy(&from[..from.iter().position(|b| *b == 0).unwrap_or(0)]).into()
}

/// The child's side of one execution
fn child(sc: &Scenario, ops: &'static [Op], sh: *mut Shared) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::alarm(30);
    }
    std::panic::set_hook(Box::new(|_| {}));
    CPUS.store(sc.cpus, SeqCst);
    // still the only thread
    unsafe { std::env::set_var("RAYON_NUM_THREADS", sc.rayon.to_string()) };
    let mut work: Vec<Work> = (0..sc.nops()).map(|i| Work::new(&ops[sc.op(i)])).collect();
    start(sh);
    if sc.watch {
        for w in &work {
            watch(w.dst_range());
        }
    }
    let s: &'static Shared = unsafe { &*sh };
    let n = sc.prefix.len();
    for (i, w) in work[..n].iter_mut().enumerate() {
        s.results[i].store(w.run(), SeqCst);
        s.nresults.fetch_add(1, SeqCst);
    }
    count_points(true);
    let mut rest = work[n..].iter_mut();
    let mut at = n;
    if sc.threads.len() == 1 {
        for (i, w) in rest.enumerate() {
            s.results[at + i].store(w.run(), SeqCst);
            s.nresults.fetch_add(1, SeqCst);
        }
    } else {
        std::thread::scope(|scope| {
            for t in &sc.threads {
                let mine: Vec<&mut Work> = rest.by_ref().take(t.len()).collect();
                let base = at;
                at += t.len();
                scope.spawn(move || {
                    for (i, w) in mine.into_iter().enumerate() {
                        s.results[base + i].store(w.run(), SeqCst);
                        s.nresults.fetch_add(1, SeqCst);
                    }
                });
            }
        });
    }
    done()
}

pub enum End {
    Done,
    Bad(String),
}
fn execute(sc: &Scenario, ops: &'static [Op], sh: *mut Shared, delays: &[u32]) -> Result<End, String> {
    unsafe {
        let s = &mut *sh;
        s.delays[..delays.len()].copy_from_slice(delays);
        s.ndelays = delays.len() as u32;
        s.status.store(0, SeqCst);
        s.points.store(0, SeqCst);
        s.steps.store(0, SeqCst);
        s.switches.store(0, SeqCst);
        s.nresults.store(0, SeqCst);
        let pid = libc::fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            child(sc, ops, sh);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        Ok(match s.status.load(SeqCst) {
            ST_DONE => End::Done,
            ST_DEADLOCK => End::Bad("deadlock: every thread is blocked".into()),
            ST_LIVELOCK => End::Bad("no end after two million steps".into()),
            ST_TOO_MANY => return Err("more points than MAX_POINTS".into()),
            _ if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGKILL => return Err("an execution was killed".into()),
            _ if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM => End::Bad("no end within 30 seconds".into()),
            _ if libc::WIFSIGNALED(st) => End::Bad(format!("signal {}", libc::WTERMSIG(st))),
            _ => return Err(format!("an execution ended with wait status {st:#x}")),
        })
    }
}
/// Compare what an execution returned and wrote with what the operations do alone.
fn judge(sc: &Scenario, ops: &[Op], sh: &Shared, end: &End, base: &[u64]) -> Option<String> {
    for i in 0..sc.nops() {
        let r = sh.results[i].load(SeqCst);
        if matches!(end, End::Done) && r != base[sc.op(i)] {
            return Some(format!(
                "operation {i}, {}, gives another result than alone in a new process ({})",
                ops[sc.op(i)].name(),
                verdict(r, base[sc.op(i)])
            ));
        }
    }
    match end {
        End::Done => None,
        End::Bad(s) => Some(s.clone()),
    }
}

fn explore(si: usize, sc: &Scenario, ops: &'static [Op], base: &[u64], g: &Global, sh: *mut Shared, deadline: Instant) -> Result<(), String> {
    let s = unsafe { &*sh };
    let mut seen: HashSet<u32> = HashSet::new();
    let mut outcomes: HashSet<u64> = HashSet::new();
    // delays, hash expected at the last one
    let mut stack: Vec<(Vec<u32>, u32)> = vec![(vec![], 0)];
    while let Some((delays, expect)) = stack.pop() {
        if g.stop.load(SeqCst) != 0 {
            return Ok(());
        }
        if Instant::now() > deadline {
            g.incomplete.store(1, SeqCst);
            return Ok(());
        }
        let end = execute(sc, ops, sh, &delays)?;
        let n = s.points.load(SeqCst);
        g.execs.fetch_add(1, SeqCst);
        g.per_bound[delays.len()].fetch_add(1, SeqCst);
        g.calls.fetch_add(sc.nops() as u64, SeqCst);
        g.points.fetch_add(n as u64, SeqCst);
        g.max_points.fetch_max(n as u64, SeqCst);
        g.steps.fetch_add(s.steps.load(SeqCst), SeqCst);
        if let Some(l) = delays.last() {
            if *l >= n || s.hash[*l as usize].load(SeqCst) != expect {
                return Err(format!("the schedule {delays:?} did not repeat its beginning ({})", sc.describe(ops)));
            }
        }
        if let Some(text) = judge(sc, ops, s, &end, base) {
            if g.found.swap(1, SeqCst) == 0 {
                g.scenario.store(si, SeqCst);
                g.ndelays.store(delays.len() as u32, SeqCst);
                for (i, d) in delays.iter().enumerate() {
                    g.delays[i].store(*d, SeqCst);
                }
                put(&g.text, &text);
                g.stop.store(1, SeqCst);
            }
            return Ok(());
        }
        g.compared.fetch_add(sc.nops() as u64, SeqCst);
        seen.insert(s.trace.load(SeqCst));
        outcomes.insert((0..sc.nops()).fold(0, |h, i| mix(h, s.results[i].load(SeqCst))));
        if delays.len() < sc.bound {
            let from = delays.last().copied().unwrap_or(0);
            for p in (from..n).rev() {
                let others = s.kind[p as usize].load(SeqCst) >> 16;
                if delays.iter().filter(|d| **d == p).count() as u32 >= others {
                    continue;
                }
                let mut d = delays.clone();
                d.push(p);
                stack.push((d, s.hash[p as usize].load(SeqCst)));
            }
        }
    }
    g.distinct.fetch_add(seen.len() as u64, SeqCst);
    g.outcomes.fetch_add(outcomes.len() as u64, SeqCst);
    g.done.fetch_add(1, SeqCst);
    Ok(())
}

fn baselines(ops: &'static [Op], sh: *mut Shared) -> Result<Vec<u64>, String> {
    let mut v = vec![];
    for i in 0..ops.len() {
        // alone, single-threaded
        let sc = Scenario { prefix: vec![ops[i].alone], threads: vec![vec![]], cpus: 1, rayon: 1, watch: false, bound: 0 };
        let mut r = [0; 2];
        for r in &mut r {
            match execute(&sc, ops, sh, &[])? {
                End::Done => *r = unsafe { (*sh).results[0].load(SeqCst) },
                // nothing to compare with; any result will be reported
                End::Bad(_) => *r = u64::MAX,
            }
        }
        if r[0] != r[1] {
            return Err(format!("NONDETERMINISTIC {}", ops[i].name()));
        }
        v.push(r[0]);
    }
    Ok(v)
}

fn esc(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "))
}
fn report(dir: &str, prop: &str, build: &str, tier: &str, si: usize, sc: &Scenario, ops: &[Op], delays: &[u32], text: &str) {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{build}.json");
    let body = format!(
        "{{\"property\": {}, \"build\": {}, \"tier\": {}, \"scenario\": {si}, \"delays\": {delays:?}, \"what\": {}, \"execution\": {}}}\n",
        esc(prop), esc(build), esc(tier), esc(text), esc(&sc.describe(ops))
    );
    let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(body.as_bytes()));
    println!("{text}\n  execution: {}\n  delays at points {delays:?}", sc.describe(ops));
    println!("VIOLATION property={prop} replay={path}");
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let fail = |e: String| -> ! {
        eprintln!("engine error: {e}");
        std::process::exit(2)
    };
    let cmd = a.get(1).cloned().unwrap_or_default();
    let prop = a.get(2).cloned().unwrap_or_default();
    let tier = arg("--tier").unwrap_or("quick".into());
    let build = arg("--build").unwrap_or("sched".into());
    let dir = arg("--replays").unwrap_or("replays".into());
    let thorough = tier == "thorough";
    let ops: &'static [Op] = Box::leak(ops::alphabet(&prop, thorough).into_boxed_slice());
    if ops.is_empty() {
        fail("usage: sched run|replay ID [--tier T] [--scenario N --delays a,b]".into());
    }
    let scs = ops::scenarios(&prop, ops, thorough);
    let sh: *mut Shared = map();
    let t0 = Instant::now();
    let base = match baselines(ops, sh) {
        Ok(b) => b,
        Err(e) if e.starts_with("NONDET") => {
            let text = format!("alone in a new process, twice, with different results: {}", &e[17..]);
            report(&dir, &prop, &build, &tier, 0, &scs[0], ops, &[], &text);
            std::process::exit(1);
        }
        Err(e) => fail(e),
    };
    if cmd == "replay" {
        let si: usize = arg("--scenario").and_then(|s| s.parse().ok()).unwrap_or(0);
        let d: Vec<u32> = arg("--delays").unwrap_or_default().split(',').filter_map(|s| s.trim().parse().ok()).collect();
        let sc = &scs[si];
        match execute(sc, ops, sh, &d) {
            Ok(e) => {
                let s = unsafe { &*sh };
                println!("{}: {} points, {} steps", sc.describe(ops), s.points.load(SeqCst), s.steps.load(SeqCst));
                for p in 0..s.points.load(SeqCst) as usize {
                    let k = s.kind[p].load(SeqCst);
                    println!("  point {p}: kind {} thread {} others {}", k >> 8 & 255, k & 255, k >> 16);
                }
                if let Some(t) = judge(sc, ops, s, &e, &base) {
                    println!("FAIL {t}");
                    std::process::exit(1);
                }
                return;
            }
            Err(e) => fail(e),
        }
    }
    let limit = arg("--limit").and_then(|s| s.parse().ok()).unwrap_or(600);
    let deadline = t0 + Duration::from_secs(limit);
    let g: &'static Global = unsafe { &*map::<Global>() };
    let workers: usize = arg("--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut pids = vec![];
    for _ in 0..workers {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let sh: *mut Shared = map();
            loop {
                let i = g.next.fetch_add(1, SeqCst);
                if i >= scs.len() || g.stop.load(SeqCst) != 0 {
                    unsafe { libc::_exit(0) };
                }
                if let Err(e) = explore(i, &scs[i], ops, &base, g, sh, deadline) {
                    put(&g.engine, &e);
                    g.stop.store(1, SeqCst);
                    unsafe { libc::_exit(2) };
                }
            }
        }
        pids.push(pid);
    }
    let mut bad = false;
    for p in pids {
        let mut st = 0;
        unsafe { while libc::waitpid(p, &mut st, 0) < 0 {} }
        bad |= st != 0;
    }
    let found = g.found.load(SeqCst) != 0;
    if bad && !found {
        fail(format!("a worker failed: {}", get(&g.engine)));
    }
    let ld = |x: &AtomicU64| x.load(SeqCst);
    let complete = g.incomplete.load(SeqCst) == 0 && !found;
    let samples: Vec<String> = scs.iter().step_by((scs.len() / 6).max(1)).take(6).map(|s| esc(&s.describe(ops))).collect();
    let per: Vec<String> = g.per_bound.iter().map(|x| ld(x).to_string()).collect();
    let json = format!(
        "{{\"isa\": \"best\", \"scenarios\": {}, \"scenarios_completed\": {}, \"executions\": {}, \"executions_by_delays\": [{}], \"calls\": {}, \"compared\": {}, \"operations\": {}, \"states\": {}, \"outcomes\": {}, \"points\": {}, \"max_points\": {}, \"complete\": {complete}, \"seconds\": {:.2}, \"samples\": [{}], \"violations\": {}}}\n",
        scs.len(), ld(&g.done), ld(&g.execs), per.join(", "), ld(&g.steps), ld(&g.compared), ld(&g.calls), ld(&g.distinct), ld(&g.outcomes),
        ld(&g.points), ld(&g.max_points), t0.elapsed().as_secs_f64(), samples.join(", "), found as u32
    );
    match arg("--out") {
        Some(p) => std::fs::write(p, &json).unwrap(),
        None => print!("{json}"),
    }
    if found {
        let si = g.scenario.load(SeqCst);
        let d: Vec<u32> = (0..g.ndelays.load(SeqCst) as usize).map(|i| g.delays[i].load(SeqCst)).collect();
        report(&dir, &prop, &build, &tier, si, &scs[si], ops, &d, &get(&g.text));
        std::process::exit(1);
    }
}
