//! Exhaustive bounded exploration of ezk-image.  See DESIGN.md.
mod explore;
mod img;
mod isa;
mod mem;
mod model;
mod ops;
mod p;

use explore::*;
use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::sync::OnceLock;
use std::time::{Duration, Instant};

struct Run {
    property: String,
    tier: String,
    build: String,
    replay_dir: String,
    names: Vec<&'static str>,
}
static RUN: OnceLock<Run> = OnceLock::new();

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn write_replay(scenario: &str, choices: &[u32], labels: &[&str], sig: &str, msg: &str, desc: &str) -> String {
    let r = RUN.get().unwrap();
    let _ = std::fs::create_dir_all(&r.replay_dir);
    let path = format!("{}/{}-{}.json", r.replay_dir, r.property, r.build);
    let named: Vec<String> = choices
        .iter()
        .enumerate()
        .map(|(i, c)| match labels.get(i) {
            Some(l) => format!("[{}, {c}]", esc(l)),
            None => format!("[\"\", {c}]"),
        })
        .collect();
    let body = format!(
        "{{\"property\": {}, \"build\": {}, \"tier\": {}, \"scenario\": {}, \"choices\": {:?}, \"sig\": {}, \"message\": {}, \"execution\": {}, \"decisions\": [{}]}}\n",
        esc(&r.property), esc(&r.build), esc(&r.tier), esc(scenario), choices, esc(sig), esc(msg), esc(desc), named.join(", ")
    );
    let _ = std::fs::File::create(&path).and_then(|mut f| f.write_all(body.as_bytes()));
    path
}

/// Report the execution worker `w` is in and end the process.
fn die(w: usize, what: &str) -> ! {
    let r = RUN.get().unwrap();
    let c = &CURRENT[w];
    let n = c.len.load(Relaxed).min(MAX_CHOICES);
    let ch: Vec<u32> = (0..n).map(|i| c.choices[i].load(Relaxed) as u32).collect();
    let sc = r.names.get(c.scenario.load(Relaxed)).copied().unwrap_or("?");
    let path = write_replay(sc, &ch, &[], "crash", what, "");
    println!("{what} in scenario {sc}, choices {ch:?}");
    println!("VIOLATION property={} replay={path}", r.property);
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

extern "C" fn on_signal(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    // best effort: never return to the faulting instruction
    unsafe { libc::alarm(20) };
    let addr = unsafe { (*info).si_addr() } as usize;
    let name = match sig {
        libc::SIGSEGV => "SIGSEGV (access outside the planes)",
        libc::SIGBUS => "SIGBUS",
        libc::SIGILL => "SIGILL",
        libc::SIGFPE => "SIGFPE",
        _ => "SIGABRT",
    };
    let mut w = WORKER.try_with(|w| w.get()).unwrap_or(usize::MAX);
    let mut kind = "unmapped or unrelated address";
    if sig == libc::SIGSEGV || sig == libc::SIGBUS {
        for (i, c) in CURRENT.iter().enumerate() {
            if (c.arena_lo.load(Relaxed)..c.arena_hi.load(Relaxed)).contains(&addr) {
                w = i;
                kind = "guard page";
            }
        }
    }
    if w == usize::MAX {
        w = 0;
    }
    if !ARMED.load(Relaxed) {
        eprintln!("engine: {name} at {addr:#x}");
        unsafe { libc::_exit(2) }
    }
    die(w, &format!("{name} at {addr:#x} ({kind})"));
}

fn install() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = loc);
    }));
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_signal as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

fn known(path: &str, property: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=C16 sig=<sig> <text>
        if let Some(r) = l.strip_prefix("known: property=") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("");
            let s = it.next().unwrap_or("").trim_start_matches("sig=").to_string();
            if p == property {
                v.push((s, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let cmd = a.get(1).map(String::as_str).unwrap_or("");
    if !cfg!(miri) {
        install();
    }
    if let Some(l) = get("--isa") {
        if let Err(e) = isa::limit(&l) {
            eprintln!("engine error: {e}");
            std::process::exit(2);
        }
    }
    match cmd {
        "run" => {
            let id = a[2].clone();
            let tier = get("--tier").unwrap_or("quick".into());
            let build = get("--build").unwrap_or("stable".into());
            let kf = known(&get("--known").unwrap_or("known_findings.txt".into()), &id);
            let out = get("--out");
            let all = if a.iter().any(|x| x == "--small") { p::small(&id) } else { p::scenarios(&id) };
            let scs: Vec<Scenario> = all
                .into_iter()
                .filter(|s| get("--only").is_none_or(|o| o == s.name))
                .collect();
            if scs.is_empty() {
                eprintln!("engine: no scenarios for {id}");
                std::process::exit(2);
            }
            let _ = RUN.set(Run {
                property: id.clone(),
                tier: tier.clone(),
                build: build.clone(),
                replay_dir: get("--replays").unwrap_or("replays".into()),
                names: scs.iter().map(|s| s.name).collect(),
            });
            let workers = get("--workers").and_then(|w| w.parse().ok()).unwrap_or(8usize).min(MAX_WORKERS);
            let limit = get("--limit").and_then(|w| w.parse().ok());
            let t0 = Instant::now();
            let sigs: Vec<String> = kf.iter().map(|k| k.0.clone()).collect();
            let cfg = Config {
                thorough: tier == "thorough",
                workers,
                part: get("--part").map_or((0, 1), |p| {
                    let (a, b) = p.split_once('/').expect("--part i/n");
                    (a.parse().unwrap(), b.parse().unwrap())
                }),
                deadline: limit.map(|s| t0 + Duration::from_secs(s)),
                is_known: Box::new(move |s| sigs.iter().any(|k| k == s)),
            };
            #[cfg(not(miri))]
            watchdog(Duration::from_secs(150), |w| die(w, "no progress (deadlock or endless loop)"));
            ARMED.store(true, SeqCst);
            let r = explore(&scs, &cfg);
            ARMED.store(false, SeqCst);
            let o = match r {
                Ok(o) => o,
                Err(e) => {
                    eprintln!("engine error: {e}");
                    std::process::exit(2);
                }
            };
            let mut s = String::new();
            let per: Vec<String> = o.per_scenario.iter().map(|(n, k)| format!("{}: {k}", esc(n))).collect();
            let smp: Vec<String> = o.stats.samples.iter().take(8).map(|x| esc(x)).collect();
            let cnt: Vec<String> = o.stats.counters.iter().map(|(n, k)| format!("{}: {k}", esc(n))).collect();
            let kn: Vec<String> = o.stats.known.iter().map(|(n, m)| format!("[{}, {}]", esc(n), esc(m))).collect();
            s.push_str(&format!(
                "{{\"isa\": {}, \"executions\": {}, \"calls\": {}, \"compared\": {}, \"samples_checked\": {}, \"states\": {}, \"states_capped\": {}, \"complete\": {}, \"max_dev\": {:.6}, \"seconds\": {:.2}, \"per_scenario\": {{{}}}, \"counters\": {{{}}}, \"known\": [{}], \"samples\": [{}], \"violations\": {}}}\n",
                esc(isa::in_effect()), o.stats.execs, o.stats.transitions, o.stats.compared, o.stats.samples_checked, o.stats.states.len(), o.stats.states_capped,
                o.complete, o.stats.max_dev, t0.elapsed().as_secs_f64(), per.join(", "), cnt.join(", "), kn.join(", "), smp.join(", "), o.violations.len()
            ));
            match out {
                Some(p) => std::fs::write(p, &s).unwrap(),
                None => print!("{s}"),
            }
            let mut told = std::collections::BTreeSet::new();
            for (sig, msg) in &o.stats.known {
                if !told.insert(sig) {
                    continue;
                }
                let msg = msg.replace('\n', " ");
                let t = kf.iter().find(|k| &k.0 == sig).map(|k| k.1.clone()).unwrap_or_default();
                println!("KNOWN-FINDING: property={id} {sig} {t} (e.g. {msg})");
            }
            if let Some(v) = o.violations.first() {
                // re-execute for the description, and to make sure that it replays
                let mut arena = mem::Arena::new(0);
                let mut st = Stats::default();
                let mut desc = String::new();
                let mut again = false;
                if let Ok((f, _, d)) =
                    execute(&scs[v.scenario], v.scenario, &v.choices, &mut arena, &mut st, cfg.thorough, true, 0)
                {
                    desc = d;
                    again = f.iter().any(|f| f.sig == v.failure.sig);
                }
                let name = scs[v.scenario].name;
                let path = write_replay(name, &v.choices, &v.labels, &v.failure.sig, &v.failure.msg, &desc);
                println!("{name}: {} [{}]", v.failure.msg, v.failure.sig);
                println!("  execution: {desc}{}", if again { "" } else { "  (did not fail again when re-executed)" });
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
            std::process::exit(0);
        }
        // mc replay ID SCENARIO TIER c,c,c
        "replay" => {
            let scs = p::scenarios(&a[2]);
            let Some(si) = scs.iter().position(|s| s.name == a[3]) else {
                eprintln!("no such scenario");
                std::process::exit(2);
            };
            let ch: Vec<u32> = a[5].split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
            let _ = RUN.set(Run {
                property: a[2].clone(),
                tier: a[4].clone(),
                build: "replay".into(),
                replay_dir: "replays".into(),
                names: scs.iter().map(|s| s.name).collect(),
            });
            ARMED.store(true, SeqCst);
            let mut arena = mem::Arena::new(0);
            let mut st = Stats::default();
            match execute(&scs[si], si, &ch, &mut arena, &mut st, a[4] == "thorough", true, 0) {
                Ok((f, log, d)) => {
                    for (c, n, l) in log {
                        println!("  {l}: {c} of {n}");
                    }
                    println!("  {d}");
                    for f in &f {
                        println!("FAIL {}: {}", f.sig, f.msg);
                    }
                    std::process::exit(!f.is_empty() as i32);
                }
                Err(e) => {
                    eprintln!("engine error: {e}");
                    std::process::exit(2);
                }
            }
        }
        _ => {
            eprintln!("usage: mc run ID [--tier quick|thorough] | mc replay ID SCENARIO TIER CHOICES");
            std::process::exit(2);
        }
    }
}
