//! Runs properties under the simulator: one forked child per run, so that every run starts from
//! the same process state and a run that hangs, aborts or exhausts memory is only that run.
pub mod disk;
use serde_json::{json, Value};
use simcore::{Kind, Outcome, Rng, SimConfig, KIND_NAMES, NKINDS};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

/// What a run reports as broken: `sig` names the kind of failure (stable under minimisation),
/// `detail` says what was seen.
#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
}
pub fn viol<T>(sig: impl std::fmt::Display, detail: impl std::fmt::Display) -> Result<T, Viol> {
    Err(Viol { sig: sig.to_string(), detail: detail.to_string() })
}
pub type Run = Result<(), Viol>;

/// What a run may map, in bytes.
pub static ADDRESS_SPACE: AtomicU64 = AtomicU64::new(7 << 29);

pub struct Prop {
    pub id: &'static str,
    /// configuration of a run (probabilities, CPU and worker counts) from the run's seed
    pub config: fn(&mut Rng, &mut SimConfig),
    /// state shared by all runs, built before the first fork
    pub prewarm: fn(),
    pub run: fn() -> Run,
    /// CPU seconds after which a run counts as hanging
    pub cpu_limit: u64,
}

// ------------------------------------------------------------------ for workloads
/// A workload decision: 0..n, 0 being the simplest alternative.
pub fn pick(n: usize) -> usize {
    simcore::choose_uniform(Kind::App, n)
}
pub fn pick_of<'a, T>(v: &'a [T]) -> &'a T {
    &v[pick(v.len())]
}
/// A seed for bulk data; 0 when minimised.
pub fn pick_rng() -> Rng {
    Rng::new(pick(1 << 32) as u64)
}
pub fn one_in(n: usize) -> bool {
    pick(n) == n - 1
}
pub fn log(s: impl Into<String>) {
    simcore::logline(s.into());
}
static COUNTERS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
pub fn count(name: &str, n: u64) {
    *COUNTERS.lock().unwrap_or_else(|e| e.into_inner()).entry(name.to_string()).or_insert(0) += n;
}
/// Hash of the states and events that distinguish this run from others.
static STATE: Mutex<u64> = Mutex::new(0);
pub fn state(x: u64) {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    *g = simcore::rng::mix(*g, x);
}
pub fn state_str(x: &str) {
    state(simcore::rng::hash_str(x));
}
pub fn state_of(x: &impl std::fmt::Debug) {
    state_str(&format!("{x:?}"));
}
/// Runs `f`, turning a panic into Err(message with location).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let loc = LAST_PANIC.with(|l| l.borrow_mut().take());
            Err(loc.unwrap_or_else(|| simcore::panic_msg(&*e)))
        }
    }
}
thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}

// ------------------------------------------------------------------ running
fn cfg_json(c: &SimConfig) -> Value {
    json!({
        "seed": c.seed, "p": c.p.to_vec(), "cpus": c.cpus, "rayon_threads": c.rayon_threads,
        "entropy": c.entropy, "max_steps": c.max_steps,
    })
}
fn cfg_from(v: &Value) -> SimConfig {
    let mut c = SimConfig {
        seed: v["seed"].as_u64().unwrap_or(0),
        cpus: v["cpus"].as_u64().unwrap_or(1) as usize,
        rayon_threads: v["rayon_threads"].as_u64().unwrap_or(1) as usize,
        entropy: v["entropy"].as_u64().unwrap_or(0),
        max_steps: v["max_steps"].as_u64().unwrap_or(20_000_000),
        ..Default::default()
    };
    if let Some(p) = v["p"].as_array() {
        for (i, x) in p.iter().enumerate().take(NKINDS) {
            c.p[i] = x.as_f64().unwrap_or(0.0);
        }
    }
    c
}

fn run_cfg(prop: &Prop, seed: u64, index: u64) -> SimConfig {
    let run_seed =
        simcore::rng::mix(simcore::rng::mix(seed, simcore::rng::hash_str(prop.id)), index);
    let mut rng = Rng::new(run_seed);
    let mut c = SimConfig { seed: rng.next(), entropy: rng.next() >> 12, ..Default::default() };
    c.seed >>= 12; // survives JSON readers that use doubles
    (prop.config)(&mut rng, &mut c);
    c
}

static OUT_FD: Mutex<i32> = Mutex::new(-1);
fn emit_raw(fd: i32, s: &str) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { libc::write(fd, b[o..].as_ptr() as *const _, b.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
}
fn runaway() {
    // a simulated thread keeps calling the OS: the run does not terminate
    let fd = *OUT_FD.lock().unwrap_or_else(|e| e.into_inner());
    let v = json!({"ok": false, "sig": "no-progress: endless system calls",
        "detail": format!("more than {} simulated system calls in one run",
            simcore::interpose::SYSCALL_CAP.load(std::sync::atomic::Ordering::SeqCst)),
        "log": simcore::take_log()});
    emit_raw(fd, &v.to_string());
    unsafe { libc::_exit(0) };
}

fn child(prop: &Prop, cfg: SimConfig, full: bool, fd: i32) {
    *OUT_FD.lock().unwrap() = fd;
    *simcore::interpose::ON_RUNAWAY.lock().unwrap() = Some(runaway);
    simcore::simfs::reset();
    let t0 = std::time::Instant::now();
    let run = prop.run;
    let r = simcore::run_sim(cfg, move || {
        let r = run();
        (r, simcore::take_log())
    });
    let mut log = vec![];
    let (ok, sig, detail) = match r.outcome {
        Outcome::Done((Ok(()), l)) => {
            log = l;
            (true, String::new(), String::new())
        }
        Outcome::Done((Err(v), l)) => {
            log = l;
            (false, v.sig, v.detail)
        }
        Outcome::Panic(m) => {
            let m = MAIN_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or(m);
            (false, "panic".to_string(), m)
        }
        Outcome::Deadlock(m) => (false, "deadlock".to_string(), m),
        Outcome::StepLimit => (
            false,
            "no-progress: step limit".to_string(),
            format!("{} scheduling steps without finishing", r.stats.steps),
        ),
    };
    let s = &r.stats;
    let fs = simcore::simfs::stats();
    let mut v = json!({
        "ok": ok, "steps": s.steps, "cp": s.choice_points, "switches": s.switches,
        "fibers": s.fibers, "fired": s.fired.to_vec(), "offered": s.offered.to_vec(),
        "trace": format!("{:016x}", s.trace_hash), "sched": format!("{:016x}", s.sched_hash),
        "state": format!("{:016x}", *STATE.lock().unwrap_or_else(|e| e.into_inner())),
        "sim_ns": s.sim_ns, "wall_us": t0.elapsed().as_micros() as u64,
        "counters": *COUNTERS.lock().unwrap_or_else(|e| e.into_inner()),
        "fs": {
            "opens": fs.opens, "reads": fs.reads, "writes": fs.writes, "short_reads": fs.short_reads,
            "short_writes": fs.short_writes, "eintr": fs.eintr, "eio_read": fs.eio_read,
            "eio_write": fs.eio_write, "enospc": fs.enospc, "open_errors": fs.open_errors,
            "sync_errors": fs.sync_errors, "close_errors": fs.close_errors, "crashes": fs.crashes,
            "torn": fs.torn, "lost_writes": fs.lost_writes,
        },
    });
    if !ok {
        v["sig"] = json!(sig);
        v["detail"] = json!(short(&detail, 1500));
    }
    if full || !ok {
        v["choices"] = json!(r
            .choices
            .iter()
            .map(|(i, x)| json!([format!("{}:{}", i >> 56, i & ((1 << 56) - 1)), x]))
            .collect::<Vec<_>>());
        v["log"] = json!(log);
        v["other_panics"] = json!(r.other_panics);
    }
    emit_raw(fd, &v.to_string());
    unsafe { libc::_exit(0) };
}

static MAIN_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn forked(prop: &Prop, cfg: &SimConfig, full: bool) -> Value {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            libc::close(fds[0]);
            // what the code under test prints is not part of the report
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            let l = libc::rlimit { rlim_cur: prop.cpu_limit, rlim_max: prop.cpu_limit + 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let g = ADDRESS_SPACE.load(Ordering::Relaxed);
            let l = libc::rlimit { rlim_cur: g, rlim_max: g };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 7 << 29, rlim_max: 7 << 29 };
            libc::setrlimit(libc::RLIMIT_DATA, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            child(prop, cfg.clone(), full, fds[1]);
            unreachable!();
        }
        libc::close(fds[1]);
        let mut f = <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        drop(f);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        match serde_json::from_str::<Value>(&s) {
            Ok(v) => v,
            Err(_) => {
                let (sig, detail) = if libc::WIFSIGNALED(st) {
                    match libc::WTERMSIG(st) {
                        libc::SIGKILL => (
                            "harness: killed".to_string(),
                            "the run was ended from outside (memory?)".to_string(),
                        ),
                        libc::SIGXCPU => (
                            "no-progress: cpu limit".to_string(),
                            format!("still running after {} s of CPU time", prop.cpu_limit),
                        ),
                        n => (format!("killed by signal {n}"), "the process died".to_string()),
                    }
                } else {
                    (
                        "harness: no result".to_string(),
                        format!("exit status {}", libc::WEXITSTATUS(st)),
                    )
                };
                json!({"ok": false, "sig": sig, "detail": detail, "lost": true})
            }
        }
    }
}

fn parse_choices(v: &Value) -> Option<BTreeMap<u64, u64>> {
    let a = v.as_array()?;
    let mut m = BTreeMap::new();
    for e in a {
        let k = e[0].as_str()?;
        let (s, i) = k.split_once(':')?;
        m.insert(s.parse::<u64>().ok()? << 56 | i.parse::<u64>().ok()?, e[1].as_u64()?);
    }
    Some(m)
}

fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| {
            let f = l.file();
            format!("{}:{}", f.rsplit("/ws/").next().unwrap_or(f), l.line())
        });
        let s = format!("{} at {}", m, loc.unwrap_or_default());
        if simcore::in_sim() {
            if simcore::fiber_id() == 0 {
                *MAIN_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
            }
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(s));
        } else {
            eprintln!("panic: {s}");
        }
    }));
}

pub fn main(props: &[Prop]) {
    simcore::interpose::force_link();
    hook();
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            println!("{}", props.iter().map(|p| p.id).collect::<Vec<_>>().join(" "));
        }
        // batch PROP --seed S --from I --to J --step K [--secs T]
        Some("batch") => {
            let p = find(&a[2]);
            let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
            let (seed, from, to, step) =
                (num("--seed", 1), num("--from", 0), num("--to", 1), num("--step", 1));
            let secs = num("--secs", u64::MAX);
            let maxviol = num("--max-violations", 3);
            let t0 = std::time::Instant::now();
            (p.prewarm)();
            let out = std::io::stdout();
            let mut bad = 0;
            let mut i = from;
            while i < to && t0.elapsed().as_secs() < secs {
                let c = run_cfg(p, seed, i);
                let mut v = forked(p, &c, false);
                v["i"] = json!(i);
                if v["ok"] != json!(true) {
                    v["cfg"] = cfg_json(&c);
                    bad += 1;
                }
                let mut o = out.lock();
                let _ = writeln!(o, "{v}");
                let _ = o.flush();
                if bad >= maxviol {
                    break;
                }
                i += step;
            }
        }
        // one PROP --seed S --index I
        Some("one") => {
            let p = find(&a[2]);
            let num = |k: &str, d: u64| get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
            (p.prewarm)();
            let c = run_cfg(p, num("--seed", 1), num("--index", 0));
            let mut v = forked(p, &c, true);
            v["cfg"] = cfg_json(&c);
            println!("{v}");
        }
        // exec: replay requests, one JSON object per line on stdin
        Some("exec") => {
            let p = find(&a[2]);
            (p.prewarm)();
            for line in std::io::stdin().lines() {
                let Ok(line) = line else { break };
                if line.trim().is_empty() {
                    continue;
                }
                let r: Value = serde_json::from_str(&line).expect("request");
                let mut c = cfg_from(&r["cfg"]);
                c.replay = parse_choices(&r["choices"]);
                let mut v = forked(p, &c, true);
                v["cfg"] = cfg_json(&c);
                println!("{v}");
                let _ = std::io::stdout().flush();
            }
        }
        Some("kinds") => println!("{}", KIND_NAMES.join(" ")),
        _ => {
            eprintln!("usage: list | batch PROP ... | one PROP ... | exec PROP");
            std::process::exit(2);
        }
    }
}
