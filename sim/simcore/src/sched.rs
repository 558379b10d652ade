use crate::rng::{mix, Rng};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};

/// Kinds of choice points. Alternative 0 is always the benign default: keep running the current
/// thread, no fault, full transfer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Preempt = 0,
    NextThread = 1,
    Steal = 2,
    ShortRead = 3,
    Eintr = 4,
    ReadErr = 5,
    ShortWrite = 6,
    WriteErr = 7,
    OpenErr = 8,
    SyncErr = 9,
    Crash = 10,
    TornWrite = 11,
    Wakeup = 12,
    App = 13,
    CloseErr = 14,
}
pub const NKINDS: usize = 15;
pub const KIND_NAMES: [&str; NKINDS] = [
    "preempt", "next_thread", "steal", "short_read", "eintr", "read_error", "short_write",
    "write_error", "open_error", "sync_error", "crash", "torn_write", "wakeup", "app", "close_error",
];

impl Kind {
    /// Workload, schedule and fault decisions are numbered and drawn separately, so that leaving
    /// one out while minimising does not renumber the others.
    pub fn stream(self) -> usize {
        match self {
            Kind::App => 0,
            Kind::Preempt | Kind::NextThread | Kind::Steal | Kind::Wakeup => 1,
            _ => 2,
        }
    }
}

#[derive(Clone, Debug)]
pub struct SimConfig {
    /// seeds the choices made in this run
    pub seed: u64,
    /// Some: replay exactly these non-default choices (stream << 56 | index -> value), everything
    /// else default
    pub replay: Option<BTreeMap<u64, u64>>,
    /// probability of a non-default alternative, per kind
    pub p: [f64; NKINDS],
    /// num_cpus::get() and friends
    pub cpus: usize,
    /// threads of the global rayon pool
    pub rayon_threads: usize,
    /// seeds what getrandom() returns (hash map iteration order, rand)
    pub entropy: u64,
    /// upper bound on choice points and simulated system calls
    pub max_steps: u64,
    /// stop injecting faults (not schedule choices) after this many choice points
    pub max_choices_recorded: usize,
}

impl Default for SimConfig {
    fn default() -> Self {
        SimConfig {
            seed: 0,
            replay: None,
            p: [0.0; NKINDS],
            cpus: 4,
            rayon_threads: 1,
            entropy: 0,
            max_steps: 20_000_000,
            max_choices_recorded: 2_000_000,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct SimStats {
    pub steps: u64,
    pub choice_points: u64,
    pub switches: u64,
    pub fibers: u64,
    pub fired: [u64; NKINDS],
    pub offered: [u64; NKINDS],
    pub trace_hash: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
}

#[derive(Debug)]
pub enum Outcome<R> {
    Done(R),
    Panic(String),
    Deadlock(String),
    StepLimit,
}

pub struct RunResult<R> {
    pub outcome: Outcome<R>,
    pub choices: Vec<(u64, u64)>,
    pub stats: SimStats,
    /// panics of threads other than the main one
    pub other_panics: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum FState {
    Runnable,
    Blocked(u64),
    Sleeping(u64),
    Done,
}

struct FiberSlot {
    state: FState,
    cv: Arc<Condvar>,
    name: &'static str,
    daemon: bool,
}

struct State {
    rng: [Rng; 3],
    cfg: SimConfig,
    fibers: Vec<FiberSlot>,
    current: usize,
    stats: SimStats,
    choices: Vec<(u64, u64)>,
    next_choice: [u64; 3],
    finished: bool,
    ended: Option<&'static str>,
    deadlock: Option<String>,
    now_ns: u64,
    entropy: Rng,
    other_panics: Vec<String>,
    faults_on: bool,
    os: Vec<std::thread::JoinHandle<()>>,
    log: Vec<String>,
}

pub struct Sim {
    m: Mutex<State>,
    done_cv: Condvar,
    pub id: u64,
    pub terminate: AtomicBool,
}

static CURRENT: Mutex<Option<Arc<Sim>>> = Mutex::new(None);
static RUNS: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicBool = AtomicBool::new(false);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
pub static SYSCALLS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static FIBER: RefCell<Option<(Arc<Sim>, usize)>> = const { RefCell::new(None) };
    static FIBER_ID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NOPREEMPT: Cell<u32> = const { Cell::new(0) };
    pub static QUIET_PANIC: Cell<bool> = const { Cell::new(false) };
}

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// True on a thread of the running simulation.
pub fn in_sim() -> bool {
    FIBER_ID.try_with(|f| f.get() != usize::MAX).unwrap_or(false)
}
pub fn fiber_id() -> usize {
    FIBER_ID.try_with(|f| f.get()).unwrap_or(usize::MAX)
}
fn with_sim<R>(f: impl FnOnce(&Arc<Sim>, usize) -> R) -> Option<R> {
    let v = FIBER.try_with(|x| x.borrow().clone()).ok().flatten();
    v.map(|(s, id)| f(&s, id))
}
pub fn sim_run_id() -> u64 {
    with_sim(|s, _| s.id).unwrap_or(0)
}
pub fn cpus() -> Option<usize> {
    with_sim(|s, _| lk(&s.m).cfg.cpus)
}
pub fn rayon_threads() -> usize {
    with_sim(|s, _| lk(&s.m).cfg.rayon_threads).unwrap_or(1)
}
pub fn set_cpus(n: usize) {
    with_sim(|s, _| lk(&s.m).cfg.cpus = n);
}
pub fn set_rayon_threads(n: usize) {
    with_sim(|s, _| lk(&s.m).cfg.rayon_threads = n);
}
pub fn set_faults(on: bool) {
    with_sim(|s, _| lk(&s.m).faults_on = on);
}
pub fn set_p(kind: Kind, p: f64) {
    with_sim(|s, _| lk(&s.m).cfg.p[kind as usize] = p);
}
pub fn now_ns() -> u64 {
    with_sim(|s, _| lk(&s.m).now_ns).unwrap_or(0)
}
pub fn terminating() -> bool {
    with_sim(|s, _| s.terminate.load(SeqCst)).unwrap_or(true)
}
pub fn reseed_entropy(seed: u64) {
    with_sim(|s, _| lk(&s.m).entropy = Rng::new(seed));
}
pub fn fill_entropy(buf: &mut [u8]) -> bool {
    with_sim(|s, _| {
        let mut st = lk(&s.m);
        for c in buf.chunks_mut(8) {
            let b = st.entropy.next().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    })
    .is_some()
}
pub fn logline(s: String) {
    with_sim(|sim, _| {
        let mut st = lk(&sim.m);
        if st.log.len() < 4000 {
            st.log.push(s);
        }
    });
}
pub fn take_log() -> Vec<String> {
    with_sim(|sim, _| std::mem::take(&mut lk(&sim.m).log)).unwrap_or_default()
}

impl State {
    fn choose(&mut self, kind: Kind, n: usize, forced: bool) -> usize {
        let k = kind as usize;
        let stream = kind.stream();
        let idx = (stream as u64) << 56 | self.next_choice[stream];
        self.next_choice[stream] += 1;
        self.stats.choice_points += 1;
        self.stats.offered[k] += 1;
        if n <= 1 {
            return 0;
        }
        let v = if let Some(r) = &self.cfg.replay {
            let v = r.get(&idx).copied().unwrap_or(0) as usize;
            if v >= n {
                0
            } else {
                v
            }
        } else {
            if stream == 2 && !self.faults_on {
                0
            } else if forced {
                self.rng[stream].below(n as u64) as usize
            } else if self.cfg.p[k] > 0.0 && self.rng[stream].chance(self.cfg.p[k]) {
                1 + self.rng[stream].below(n as u64 - 1) as usize
            } else {
                0
            }
        };
        if v != 0 {
            self.stats.fired[k] += 1;
            if self.choices.len() < self.cfg.max_choices_recorded {
                self.choices.push((idx, v as u64));
            }
        }
        let e = (k as u64) << 48 | (n as u64) << 24 | v as u64;
        self.stats.trace_hash = mix(self.stats.trace_hash, e);
        if matches!(kind, Kind::Preempt | Kind::NextThread | Kind::Steal) {
            self.stats.sched_hash =
                mix(self.stats.sched_hash, (self.current as u64) << 32 ^ e);
        }
        v
    }

    fn runnable_others(&self, me: usize) -> Vec<usize> {
        let n = self.fibers.len();
        let mut out = vec![];
        for d in 1..n {
            let i = (me + d) % n;
            if self.fibers[i].state == FState::Runnable {
                out.push(i);
            }
        }
        out
    }
}

/// A seeded decision. Outside a simulation: the default.
pub fn choose(kind: Kind, n: usize) -> usize {
    with_sim(|s, _| lk(&s.m).choose(kind, n, false)).unwrap_or(0)
}
/// A seeded decision, uniform over all alternatives.
pub fn choose_uniform(kind: Kind, n: usize) -> usize {
    with_sim(|s, _| lk(&s.m).choose(kind, n, true)).unwrap_or(0)
}
/// Fold an observed event into the trace hash.
pub fn note(ev: u64) {
    with_sim(|s, _| {
        let mut st = lk(&s.m);
        st.stats.trace_hash = mix(st.stats.trace_hash, ev);
    });
}

pub struct NoPreempt;
impl NoPreempt {
    pub fn new() -> Self {
        NOPREEMPT.with(|c| c.set(c.get() + 1));
        NoPreempt
    }
}
impl Default for NoPreempt {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        NOPREEMPT.with(|c| c.set(c.get() - 1));
    }
}

fn step_or_end(sim: &Arc<Sim>, st: &mut State) -> bool {
    st.stats.steps += 1;
    if st.stats.steps > st.cfg.max_steps && st.ended.is_none() {
        st.ended = Some("step limit");
        st.finished = true;
        sim.done_cv.notify_all();
        return true;
    }
    false
}

fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

fn switch_to<'a>(
    sim: &'a Arc<Sim>,
    mut st: std::sync::MutexGuard<'a, State>,
    me: usize,
    to: usize,
) {
    st.stats.switches += 1;
    st.current = to;
    let cv = st.fibers[to].cv.clone();
    let mine = st.fibers[me].cv.clone();
    cv.notify_one();
    while st.current != me {
        st = mine.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    let _ = sim;
}

/// A point where the simulator may let another thread run.
pub fn yield_point() {
    with_sim(|sim, me| {
        if NOPREEMPT.with(|c| c.get()) > 0 {
            return;
        }
        let mut st = lk(&sim.m);
        if st.ended.is_some() {
            drop(st);
            park_forever();
        }
        if step_or_end(sim, &mut st) {
            drop(st);
            park_forever();
        }
        if st.fibers.len() < 2 {
            return;
        }
        let others = st.runnable_others(me);
        if others.is_empty() {
            return;
        }
        let c = st.choose(Kind::Preempt, others.len() + 1, false);
        if c > 0 {
            switch_to(sim, st, me, others[c - 1]);
        }
    });
}

/// Let some other runnable thread run, if any (thread::yield_now).
pub fn yield_to_other() {
    with_sim(|sim, me| {
        let mut st = lk(&sim.m);
        if st.ended.is_some() || step_or_end(sim, &mut st) {
            drop(st);
            park_forever();
        }
        let others = st.runnable_others(me);
        if others.is_empty() {
            wake_sleepers(&mut st);
            let others = st.runnable_others(me);
            if others.is_empty() {
                return;
            }
            let c = st.choose(Kind::NextThread, others.len(), true);
            switch_to(sim, st, me, others[c]);
            return;
        }
        let c = st.choose(Kind::NextThread, others.len(), true);
        switch_to(sim, st, me, others[c]);
    });
}

fn wake_sleepers(st: &mut State) -> bool {
    // discrete-event time: nothing else can run, so jump to the earliest deadline
    let mut best: Option<u64> = None;
    for f in &st.fibers {
        if let FState::Sleeping(t) = f.state {
            best = Some(best.map_or(t, |b: u64| b.min(t)));
        }
    }
    if let Some(t) = best {
        if t > st.now_ns {
            st.now_ns = t;
        }
        for f in st.fibers.iter_mut() {
            if f.state == FState::Sleeping(t) {
                f.state = FState::Runnable;
            }
        }
        true
    } else {
        false
    }
}

fn leave_cpu<'a>(sim: &'a Arc<Sim>, mut st: std::sync::MutexGuard<'a, State>, me: usize) {
    let mut others = st.runnable_others(me);
    if others.is_empty() {
        wake_sleepers(&mut st);
        if st.fibers[me].state == FState::Runnable {
            return;
        }
        others = st.runnable_others(me);
    }
    if others.is_empty() {
        let d: Vec<String> = st
            .fibers
            .iter()
            .enumerate()
            .filter(|(_, f)| f.state != FState::Done && !f.daemon)
            .map(|(i, f)| format!("thread {} ({}) blocked", i, f.name))
            .collect();
        st.deadlock = Some(d.join(", "));
        st.ended = Some("deadlock");
        st.finished = true;
        sim.done_cv.notify_all();
        drop(st);
        park_forever();
    }
    let c = st.choose(Kind::NextThread, others.len(), true);
    switch_to(sim, st, me, others[c]);
}

/// Block the current thread until `notify(key)`; the caller re-checks its condition.
pub fn block(key: u64) {
    with_sim(|sim, me| {
        let mut st = lk(&sim.m);
        if st.ended.is_some() || step_or_end(sim, &mut st) {
            drop(st);
            park_forever();
        }
        st.fibers[me].state = FState::Blocked(key);
        leave_cpu(sim, st, me);
    });
}
pub fn notify_all(key: u64) {
    with_sim(|sim, _| {
        let mut st = lk(&sim.m);
        for f in st.fibers.iter_mut() {
            if f.state == FState::Blocked(key) {
                f.state = FState::Runnable;
            }
        }
    });
}
/// Wake one waiter, which one is a seeded choice.
pub fn notify_one(key: u64) {
    with_sim(|sim, _| {
        let mut st = lk(&sim.m);
        let w: Vec<usize> =
            (0..st.fibers.len()).filter(|i| st.fibers[*i].state == FState::Blocked(key)).collect();
        if !w.is_empty() {
            let c = st.choose(Kind::Wakeup, w.len(), true);
            st.fibers[w[c]].state = FState::Runnable;
        }
    });
}
/// Sleep in simulated time.
pub fn sleep_ns(ns: u64) {
    with_sim(|sim, me| {
        let mut st = lk(&sim.m);
        if st.ended.is_some() || step_or_end(sim, &mut st) {
            drop(st);
            park_forever();
        }
        let t = st.now_ns + ns.max(1);
        st.fibers[me].state = FState::Sleeping(t);
        leave_cpu(sim, st, me);
    });
}
pub fn advance_ns(ns: u64) {
    with_sim(|sim, _| {
        let mut st = lk(&sim.m);
        st.now_ns += ns;
        let now = st.now_ns;
        for f in st.fibers.iter_mut() {
            if let FState::Sleeping(t) = f.state {
                if t <= now {
                    f.state = FState::Runnable;
                }
            }
        }
    });
}

pub fn panic_msg(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn fiber_main(
    sim: Arc<Sim>,
    id: usize,
    body: Box<dyn FnOnce() + Send>,
) {
    FIBER.with(|f| *f.borrow_mut() = Some((sim.clone(), id)));
    FIBER_ID.with(|f| f.set(id));
    {
        let mut st = lk(&sim.m);
        let mine = st.fibers[id].cv.clone();
        while st.current != id {
            st = mine.wait(st).unwrap_or_else(|e| e.into_inner());
        }
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(body));
    let mut st = lk(&sim.m);
    if let Err(e) = r {
        let m = panic_msg(&*e);
        st.other_panics.push(m);
    }
    st.fibers[id].state = FState::Done;
    let key = DONE_KEY ^ id as u64;
    for f in st.fibers.iter_mut() {
        if f.state == FState::Blocked(key) {
            f.state = FState::Runnable;
        }
    }
    FIBER_ID.with(|f| f.set(usize::MAX));
    FIBER.with(|f| *f.borrow_mut() = None);
    if st.fibers.iter().all(|f| f.state == FState::Done) {
        st.finished = true;
        sim.done_cv.notify_all();
        return;
    }
    let mut others = st.runnable_others(id);
    if others.is_empty() {
        wake_sleepers(&mut st);
        others = st.runnable_others(id);
    }
    if others.is_empty() {
        let d: Vec<String> = st
            .fibers
            .iter()
            .enumerate()
            .filter(|(_, f)| f.state != FState::Done)
            .map(|(i, f)| format!("thread {} ({}) {:?}", i, f.name, f.state))
            .collect();
        st.deadlock = Some(format!("every remaining thread is blocked: {}", d.join(", ")));
        st.ended = Some("deadlock");
        st.finished = true;
        sim.done_cv.notify_all();
        return;
    }
    let c = st.choose(Kind::NextThread, others.len(), true);
    let to = others[c];
    st.stats.switches += 1;
    st.current = to;
    let cv = st.fibers[to].cv.clone();
    cv.notify_one();
}

const DONE_KEY: u64 = 0xD0DE_0000_0000_0000;
pub const FIBER_STACK: usize = 64 << 20;

/// Start another simulated thread; returns its id.
pub fn spawn_fiber(name: &'static str, daemon: bool, body: Box<dyn FnOnce() + Send>) -> usize {
    with_sim(|sim, _| {
        let id;
        {
            let mut st = lk(&sim.m);
            id = st.fibers.len();
            st.stats.fibers += 1;
            st.fibers.push(FiberSlot {
                state: FState::Runnable,
                cv: Arc::new(Condvar::new()),
                name,
                daemon,
            });
        }
        let s2 = sim.clone();
        let h = std::thread::Builder::new()
            .stack_size(FIBER_STACK)
            .name(name.to_string())
            .spawn(move || fiber_main(s2, id, body))
            .expect("spawn simulated thread");
        lk(&sim.m).os.push(h);
        id
    })
    .expect("spawn_fiber outside a simulation")
}
pub fn fiber_done(id: usize) -> bool {
    with_sim(|sim, _| lk(&sim.m).fibers[id].state == FState::Done).unwrap_or(true)
}
pub fn join_fiber(id: usize) {
    while !fiber_done(id) {
        block(DONE_KEY ^ id as u64);
    }
}

/// Hooks run on the main thread of a run when the workload has finished (stop the worker pools).
pub static AT_END: Mutex<Vec<fn()>> = Mutex::new(Vec::new());

pub fn run_sim<R: Send + 'static>(
    cfg: SimConfig,
    main: impl FnOnce() -> R + Send + 'static,
) -> RunResult<R> {
    assert!(!LIVE.swap(true, SeqCst), "one simulation at a time");
    let id = RUNS.fetch_add(1, SeqCst) + 1;
    let sim = Arc::new(Sim {
        m: Mutex::new(State {
            rng: [
                Rng::new(mix(cfg.seed, 1)),
                Rng::new(mix(cfg.seed, 2)),
                Rng::new(mix(cfg.seed, 3)),
            ],
            entropy: Rng::new(cfg.entropy),
            cfg,
            fibers: vec![],
            current: 0,
            stats: SimStats::default(),
            choices: vec![],
            next_choice: [0; 3],
            finished: false,
            ended: None,
            deadlock: None,
            now_ns: 1_700_000_000_000_000_000,
            other_panics: vec![],
            faults_on: true,
            os: vec![],
            log: vec![],
        }),
        done_cv: Condvar::new(),
        id,
        terminate: AtomicBool::new(false),
    });
    *lk(&CURRENT) = Some(sim.clone());
    let slot: Arc<Mutex<Option<Result<R, String>>>> = Arc::new(Mutex::new(None));
    let slot2 = slot.clone();
    let sim2 = sim.clone();
    lk(&sim.m).fibers.push(FiberSlot {
        state: FState::Runnable,
        cv: Arc::new(Condvar::new()),
        name: "main",
        daemon: false,
    });
    let sim3 = sim.clone();
    let h = std::thread::Builder::new()
        .stack_size(FIBER_STACK)
        .name("sim-main".into())
        .spawn(move || {
            fiber_main(
                sim3,
                0,
                Box::new(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(main));
                    *lk(&slot2) = Some(r.map_err(|e| panic_msg(&*e)));
                    sim2.terminate.store(true, SeqCst);
                    let hooks: Vec<fn()> = lk(&AT_END).clone();
                    for f in hooks {
                        f();
                    }
                }),
            )
        })
        .expect("spawn");
    let mut st = lk(&sim.m);
    while !st.finished {
        st = sim.done_cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
    let ended = st.ended;
    let os = std::mem::take(&mut st.os);
    let mut stats = st.stats.clone();
    stats.sim_ns = st.now_ns - 1_700_000_000_000_000_000;
    let choices = std::mem::take(&mut st.choices);
    let other_panics = std::mem::take(&mut st.other_panics);
    let deadlock = st.deadlock.take();
    drop(st);
    let outcome = match ended {
        // the workload itself had finished: its verdict stands, whatever is left behind
        Some("deadlock") => match lk(&slot).take() {
            Some(Ok(r)) => Outcome::Done(r),
            Some(Err(m)) => Outcome::Panic(m),
            None => Outcome::Deadlock(deadlock.unwrap_or_default()),
        },
        Some(_) => Outcome::StepLimit,
        None => {
            let _ = h.join();
            for t in os {
                let _ = t.join();
            }
            match lk(&slot).take() {
                Some(Ok(r)) => Outcome::Done(r),
                Some(Err(m)) => Outcome::Panic(m),
                None => Outcome::Panic("main thread ended without a result".into()),
            }
        }
    };
    *lk(&CURRENT) = None;
    LIVE.store(false, SeqCst);
    RunResult { outcome, choices, stats, other_panics }
}
