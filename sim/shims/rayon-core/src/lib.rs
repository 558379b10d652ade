//! rayon-core with the OS taken out: the same work-stealing rules (own deque LIFO, steal FIFO,
//! a worker waiting for a job runs other jobs meanwhile, panics travel to the join), but the
//! workers are simulated threads and every scheduling and stealing decision is the simulator's.
//! The iterator layer on top is the unmodified rayon crate.
use simcore::{Kind, AT_END};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard};

fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

type PanicBox = Box<dyn Any + Send>;

// ------------------------------------------------------------------ jobs
#[derive(Clone, Copy, PartialEq, Eq)]
struct JobRef {
    data: *const (),
    exec: unsafe fn(*const ()),
}
unsafe impl Send for JobRef {}
unsafe impl Sync for JobRef {}

struct HeapJob {
    f: Box<dyn FnOnce() + Send>,
}
unsafe fn exec_heap(p: *const ()) {
    let b = Box::from_raw(p as *mut HeapJob);
    (b.f)();
}
fn heap_job<'a>(f: Box<dyn FnOnce() + Send + 'a>) -> JobRef {
    let f: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(f) };
    JobRef { data: Box::into_raw(Box::new(HeapJob { f })) as *const (), exec: exec_heap }
}
struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    r: UnsafeCell<Option<Result<R, PanicBox>>>,
    done: AtomicBool,
    owner: usize,
}
impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F, owner: usize) -> Self {
        StackJob {
            f: UnsafeCell::new(Some(f)),
            r: UnsafeCell::new(None),
            done: AtomicBool::new(false),
            owner,
        }
    }
    fn key(&self) -> u64 {
        self as *const Self as u64 | 1 << 62
    }
    fn as_ref(&self) -> JobRef {
        JobRef { data: self as *const Self as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const ()) {
        let me = &*(p as *const Self);
        let f = (*me.f.get()).take().unwrap();
        let migrated = worker_uid() != me.owner;
        let r = catch_unwind(AssertUnwindSafe(|| f(migrated)));
        *me.r.get() = Some(r);
        let k = me.key();
        me.done.store(true, SeqCst);
        // the owner cannot run before the next scheduling point
        simcore::notify_all(k);
    }
    fn take(&self) -> Result<R, PanicBox> {
        unsafe { (*self.r.get()).take().unwrap() }
    }
}

// ------------------------------------------------------------------ pools
struct PoolSt {
    deques: Vec<VecDeque<JobRef>>,
    private: Vec<VecDeque<JobRef>>,
    injector: VecDeque<JobRef>,
    stop: bool,
    started: bool,
}
struct Pool {
    n: usize,
    st: Mutex<PoolSt>,
    run: u64,
    uid: usize,
    live: AtomicUsize,
}
impl Pool {
    fn key(&self) -> u64 {
        self as *const Self as u64 | 1 << 61
    }
    fn new(n: usize) -> Arc<Pool> {
        static UID: AtomicUsize = AtomicUsize::new(1);
        let n = n.clamp(1, 64);
        Arc::new(Pool {
            n,
            st: Mutex::new(PoolSt {
                deques: (0..n).map(|_| VecDeque::new()).collect(),
                private: (0..n).map(|_| VecDeque::new()).collect(),
                injector: VecDeque::new(),
                stop: false,
                started: false,
            }),
            run: simcore::sim_run_id(),
            uid: UID.fetch_add(1, SeqCst),
            live: AtomicUsize::new(0),
        })
    }
    fn start(self: &Arc<Self>) {
        {
            let mut st = lk(&self.st);
            if st.started {
                return;
            }
            st.started = true;
        }
        for i in 0..self.n {
            let p = self.clone();
            self.live.fetch_add(1, SeqCst);
            simcore::spawn_fiber(
                "rayon-worker",
                true,
                Box::new(move || {
                    WORKER.with(|w| *w.borrow_mut() = Some((p.clone(), i)));
                    UIDC.with(|u| u.set(p.uid * 1000 + i + 1));
                    p.worker(i);
                    WORKER.with(|w| *w.borrow_mut() = None);
                    p.live.fetch_sub(1, SeqCst);
                }),
            );
        }
    }
    fn worker(self: &Arc<Self>, i: usize) {
        loop {
            if let Some(j) = self.find(i) {
                unsafe { (j.exec)(j.data) };
                simcore::yield_point();
                continue;
            }
            if lk(&self.st).stop {
                return;
            }
            simcore::block(self.key());
        }
    }
    /// next job for worker i: own deque, then steal, then the injector
    fn find(&self, i: usize) -> Option<JobRef> {
        let mut victims = vec![];
        {
            let mut st = lk(&self.st);
            if let Some(j) = st.private[i].pop_front() {
                return Some(j);
            }
            if let Some(j) = st.deques[i].pop_back() {
                return Some(j);
            }
            for d in 1..self.n {
                let v = (i + d) % self.n;
                if !st.deques[v].is_empty() {
                    victims.push(v);
                }
            }
            if !st.injector.is_empty() {
                victims.push(usize::MAX);
            }
        }
        if victims.is_empty() {
            return None;
        }
        let c = simcore::choose_uniform(Kind::Steal, victims.len());
        let mut st = lk(&self.st);
        if victims[c] == usize::MAX {
            st.injector.pop_front()
        } else {
            st.deques[victims[c]].pop_front()
        }
    }
    fn push(&self, i: usize, j: JobRef) {
        lk(&self.st).deques[i].push_back(j);
        simcore::notify_all(self.key());
    }
    fn inject(self: &Arc<Self>, j: JobRef) {
        self.start();
        lk(&self.st).injector.push_back(j);
        simcore::notify_all(self.key());
    }
    fn stop(self: &Arc<Self>) {
        lk(&self.st).stop = true;
        simcore::notify_all(self.key());
    }
    /// worker i waits until `done`, running other jobs meanwhile
    fn wait_until(self: &Arc<Self>, i: usize, key: u64, done: &dyn Fn() -> bool) {
        loop {
            if done() {
                return;
            }
            if let Some(j) = self.find(i) {
                unsafe { (j.exec)(j.data) };
                simcore::yield_point();
                continue;
            }
            if done() {
                return;
            }
            // woken by the latch, or by new work in the pool
            WAITKEYS.with(|_| ());
            wait_either(self, key);
        }
    }
}
/// A waiting worker is woken by its latch; new jobs of the pool also wake it, as in rayon.
fn wait_either(pool: &Arc<Pool>, key: u64) {
    lk(&ALIAS).push((pool.key(), key));
    simcore::block(key);
    let mut a = lk(&ALIAS);
    if let Some(p) = a.iter().position(|x| *x == (pool.key(), key)) {
        a.swap_remove(p);
    }
}
static ALIAS: Mutex<Vec<(u64, u64)>> = Mutex::new(Vec::new());
fn wake_waiting(pool: &Pool) {
    let keys: Vec<u64> =
        lk(&ALIAS).iter().filter(|(p, _)| *p == pool.key()).map(|(_, k)| *k).collect();
    for k in keys {
        simcore::notify_all(k);
    }
}

thread_local! {
    static WORKER: RefCell<Option<(Arc<Pool>, usize)>> = const { RefCell::new(None) };
    static UIDC: Cell<usize> = const { Cell::new(0) };
    static WAITKEYS: Cell<u8> = const { Cell::new(0) };
}
fn me() -> Option<(Arc<Pool>, usize)> {
    WORKER.try_with(|w| w.borrow().clone()).ok().flatten()
}
fn worker_uid() -> usize {
    UIDC.try_with(|u| u.get()).unwrap_or(0)
}

static GLOBAL: Mutex<Option<Arc<Pool>>> = Mutex::new(None);
static ALL: Mutex<Vec<Arc<Pool>>> = Mutex::new(Vec::new());

fn stop_all() {
    let v: Vec<Arc<Pool>> = std::mem::take(&mut *lk(&ALL));
    for p in v {
        p.stop();
    }
    *lk(&GLOBAL) = None;
    lk(&ALIAS).clear();
}
fn register(p: &Arc<Pool>) {
    let mut h = lk(&AT_END);
    if !h.iter().any(|f| *f as usize == stop_all as *const () as usize) {
        h.push(stop_all);
    }
    drop(h);
    lk(&ALL).push(p.clone());
}
fn global() -> Arc<Pool> {
    let mut g = lk(&GLOBAL);
    if let Some(p) = g.as_ref() {
        if p.run == simcore::sim_run_id() {
            return p.clone();
        }
    }
    let p = Pool::new(simcore::rayon_threads());
    register(&p);
    *g = Some(p.clone());
    p
}
fn simulated() -> bool {
    simcore::in_sim()
}

/// Run `op` on a worker of `pool` and wait for it.
fn on_pool<R: Send>(pool: &Arc<Pool>, op: impl FnOnce() -> R + Send) -> R {
    let job = StackJob::new(|_| op(), usize::MAX);
    pool.inject(job.as_ref());
    wake_waiting(pool);
    match me() {
        // a worker of another pool keeps serving its own pool
        Some((p, i)) => p.wait_until(i, job.key(), &|| job.done.load(SeqCst)),
        None => {
            while !job.done.load(SeqCst) {
                simcore::block(job.key());
            }
        }
    }
    match job.take() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}
fn in_worker<R: Send>(op: impl FnOnce() -> R + Send) -> R {
    if !simulated() || me().is_some() {
        op()
    } else {
        on_pool(&global(), op)
    }
}

// ------------------------------------------------------------------ join
#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
fn ctx(migrated: bool) -> FnContext {
    FnContext { migrated, _m: PhantomData }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !simulated() {
        let ra = a(ctx(false));
        return (ra, b(ctx(false)));
    }
    match me() {
        None => on_pool(&global(), move || join_worker(a, b, true)),
        Some(_) => join_worker(a, b, false),
    }
}
fn join_worker<A, B, RA, RB>(a: A, b: B, injected: bool) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let (pool, i) = me().unwrap();
    let job = StackJob::new(move |m| b(ctx(m)), worker_uid());
    let jr = job.as_ref();
    pool.push(i, jr);
    wake_waiting(&pool);
    simcore::yield_point();
    let ra = catch_unwind(AssertUnwindSafe(|| a(ctx(injected))));
    simcore::yield_point();
    let ra = match ra {
        Ok(v) => v,
        Err(e) => {
            pool.wait_until(i, job.key(), &|| job.done.load(SeqCst));
            resume_unwind(e)
        }
    };
    loop {
        if job.done.load(SeqCst) {
            break;
        }
        let popped = lk(&pool.st).deques[i].pop_back();
        match popped {
            Some(j) if j.data == jr.data => {
                let f = unsafe { (*job.f.get()).take().unwrap() };
                return (ra, f(injected));
            }
            Some(j) => unsafe { (j.exec)(j.data) },
            None => {
                pool.wait_until(i, job.key(), &|| job.done.load(SeqCst));
                break;
            }
        }
    }
    match job.take() {
        Ok(rb) => (ra, rb),
        Err(e) => resume_unwind(e),
    }
}

// ------------------------------------------------------------------ scopes
struct ScopeBase {
    pool: Option<Arc<Pool>>,
    pending: AtomicUsize,
    panic: Mutex<Option<PanicBox>>,
}
impl ScopeBase {
    fn new(pool: Option<Arc<Pool>>) -> Arc<Self> {
        Arc::new(ScopeBase { pool, pending: AtomicUsize::new(0), panic: Mutex::new(None) })
    }
    fn key(&self) -> u64 {
        self as *const Self as u64 | 1 << 60
    }
    fn spawn<'s>(self: &Arc<Self>, f: Box<dyn FnOnce() + Send + 's>, fifo: bool) {
        self.pending.fetch_add(1, SeqCst);
        let me2 = self.clone();
        let body = Box::new(move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            if let Err(e) = r {
                let mut p = lk(&me2.panic);
                if p.is_none() {
                    *p = Some(e);
                }
            }
            me2.pending.fetch_sub(1, SeqCst);
            simcore::notify_all(me2.key());
        });
        if !simulated() {
            let b: Box<dyn FnOnce() + Send + 's> = body;
            b();
            return;
        }
        let j = heap_job(body);
        self.put(j, fifo);
        simcore::yield_point();
    }
    fn put(&self, j: JobRef, fifo: bool) {
        let pool = self.pool.clone().unwrap_or_else(global);
        match me() {
            Some((p, i)) if p.uid == pool.uid => {
                if fifo {
                    lk(&pool.st).deques[i].push_front(j);
                    simcore::notify_all(pool.key());
                } else {
                    pool.push(i, j)
                }
            }
            _ => pool.inject(j),
        }
        wake_waiting(&pool);
    }
    fn broadcast<'s>(
        self: &Arc<Self>,
        f: Arc<dyn Fn(usize, usize) + Send + Sync + 's>,
    ) {
        let pool = match (&self.pool, simulated()) {
            (Some(p), true) => p.clone(),
            (None, true) => global(),
            _ => {
                f(0, 1);
                return;
            }
        };
        pool.start();
        for i in 0..pool.n {
            self.pending.fetch_add(1, SeqCst);
            let (me2, f, n) = (self.clone(), f.clone(), pool.n);
            let j = heap_job(Box::new(move || {
                if let Err(e) = catch_unwind(AssertUnwindSafe(|| f(i, n))) {
                    lk(&me2.panic).get_or_insert(e);
                }
                drop(f);
                me2.pending.fetch_sub(1, SeqCst);
                simcore::notify_all(me2.key());
            }));
            lk(&pool.st).private[i].push_back(j);
        }
        simcore::notify_all(pool.key());
        wake_waiting(&pool);
        simcore::yield_point();
    }
    fn complete(self: &Arc<Self>) {
        if simulated() {
            match me() {
                Some((p, i)) => {
                    p.wait_until(i, self.key(), &|| self.pending.load(SeqCst) == 0)
                }
                None => {
                    while self.pending.load(SeqCst) != 0 {
                        simcore::block(self.key());
                    }
                }
            }
        }
        let p = lk(&self.panic).take();
        if let Some(e) = p {
            resume_unwind(e);
        }
    }
}
pub struct Scope<'scope> {
    base: Arc<ScopeBase>,
    _m: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
pub struct ScopeFifo<'scope> {
    base: Arc<ScopeBase>,
    _m: PhantomData<Box<dyn FnOnce(&ScopeFifo<'scope>) + Send + Sync + 'scope>>,
}
impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Scope")
    }
}
impl fmt::Debug for ScopeFifo<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ScopeFifo")
    }
}
macro_rules! scope_impl {
    ($S:ident, $spawn:ident, $fifo:expr) => {
        impl<'scope> $S<'scope> {
            pub fn $spawn<B>(&self, body: B)
            where
                B: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                let s = $S::<'scope> { base: self.base.clone(), _m: PhantomData };
                self.base.spawn(Box::new(move || body(&s)), $fifo);
            }
            pub fn spawn_broadcast<B>(&self, body: B)
            where
                B: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let s = $S::<'scope> { base: self.base.clone(), _m: PhantomData };
                self.base.broadcast(Arc::new(move |i, n| body(&s, bctx(i, n))));
            }
        }
    };
}
scope_impl!(Scope, spawn, false);
scope_impl!(ScopeFifo, spawn_fifo, true);

fn run_scope<R>(base: Arc<ScopeBase>, op: impl FnOnce() -> R) -> R {
    let r = catch_unwind(AssertUnwindSafe(op));
    if let Err(e) = r {
        let mut p = lk(&base.panic);
        *p = Some(e);
        drop(p);
        base.complete();
        unreachable!()
    }
    base.complete();
    match r {
        Ok(v) => v,
        Err(_) => unreachable!(),
    }
}
macro_rules! scope_fns {
    ($S:ident, $scope:ident, $in_place:ident) => {
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R + Send,
            R: Send,
        {
            in_worker(move || {
                let base = ScopeBase::new(me().map(|x| x.0));
                let s = $S { base: base.clone(), _m: PhantomData };
                run_scope(base, || op(&s))
            })
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R,
        {
            let base = ScopeBase::new(me().map(|x| x.0));
            let s = $S { base: base.clone(), _m: PhantomData };
            run_scope(base, || op(&s))
        }
    };
}
scope_fns!(Scope, scope, in_place_scope);
scope_fns!(ScopeFifo, scope_fifo, in_place_scope_fifo);

// ------------------------------------------------------------------ spawn, broadcast
pub struct BroadcastContext<'a> {
    i: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
fn bctx<'a>(i: usize, n: usize) -> BroadcastContext<'a> {
    BroadcastContext { i, n, _m: PhantomData }
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.i
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(None, op)
}
fn broadcast_in<OP, R>(pool: Option<Arc<Pool>>, op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let pool = pool.or_else(|| me().map(|x| x.0));
    let out: Mutex<Vec<(usize, R)>> = Mutex::new(vec![]);
    {
        let base = ScopeBase::new(pool);
        let (o, op) = (&out, &op);
        let f: Arc<dyn Fn(usize, usize) + Send + Sync + '_> = Arc::new(move |i, n| {
            let r = op(bctx(i, n));
            lk(o).push((i, r));
        });
        base.broadcast(f);
        base.complete();
    }
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let base = ScopeBase::new(me().map(|x| x.0));
    base.broadcast(Arc::new(move |i, n| op(bctx(i, n))));
}
fn spawn_in(pool: Option<Arc<Pool>>, f: Box<dyn FnOnce() + Send + 'static>, fifo: bool) {
    ScopeBase::new(pool.or_else(|| me().map(|x| x.0))).spawn(f, fifo);
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(None, Box::new(f), false)
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(None, Box::new(f), true)
}

// ------------------------------------------------------------------ info
pub fn max_num_threads() -> usize {
    65535
}
pub fn current_num_threads() -> usize {
    if !simulated() {
        return 1;
    }
    me().map(|x| x.0.n).unwrap_or_else(|| global().n)
}
pub fn current_thread_index() -> Option<usize> {
    me().map(|x| x.1)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    me().map(|(p, i)| !lk(&p.st).deques[i].is_empty())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    me().map(|(p, i)| match p.find(i) {
        Some(j) => {
            unsafe { (j.exec)(j.data) };
            Yield::Executed
        }
        None => {
            simcore::yield_point();
            Yield::Idle
        }
    })
}
pub fn yield_local() -> Option<Yield> {
    me().map(|(p, i)| {
        let j = lk(&p.st).deques[i].pop_back();
        match j {
            Some(j) => {
                unsafe { (j.exec)(j.data) };
                Yield::Executed
            }
            None => Yield::Idle,
        }
    })
}

// ------------------------------------------------------------------ ThreadPool
pub struct ThreadPool {
    pool: Arc<Pool>,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ThreadPool({})", self.pool.n)
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        if simulated() {
            self.pool.stop();
        }
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if !simulated() {
            return op();
        }
        match me() {
            Some((p, _)) if p.uid == self.pool.uid => op(),
            _ => on_pool(&self.pool, op),
        }
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(Some(self.pool.clone()), op)
    }
    pub fn current_num_threads(&self) -> usize {
        self.pool.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        me().filter(|x| x.0.uid == self.pool.uid).map(|x| x.1)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        me().filter(|x| x.0.uid == self.pool.uid)
            .map(|(p, i)| !lk(&p.st).deques[i].is_empty())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let base = ScopeBase::new(Some(self.pool.clone()));
        let s = Scope { base: base.clone(), _m: PhantomData };
        run_scope(base, || op(&s))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let base = ScopeBase::new(Some(self.pool.clone()));
        let s = ScopeFifo { base: base.clone(), _m: PhantomData };
        run_scope(base, || op(&s))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(Some(self.pool.clone()), Box::new(op), false)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(Some(self.pool.clone()), Box::new(op), true)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        ScopeBase::new(Some(self.pool.clone())).broadcast(Arc::new(move |i, n| op(bctx(i, n))));
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}

// ------------------------------------------------------------------ builders
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadBuilder")
    }
}
#[derive(Debug)]
pub struct ThreadPoolBuildError(&'static str);
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl Error for ThreadPoolBuildError {}
pub struct DefaultSpawn;
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    num_threads: usize,
    _s: PhantomData<S>,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuilder")
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { num_threads: 0, _s: PhantomData }
    }
}
impl<S> ThreadPoolBuilder<S> {
    fn mk(&self) -> Arc<Pool> {
        let n = if self.num_threads == 0 { simcore::rayon_threads() } else { self.num_threads };
        let p = Pool::new(n);
        if simulated() {
            register(&p);
        }
        p
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { pool: self.mk() })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        if !simulated() {
            return Ok(());
        }
        let mut g = lk(&GLOBAL);
        if let Some(p) = g.as_ref() {
            if p.run == simcore::sim_run_id() {
                return Err(ThreadPoolBuildError(
                    "The global thread pool has already been initialized.",
                ));
            }
        }
        *g = Some(self.mk());
        Ok(())
    }
    pub fn build_scoped<W, F, R>(self, wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let _ = wrapper;
        let p = ThreadPool { pool: self.mk() };
        Ok(with_pool(&p))
    }
    pub fn spawn_handler<F>(self, spawn: F) -> Self
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        let _ = spawn;
        self
    }
    pub fn thread_name<F>(self, f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        let _ = f;
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn panic_handler<H>(self, h: H) -> Self
    where
        H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static,
    {
        let _ = h;
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn start_handler<H>(self, h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        let _ = h;
        self
    }
    pub fn exit_handler<H>(self, h: H) -> Self
    where
        H: Fn(usize) + Send + Sync + 'static,
    {
        let _ = h;
        self
    }
}
