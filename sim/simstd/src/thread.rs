pub use std::thread::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

pub fn yield_now() {
    if simcore::in_sim() {
        simcore::yield_to_other()
    } else {
        std::thread::yield_now()
    }
}
pub fn sleep(d: Duration) {
    if simcore::in_sim() {
        simcore::sleep_ns(d.as_nanos() as u64)
    } else {
        std::thread::sleep(d)
    }
}
pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
    match simcore::cpus() {
        Some(n) => Ok(std::num::NonZeroUsize::new(n.max(1)).unwrap()),
        None => std::thread::available_parallelism(),
    }
}

type Slot<T> = Arc<Mutex<Option<std::thread::Result<T>>>>;
enum H<T> {
    Sim(usize, Slot<T>),
    Os(std::thread::JoinHandle<T>),
}
pub struct JoinHandle<T>(H<T>);
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        match self.0 {
            H::Os(h) => h.join(),
            H::Sim(id, s) => {
                simcore::yield_point();
                simcore::join_fiber(id);
                let r = lk(&s).take();
                r.expect("joined thread left a result")
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            H::Os(h) => h.is_finished(),
            H::Sim(id, _) => simcore::fiber_done(*id),
        }
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if !simcore::in_sim() {
        return JoinHandle(H::Os(std::thread::spawn(f)));
    }
    let slot: Slot<T> = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let id = simcore::spawn_fiber(
        "thread",
        false,
        Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            *lk(&s2) = Some(r);
        }),
    );
    simcore::yield_point();
    JoinHandle(H::Sim(id, slot))
}

#[derive(Debug, Default)]
pub struct Builder {
    _name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder { _name: None }
    }
    pub fn name(mut self, n: String) -> Self {
        self._name = Some(n);
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        s: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> std::io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(s.spawn(f))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: Mutex<Vec<usize>>,
    panicked: Arc<std::sync::atomic::AtomicBool>,
    _s: std::marker::PhantomData<&'scope mut &'scope ()>,
    _e: std::marker::PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    id: usize,
    slot: Slot<T>,
    panicked: Arc<std::sync::atomic::AtomicBool>,
    _s: std::marker::PhantomData<&'scope ()>,
}
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> std::thread::Result<T> {
        simcore::join_fiber(self.id);
        let r = lk(&self.slot).take().expect("joined thread left a result");
        if r.is_err() {
            self.panicked.store(false, std::sync::atomic::Ordering::SeqCst);
        }
        r
    }
    pub fn is_finished(&self) -> bool {
        simcore::fiber_done(self.id)
    }
}
impl<'scope> Scope<'scope, '_> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let slot: Slot<T> = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let pk = self.panicked.clone();
        let body: Box<dyn FnOnce() + Send + 'scope> = Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if r.is_err() {
                pk.store(true, std::sync::atomic::Ordering::SeqCst);
            }
            *lk(&s2) = Some(r);
        });
        let id = if simcore::in_sim() {
            // the scope joins every thread before it returns, so 'scope outlives the thread
            let body: Box<dyn FnOnce() + Send + 'static> = unsafe { std::mem::transmute(body) };
            let id = simcore::spawn_fiber("scoped", false, body);
            lk(&self.ids).push(id);
            simcore::yield_point();
            id
        } else {
            body();
            0
        };
        ScopedJoinHandle { id, slot, panicked: self.panicked.clone(), _s: std::marker::PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let sc = Scope {
        ids: Mutex::new(vec![]),
        panicked: Arc::new(std::sync::atomic::AtomicBool::new(false)),
        _s: std::marker::PhantomData,
        _e: std::marker::PhantomData,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&sc)));
    loop {
        let ids: Vec<usize> = std::mem::take(&mut *lk(&sc.ids));
        if ids.is_empty() {
            break;
        }
        for i in ids {
            simcore::join_fiber(i);
        }
    }
    match r {
        Err(e) => std::panic::resume_unwind(e),
        Ok(v) => {
            if sc.panicked.load(std::sync::atomic::Ordering::SeqCst) {
                panic!("a scoped thread panicked");
            }
            v
        }
    }
}
