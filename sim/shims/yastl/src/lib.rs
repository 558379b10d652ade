//! yastl (the thread pool of bellperson) with the OS taken out: jobs of a scope run before the
//! scope ends, in an order the simulator's seed decides.
use simcore::Kind;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

type Thunk = Box<dyn FnOnce() + Send + 'static>;
#[derive(Clone)]
pub struct Pool {
    _n: usize,
}
#[derive(Default)]
pub struct ThreadConfig;
impl ThreadConfig {
    pub fn new() -> Self {
        ThreadConfig
    }
    pub fn prefix(self, _p: impl Into<String>) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
}
impl Pool {
    pub fn new(n: usize) -> Self {
        assert!(n > 0, "can not create a thread pool with 0 workers");
        Pool { _n: n }
    }
    pub fn with_config(n: usize, _c: ThreadConfig) -> Self {
        Self::new(n)
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, job: F) {
        job()
    }
    pub fn scoped<'scope, F, R>(&self, job: F) -> R
    where
        F: FnOnce(&Scope<'scope>) -> R,
    {
        Scope::forever(self.clone()).zoom(job)
    }
    pub fn shutdown(&self) {}
}
pub struct Scope<'scope> {
    jobs: Arc<Mutex<Vec<Thunk>>>,
    _v: PhantomData<*mut &'scope ()>,
}
unsafe impl Send for Scope<'_> {}
unsafe impl Sync for Scope<'_> {}
impl<'scope> Scope<'scope> {
    pub fn forever(_p: Pool) -> Scope<'static> {
        Scope { jobs: Default::default(), _v: PhantomData }
    }
    pub fn execute<F>(&self, job: F)
    where
        F: FnOnce() + Send + 'scope,
    {
        let b: Box<dyn FnOnce() + Send + 'scope> = Box::new(job);
        let b: Thunk = unsafe { std::mem::transmute(b) };
        // some jobs start at once, the others wait for the scope to end
        if simcore::choose(Kind::Steal, 2) == 1 {
            b();
        } else {
            self.jobs.lock().unwrap_or_else(|e| e.into_inner()).push(b);
        }
    }
    pub fn recurse<F>(&self, job: F)
    where
        F: FnOnce(&Self) + Send + 'scope,
    {
        let this = Scope { jobs: self.jobs.clone(), _v: PhantomData };
        self.execute(move || job(&this));
    }
    pub fn join(&self) {
        loop {
            let n = self.jobs.lock().unwrap_or_else(|e| e.into_inner()).len();
            if n == 0 {
                return;
            }
            let c = simcore::choose_uniform(Kind::NextThread, n);
            let j = self.jobs.lock().unwrap_or_else(|e| e.into_inner()).remove(c);
            j();
        }
    }
    pub fn zoom<'smaller, F, R>(&self, job: F) -> R
    where
        F: FnOnce(&Scope<'smaller>) -> R,
        'scope: 'smaller,
    {
        let s: Scope<'smaller> = Scope { jobs: Default::default(), _v: PhantomData };
        struct J<'a, 'b>(&'a Scope<'b>);
        impl Drop for J<'_, '_> {
            fn drop(&mut self) {
                self.0.join()
            }
        }
        let _j = J(&s);
        job(&s)
    }
}
impl Drop for Scope<'_> {
    fn drop(&mut self) {
        if Arc::strong_count(&self.jobs) == 1 {
            self.join()
        }
    }
}
