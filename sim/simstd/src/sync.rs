pub use std::sync::*;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

fn key<T: ?Sized>(p: &T) -> u64 {
    (p as *const T as *const u8 as u64) | 1 << 63
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    k: u8,
    inner: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    g: Option<std::sync::MutexGuard<'a, T>>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { k: 0, inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, g: std::sync::MutexGuard<'a, T>) -> MutexGuard<'a, T> {
        MutexGuard { lock: self, g: Some(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        if !simcore::in_sim() {
            return match self.inner.lock() {
                Ok(g) => Ok(self.wrap(g)),
                Err(e) => Err(PoisonError::new(self.wrap(e.into_inner()))),
            };
        }
        simcore::yield_point();
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(self.wrap(g)),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(self.wrap(e.into_inner())))
                }
                Err(TryLockError::WouldBlock) => simcore::block(key(&self.k)),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        simcore::yield_point();
        match self.inner.try_lock() {
            Ok(g) => Ok(self.wrap(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(self.wrap(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if let Some(g) = self.g.take() {
            drop(g);
            simcore::notify_all(key(&self.lock.k));
            if !std::thread::panicking() {
                simcore::yield_point();
            }
        }
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    k: u8,
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    k: &'a u8,
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    k: &'a u8,
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { k: 0, inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        let w = |g| RwLockReadGuard { k: &self.k, g: Some(g) };
        if !simcore::in_sim() {
            return self.inner.read().map(w).map_err(|e| PoisonError::new(w(e.into_inner())));
        }
        simcore::yield_point();
        loop {
            match self.inner.try_read() {
                Ok(g) => return Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                Err(TryLockError::WouldBlock) => simcore::block(key(&self.k)),
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        let w = |g| RwLockWriteGuard { k: &self.k, g: Some(g) };
        if !simcore::in_sim() {
            return self.inner.write().map(w).map_err(|e| PoisonError::new(w(e.into_inner())));
        }
        simcore::yield_point();
        loop {
            match self.inner.try_write() {
                Ok(g) => return Ok(w(g)),
                Err(TryLockError::Poisoned(e)) => return Err(PoisonError::new(w(e.into_inner()))),
                Err(TryLockError::WouldBlock) => simcore::block(key(&self.k)),
            }
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        let w = |g| RwLockReadGuard { k: &self.k, g: Some(g) };
        simcore::yield_point();
        match self.inner.try_read() {
            Ok(g) => Ok(w(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(w(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        let w = |g| RwLockWriteGuard { k: &self.k, g: Some(g) };
        simcore::yield_point();
        match self.inner.try_write() {
            Ok(g) => Ok(w(g)),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(w(e.into_inner()))))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        simcore::notify_all(key(self.k));
        if !std::thread::panicking() {
            simcore::yield_point();
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g.take();
        simcore::notify_all(key(self.k));
        if !std::thread::panicking() {
            simcore::yield_point();
        }
    }
}

// ---------------------------------------------------------------- Condvar
#[derive(Default)]
pub struct Condvar {
    k: u8,
    inner: std::sync::Condvar,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { k: 0, inner: std::sync::Condvar::new() }
    }
    pub fn wait<'a, T>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let l = g.lock;
        if !simcore::in_sim() {
            let inner = g.g.take().unwrap();
            return match self.inner.wait(inner) {
                Ok(i) => Ok(l.wrap(i)),
                Err(e) => Err(PoisonError::new(l.wrap(e.into_inner()))),
            };
        }
        g.g.take();
        simcore::notify_all(key(&l.k));
        simcore::block(key(&self.k));
        drop(g);
        l.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let l = g.lock;
        g.g.take();
        simcore::notify_all(key(&l.k));
        if simcore::in_sim() {
            simcore::sleep_ns(d.as_nanos() as u64);
        }
        drop(g);
        match l.lock() {
            Ok(g) => Ok((g, WaitTimeoutResult(true))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(true)))),
        }
    }
    pub fn notify_one(&self) {
        if simcore::in_sim() {
            simcore::notify_one(key(&self.k));
            simcore::yield_point();
        } else {
            self.inner.notify_one()
        }
    }
    pub fn notify_all(&self) {
        if simcore::in_sim() {
            simcore::notify_all(key(&self.k));
            simcore::yield_point();
        } else {
            self.inner.notify_all()
        }
    }
}

// ---------------------------------------------------------------- Barrier
pub struct Barrier {
    m: Mutex<(usize, usize)>,
    c: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), c: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap_or_else(|e| e.into_inner());
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.c.wait(g).unwrap_or_else(|e| e.into_inner());
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.c.notify_all();
            BarrierWaitResult(true)
        }
    }
}

// ---------------------------------------------------------------- Once*, LazyLock
pub struct Once {
    done: std::sync::atomic::AtomicBool,
    st: Mutex<u8>,
    c: Condvar,
}
pub const ONCE_INIT: Once = Once::new();
impl Once {
    pub const fn new() -> Self {
        Once {
            done: std::sync::atomic::AtomicBool::new(false),
            st: Mutex::new(0),
            c: Condvar::new(),
        }
    }
    pub fn is_completed(&self) -> bool {
        *self.st.lock().unwrap_or_else(|e| e.into_inner()) == 2
    }
    #[inline]
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        if self.done.load(std::sync::atomic::Ordering::Acquire) {
            return;
        }
        self.call_slow(f)
    }
    #[cold]
    fn call_slow<F: FnOnce()>(&self, f: F) {
        let mut g = self.st.lock().unwrap_or_else(|e| e.into_inner());
        while *g == 1 {
            g = self.c.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        if *g == 2 {
            return;
        }
        if *g == 3 {
            panic!("Once instance has previously been poisoned");
        }
        *g = 1;
        drop(g);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let mut g = self.st.lock().unwrap_or_else(|e| e.into_inner());
        *g = if r.is_ok() { 2 } else { 3 };
        if r.is_ok() {
            self.done.store(true, std::sync::atomic::Ordering::Release);
        }
        drop(g);
        self.c.notify_all();
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}
pub struct OnceLock<T> {
    once: Once,
    v: std::cell::UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), v: std::cell::UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            unsafe { (*self.v.get()).as_ref() }
        } else {
            None
        }
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.once.call_once(|| unsafe { *self.v.get() = t.take() });
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once(|| unsafe { *self.v.get() = Some(f()) });
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        self.v.get_mut().as_mut()
    }
    pub fn take(&mut self) -> Option<T> {
        let r = self.v.get_mut().take();
        self.once = Once::new();
        r
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: std::cell::Cell<Option<F>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: std::cell::Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| (this.f.take().expect("LazyLock poisoned"))())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        Self::force(self)
    }
}

// ---------------------------------------------------------------- mpsc
pub mod mpsc {
    use super::{Condvar, Mutex};
    use std::collections::VecDeque;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::sync::Arc;
    struct Ch<T> {
        m: Mutex<St<T>>,
        c: Condvar,
    }
    struct St<T> {
        q: VecDeque<T>,
        tx: usize,
        rx: bool,
        cap: Option<usize>,
        taken: u64,
        sent: u64,
    }
    pub struct Sender<T>(Arc<Ch<T>>);
    pub struct SyncSender<T>(Arc<Ch<T>>);
    pub struct Receiver<T>(Arc<Ch<T>>);
    fn mk<T>(cap: Option<usize>) -> Arc<Ch<T>> {
        Arc::new(Ch {
            m: Mutex::new(St { q: VecDeque::new(), tx: 1, rx: true, cap, taken: 0, sent: 0 }),
            c: Condvar::new(),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = mk(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = mk(Some(n));
        (SyncSender(c.clone()), Receiver(c))
    }
    fn send<T>(c: &Ch<T>, t: T) -> Result<(), SendError<T>> {
        let mut g = c.m.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(cap) = g.cap {
            while g.rx && g.q.len() >= cap.max(1) {
                g = c.c.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        if !g.rx {
            return Err(SendError(t));
        }
        g.q.push_back(t);
        g.sent += 1;
        let my = g.sent;
        c.c.notify_all();
        if g.cap == Some(0) {
            while g.rx && g.taken < my {
                g = c.c.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        Ok(())
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            send(&self.0, t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            send(&self.0, t)
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.m.lock().unwrap_or_else(|e| e.into_inner()).tx += 1;
            Sender(self.0.clone())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            self.0.m.lock().unwrap_or_else(|e| e.into_inner()).tx += 1;
            SyncSender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.m.lock().unwrap_or_else(|e| e.into_inner()).tx -= 1;
            self.0.c.notify_all();
        }
    }
    impl<T> Drop for SyncSender<T> {
        fn drop(&mut self) {
            self.0.m.lock().unwrap_or_else(|e| e.into_inner()).tx -= 1;
            self.0.c.notify_all();
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.m.lock().unwrap_or_else(|e| e.into_inner()).rx = false;
            self.0.c.notify_all();
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
            loop {
                if let Some(t) = g.q.pop_front() {
                    g.taken += 1;
                    self.0.c.notify_all();
                    return Ok(t);
                }
                if g.tx == 0 {
                    return Err(RecvError);
                }
                g = self.0.c.wait(g).unwrap_or_else(|e| e.into_inner());
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap_or_else(|e| e.into_inner());
            if let Some(t) = g.q.pop_front() {
                g.taken += 1;
                self.0.c.notify_all();
                return Ok(t);
            }
            if g.tx == 0 {
                Err(TryRecvError::Disconnected)
            } else {
                Err(TryRecvError::Empty)
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    pub use std::sync::atomic::{compiler_fence, fence, Ordering};
    use std::sync::atomic as a;
    macro_rules! at {
        ($n:ident, $t:ty) => {
            #[derive(Default, Debug)]
            #[repr(transparent)]
            pub struct $n(a::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(a::$n::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    simcore::yield_point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    simcore::yield_point();
                    self.0.store(v, o);
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    simcore::yield_point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    simcore::yield_point();
                    self.0.compare_exchange(c, n, s, f)
                }
                pub fn compare_exchange_weak(
                    &self, c: $t, n: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    simcore::yield_point();
                    self.0.compare_exchange(c, n, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self, s: Ordering, f: Ordering, g: F,
                ) -> Result<$t, $t> {
                    simcore::yield_point();
                    self.0.fetch_update(s, f, g)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! ops {
        ($n:ident, $t:ty, $($f:ident),*) => {
            impl $n { $(pub fn $f(&self, v: $t, o: Ordering) -> $t {
                simcore::yield_point();
                self.0.$f(v, o)
            })* }
        };
    }
    macro_rules! int {
        ($n:ident, $t:ty) => {
            at!($n, $t);
            ops!($n, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
        };
    }
    int!(AtomicUsize, usize);
    int!(AtomicIsize, isize);
    int!(AtomicU64, u64);
    int!(AtomicI64, i64);
    int!(AtomicU32, u32);
    int!(AtomicI32, i32);
    int!(AtomicU16, u16);
    int!(AtomicI16, i16);
    int!(AtomicU8, u8);
    int!(AtomicI8, i8);
    at!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
    pub use std::sync::atomic::AtomicPtr;
}
