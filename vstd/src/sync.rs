pub use ::std::sync::{Arc, Weak, LockResult, PoisonError, TryLockError, TryLockResult, OnceState};
use crate::ctl;
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::mem::ManuallyDrop;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::time::Duration;

fn key<T: ?Sized>(t: &T) -> usize { t as *const T as *const u8 as usize }

macro_rules! guard {
    ($name:ident, $real:ident) => {
        pub struct $name<'a, T: ?Sized + 'a> { g: ManuallyDrop<real::$real<'a, T>>, key: usize }
        impl<'a, T: ?Sized> Drop for $name<'a, T> { fn drop(&mut self) { unsafe { ManuallyDrop::drop(&mut self.g); } ctl::wake_all(self.key); } }
        impl<'a, T: ?Sized> Deref for $name<'a, T> { type Target = T; fn deref(&self) -> &T { &self.g } }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $name<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
        impl<'a, T: ?Sized + fmt::Display> fmt::Display for $name<'a, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
        impl<'a, T: ?Sized> $name<'a, T> {
            fn new(g: real::$real<'a, T>, key: usize) -> Self { $name { g: ManuallyDrop::new(g), key } }
        }
    };
}
guard!(MutexGuard, MutexGuard);
guard!(RwLockReadGuard, RwLockReadGuard);
guard!(RwLockWriteGuard, RwLockWriteGuard);
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { &mut self.g } }
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> { fn deref_mut(&mut self) -> &mut T { &mut self.g } }
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    fn into_real(self) -> (real::MutexGuard<'a, T>, usize) { let mut me = ManuallyDrop::new(self); (unsafe { ManuallyDrop::take(&mut me.g) }, me.key) }
}

macro_rules! acquire {
    ($self:ident, $try_m:ident, $m:ident, $g:ident) => {{
        let k = key($self);
        if ctl::controlled() && !::std::thread::panicking() {
            ctl::point();
            loop {
                match $self.inner.$try_m() {
                    Ok(g) => { ctl::point_held(); return Ok($g::new(g, k)) }
                    Err(TryLockError::Poisoned(p)) => return Err(PoisonError::new($g::new(p.into_inner(), k))),
                    Err(TryLockError::WouldBlock) => { ctl::block(k); }
                }
            }
        }
        match $self.inner.$m() { Ok(g) => Ok($g::new(g, k)), Err(p) => Err(PoisonError::new($g::new(p.into_inner(), k))) }
    }};
}
macro_rules! try_acquire {
    ($self:ident, $try_m:ident, $g:ident) => {{
        let k = key($self);
        ctl::TRIED.store(true, ::std::sync::atomic::Ordering::Relaxed);
        ctl::point();
        match $self.inner.$try_m() {
            Ok(g) => { ctl::point_held(); Ok($g::new(g, k)) }
            Err(TryLockError::Poisoned(p)) => Err(TryLockError::Poisoned(PoisonError::new($g::new(p.into_inner(), k)))),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }};
}

#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized> { inner: real::Mutex<T> }
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Mutex { inner: real::Mutex::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> { acquire!(self, try_lock, lock, MutexGuard) }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> { try_acquire!(self, try_lock, MutexGuard) }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Mutex::new(t) } }

#[derive(Debug, Default)]
pub struct RwLock<T: ?Sized> { inner: real::RwLock<T> }
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { RwLock { inner: real::RwLock::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { self.inner.into_inner() }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { acquire!(self, try_read, read, RwLockReadGuard) }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { acquire!(self, try_write, write, RwLockWriteGuard) }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { try_acquire!(self, try_read, RwLockReadGuard) }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { try_acquire!(self, try_write, RwLockWriteGuard) }
    pub fn is_poisoned(&self) -> bool { self.inner.is_poisoned() }
    pub fn clear_poison(&self) { self.inner.clear_poison() }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { self.inner.get_mut() }
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { RwLock::new(t) } }

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }

#[derive(Debug, Default)]
pub struct Condvar { inner: real::Condvar, id: Box2 }
// a non-zero-sized field of its own address
#[derive(Debug, Default)]
struct Box2(#[allow(dead_code)] u8);
impl Condvar {
    pub const fn new() -> Self { Condvar { inner: real::Condvar::new(), id: Box2(0) } }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let (g, k) = g.into_real();
        if !ctl::controlled() {
            return match self.inner.wait(g) { Ok(g) => Ok(MutexGuard::new(g, k)), Err(p) => Err(PoisonError::new(MutexGuard::new(p.into_inner(), k))) };
        }
        // the mutex is behind the guard: its key is its address
        let m = unsafe { &*(k as *const Mutex<T>) };
        drop(g);
        ctl::wake_all(k);
        ctl::block(key(&self.id));
        m.lock()
    }
    pub fn wait_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> where F: FnMut(&mut T) -> bool {
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, k) = g.into_real();
        if !ctl::controlled() {
            return match self.inner.wait_timeout(g, d) {
                Ok((g, t)) => Ok((MutexGuard::new(g, k), WaitTimeoutResult(t.timed_out()))),
                Err(p) => { let (g, t) = p.into_inner(); Err(PoisonError::new((MutexGuard::new(g, k), WaitTimeoutResult(t.timed_out())))) }
            };
        }
        // time passes as the scheduler likes: others go on, then the wait is over
        let m = unsafe { &*(k as *const Mutex<T>) };
        drop(g);
        ctl::wake_all(k);
        ctl::give_way();
        match m.lock() { Ok(g) => Ok((g, WaitTimeoutResult(true))), Err(p) => Err(PoisonError::new((p.into_inner(), WaitTimeoutResult(true)))) }
    }
    pub fn notify_one(&self) { self.inner.notify_one(); ctl::wake(key(&self.id), 1); ctl::point(); }
    pub fn notify_all(&self) { self.inner.notify_all(); ctl::wake_all(key(&self.id)); ctl::point(); }
}

/* initialisation */

pub struct OnceLock<T> { cell: real::OnceLock<T>, busy: real::atomic::AtomicBool }
struct Busy<'a>(&'a real::atomic::AtomicBool, usize);
impl Drop for Busy<'_> { fn drop(&mut self) { self.0.store(false, real::atomic::Ordering::SeqCst); ctl::wake_all(self.1); } }
impl<T> OnceLock<T> {
    pub const fn new() -> Self { OnceLock { cell: real::OnceLock::new(), busy: real::atomic::AtomicBool::new(false) } }
    pub fn get(&self) -> Option<&T> { ctl::point(); self.cell.get() }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.cell.get_mut() }
    pub fn set(&self, t: T) -> Result<(), T> { ctl::point(); self.cell.set(t) }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if !ctl::controlled() { return self.cell.get_or_init(f); }
        loop {
            ctl::point();
            if let Some(v) = self.cell.get() { return v; }
            if self.busy.swap(true, real::atomic::Ordering::SeqCst) { ctl::block(key(self)); continue; }
            let _b = Busy(&self.busy, key(self));
            let v = f();
            let _ = self.cell.set(v);
            return self.cell.get().unwrap();
        }
    }
    pub fn into_inner(self) -> Option<T> { self.cell.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.cell.take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.cell.fmt(f) } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { OnceLock { cell: self.cell.clone(), busy: Default::default() } } }
impl<T> From<T> for OnceLock<T> { fn from(t: T) -> Self { let o = Self::new(); let _ = o.cell.set(t); o } }

pub struct LazyLock<T, F = fn() -> T> { once: OnceLock<T>, f: Cell<Option<F>> }
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { LazyLock { once: OnceLock::new(), f: Cell::new(Some(f)) } }
    pub fn force(this: &Self) -> &T { this.once.get_or_init(|| (this.f.take().expect("LazyLock instance has previously been poisoned"))()) }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }
impl<T: Default> Default for LazyLock<T> { fn default() -> Self { LazyLock::new(T::default) } }

pub struct Once { done: real::atomic::AtomicBool, busy: real::atomic::AtomicBool }
impl Once {
    pub const fn new() -> Self { Once { done: real::atomic::AtomicBool::new(false), busy: real::atomic::AtomicBool::new(false) } }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        loop {
            ctl::point();
            if self.is_completed() { return; }
            if self.busy.swap(true, real::atomic::Ordering::SeqCst) { if !ctl::block(key(self)) { ::std::thread::yield_now(); } continue; }
            let _b = Busy(&self.busy, key(self));
            if self.is_completed() { return; }
            f();
            self.done.store(true, real::atomic::Ordering::SeqCst);
            return;
        }
    }
    pub fn is_completed(&self) -> bool { self.done.load(real::atomic::Ordering::SeqCst) }
}

pub struct Barrier { m: Mutex<(usize, usize)>, cv: Condvar, n: usize }
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl Barrier {
    pub const fn new(n: usize) -> Self { Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n } }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen { g = self.cv.wait(g).unwrap(); }
            BarrierWaitResult(false)
        } else { g.0 = 0; g.1 += 1; drop(g); self.cv.notify_all(); BarrierWaitResult(true) }
    }
}

/* atomics */

pub mod atomic {
    pub use ::std::sync::atomic::{compiler_fence, Ordering};
    use ::std::sync::atomic as real;
    use crate::ctl::point;
    pub fn fence(o: Ordering) { point(); real::fence(o) }
    macro_rules! base {
        ($n:ident, $t:ty) => {
            #[derive(Debug, Default)]
            pub struct $n(real::$n);
            impl From<$t> for $n { fn from(t: $t) -> Self { Self::new(t) } }
            impl $n {
                pub const fn new(v: $t) -> Self { Self(real::$n::new(v)) }
                pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
                pub fn store(&self, v: $t, o: Ordering) { point(); self.0.store(v, o) }
                pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); self.0.swap(v, o) }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); self.0.compare_exchange(a, b, s, f) }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut c = self.load(l);
                    while let Some(n) = f(c) { match self.compare_exchange(c, n, s, l) { Ok(x) => return Ok(x), Err(x) => c = x } }
                    Err(c)
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_and(v, o) }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_or(v, o) }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_xor(v, o) }
                pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
                pub fn into_inner(self) -> $t { self.0.into_inner() }
            }
        };
    }
    macro_rules! int {
        ($($n:ident $t:ty),*) => { $( base!($n, $t); impl $n {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_add(v, o) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_sub(v, o) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_max(v, o) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); self.0.fetch_min(v, o) }
        } )* };
    }
    base!(AtomicBool, bool);
    int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
    #[derive(Debug)]
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(p: *mut T) -> Self { Self(real::AtomicPtr::new(p)) }
        pub fn load(&self, o: Ordering) -> *mut T { point(); self.0.load(o) }
        pub fn store(&self, p: *mut T, o: Ordering) { point(); self.0.store(p, o) }
        pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T { point(); self.0.swap(p, o) }
        pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point(); self.0.compare_exchange(a, b, s, f) }
    }
}

/* channels */

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use super::{Arc, Condvar, Mutex};
    use ::std::collections::VecDeque;
    use ::std::time::Duration;
    struct S<T> { q: VecDeque<T>, senders: usize, receiver: bool, cap: Option<usize>, taken: u64 }
    struct Chan<T> { m: Mutex<S<T>>, cv: Condvar }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
    unsafe impl<T: Send> Send for Receiver<T> {}
    fn chan<T>(cap: Option<usize>) -> Arc<Chan<T>> { Arc::new(Chan { m: Mutex::new(S { q: VecDeque::new(), senders: 1, receiver: true, cap, taken: 0 }), cv: Condvar::new() }) }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = chan(None); (Sender(c.clone()), Receiver(c, Default::default())) }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = chan(Some(n)); (SyncSender(c.clone()), Receiver(c, Default::default())) }
    impl<T> Chan<T> {
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            let mut g = self.m.lock().unwrap();
            if !g.receiver { return Err(SendError(t)); }
            if let Some(cap) = g.cap {
                while g.receiver && g.q.len() >= cap.max(1) { g = self.cv.wait(g).unwrap(); }
                if !g.receiver { return Err(SendError(t)); }
            }
            g.q.push_back(t);
            let rendezvous = g.cap == Some(0);
            let mine = g.taken + g.q.len() as u64;
            drop(g);
            self.cv.notify_all();
            if rendezvous { let mut g = self.m.lock().unwrap(); while g.receiver && g.taken < mine { g = self.cv.wait(g).unwrap(); } }
            Ok(())
        }
        fn gone(&self, sender: bool) { let mut g = match self.m.lock() { Ok(g) => g, Err(p) => p.into_inner() }; if sender { g.senders -= 1; } else { g.receiver = false; g.q.clear(); } drop(g); self.cv.notify_all(); }
    }
    macro_rules! sender { ($n:ident) => {
        impl<T> $n<T> { pub fn send(&self, t: T) -> Result<(), SendError<T>> { self.0.send(t) } }
        impl<T> Clone for $n<T> { fn clone(&self) -> Self { self.0.m.lock().unwrap().senders += 1; $n(self.0.clone()) } }
        impl<T> Drop for $n<T> { fn drop(&mut self) { self.0.gone(true) } }
        impl<T> ::std::fmt::Debug for $n<T> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("Sender") } }
    } }
    sender!(Sender); sender!(SyncSender);
    impl<T> SyncSender<T> {
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            let mut g = self.0.m.lock().unwrap();
            if !g.receiver { return Err(TrySendError::Disconnected(t)); }
            if g.q.len() >= g.cap.unwrap_or(usize::MAX) { return Err(TrySendError::Full(t)); }
            g.q.push_back(t); drop(g); self.0.cv.notify_all(); Ok(())
        }
    }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.gone(false) } }
    impl<T> Receiver<T> {
        pub fn recv(&self) -> Result<T, RecvError> {
            let mut g = self.0.m.lock().unwrap();
            loop {
                if let Some(t) = g.q.pop_front() { g.taken += 1; drop(g); self.0.cv.notify_all(); return Ok(t); }
                if g.senders == 0 { return Err(RecvError); }
                g = self.0.cv.wait(g).unwrap();
            }
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            let mut g = self.0.m.lock().unwrap();
            if let Some(t) = g.q.pop_front() { g.taken += 1; drop(g); self.0.cv.notify_all(); return Ok(t); }
            Err(if g.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            match self.try_recv() { Ok(t) => return Ok(t), Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected), _ => {} }
            crate::thread::sleep(d);
            match self.try_recv() { Ok(t) => Ok(t), Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected), _ => Err(RecvTimeoutError::Timeout) }
        }
        pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
        pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
    impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
    impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
}

#[allow(dead_code)]
type Unused = UnsafeCell<()>;
