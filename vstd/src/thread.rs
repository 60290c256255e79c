use crate::ctl;
pub use ::std::thread::{AccessError, LocalKey, Thread, ThreadId, available_parallelism, current, panicking, park, park_timeout, Result};
use ::std::io;
use ::std::marker::PhantomData;
use ::std::time::Duration;

pub fn yield_now() { if ctl::controlled() { ctl::give_way() } else { ::std::thread::yield_now() } }
pub fn sleep(d: Duration) { if ctl::controlled() { ctl::give_way() } else { ::std::thread::sleep(d) } }

fn body<T>(t: Option<usize>, f: impl FnOnce() -> T) -> T {
    let Some(t) = t else { return f() };
    ctl::enter(t);
    let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
    ctl::leave(t);
    match r { Ok(v) => v, Err(p) => ::std::panic::resume_unwind(p) }
}

pub struct JoinHandle<T> { real: ::std::thread::JoinHandle<T>, id: Option<usize> }
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> { if let Some(t) = self.id { ctl::wait_for(t); } self.real.join() }
    pub fn thread(&self) -> &Thread { self.real.thread() }
    pub fn is_finished(&self) -> bool { ctl::point(); self.real.is_finished() }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T> where F: FnOnce() -> T + Send + 'static, T: Send + 'static { Builder::new().spawn(f).expect("failed to spawn thread") }

#[derive(Debug)]
pub struct Builder { real: ::std::thread::Builder }
impl Builder {
    pub fn new() -> Builder { Builder { real: ::std::thread::Builder::new() } }
    pub fn name(self, n: String) -> Builder { Builder { real: self.real.name(n) } }
    pub fn stack_size(self, n: usize) -> Builder { Builder { real: self.real.stack_size(n) } }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>> where F: FnOnce() -> T + Send + 'static, T: Send + 'static {
        let id = ctl::new_thread();
        let real = self.real.spawn(move || body(id, f))?;
        ctl::point();
        Ok(JoinHandle { real, id })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, scope: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope {
        let id = ctl::new_thread();
        if let Some(t) = id { scope.kids.lock().unwrap().push(t); }
        let real = self.real.spawn_scoped(scope.real, move || body(id, f))?;
        ctl::point();
        Ok(ScopedJoinHandle { real, id })
    }
}

pub struct Scope<'scope, 'env: 'scope> { real: &'scope ::std::thread::Scope<'scope, 'env>, kids: ::std::sync::Mutex<Vec<usize>>, _e: PhantomData<&'env ()> }
pub struct ScopedJoinHandle<'scope, T> { real: ::std::thread::ScopedJoinHandle<'scope, T>, id: Option<usize> }
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> { if let Some(t) = self.id { ctl::wait_for(t); } self.real.join() }
    pub fn thread(&self) -> &Thread { self.real.thread() }
    pub fn is_finished(&self) -> bool { ctl::point(); self.real.is_finished() }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T> where F: FnOnce() -> T + Send + 'scope, T: Send + 'scope { Builder::new().spawn_scoped(self, f).expect("failed to spawn thread") }
}
pub fn scope<'env, F, T>(f: F) -> T where F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T {
    ::std::thread::scope(|real| {
        // leaked so that it lives as long as 'scope
        let s: &Scope = Box::leak(Box::new(Scope { real, kids: ::std::sync::Mutex::new(vec![]), _e: PhantomData }));
        let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| f(s)));
        loop { let k = s.kids.lock().unwrap().pop(); match k { Some(t) => ctl::wait_for(t), None => break } }
        match r { Ok(v) => v, Err(p) => ::std::panic::resume_unwind(p) }
    })
}
