//! The scheduler: real threads, of which exactly one runs at any time. At every scheduling point
//! the next one is chosen - by the given prefix of choices as far as it goes, then by default
//! (stay on the running thread; else the lowest-numbered one). One execution per process:
//! the caller runs each execution in a forked child, so an execution that goes wrong just ends it.

use ::std::cell::Cell;
use ::std::sync::{Arc, Condvar, Mutex, OnceLock};
use ::std::sync::atomic::AtomicBool;

#[derive(Clone, Debug)]
pub struct Choice {
    /// threads that could run, the running one (if it can go on) first
    pub enabled: Vec<usize>,
    pub chosen: usize,
    /// choosing anything but the first is a preemption
    pub preemptive: bool,
    /// a choice of data (random number), not of a thread
    pub data: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum T { Ready, Blocked(usize, u64), Finished }

struct State {
    threads: Vec<T>,
    cur: usize,
    prefix: Vec<usize>,
    trace: Vec<Choice>,
    steps: u64,
    seq: u64,
    streak: u32,
    switches: u64,
    log: Vec<u8>,
}

pub struct Exec { m: Mutex<State>, cvs: Mutex<Vec<Arc<Condvar>>>, max_steps: u64, on_stop: Box<dyn Fn(Stop, &[Choice], u64, &[u8]) + Send + Sync> }

/// Why an execution ended without completing
#[derive(Clone, Debug)]
pub enum Stop { Deadlock(String), NoProgress }

static EXEC: OnceLock<Arc<Exec>> = OnceLock::new();
thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

fn exec() -> Option<(&'static Arc<Exec>, usize)> {
    let me = ME.try_with(|m| m.get()).unwrap_or(usize::MAX);
    if me == usize::MAX { return None; }
    EXEC.get().map(|e| (e, me))
}
pub fn controlled() -> bool { exec().is_some() }

/// Makes the calling thread thread 0 of an execution. At most once per process.
/// on_stop is called (and must not return) if the execution cannot complete.
pub fn begin(prefix: Vec<usize>, max_steps: u64, on_stop: Box<dyn Fn(Stop, &[Choice], u64, &[u8]) + Send + Sync>) {
    let e = Arc::new(Exec {
        m: Mutex::new(State { threads: vec![T::Ready], cur: 0, prefix, trace: vec![], steps: 0, seq: 0, streak: 0, switches: 0, log: vec![] }),
        cvs: Mutex::new(vec![Arc::new(Condvar::new())]), max_steps, on_stop,
    });
    assert!(EXEC.set(e).is_ok(), "one execution per process");
    ME.with(|m| m.set(0));
}

/// Ends it: the trace of choices, the number of steps, and the sequence of running threads
pub fn end() -> (Vec<Choice>, u64, Vec<u8>) {
    let (e, _) = exec().expect("no execution");
    ME.with(|m| m.set(usize::MAX));
    let s = e.m.lock().unwrap_or_else(|p| p.into_inner());
    (s.trace.clone(), s.steps, s.log.clone())
}

impl Exec {
    fn cv(&self, t: usize) -> Arc<Condvar> { self.cvs.lock().unwrap()[t].clone() }

    /// Chooses who runs next, `me` having just set its own state; returns when `me` runs again
    /// (at once if it has finished)
    fn reschedule(&self, me: usize, give_way: bool) {
        let mut s = self.m.lock().unwrap();
        s.steps += 1;
        if s.steps > self.max_steps { self.stop(&mut s, Stop::NoProgress); }
        let mut enabled: Vec<usize> = (0..s.threads.len()).filter(|t| s.threads[*t] == T::Ready).collect();
        if enabled.is_empty() {
            if s.threads.iter().all(|t| *t == T::Finished) { return; }
            let what = s.threads.iter().enumerate().map(|(i, t)| format!("{}:{}", i, match t { T::Finished => "finished", _ => "blocked" })).collect::<Vec<_>>().join(" ");
            self.stop(&mut s, Stop::Deadlock(what));
        }
        let mut mine = s.threads[me] == T::Ready;
        s.streak += 1;
        if mine && enabled.len() > 1 && (give_way || s.streak > 200) {
            // fairness: spinning threads let the others go on
            enabled.retain(|t| *t != me);
            enabled.push(me);
            mine = false;
        } else if mine {
            enabled.retain(|t| *t != me);
            enabled.insert(0, me);
        }
        let next = if enabled.len() == 1 { enabled[0] } else {
            let k = s.trace.len();
            let want = s.prefix.get(k).copied().unwrap_or(0);
            let chosen = want.min(enabled.len() - 1);
            s.trace.push(Choice { enabled: enabled.clone(), chosen, preemptive: mine, data: false });
            enabled[chosen]
        };
        if next != me || give_way { s.streak = 0; }
        s.log.push(next as u8);
        if next == me { return; }
        s.switches += 1;
        s.cur = next;
        self.cv(next).notify_one();
        if s.threads[me] == T::Finished { return; }
        let cv = self.cv(me);
        while s.cur != me { s = cv.wait(s).unwrap(); }
    }

    fn stop(&self, s: &mut State, why: Stop) -> ! {
        (self.on_stop)(why, &s.trace, s.steps, &s.log);
        ::std::process::abort()
    }
}

/// Has this execution tried to take a lock without waiting for it?
pub static TRIED: AtomicBool = AtomicBool::new(false);
/// Is taking a lock followed by a scheduling point? Only attempts that do not wait can tell
pub static HELD_POINTS: AtomicBool = AtomicBool::new(false);
pub fn point_held() { if HELD_POINTS.load(::std::sync::atomic::Ordering::Relaxed) { point() } }

/// A scheduling point
pub fn point() { if let Some((e, me)) = exec() { e.reschedule(me, false); } }
/// A scheduling point at which the others go first
pub fn give_way() { if let Some((e, me)) = exec() { e.reschedule(me, true); } }

/// Choices of data only, without threads: any number of runs in one process
#[derive(Default)]
pub struct DataRun { pub prefix: Vec<usize>, pub trace: Vec<(usize, usize)>, pub max: usize }
thread_local!(static DATA: ::std::cell::RefCell<Option<DataRun>> = const { ::std::cell::RefCell::new(None) });
pub fn data_begin(prefix: Vec<usize>, max: usize) { DATA.with(|d| *d.borrow_mut() = Some(DataRun { prefix, trace: vec![], max })) }
/// The choices made: (number of values, value)
pub fn data_end() -> Vec<(usize, usize)> { DATA.with(|d| d.borrow_mut().take()).map(|d| d.trace).unwrap_or_default() }

/// A choice of data: 0 by default, another value in 0..n if the prefix says so
pub fn choose(n: usize) -> usize {
    let Some((e, _)) = exec() else {
        return DATA.with(|d| match d.borrow_mut().as_mut() {
            None => 0,
            Some(d) => {
                let c = d.prefix.get(d.trace.len()).copied().unwrap_or(0).min(n - 1);
                d.trace.push((n, c));
                if d.trace.len() > d.max { panic!("no end after {} random choices", d.max); }
                c
            }
        });
    };
    let mut s = e.m.lock().unwrap();
    s.steps += 1;
    if s.steps > e.max_steps { e.stop(&mut s, Stop::NoProgress); }
    let k = s.trace.len();
    let chosen = s.prefix.get(k).copied().unwrap_or(0).min(n - 1);
    s.trace.push(Choice { enabled: (0..n).collect(), chosen, preemptive: true, data: true });
    chosen
}

/// Blocks the calling thread until `wake` is called for this key. Returns false if uncontrolled.
pub fn block(key: usize) -> bool {
    let Some((e, me)) = exec() else { return false };
    {
        let mut s = e.m.lock().unwrap();
        s.seq += 1;
        let q = s.seq;
        s.threads[me] = T::Blocked(key, q);
    }
    e.reschedule(me, false);
    true
}
pub fn wake_all(key: usize) { wake(key, usize::MAX) }
/// Wakes up to n of the threads blocked on this key, the longest waiting first
pub fn wake(key: usize, n: usize) {
    let Some(e) = EXEC.get() else { return };
    if !controlled() { return; }
    let mut s = e.m.lock().unwrap_or_else(|p| p.into_inner());
    let mut w: Vec<(u64, usize)> = s.threads.iter().enumerate().filter_map(|(i, t)| match t { T::Blocked(k, q) if *k == key => Some((*q, i)), _ => None }).collect();
    w.sort();
    for (_, i) in w.into_iter().take(n) { s.threads[i] = T::Ready; }
}

/* threads */

/// Announces a thread; its body must call `enter` first and `leave` last
pub fn new_thread() -> Option<usize> {
    let (e, _) = exec()?;
    let mut s = e.m.lock().unwrap();
    s.threads.push(T::Ready);
    e.cvs.lock().unwrap().push(Arc::new(Condvar::new()));
    Some(s.threads.len() - 1)
}
pub fn enter(t: usize) {
    let e = EXEC.get().unwrap();
    ME.with(|m| m.set(t));
    let mut s = e.m.lock().unwrap();
    let cv = e.cv(t);
    while s.cur != t { s = cv.wait(s).unwrap(); }
}
pub fn leave(t: usize) {
    let e = EXEC.get().unwrap();
    wake_all(join_key(t));
    e.m.lock().unwrap().threads[t] = T::Finished;
    e.reschedule(t, false);
    ME.with(|m| m.set(usize::MAX));
}
fn join_key(t: usize) -> usize { usize::MAX - 1 - t }
pub fn wait_for(t: usize) {
    loop {
        point();
        let Some((e, _)) = exec() else { return };
        let done = e.m.lock().unwrap().threads[t] == T::Finished;
        if done { return; }
        block(join_key(t));
    }
}
