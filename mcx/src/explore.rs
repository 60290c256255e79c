//! Depth-first search over the choices of an execution. Every execution runs in a forked child.
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::Instant;
use crate::engine::*;
use vstd::ctl;

/* ---------- file operations are scheduling points ---------- */

unsafe fn raw(n: libc::c_long, a: usize, b: usize, c: usize, d: usize) -> isize {
    crate::engine::syscall(n, a, b, c, d, 0, 0) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd > 2 && fd != RESULT.load(Ordering::Relaxed) { ctl::point(); }
    raw(libc::SYS_write, fd as usize, buf as usize, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, n: i32) -> isize {
    if fd > 2 && fd != RESULT.load(Ordering::Relaxed) { ctl::point(); }
    raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    ctl::point();
    raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    ctl::point();
    raw(libc::SYS_rename, a as usize, b as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    ctl::point();
    raw(libc::SYS_unlink, a as usize, 0, 0, 0) as i32
}

/* ---------- one execution ---------- */

static RESULT: AtomicI32 = AtomicI32::new(-1);

struct Out { tried: bool, choices: Vec<(u8, u8, u8)>, steps: u64, log: u64, data: u64, verdict: Result<u64, String> }

fn send(fd: i32, trace: &[ctl::Choice], steps: u64, log: &[u8], verdict: &Result<u64, String>) {
    let mut v: Vec<u8> = vec![];
    v.extend(steps.to_le_bytes());
    v.extend(fp(log).to_le_bytes());
    v.extend((trace.len() as u64 | (ctl::TRIED.load(Ordering::Relaxed) as u64) << 63).to_le_bytes());
    for c in trace { v.extend([c.enabled.len() as u8, c.chosen as u8, (c.preemptive as u8) | (c.data as u8) << 1]); }
    match verdict { Ok(x) => { v.push(0); v.extend(x.to_le_bytes()); } Err(e) => { v.push(1); v.extend(e.as_bytes()); } }
    let mut o = 0;
    while o < v.len() {
        let n = unsafe { raw(libc::SYS_write, fd as usize, v[o..].as_ptr() as usize, v.len() - o, 0) };
        if n <= 0 { break; }
        o += n as usize;
    }
}

fn execute(prefix: &[usize], max_steps: u64, body: &dyn Fn() -> Result<(), String>, judge: &dyn Fn() -> Result<u64, String>) -> Out {
    let mut fds = [0i32; 2];
    let mut buf = vec![];
    let mut st = 0;
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            RESULT.store(fds[1], Ordering::Relaxed);
            let fd = fds[1];
            ctl::begin(prefix.to_vec(), max_steps, Box::new(move |why, trace, steps, log| {
                let why = match why {
                    ctl::Stop::Deadlock(s) => format!("deadlock (threads {})", s),
                    ctl::Stop::NoProgress => format!("no end after {} steps", steps),
                };
                send(fd, trace, steps, log, &Err(why));
                unsafe { libc::_exit(0) }
            }));
            let r = guarded(body).and_then(|x| x);
            let (trace, steps, log) = ctl::end();
            let r = r.and_then(|()| guarded(judge).and_then(|x| x));
            send(fd, &trace, steps, &log, &r);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut buf).expect("read from child");
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    if buf.len() < 25 {
        let how = if libc::WIFSIGNALED(st) { format!("killed by signal {}", libc::WTERMSIG(st)) } else { "ended".into() };
        return Out { tried: false, choices: vec![], steps: 0, log: 0, data: 0, verdict: Err(format!("the process {} in the middle of an execution", how)) };
    }
    let g = |i: usize| u64::from_le_bytes(buf[i..i + 8].try_into().unwrap());
    let n = (g(16) & !(1 << 63)) as usize;
    let choices: Vec<(u8, u8, u8)> = buf[24..24 + 3 * n].chunks_exact(3).map(|c| (c[0], c[1], c[2])).collect();
    let data = fp(&choices.iter().filter(|c| c.2 & 2 != 0).map(|c| c.1).collect::<Vec<_>>());
    let k = 24 + 3 * n;
    let verdict = if buf[k] == 0 { Ok(g(k + 1)) } else { Err(String::from_utf8_lossy(&buf[k + 1..]).into_owned()) };
    Out { tried: g(16) >> 63 == 1, choices, steps: g(0), log: g(8), data, verdict }
}

/// Executions that did not follow their prefix, and cases cut off at the cap
pub static DIVERGED: AtomicU64 = AtomicU64::new(0);
pub static CAPPED: AtomicU64 = AtomicU64::new(0);
pub static QUICK: AtomicBool = AtomicBool::new(true);
static START: OnceLock<Instant> = OnceLock::new();
pub fn notes(ctx: &mut Ctx) {
    let (d, c) = (DIVERGED.load(Ordering::Relaxed), CAPPED.load(Ordering::Relaxed));
    if d > 0 { ctx.note(format!("{} executions of a worker did not follow their schedule (the code does not depend on the schedule alone)", d)); }
    if c > 0 { ctx.note(format!("{} cases of a worker were cut off at the cap on executions or time", c)); }
}

#[derive(Clone, Copy)]
pub struct Bounds { pub preemptions: usize, pub draws: usize, pub max_steps: u64, pub max_execs: usize, /** choices other than the default, free ones included */ pub departures: usize }

/// All executions within the bounds: at most so many preemptions (switches away from a thread that
/// could go on) and so many random draws that differ from the default sequence. Returns their number.
pub fn explore(tag: u64, b: Bounds, o: &mut Obs, setup: &dyn Fn(), body: &dyn Fn() -> Result<(), String>, judge: &dyn Fn() -> Result<u64, String>) -> Result<usize, String> {
    let mut todo: Vec<Vec<usize>> = vec![vec![]];
    let mut n = 0;
    let (case, check) = (Instant::now(), *START.get_or_init(Instant::now));
    while let Some(prefix) = todo.pop() {
        // code with many more scheduling points than expected: as much as there is time for
        let spent = case.elapsed().as_secs();
        let budget = if QUICK.load(Ordering::Relaxed) { if check.elapsed().as_secs() < 300 { 40 } else { 2 } } else if check.elapsed().as_secs() < 3000 { 240 } else { 20 };
        if n == b.max_execs || spent >= budget { CAPPED.fetch_add(1, Ordering::Relaxed); return Ok(n); }
        setup();
        let x = execute(&prefix, b.max_steps, body, judge);
        n += 1;
        if x.tried && !ctl::HELD_POINTS.swap(true, Ordering::Relaxed) && x.verdict.is_ok() {
            // from now on with scheduling points while locks are held: another thread may find them so
            todo = vec![vec![]];
            continue;
        }
        let all: Vec<usize> = x.choices.iter().map(|c| c.1 as usize).collect();
        match x.verdict {
            Ok(f) => { o.trace(); o.steps(x.steps as usize); o.state(&(tag, x.log, x.data, f)); }
            Err(e) => return Err(format!("{} [choices {}]", e, show(&all))),
        }
        if all.len() < prefix.len() || all[..prefix.len()] != prefix[..] {
            // something else than the schedule decides (time, say): judged, but not pursued
            DIVERGED.fetch_add(1, Ordering::Relaxed);
            continue;
        }
        let (mut p, mut d, mut all_d) = (0, 0, 0);
        for (i, c) in x.choices.iter().enumerate() {
            let (nen, chosen, flags) = (c.0 as usize, c.1 as usize, c.2);
            let data = flags & 2 != 0;
            let costs = flags & 1 != 0;
            if i >= prefix.len() && all_d < b.departures {
                let ok = if data { d + 1 <= b.draws } else { p + (costs as usize) <= b.preemptions };
                if ok { for alt in 1..nen {
                    let mut q = all[..i].to_vec();
                    q.push(alt);
                    todo.push(q);
                } }
            }
            if chosen != 0 { all_d += 1; }
            if chosen != 0 && costs { if data { d += 1 } else { p += 1 } }
        }
    }
    Ok(n)
}

fn show(c: &[usize]) -> String {
    // run-length
    let mut s = String::new();
    let mut i = 0;
    while i < c.len() {
        let mut j = i;
        while j < c.len() && c[j] == c[i] { j += 1; }
        if j - i > 3 { s.push_str(&format!("{}x{} ", c[i], j - i)); } else { for _ in i..j { s.push_str(&format!("{} ", c[i])); } }
        i = j;
    }
    s.trim_end().to_string()
}
