//! The explorer: enumerates a deterministic sequence of cases, splits it over worker processes
//! (so that a crash, a hang or an allocation blow-up of the code under test is attributed to one
//! case and cannot take the checker down), and collects violations and coverage.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/* ---------- determinism of hash seeds ---------- */

static SEED_SALT: AtomicU64 = AtomicU64::new(0);

/// Takes precedence over libc's: std's RandomState and rand's seeding both come here, so the
/// iteration order of every hash map in the code under test is a function of the case only.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = SEED_SALT.load(Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) ^ 0x243F6A8885A308D3;
    for i in 0..len {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        *buf.add(i) = (x >> 24) as u8;
    }
    len as isize
}

/// The getrandom crate (rand's seeding) asks the kernel through libc's syscall()
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(num: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    if num == libc::SYS_getrandom { return getrandom(a as *mut u8, b, c as u32) as libc::c_long; }
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") num as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) { *libc::__errno_location() = -r as i32; return -1; }
    r as libc::c_long
}

/* ---------- fingerprints ---------- */

pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the Hash byte stream, then a finaliser
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0; x ^= x >> 33; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 33; x
        }
        fn write(&mut self, b: &[u8]) { for c in b { self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3); } }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

/* ---------- context given to the properties ---------- */

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

#[derive(Default)]
pub struct Obs {
    pub transitions: u64,
    pub traces: u64,
    states: Vec<u64>,
}
impl Obs {
    /// A state of the reference model (or of the system as observed) reached in this execution
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { self.states.push(fp(t)); }
    /// Steps executed and compared
    pub fn steps(&mut self, n: usize) { self.transitions += n as u64; }
    /// Complete executions of the implementation judged by the oracle
    pub fn trace(&mut self) { self.traces += 1; }
}

#[derive(Clone, Copy, PartialEq)]
enum Select { Shard { shard: u64, n: u64, from: u64, upto: u64 }, Only(u64) }

pub struct Ctx {
    pub tier: Tier,
    select: Select,
    idx: u64,
    family: String,
    fam_counts: BTreeMap<String, u64>,
    /// run each case on a thread of its own: fresh thread-locals and hash seeds
    pub isolate: bool,
    seen: HashSet<u64>,
    seen_cap_hit: bool,
    transitions: u64,
    traces: u64,
    cases: u64,
    samples: Vec<String>,
    samples_of_family: u32,
    slowest: (u64, u64),
    deadline: Instant,
    capped_at: Option<(String, u64)>,
    shm: *mut Shm,
    worker: usize,
    result: PathBuf,
    stop: bool,
    notes: Vec<String>,
    known: Vec<String>,
}

/// The findings listed for a property: each is a part of a case's description
fn findings(root: &Path, id: &str) -> Vec<String> {
    std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default().lines()
        .filter_map(|l| l.strip_prefix(&format!("finding: property={} ", id)).map(|s| s.to_string())).collect()
}
const FINDING: &str = "known finding: ";

const SEEN_CAP: usize = 3_000_000;

#[repr(C)]
struct Slot { idx_plus1: AtomicU64, started_ms: AtomicU64, limit_ms: AtomicU64 }
#[repr(C)]
struct Shm { slots: [Slot; 64] }

fn now_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts); }
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

thread_local!(static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|c| *c.borrow_mut() = format!("panic at {}: {}", loc, msg));
    }));
}

/// Runs code under test; a panic is an Err
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|c| c.borrow().clone()))
}

pub const DEFAULT_LIMIT_MS: u64 = 30_000;

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T { if self.quick() { quick } else { thorough } }
    pub fn family(&mut self, name: &str) { self.family = name.to_string(); self.samples_of_family = 0; }
    pub fn note(&mut self, s: impl Into<String>) { self.notes.push(s.into()); }

    /// True if the next case is one this worker runs: lets an enumeration avoid building its input
    pub fn wants(&self) -> bool {
        if self.stop { return false; }
        match self.select {
            Select::Shard { shard, n, from, upto } => self.idx % n == shard && self.idx >= from && self.idx <= upto,
            Select::Only(i) => self.idx == i,
        }
    }
    pub fn skip(&mut self) { self.idx += 1; }
    #[allow(dead_code)]
    pub fn stopped(&self) -> bool { self.stop }
    /// A directory of this worker's own, removed at the end of the check
    pub fn scratch(&self) -> PathBuf {
        let d = self.result.with_extension("scratch");
        std::fs::create_dir_all(&d).expect("scratch");
        d
    }
    /// The root of the verification tree
    #[allow(dead_code)]
    pub fn root(&self) -> PathBuf { self.result.ancestors().nth(3).unwrap().to_path_buf() }

    pub fn case<D, F>(&mut self, desc: D, f: F)
        where D: Fn() -> String, F: FnOnce(&mut Obs) -> Result<(), String> + Send
    { self.case_limit(DEFAULT_LIMIT_MS, desc, f) }

    pub fn case_limit<D, F>(&mut self, limit_ms: u64, desc: D, f: F)
        where D: Fn() -> String, F: FnOnce(&mut Obs) -> Result<(), String> + Send
    {
        let idx = self.idx;
        if !self.wants() {
            self.idx += 1;
            return;
        }
        self.idx += 1;
        if Instant::now() > self.deadline {
            self.capped_at = Some((self.family.clone(), idx));
            self.stop = true;
            return;
        }
        unsafe {
            let s = &(*self.shm).slots[self.worker];
            // quick cases take seconds at most: a hang must be established well within the check's time
            s.limit_ms.store(if self.quick() { limit_ms.min(60_000) } else { limit_ms }, Ordering::SeqCst);
            s.started_ms.store(now_ms(), Ordering::SeqCst);
            s.idx_plus1.store(idx + 1, Ordering::SeqCst);
        }
        let mut obs = Obs::default();
        let res = if self.isolate {
            SEED_SALT.store(idx, Ordering::Relaxed);
            let obs = &mut obs;
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || {
                    guarded(|| f(obs)).unwrap_or_else(Err)
                }).expect("spawn").join().unwrap_or_else(|_| Err("panic outside the guard".into()))
            })
        } else {
            guarded(|| f(&mut obs)).unwrap_or_else(Err)
        };
        unsafe {
            let s = &(*self.shm).slots[self.worker];
            self.slowest = self.slowest.max((now_ms() - s.started_ms.load(Ordering::SeqCst), idx));
            s.idx_plus1.store(0, Ordering::SeqCst);
        }
        self.cases += 1;
        *self.fam_counts.entry(self.family.clone()).or_insert(0) += 1;
        self.transitions += obs.transitions;
        self.traces += obs.traces;
        for s in obs.states {
            if self.seen.len() < SEEN_CAP { self.seen.insert(s); } else { self.seen_cap_hit = true; }
        }
        if self.samples_of_family < 1 && self.samples.len() < 40 {
            self.samples_of_family += 1;
            self.samples.push(format!("{} [case {}]: {}", self.family, idx, clip(&desc(), 300)));
        }
        if let Err(msg) = res {
            let what = one_line(&desc());
            if let Some(k) = self.known.iter().find(|k| what.contains(k.as_str())) {
                self.notes.push(format!("{}{}", FINDING, k));
                return;
            }
            self.stop = true;
            let body = format!("{}\n{}\n{}\n{}", idx, self.family, one_line(&desc()), one_line(&msg));
            let tmp = self.result.with_extension("viol.tmp");
            std::fs::write(&tmp, body).expect("write violation");
            std::fs::rename(&tmp, self.result.with_extension("viol")).expect("rename violation");
        }
    }

    fn finish(&mut self) {
        let mut out = String::new();
        writeln!(out, "cases {}", self.cases).unwrap();
        writeln!(out, "transitions {}", self.transitions).unwrap();
        writeln!(out, "traces {}", self.traces).unwrap();
        writeln!(out, "total {}", self.idx).unwrap();
        writeln!(out, "slowest {} {}", self.slowest.0, self.slowest.1).unwrap();
        writeln!(out, "seencap {}", self.seen_cap_hit as u8).unwrap();
        if let Some((f, i)) = &self.capped_at { writeln!(out, "capped {} {}", i, f).unwrap(); }
        for (k, v) in &self.fam_counts { writeln!(out, "fam {} {}", v, k).unwrap(); }
        for s in &self.samples { writeln!(out, "sample {}", one_line(s)).unwrap(); }
        for s in &self.notes { writeln!(out, "note {}", one_line(s)).unwrap(); }
        let mut bin = Vec::with_capacity(self.seen.len() * 8);
        for s in &self.seen { bin.extend_from_slice(&s.to_le_bytes()); }
        std::fs::write(self.result.with_extension("seen"), bin).unwrap();
        std::fs::write(self.result.with_extension("stat"), out).unwrap();
    }
}

/// Runs f in a child process (fresh statics) and returns what it wrote; only from a single-threaded worker
pub fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    use std::io::Read;
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let r = guarded(f);
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let code = match r {
                Ok(b) => { let _ = w.write_all(&b); 0 }
                Err(e) => { let _ = w.write_all(e.as_bytes()); 1 }
            };
            drop(w);
            libc::_exit(code);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut out).expect("read from child");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { return Ok(out); }
        if libc::WIFEXITED(st) { return Err(String::from_utf8_lossy(&out).into_owned()); }
        Err(format!("killed by signal {}", libc::WTERMSIG(st)))
    }
}

impl Obs {
    pub fn dump(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(16 + self.states.len() * 8);
        for x in [self.transitions, self.traces].iter().chain(&self.states) { v.extend_from_slice(&x.to_le_bytes()); }
        v
    }
    pub fn absorb(&mut self, b: &[u8]) {
        let mut it = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap()));
        self.transitions += it.next().unwrap_or(0);
        self.traces += it.next().unwrap_or(0);
        self.states.extend(it);
    }
}

fn one_line(s: &str) -> String { s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r") }
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.to_string(); }
    let mut k = n;
    while !s.is_char_boundary(k) { k -= 1; }
    format!("{}...({} bytes)", &s[..k], s.len())
}

/* ---------- properties ---------- */

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx),
    /// "model_checking" or "fault_enumeration"
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

/* ---------- worker process ---------- */

fn map_shm(path: &Path) -> *mut Shm {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shm");
    f.set_len(std::mem::size_of::<Shm>() as u64).unwrap();
    let p = unsafe {
        libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
    };
    assert!(p != libc::MAP_FAILED);
    p as *mut Shm
}

fn worker_main(p: &Prop, a: &[String]) {
    // worker <dir> <slot> <tier> <shard> <n> <from> <upto> <only|-> <deadline_s>
    let dir = PathBuf::from(&a[0]);
    let slot: usize = a[1].parse().unwrap();
    let tier = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let g = |i: usize| a[i].parse::<u64>().unwrap();
    let select = if a[7] == "-" { Select::Shard { shard: g(3), n: g(4), from: g(5), upto: g(6) } } else { Select::Only(g(7)) };
    unsafe {
        let lim = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        // SIGKILL if the parent dies
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    install_panic_hook();
    let mut ctx = Ctx {
        tier, select, idx: 0, family: String::new(), fam_counts: BTreeMap::new(), isolate: false,
        seen: HashSet::new(), seen_cap_hit: false, transitions: 0, traces: 0, cases: 0, samples: vec![], samples_of_family: 0, slowest: (0, 0),
        deadline: Instant::now() + Duration::from_secs(g(8)), capped_at: None,
        shm: map_shm(&dir.join("shm")), worker: slot, result: dir.join(format!("w{}", slot)), stop: false, notes: vec![], known: vec![],
    };
    ctx.known = findings(&ctx.root(), p.id);
    if let Err(msg) = guarded(|| (p.run)(&mut ctx)) {
        let _ = std::fs::write(ctx.result.with_extension("panic"), format!("{} in family {:?}", msg, ctx.family));
        std::process::exit(101);
    }
    ctx.finish();
}

/* ---------- parent process ---------- */

struct Running { child: Child, shard: u64, slot: usize }

fn spawn_worker(p: &Prop, dir: &Path, slot: usize, tier: &str, shard: u64, n: u64, from: u64, upto: u64, only: Option<u64>, deadline_s: u64) -> Running {
    let exe = std::env::current_exe().unwrap();
    for ext in ["viol", "stat", "seen", "panic"] { let _ = std::fs::remove_file(dir.join(format!("w{}.{}", slot, ext))); }
    let child = Command::new(exe)
        .args(["worker", p.id]).arg(dir)
        .args([slot.to_string(), tier.to_string(), shard.to_string(), n.to_string(), from.to_string(), upto.to_string(),
               only.map(|x| x.to_string()).unwrap_or_else(|| "-".into()), deadline_s.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
        .spawn().expect("spawn worker");
    Running { child, shard, slot }
}

#[derive(Debug, Clone)]
struct Violation { idx: u64, family: String, desc: String, msg: String, shard: u64 }

enum Outcome { Done, Violated(Violation), Died { idx: u64, how: String, timeout: bool, oom: bool } }

fn read_violation(dir: &Path, slot: usize, shard: u64) -> Option<Violation> {
    let s = std::fs::read_to_string(dir.join(format!("w{}.viol", slot))).ok()?;
    let mut l = s.lines();
    Some(Violation { idx: l.next()?.parse().ok()?, family: l.next()?.into(), desc: l.next()?.into(), msg: l.next().unwrap_or("").into(), shard })
}

/// Some(outcome) once the worker has ended (killing it if its current case takes too long)
fn poll(r: &mut Running, dir: &Path, shm: *mut Shm, extra_ms: u64) -> Option<Outcome> {
    use std::os::unix::process::ExitStatusExt;
    let slot = unsafe { &(&(*shm).slots)[r.slot] };
    match r.child.try_wait().expect("wait") {
        Some(st) => {
            if let Some(v) = read_violation(dir, r.slot, r.shard) { return Some(Outcome::Violated(v)); }
            if st.success() { return Some(Outcome::Done); }
            let cur = slot.idx_plus1.load(Ordering::SeqCst);
            let mut how = match st.signal() { Some(s) => format!("killed by signal {}", s), None => format!("exit status {:?}", st.code()) };
            if let Ok(s) = std::fs::read_to_string(dir.join(format!("w{}.panic", r.slot))) { how += &format!(" ({})", s); }
            Some(Outcome::Died { idx: cur.wrapping_sub(1), oom: st.signal() == Some(libc::SIGKILL), how, timeout: false })
        }
        None => {
            let cur = slot.idx_plus1.load(Ordering::SeqCst);
            if cur != 0 {
                let t = slot.started_ms.load(Ordering::SeqCst);
                let lim = slot.limit_ms.load(Ordering::SeqCst) + extra_ms;
                if now_ms() > t + lim && slot.idx_plus1.load(Ordering::SeqCst) == cur {
                    let _ = r.child.kill();
                    let _ = r.child.wait();
                    return Some(Outcome::Died { idx: cur - 1, how: format!("no result within {} ms", lim), timeout: true, oom: false });
                }
            }
            None
        }
    }
}

fn wait_one(mut r: Running, dir: &Path, shm: *mut Shm, extra_ms: u64) -> Outcome {
    loop {
        if let Some(o) = poll(&mut r, dir, shm, extra_ms) { return o; }
        std::thread::sleep(Duration::from_millis(5));
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned() }

fn parent_main(p: &Prop, a: &[String]) -> i32 {
    let t0 = Instant::now();
    let tier = arg(a, "--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let root = PathBuf::from(arg(a, "--root").unwrap_or_else(|| "/verif".into()));
    let n: u64 = arg(a, "--jobs").map(|x| x.parse().unwrap()).unwrap_or(8).min(32);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let deadline_s: u64 = arg(a, "--deadline").map(|x| x.parse().unwrap()).unwrap_or(if tier == "thorough" { 6000 } else { 420 });
    let dir = root.join("out").join(format!("{}.{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("out dir");
    std::fs::create_dir_all(root.join("out/replays")).expect("replay dir");
    std::fs::create_dir_all(root.join("evidence")).expect("evidence dir");
    let shm = map_shm(&dir.join("shm"));

    if let Some(only) = arg(a, "--only") {
        // replay of one case
        let r = spawn_worker(p, &dir, 0, &tier, 0, 1, 0, u64::MAX, Some(only.parse().unwrap()), deadline_s);
        let o = wait_one(r, &dir, shm, 60_000);
        let code = match o {
            Outcome::Done => { println!("case {}: property held", only); 0 }
            Outcome::Violated(v) => { println!("case {}: {} | {} | {}", only, v.family, v.desc, v.msg); 1 }
            Outcome::Died { how, .. } => { println!("case {}: {}", only, how); 1 }
        };
        let _ = std::fs::remove_dir_all(&dir);
        return code;
    }

    let mut running: Vec<Running> = (0..n).map(|s| spawn_worker(p, &dir, s as usize, &tier, s, n, 0, u64::MAX, None, deadline_s)).collect();
    let mut violations: Vec<Violation> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut unconfirmed = 0;
    let mut grace: Option<Instant> = None;
    let mut totals: BTreeMap<String, u64> = BTreeMap::new();
    let mut fams: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut capped: Option<(u64, String)> = None;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut slowest = (0u64, 0u64);
    let mut absorb = |slot: usize| {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("w{}.stat", slot))) {
            for l in s.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "cases" | "transitions" | "traces" => *totals.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap(),
                    "total" | "seencap" => { let e = totals.entry(k.into()).or_insert(0); *e = (*e).max(v.parse().unwrap()); }
                    "fam" => { let (c, f) = v.split_once(' ').unwrap(); *fams.entry(f.into()).or_insert(0) += c.parse::<u64>().unwrap(); }
                    "slowest" => { let (t, i) = v.split_once(' ').unwrap(); slowest = slowest.max((t.parse().unwrap(), i.parse().unwrap())); }
                    "sample" => samples.push(v.into()),
                    "note" => if !notes.iter().any(|x| x == v) { notes.push(v.into()) },
                    "capped" => { let (i, f) = v.split_once(' ').unwrap_or((v, "")); let i: u64 = i.parse().unwrap(); if capped.as_ref().map_or(true, |c| i < c.0) { capped = Some((i, f.into())); } }
                    _ => {}
                }
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("w{}.seen", slot))) {
            for c in b.chunks_exact(8) { seen.insert(u64::from_le_bytes(c.try_into().unwrap())); }
        }
    };
    while !running.is_empty() {
        let mut i = 0;
        while i < running.len() {
            match poll(&mut running[i], &dir, shm, 0) {
                None => i += 1,
                Some(o) => {
                    let r = running.swap_remove(i);
                    // a violation is established: no time for confirming another one
                    if grace.is_some() && matches!(o, Outcome::Died { .. }) { continue; }
                    match o {
                        Outcome::Done => absorb(r.slot),
                        Outcome::Violated(v) => { absorb(r.slot); violations.push(v); grace.get_or_insert(Instant::now() + Duration::from_secs(3)); }
                        Outcome::Died { idx, how, timeout, oom } => {
                            if idx == u64::MAX { errors.push(format!("worker {} died outside a case: {}", r.slot, how)); continue; }
                            if oom && !timeout { errors.push(format!("worker {} was killed (out of memory?) in case {}", r.slot, idx)); continue; }
                            // Must happen again, alone, with a longer limit
                            let c = spawn_worker(p, &dir, 40 + r.slot % 20, &tier, 0, 1, 0, u64::MAX, Some(idx), deadline_s);
                            let slot = c.slot;
                            match wait_one(c, &dir, shm, 60_000) {
                                Outcome::Done => {
                                    absorb(slot);
                                    unconfirmed += 1;
                                    if unconfirmed > 20 { errors.push(format!("case {} {} but not when run alone", idx, how)); continue; }
                                    running.push(spawn_worker(p, &dir, r.slot, &tier, r.shard, n, idx + 1, u64::MAX, None, deadline_s));
                                }
                                Outcome::Violated(v) => { violations.push(v); grace.get_or_insert(Instant::now() + Duration::from_secs(3)); }
                                Outcome::Died { how, oom, timeout, .. } => {
                                    if oom && !timeout { errors.push(format!("case {} was killed (out of memory?)", idx)); continue; }
                                    violations.push(Violation { idx, family: "?".into(), desc: format!("case {}", idx), msg: how, shard: r.shard });
                                    grace.get_or_insert(Instant::now() + Duration::from_secs(3));
                                }
                            }
                        }
                    }
                }
            }
        }
        if grace.map_or(false, |g| Instant::now() > g) {
            for r in running.iter_mut() { let _ = r.child.kill(); let _ = r.child.wait(); }
            running.clear();
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    violations.sort_by_key(|v| v.idx);
    let _ = &violations.iter().map(|v| v.shard).max();

    // Evidence
    let total = totals.get("total").copied().unwrap_or(0);
    let exhaustive = violations.is_empty() && errors.is_empty() && capped.is_none();
    let mut cov = String::new();
    samples.sort();
    samples.dedup_by_key(|s| s.split(" [case ").next().unwrap_or("").to_string());
    samples.truncate(40);
    let samples_json = format!("[{}]", samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let fam_json = format!("{{{}}}", fams.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    let cases = totals.get("cases").copied().unwrap_or(0);
    let (tr, tc) = (totals.get("transitions").copied().unwrap_or(0), totals.get("traces").copied().unwrap_or(0));
    if p.level == "fault_enumeration" {
        write!(cov, "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"cases\": {}, \"steps\": {}", tc, seen.len(), json_str(p.rule), cases, tr).unwrap();
    } else {
        write!(cov, "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"rule\": {}, \"cases\": {}", seen.len(), tr, tc, json_str(p.rule), cases).unwrap();
    }
    write!(cov, ", \"slowest_case\": {{\"case\": {}, \"ms\": {}}}", slowest.1, slowest.0).unwrap();
    write!(cov, ", \"states_counter_saturated\": {}", totals.get("seencap").copied().unwrap_or(0) != 0).unwrap();
    write!(cov, ", \"exhaustive\": {}, \"cases_by_family\": {}, \"samples\": {}", exhaustive, fam_json, samples_json).unwrap();
    if let Some((i, f)) = &capped { write!(cov, ", \"cap\": {}", json_str(&format!("time cap reached at case {} of the enumeration (family {}); everything before it was covered", i, f))).unwrap(); }
    if exhaustive { write!(cov, ", \"enumeration_size\": {}", total).unwrap(); }
    if !notes.is_empty() { write!(cov, ", \"notes\": [{}]", notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")).unwrap(); }

    // Known findings
    let known = findings(&root, p.id);
    for k in notes.iter().filter_map(|n| n.strip_prefix(FINDING)) { println!("KNOWN-FINDING: property={} {}", p.id, k); }
    let mut code = 0;
    let mut new_viol = 0;
    for v in &violations {
        if let Some(k) = known.iter().find(|k| v.desc.contains(k.as_str())) {
            println!("KNOWN-FINDING: property={} {}", p.id, k);
            continue;
        }
        new_viol += 1;
        if new_viol == 1 {
            let path = root.join("out/replays").join(format!("{}-{}.txt", p.id, v.idx));
            let text = format!("property: {}\ntier: {}\ncase: {}\nfamily: {}\ninput: {}\nobserved: {}\nreplay with: /verif/check.sh {} --tier {} --only {}\n",
                p.id, tier, v.idx, v.family, v.desc, v.msg, p.id, tier, v.idx);
            std::fs::write(&path, text).expect("replay file");
            eprintln!("{}: {} | {} | {}", p.id, v.family, clip(&v.desc, 600), clip(&v.msg, 600));
            println!("VIOLATION property={} replay={}", p.id, path.display());
            code = 1;
        }
    }
    if code == 0 && !errors.is_empty() {
        for e in &errors { eprintln!("ERROR: {}", e); }
        code = 2;
    }
    let ev = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{{}}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
        json_str(p.id), json_str(&tier), seed, json_str(p.level), cov,
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), new_viol);
    std::fs::write(root.join("evidence").join(format!("{}.json", p.id)), ev).expect("evidence");
    let _ = std::fs::remove_dir_all(&dir);
    println!("{} {}: {} cases, {} states, {} transitions, {} traces, {:.1} s{}", p.id, tier, cases, seen.len(), tr, tc, t0.elapsed().as_secs_f64(),
        if capped.is_some() { " (time cap reached)" } else { "" });
    std::io::stdout().flush().unwrap();
    code
}

pub fn main_entry(props: &[Prop]) -> i32 {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("unknown property {}", id); std::process::exit(2) });
    match a.first().map(|s| s.as_str()) {
        Some("worker") => { worker_main(find(&a[1]), &a[2..]); 0 }
        Some("list") => { for p in props { println!("{}", p.id); } 0 }
        Some(id) => parent_main(find(id), &a[1..]),
        None => { eprintln!("usage: mc <property> [--tier quick|thorough] [--only case]"); 2 }
    }
}
