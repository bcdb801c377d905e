//! Generates cases, runs each in a forked process, shrinks failures and writes evidence.

use crate::arena;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering::*};
use std::time::Instant;

/// What a case found.
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Out {
    /// class and description of the failure
    pub fail: Option<(String, String)>,
    pub nontrivial: bool,
    pub labels: Vec<String>,
    pub extra: u64,
    /// if the case consists of several inputs, their number and the hashes of the non-trivial ones
    #[serde(default)]
    pub parts: Option<(u64, Vec<u64>)>,
    /// what to show of the case, if not all of it
    #[serde(default)]
    pub sample: Option<String>,
}

pub fn fail<T>(class: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((class.to_string(), msg.into()))
}

pub type Res<T = ()> = Result<T, (String, String)>;

pub trait Case: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static {}
impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug + 'static> Case for T {}

pub struct Suite<C: Case> {
    pub name: &'static str,
    /// number of cases in the quick tier, and factor for the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub strategy: BoxedStrategy<C>,
    pub run: fn(&C) -> Out,
    /// Candidates for a smaller case.
    pub shrink: fn(&C) -> Vec<C>,
    /// Further cases derived from a case which passed.
    pub variants: Option<fn(&C, &Out, &mut Rng) -> Vec<C>>,
    /// Classes of failure that this suite reports; others make the case inconclusive.
    pub classes: &'static [&'static str],
    pub hash_seed: fn(&C) -> u64,
    /// Keep each shard on one processor, which makes handing over between threads cheap.
    pub pin: bool,
}

#[derive(Default, Serialize, Deserialize, Clone, Debug)]
pub struct Tally {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub inconclusive: u64,
    pub errors: Vec<String>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub hashes: Vec<u64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Failure {
    pub suite: String,
    pub class: String,
    pub msg: String,
    pub case: Value,
    pub index: u64,
}

/// A small deterministic generator for everything that is not a proptest strategy.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x1234_5678);
    let mut h = 0u64;
    for &p in parts {
        r.0 ^= p.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h;
        h = r.next();
    }
    h
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn generate<T>(strategy: &BoxedStrategy<T>, seed: u64) -> T
where
    T: std::fmt::Debug,
{
    let mut bytes = [0u8; 32];
    let mut r = Rng(seed);
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    let mut runner =
        TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    strategy.new_tree(&mut runner).expect("strategy").current()
}

// ---- deterministic hashing: std takes its hash keys from getrandom -------------------------------

static HASH_RNG: AtomicU64 = AtomicU64::new(1);

/// # Safety
/// `buf` must point to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let mut r = Rng(HASH_RNG.fetch_add(0x9E37_79B9, SeqCst));
        *buf.add(i) = r.next() as u8;
    }
    len as isize
}

// ---- forked execution ----------------------------------------------------------------------------

static PIPE: AtomicI32 = AtomicI32::new(-1);
/// How long a case may do nothing without being considered stuck; it may compute for twice that.
pub static CASE_TIMEOUT_MS: AtomicI32 = AtomicI32::new(30_000);

fn send(kind: u8, data: &[u8]) {
    let fd = PIPE.load(SeqCst);
    if fd < 0 {
        return;
    }
    let mut buf = Vec::with_capacity(data.len() + 5);
    buf.push(kind);
    buf.extend((data.len() as u32).to_le_bytes());
    buf.extend(data);
    unsafe {
        let mut off = 0;
        while off < buf.len() {
            let n = libc::write(fd, buf[off..].as_ptr().cast(), buf.len() - off);
            if n <= 0 {
                break;
            }
            off += n as usize;
        }
    }
}

/// Report the outcome and end this (child) process at once, without running anything further.
pub fn finish(out: &Out) -> ! {
    arena::stop();
    send(b'R', &serde_json::to_vec(out).unwrap());
    unsafe { libc::_exit(0) }
}

pub enum Exec {
    Out(Out),
    /// No end after a time that is thousands of times what a case needs.
    Hang,
    /// The machinery itself failed.
    Error(String),
}

/// Run `f` in a forked child on a fresh thread.
pub fn isolated(hash_seed: u64, f: impl FnOnce() -> Out + Send) -> Exec {
    unsafe {
        let mut fds = [0i32; 2];
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return Exec::Error("pipe failed".into());
        }
        let pid = libc::fork();
        if pid < 0 {
            return Exec::Error("fork failed".into());
        }
        if pid == 0 {
            libc::close(fds[0]);
            // nothing may survive the worker that started it
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            PIPE.store(fds[1], SeqCst);
            child(hash_seed, f);
        }
        libc::close(fds[1]);
        let mut data = Vec::new();
        let mut rd = std::fs::File::from_raw_fd(fds[0]);
        let mut timed_out = false;
        let mut before = 0;
        let mut buf = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut p, 1, CASE_TIMEOUT_MS.load(SeqCst));
            if r == 0 {
                // on a busy machine it may just not have had its turn
                let (used, ready) = activity(pid);
                if (used > before || ready) && used < 2 * CASE_TIMEOUT_MS.load(SeqCst) as u64 / 10 {
                    before = used;
                    continue;
                }
                timed_out = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            if r < 0 {
                continue;
            }
            match rd.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(n) => data.extend(&buf[..n]),
            }
        }
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 {}
        if timed_out {
            return Exec::Hang;
        }
        let mut panic_msg = None;
        let mut i = 0;
        while i + 5 <= data.len() {
            let n = u32::from_le_bytes(data[i + 1..i + 5].try_into().unwrap()) as usize;
            let body = &data[i + 5..i + 5 + n];
            match data[i] {
                b'R' => {
                    return match serde_json::from_slice(body) {
                        Ok(o) => Exec::Out(o),
                        Err(e) => Exec::Error(format!("bad record: {e}")),
                    }
                }
                b'P' => panic_msg = Some(String::from_utf8_lossy(body).to_string()),
                _ => {}
            }
            i += 5 + n;
        }
        let after = panic_msg.map(|m| format!(" after panic: {m}")).unwrap_or_default();
        if libc::WIFSIGNALED(status) {
            let s = libc::WTERMSIG(status);
            if s == libc::SIGKILL {
                return Exec::Error("case was killed".into());
            }
            return Exec::Out(Out {
                fail: Some(("crash".into(), format!("process died of signal {s}{after}"))),
                ..Out::default()
            });
        }
        let code = libc::WEXITSTATUS(status);
        if code == arena::EXHAUSTED {
            return Exec::Out(Out { fail: Some(("exhausted".into(), "the arena is full".into())), ..Out::default() });
        }
        Exec::Error(format!("case exited with status {code}{after}"))
    }
}

/// Processor time of a process in hundredths of a second, and whether one of its threads could run.
fn activity(pid: i32) -> (u64, bool) {
    let stat = |f: String| -> Option<(u64, bool)> {
        let s = std::fs::read_to_string(f).ok()?;
        let v: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
        Some(((11..15).map(|i| v[i].parse().unwrap_or(0)).sum(), v[0] == "R"))
    };
    let used = stat(format!("/proc/{pid}/stat")).map_or(0, |x| x.0);
    let tasks = std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten();
    let ready = tasks.filter_map(|t| stat(t.path().join("stat").display().to_string())).any(|x| x.1);
    (used, ready)
}

unsafe fn child(hash_seed: u64, f: impl FnOnce() -> Out + Send) -> ! {
    let no_core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    libc::setrlimit(libc::RLIMIT_CORE, &no_core);
    let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    if null >= 0 && std::env::var("VH_STDERR").is_err() {
        libc::dup2(null, 2);
    }
    HASH_RNG.store(hash_seed | 1, SeqCst);
    std::panic::set_hook(Box::new(|info| {
        if QUIET.with(|q| q.get()) {
            return;
        }
        let msg = format!("{info}").replace('\n', " ");
        send(b'P', msg.as_bytes());
        if let Ok(mut m) = LAST_PANIC.lock() {
            if m.is_none() {
                *m = Some(msg);
            }
        }
    }));
    let out = std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || {
            arena::start();
            f()
        });
        h.unwrap().join()
    });
    arena::stop();
    let out = out.unwrap_or_else(|_| {
        let m = LAST_PANIC.lock().ok().and_then(|m| m.clone()).unwrap_or_default();
        Out { fail: Some((panic_class(&m).into(), m)), ..Out::default() }
    });
    finish(&out)
}

/// A panic raised by the harness itself is an error of the machinery, not of the code under test.
pub fn panic_class(msg: &str) -> &'static str {
    if msg.contains("panicked at src/") && !msg.contains("ORACLE") {
        "harness"
    } else {
        "panic"
    }
}

pub static LAST_PANIC: std::sync::Mutex<Option<String>> = std::sync::Mutex::new(None);
thread_local! {
    /// Expected panics are not recorded.
    pub static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Catch an expected panic.
pub fn expect_panic<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ());
    QUIET.with(|q| q.set(old));
    r
}

fn exec<C: Case>(suite: &Suite<C>, case: &C) -> Exec {
    let run = suite.run;
    let hs = (suite.hash_seed)(case);
    let c = std::panic::AssertUnwindSafe(case);
    struct SendPtr<T>(T);
    unsafe impl<T> Send for SendPtr<T> {}
    let p = SendPtr(c);
    isolated(hs, move || {
        let p = p;
        run(p.0 .0)
    })
}

/// Does this case fail in a class the suite reports?
fn failing<C: Case>(suite: &Suite<C>, case: &C) -> Option<(String, String)> {
    match exec(suite, case) {
        Exec::Out(o) => o.fail.filter(|(c, _)| suite.classes.contains(&c.as_str())),
        Exec::Hang => Some(hang()),
        Exec::Error(_) => None,
    }
}
fn hang() -> (String, String) {
    ("hang".into(), "the program did not come to an end".into())
}

fn shrink<C: Case>(suite: &Suite<C>, mut case: C, mut what: (String, String)) -> (C, (String, String)) {
    let begin = Instant::now();
    let mut budget = 3000;
    'outer: loop {
        for cand in (suite.shrink)(&case) {
            if budget == 0 || begin.elapsed().as_secs() > 60 {
                break 'outer;
            }
            budget -= 1;
            if let Some(w) = failing(suite, &cand) {
                if w.0 == what.0 {
                    case = cand;
                    what = w;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (case, what)
}

fn pin(shard: u64) {
    unsafe {
        let mut all: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, size_of::<libc::cpu_set_t>(), &mut all) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|&c| libc::CPU_ISSET(c, &all)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[shard as usize % cpus.len()], &mut one);
        libc::sched_setaffinity(0, size_of::<libc::cpu_set_t>(), &one);
    }
}

fn worker<C: Case>(suite: &Suite<C>, prop: &str, seed: u64, shard: u64, shards: u64, n: u64, until: Instant, stop: &AtomicU64) -> Tally {
    if suite.pin {
        pin(shard);
    }
    let mut t = Tally::default();
    let mut seen = HashSet::new();
    let mut idx = shard;
    while idx < n {
        if stop.load(Relaxed) != 0 || Instant::now() > until {
            break;
        }
        let cseed = mix(&[seed, hash_str(prop), hash_str(suite.name), idx]);
        let base = generate(&suite.strategy, cseed);
        let mut queue = vec![base.clone()];
        let mut first = true;
        let mut rng = Rng(mix(&[cseed, 77]));
        while let Some(case) = queue.pop() {
            if !first && (stop.load(Relaxed) != 0 || Instant::now() > until) {
                break;
            }
            t.evaluations += 1;
            let mut r = exec(suite, &case);
            if !matches!(r, Exec::Out(_)) {
                // resources may have been short: once more
                r = exec(suite, &case);
            }
            match r {
                Exec::Hang => {
                    stop.store(1, Relaxed);
                    let (class, msg) = hang();
                    t.failure = Some(Failure { suite: suite.name.into(), class, msg, case: serde_json::to_value(&case).unwrap(), index: idx });
                    return t;
                }
                Exec::Error(e) => {
                    t.errors.push(format!("{e}: {}", serde_json::to_string(&case).unwrap()));
                    if t.errors.len() > 3 {
                        stop.store(1, Relaxed);
                        return t;
                    }
                }
                Exec::Out(o) => {
                    if let Some((n, _)) = &o.parts {
                        t.evaluations += n.saturating_sub(1);
                    }
                    for l in &o.labels {
                        *t.labels.entry(l.clone()).or_default() += 1;
                    }
                    if let Some((class, msg)) = o.fail.clone() {
                        if class == "harness" {
                            t.errors.push(format!("{msg}: {}", serde_json::to_string(&case).unwrap()));
                            stop.store(1, Relaxed);
                            return t;
                        }
                        if suite.classes.contains(&class.as_str()) {
                            stop.store(1, Relaxed);
                            let (c, (class, msg)) = shrink(suite, case, (class, msg));
                            t.failure = Some(Failure {
                                suite: suite.name.into(),
                                class,
                                msg,
                                case: serde_json::to_value(&c).unwrap(),
                                index: idx,
                            });
                            t.hashes = seen.into_iter().collect();
                            return t;
                        }
                        t.inconclusive += 1;
                        *t.labels.entry(format!("inconclusive:{class}")).or_default() += 1;
                    } else {
                        if o.nontrivial {
                            let js = serde_json::to_string(&case).unwrap();
                            match &o.parts {
                                Some((_, v)) => {
                                    t.nontrivial += v.len() as u64;
                                    seen.extend(v.iter().copied());
                                }
                                None => {
                                    t.nontrivial += 1;
                                    seen.insert(hash_str(&js));
                                }
                            }
                            if t.samples.len() < 2 {
                                match &o.sample {
                                    Some(s) => t.samples.push(json!({"suite": suite.name, "index": idx, "case": s})),
                                    None if js.len() < 4000 => t.samples.push(json!({"suite": suite.name, "index": idx, "case": case})),
                                    None => {}
                                }
                            }
                        }
                        if first {
                            if let Some(v) = suite.variants {
                                queue = v(&base, &o, &mut rng);
                            }
                        }
                    }
                }
            }
            first = false;
        }
        idx += shards;
    }
    t.hashes = seen.into_iter().collect();
    t
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scale: f64,
    pub begin: Instant,
    pub tallies: Vec<(String, Tally)>,
    pub distinct: u64,
    /// replay this case of this suite instead of searching
    pub replay: Option<(String, Value)>,
}

impl Ctx {
    pub fn suite<C: Case>(&mut self, suite: Suite<C>) {
        if self.failed().is_some() {
            return;
        }
        if let Some((name, case)) = &self.replay {
            if name != suite.name {
                return;
            }
            let case: C = serde_json::from_value(case.clone()).expect("case");
            match failing(&suite, &case) {
                Some((class, msg)) => {
                    println!("{}: {msg} ({class})", suite.name);
                    println!("VIOLATION property={} replay", self.prop);
                    std::process::exit(1);
                }
                None => {
                    println!("replayed: held");
                    std::process::exit(0);
                }
            }
        }
        if let Ok(only) = std::env::var("VH_SUITE") {
            if only != suite.name {
                return;
            }
        }
        let n = ((if self.thorough { suite.thorough } else { suite.quick }) as f64 * self.scale).max(1.0) as u64;
        let begin = Instant::now();
        // on a slow machine there are fewer cases
        let seconds = if self.thorough { 36_000 } else { 600u64.saturating_sub(self.begin.elapsed().as_secs()).clamp(20, 150) };
        let until = begin + std::time::Duration::from_secs(seconds);
        let shards: u64 = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let stop = unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            &*(p as *const AtomicU64)
        };
        let mut kids = Vec::new();
        for shard in 0..shards {
            unsafe {
                let mut fds = [0i32; 2];
                assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
                let pid = libc::fork();
                if pid == 0 {
                    libc::close(fds[0]);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let t = worker(&suite, &self.prop, self.seed, shard, shards, n, until, stop);
                    let mut f = std::fs::File::from_raw_fd(fds[1]);
                    let _ = f.write_all(&serde_json::to_vec(&t).unwrap());
                    drop(f);
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                kids.push((pid, fds[0]));
            }
        }
        let mut total = Tally::default();
        let mut hashes = HashSet::new();
        for (pid, fd) in kids {
            let mut data = Vec::new();
            let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
            let _ = f.read_to_end(&mut data);
            let mut st = 0;
            unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} };
            match serde_json::from_slice::<Tally>(&data) {
                Err(e) => total.errors.push(format!("worker lost: {e}")),
                Ok(t) => {
                    total.evaluations += t.evaluations;
                    total.nontrivial += t.nontrivial;
                    total.inconclusive += t.inconclusive;
                    total.errors.extend(t.errors);
                    for (k, v) in t.labels {
                        *total.labels.entry(k).or_default() += v;
                    }
                    if total.samples.len() < 3 {
                        total.samples.extend(t.samples.into_iter().take(1));
                    }
                    hashes.extend(t.hashes);
                    if let Some(f) = t.failure {
                        if total.failure.as_ref().map_or(true, |g| f.index < g.index) {
                            total.failure = Some(f);
                        }
                    }
                }
            }
        }
        self.distinct += hashes.len() as u64;
        eprintln!(
            "[{}] suite {}: {} evaluations, {} non-trivial ({} distinct), {} inconclusive, {:.1}s{}",
            self.prop,
            suite.name,
            total.evaluations,
            total.nontrivial,
            hashes.len(),
            total.inconclusive,
            begin.elapsed().as_secs_f64(),
            if total.failure.is_some() { " FAILED" } else { "" }
        );
        if std::env::var("VH_LABELS").is_ok() {
            for (k, v) in &total.labels {
                eprintln!("    {k}: {v}");
            }
        }
        self.tallies.push((suite.name.into(), total));
    }

    pub fn failed(&self) -> Option<&Failure> {
        self.tallies.iter().find_map(|t| t.1.failure.as_ref())
    }
}

/// Cases smaller than `ops` with some elements removed.
pub fn shrink_vec<T: Clone>(ops: &[T]) -> Vec<Vec<T>> {
    let mut out = Vec::new();
    let n = ops.len();
    let mut size = n;
    while size > 0 {
        let mut i = 0;
        while i < n {
            let mut v = ops[..i].to_vec();
            v.extend_from_slice(&ops[(i + size).min(n)..]);
            if v.len() < n {
                out.push(v);
            }
            i += size;
        }
        size /= 2;
    }
    out
}
