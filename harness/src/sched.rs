//! A cooperative scheduler: of the threads it controls, exactly one runs at a time, and control only
//! changes hands at scheduling points (every atomic operation and lock of the sync collector, visits
//! of generated values, and operations of the harness). A schedule is a list of preemptions.
//! A thread that sleeps between scheduling points, as it does when the library waits for something in a
//! way the scheduler does not know, has to hand over control, and gets it back in its turn.

use crate::arena;
use crate::runner::{finish, Out};
use dumpster::hooks::{self, Op};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

pub const MAXT: usize = 6;
const NONE: usize = usize::MAX;
const STEP_LIMIT: u64 = 400_000;

struct Inner {
    cur: usize,
    live: [bool; MAXT],
    blocked_run: usize,
    steps: u64,
    /// steps, and coarse ones among them, taken while another thread could have run
    contested: (u64, u64),
    script: Vec<(u16, u8)>,
    pos: usize,
    left: u32,
    preemptions: u32,
    on: bool,
    /// threads as the system knows them
    tids: [i32; MAXT],
    /// how often control was taken from sleeping threads since the last step
    woken: usize,
}

static S: Mutex<Inner> = Mutex::new(Inner {
    cur: NONE,
    live: [false; MAXT],
    blocked_run: 0,
    steps: 0,
    contested: (0, 0),
    script: Vec::new(),
    pos: 0,
    left: u32::MAX,
    preemptions: 0,
    on: false,
    tids: [0; MAXT],
    woken: 0,
});
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
static MAIN: Condvar = Condvar::new();

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    /// Whether the last point of this thread was a load of the library.
    static LOAD: Cell<bool> = const { Cell::new(false) };
    /// Registered before anything else on a controlled thread, so that it is destroyed last.
    static BATON: Baton = const { Baton };
}

struct Baton;
impl Drop for Baton {
    fn drop(&mut self) {
        let me = TID.with(|t| t.replace(NONE));
        let mut s = S.lock().unwrap();
        s.live[me] = false;
        s.blocked_run = 0;
        s.woken = 0;
        match next_live(&s, me) {
            // control was taken from this thread
            Some(_) if s.cur != me => {}
            Some(n) => {
                s.cur = n;
                CV[n].notify_one();
            }
            None => {
                s.cur = NONE;
                s.on = false;
                MAIN.notify_one();
            }
        }
    }
}

fn next_live(s: &Inner, me: usize) -> Option<usize> {
    (1..=MAXT).map(|d| (me + d) % MAXT).find(|&i| i != me && s.live[i])
}

/// The hook installed in the library.
pub fn on_op(op: Op, addr: *const ()) {
    if arena::state(addr as usize) == arena::St::Freed {
        arena::fault(arena::F_ATOMIC_UAF, addr as u64);
        finish(&Out {
            fail: Some(("memory".into(), format!("{op:?} on memory that was already freed"))),
            ..Out::default()
        });
    }
    point(op);
}

pub fn install() {
    hooks::set_hook(Some(on_op));
}

fn report(class: &str, msg: &str) -> ! {
    finish(&Out { fail: Some((class.into(), msg.into())), ..Out::default() })
}

/// In a script entry: count only coarse points.
pub const COARSE: u8 = 0x80;
/// In a script entry: count only points right after the library has loaded something, where what it
/// knows may become out of date.
pub const LOADED: u8 = 0x40;

/// A scheduling point of the library.
pub fn point(op: Op) {
    at(op, false);
}
/// A scheduling point of the program: an operation, a visit, a destructor or a lock of its own.
pub fn coarse(op: Op) {
    at(op, true);
}
fn at(op: Op, coarse: bool) {
    let me = match TID.try_with(Cell::get) {
        Ok(t) => t,
        Err(_) => NONE,
    };
    if me == NONE {
        if op == Op::Blocked {
            report("deadlock", "operation waits for a lock that is never released");
        }
        return;
    }
    let loaded = LOAD.replace(op == Op::Load && !coarse);
    let mut s = S.lock().unwrap();
    while s.cur != me {
        // control was taken from this thread while it slept
        s = CV[me].wait(s).unwrap();
    }
    s.woken = 0;
    s.steps += 1;
    if s.steps > STEP_LIMIT {
        report("livelock", "step limit exceeded");
    }
    let target = match op {
        Op::Blocked => {
            s.blocked_run += 1;
            let n = s.live.iter().filter(|l| **l).count();
            if s.blocked_run > 3 * n {
                report("deadlock", "every thread waits for a lock");
            }
            next_live(&s, me)
        }
        _ => {
            if op != Op::Lock {
                s.blocked_run = 0;
            }
            if (0..MAXT).any(|i| i != me && s.live[i]) {
                s.contested.0 += 1;
                s.contested.1 += coarse as u64;
            }
            let counts = match s.script.get(s.pos).map_or(0, |x| x.1 & (COARSE | LOADED)) {
                COARSE => coarse,
                LOADED => loaded,
                _ => true,
            };
            if !counts {
                None
            } else if s.left == 0 {
                let to = s.script[s.pos].1 & !(COARSE | LOADED);
                s.pos += 1;
                s.left = s.script.get(s.pos).map_or(u32::MAX, |x| x.0 as u32);
                // the n-th other live thread
                let others: usize = (0..MAXT).filter(|&i| i != me && s.live[i]).count();
                if others == 0 {
                    None
                } else {
                    s.preemptions += 1;
                    (0..MAXT).filter(|&i| i != me && s.live[i]).nth(to as usize % others)
                }
            } else {
                if s.left != u32::MAX {
                    s.left -= 1;
                }
                None
            }
        }
    };
    if let Some(t) = target {
        s.cur = t;
        CV[t].notify_one();
        while s.cur != me {
            s = CV[me].wait(s).unwrap();
        }
    }
}

/// How often to look whether the thread in control sleeps.
const WATCH_MS: u64 = 1;

fn asleep(tid: i32) -> bool {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat"));
    stat.is_ok_and(|s| s.rsplit_once(')').is_some_and(|x| x.1.trim_start().starts_with('S')))
}

/// Run `bodies` as controlled threads under a schedule; gives ((steps, coarse steps), preemptions, success).
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, first: usize, script: Vec<(u16, u8)>) -> ((u64, u64), u32, bool) {
    let n = bodies.len();
    {
        let mut s = S.lock().unwrap();
        s.left = script.first().map_or(u32::MAX, |x| x.0 as u32);
        s.script = script;
        s.pos = 0;
        s.steps = 0;
        s.contested = (0, 0);
        s.preemptions = 0;
        s.cur = NONE;
        s.woken = 0;
        s.tids = [0; MAXT];
        s.on = true;
        for i in 0..n {
            s.live[i] = true;
        }
    }
    let mut joins = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        joins.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    {
                        let mut s = S.lock().unwrap();
                        s.tids[i] = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
                        while s.cur != i {
                            s = CV[i].wait(s).unwrap();
                        }
                    }
                    TID.with(|t| t.set(i));
                    BATON.with(|_| ());
                    b();
                })
                .unwrap(),
        );
    }
    {
        let mut s = S.lock().unwrap();
        s.cur = first % n;
        CV[first % n].notify_one();
        let mut last = (0, NONE);
        while s.on {
            let (t, timeout) = MAIN.wait_timeout(s, std::time::Duration::from_millis(WATCH_MS)).unwrap();
            s = t;
            if !s.on || !timeout.timed_out() {
                continue;
            }
            let now = (s.steps, s.cur);
            let tid = s.tids[s.cur];
            drop(s);
            let sleeping = now == last && asleep(tid);
            s = S.lock().unwrap();
            if s.on && sleeping && now == (s.steps, s.cur) {
                s.woken += 1;
                let n = s.live.iter().filter(|l| **l).count();
                if s.woken > 500 * n {
                    report("deadlock", "every thread sleeps");
                }
                if let Some(t) = next_live(&s, s.cur) {
                    s.cur = t;
                    CV[t].notify_one();
                }
            }
            last = now;
        }
    }
    let mut ok = true;
    for j in joins {
        ok &= j.join().is_ok();
    }
    let s = S.lock().unwrap();
    (s.contested, s.preemptions, ok)
}

/// Acquire a user lock through the scheduler.
pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    loop {
        coarse(Op::Lock);
        match m.try_lock() {
            Ok(g) => return g,
            Err(std::sync::TryLockError::Poisoned(e)) => return e.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => coarse(Op::Blocked),
        }
    }
}
pub fn write<T>(m: &std::sync::RwLock<T>) -> std::sync::RwLockWriteGuard<'_, T> {
    loop {
        coarse(Op::Lock);
        match m.try_write() {
            Ok(g) => return g,
            Err(std::sync::TryLockError::Poisoned(e)) => return e.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => coarse(Op::Blocked),
        }
    }
}
pub fn read<T>(m: &std::sync::RwLock<T>) -> std::sync::RwLockReadGuard<'_, T> {
    loop {
        coarse(Op::Lock);
        match m.try_read() {
            Ok(g) => return g,
            Err(std::sync::TryLockError::Poisoned(e)) => return e.into_inner(),
            Err(std::sync::TryLockError::WouldBlock) => coarse(Op::Blocked),
        }
    }
}
