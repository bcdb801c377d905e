//! Sequential engine for the sync collector: operations run one at a time, on several threads.
use dumpster::hooks;
use dumpster::sync as gcm;
use std::sync::{mpsc, Arc, Mutex as Lk1, Mutex, RwLock as Lk2};
const SYNC: bool = true;

/// What trait objects of values require.
#[cfg(feature = "unsized")]
pub trait Bound: Send + Sync {}
#[cfg(feature = "unsized")]
impl<T: Send + Sync> Bound for T {}

include!("seq_engine.rs");

fn on_op(op: hooks::Op, addr: *const ()) {
    if arena::state(addr as usize) == arena::St::Freed {
        arena::fault(arena::F_ATOMIC_UAF, addr as u64);
    }
    if op == hooks::Op::Blocked {
        // operations run one at a time, so whoever holds the lock will never release it
        crate::runner::finish(&Out {
            fail: Some(("deadlock".into(), "operation waits for a lock that is never released".into())),
            ..Out::default()
        });
    }
}
fn detect_deadlock() {
    hooks::set_hook(Some(on_op));
}

impl<T> Lock<T> for std::sync::Mutex<T> {
    fn w<R>(&self, f: impl FnOnce(&mut T) -> R) -> Option<R> {
        self.try_lock().ok().map(|mut t| f(&mut t))
    }
    fn r<R>(&self, f: impl FnOnce(&T) -> R) -> Option<R> {
        self.try_lock().ok().map(|t| f(&t))
    }
    fn hold_mut<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        Some(Box::new(self.try_lock().ok()?))
    }
    fn hold_shared<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        self.hold_mut()
    }
}
impl<T> Lock<T> for std::sync::RwLock<T> {
    fn w<R>(&self, f: impl FnOnce(&mut T) -> R) -> Option<R> {
        self.try_write().ok().map(|mut t| f(&mut t))
    }
    fn r<R>(&self, f: impl FnOnce(&T) -> R) -> Option<R> {
        self.try_read().ok().map(|t| f(&t))
    }
    fn hold_mut<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        Some(Box::new(self.try_write().ok()?))
    }
    fn hold_shared<'a>(&'a self) -> Option<Box<dyn Held + 'a>> {
        Some(Box::new(self.try_read().ok()?))
    }
}

// ---- several threads, one operation at a time ----------------------------------------------------

enum Cmd {
    Run(Op),
    Exit,
}
struct Worker {
    tx: mpsc::Sender<Cmd>,
    rx: mpsc::Receiver<Res>,
    join: Option<std::thread::JoinHandle<()>>,
}
fn spawn(st: Arc<Mutex<State>>) -> Worker {
    let (tx, crx) = mpsc::channel();
    let (rtx, rx) = mpsc::channel();
    let join = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            while let Ok(cmd) = crx.recv() {
                match cmd {
                    Cmd::Exit => break,
                    Cmd::Run(op) => {
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            st.lock().unwrap_or_else(|e| e.into_inner()).exec(op)
                        }));
                        let r = r.unwrap_or_else(|_| {
                            let m = crate::runner::LAST_PANIC.lock().ok().and_then(|m| m.clone());
                            let m = m.unwrap_or_default();
                            fail(crate::runner::panic_class(&m), m)
                        });
                        let _ = rtx.send(r);
                    }
                }
            }
        })
        .unwrap();
    Worker { tx, rx, join: Some(join) }
}
impl Worker {
    fn run(&self, op: Op) -> Res {
        let _ = self.tx.send(Cmd::Run(op));
        match self.rx.recv() {
            Ok(r) => r,
            Err(_) => fail("panic", "thread died"),
        }
    }
    fn exit(&mut self) -> Res {
        let _ = self.tx.send(Cmd::Exit);
        match self.join.take().unwrap().join() {
            Ok(()) => Ok(()),
            Err(_) => fail("panic", "panic while a thread exited"),
        }
    }
}

fn multi(case: &SeqCase, st: &Arc<Mutex<State>>, probes: bool) -> Res {
    let n = case.threads as usize;
    let mut ws: Vec<Worker> = (0..n).map(|_| spawn(st.clone())).collect();
    let get = || st.lock().unwrap_or_else(|e| e.into_inner());
    if probes {
        ws[0].run(Op::Probe)?;
    }
    for &(op, t) in &case.ops {
        let t = t as usize % n;
        if op == Op::Probe && !probes {
            continue;
        }
        let before = Before::of(&get());
        match op {
            Op::CollectAll => {
                for _ in 0..2 {
                    for w in &ws {
                        w.run(Op::Collect)?;
                    }
                }
            }
            Op::Restart => {
                ws[t].exit()?;
                ws[t] = spawn(st.clone());
            }
            op => ws[t].run(op)?,
        }
        let mut s = get();
        s.verify(op, &before)?;
        if op == Op::CollectAll && s.held.is_empty() {
            s.verify_complete()?;
            s.verify_storage()?;
        }
    }
    let w = &ws[0];
    w.run(Op::ReleaseAll)?;
    w.run(Op::Check)?;
    if case.reverse {
        // threads exit first, then the pointers are dropped
        for w in &mut ws[1..] {
            w.exit()?;
        }
    }
    let before = Before::of(&get());
    ws[0].run(Op::DropAll)?;
    get().verify(Op::DropAll, &before)?;
    if !case.reverse {
        for w in &mut ws[1..] {
            w.exit()?;
        }
    }
    let before = Before::of(&get());
    ws[0].run(Op::Collect)?;
    let mut s = get();
    s.verify(Op::Collect, &before)?;
    s.verify_complete()?;
    s.verify_storage()?;
    drop(s);
    if probes {
        set_cond(Cond::Never);
        ws[0].run(Op::Probe)?;
    }
    ws[0].exit()?;
    arena::scan();
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    Ok(())
}

pub fn run_multi(case: &SeqCase) -> Out {
    run_threads(case, false)
}
pub fn run_multi_probed(case: &SeqCase) -> Out {
    run_threads(case, true)
}
fn run_threads(case: &SeqCase, probes: bool) -> Out {
    detect_deadlock();
    let st = Arc::new(Mutex::new(start(case)));
    let r = multi(case, &st, probes);
    let s = st.lock().unwrap_or_else(|e| e.into_inner());
    let o = outcome(&s, r);
    if o.fail.is_some() {
        crate::runner::finish(&o);
    }
    o
}
