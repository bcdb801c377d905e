//! Threads that come and go, keeping pointers of both collectors in thread-local variables.

use crate::arena;
use crate::reg::{self, Hdr};
use crate::runner::{expect_panic, fail, finish, panic_class, shrink_vec, Out, Res, LAST_PANIC};
use crate::seqop::weighted;
use dumpster::{sync, unsync, Collectable, Visitor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{mpsc, Mutex};

/// What a destructor does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    CloneOwn(u8),
    /// create and drop a plain value
    NewPlain(bool),
    Collect(bool),
    PeekTls(u8),
    /// hand a sync pointer it owns to the rest of the program
    Escape(u8),
    DropOwn(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum EOp {
    /// first use of a thread-local variable
    Touch(u8),
    /// sync?, script, pocket to keep it in
    New(bool, Vec<Act>, u8),
    /// sync?, length, script of the first, pocket to keep it in (or none)
    Ring(bool, u8, Vec<Act>, Option<u8>),
    /// store a clone of the second in the first
    Link(u8, u8, u8, u8),
    Move(u8, u8, u8),
    Drop(u8, u8),
    /// clone and drop
    Dirty(u8, u8),
    /// move a sync pointer to a place all threads see
    Share(u8, u8),
    Fetch(u8, u8),
    Unshare(u8),
    Collect(bool),
    /// the thread ends (by panicking if true), and a new one takes its place
    Exit(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExitCase {
    pub ops: Vec<(EOp, u8)>,
    pub hash: u64,
}

pub struct Script(Vec<Act>);
unsafe impl Collectable for Script {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

#[derive(Collectable)]
pub enum P {
    U(unsync::Gc<U>),
    S(sync::Gc<S>),
}
#[derive(Collectable)]
pub struct U {
    hdr: Hdr,
    script: Script,
    links: RefCell<Vec<P>>,
}
#[derive(Collectable)]
pub struct S {
    hdr: Hdr,
    links: Mutex<Vec<sync::Gc<S>>>,
    script: Script,
}
impl P {
    fn id(&self) -> u32 {
        match self {
            P::U(g) => g.hdr.id,
            P::S(g) => g.hdr.id,
        }
    }
    fn dup(&self) -> P {
        match self {
            P::U(g) => P::U(g.clone()),
            P::S(g) => P::S(g.clone()),
        }
    }
}

static SHARED: Mutex<Vec<sync::Gc<S>>> = Mutex::new(Vec::new());
static ESCAPES: AtomicU32 = AtomicU32::new(0);
static TLS_DROPS: AtomicU32 = AtomicU32::new(0);

/// The thread-local variables.
struct Pocket(RefCell<Vec<P>>);
impl Drop for Pocket {
    fn drop(&mut self) {
        TLS_DROPS.fetch_add(!self.0.get_mut().is_empty() as u32, SeqCst);
    }
}
const TLS: u8 = 4;
/// Pockets 0..TLS are thread-local, this one is on the stack.
const LOCAL: u8 = TLS;
thread_local! {
    static T0: Pocket = const { Pocket(RefCell::new(Vec::new())) };
    static T1: Pocket = const { Pocket(RefCell::new(Vec::new())) };
    static T2: Pocket = const { Pocket(RefCell::new(Vec::new())) };
    static T3: Pocket = const { Pocket(RefCell::new(Vec::new())) };
}
fn tls<R>(i: u8, f: impl FnOnce(&RefCell<Vec<P>>) -> R) -> Option<R> {
    match i {
        0 => T0.try_with(|p| f(&p.0)).ok(),
        1 => T1.try_with(|p| f(&p.0)).ok(),
        2 => T2.try_with(|p| f(&p.0)).ok(),
        _ => T3.try_with(|p| f(&p.0)).ok(),
    }
}

#[derive(Default)]
struct MNode {
    sync: bool,
    owner: usize,
    touched: u32,
    edges: Vec<u32>,
}
#[derive(Default)]
struct Model {
    nodes: Vec<MNode>,
    /// roots of the current threads by pocket
    roots: Vec<Vec<Vec<u32>>>,
    /// which thread (of all there ever were) is acting
    now: u32,
    oracle: Option<(String, String)>,
}
static MODEL: Mutex<Option<Model>> = Mutex::new(None);
fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    f(MODEL.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}

impl Model {
    fn reach(&self, shared: &[u32]) -> Vec<bool> {
        let mut seen = vec![false; self.nodes.len()];
        let mut stack: Vec<u32> = self.roots.iter().flatten().flatten().copied().chain(shared.iter().copied()).collect();
        while let Some(i) = stack.pop() {
            if !std::mem::replace(&mut seen[i as usize], true) {
                stack.extend(&self.nodes[i as usize].edges);
            }
        }
        seen
    }
}
fn shared_ids() -> Vec<u32> {
    SHARED.lock().unwrap().iter().map(|g| g.hdr.id).collect()
}

fn new(sync: bool, script: Vec<Act>) -> P {
    let hdr = Hdr::new();
    let id = hdr.id;
    m(|m| {
        let owner = m.now as usize;
        m.nodes.push(MNode { sync, owner, touched: 1 << m.now.min(31), edges: vec![] })
    });
    let script = Script(script);
    let p = if sync {
        P::S(sync::Gc::new(S { hdr, script, links: Mutex::new(vec![]) }))
    } else {
        P::U(unsync::Gc::new(U { hdr, script, links: RefCell::new(vec![]) }))
    };
    reg::set_addr(
        id,
        match &p {
            P::U(g) => unsync::Gc::as_ptr(g) as usize,
            P::S(g) => sync::Gc::as_ptr(g) as usize,
        },
    );
    p
}
fn link(a: &P, b: P) {
    let (i, j) = (a.id(), b.id());
    match (a, b) {
        (P::U(u), b) => u.links.borrow_mut().push(b),
        (P::S(s), P::S(b)) => s.links.lock().unwrap().push(b),
        _ => return,
    }
    m(|m| m.nodes[i as usize].edges.push(j));
    touch(j);
}
fn touch(id: u32) {
    m(|m| {
        let b = 1 << m.now.min(31);
        m.nodes[id as usize].touched |= b
    });
}

fn common(a: Act) {
    match a {
        Act::NewPlain(true) => drop(sync::Gc::new(5u64)),
        Act::NewPlain(false) => drop(unsync::Gc::new(5u64)),
        Act::Collect(true) => sync::collect(),
        Act::Collect(false) => unsync::collect(),
        Act::PeekTls(i) => {
            tls(i % TLS, |v| v.try_borrow().map(|v| v.len()));
        }
        _ => {}
    }
}
fn escape(g: &sync::Gc<S>) {
    if let Some(g) = sync::Gc::try_clone(g) {
        touch(g.hdr.id);
        ESCAPES.fetch_add(1, SeqCst);
        SHARED.lock().unwrap().push(g);
    }
}
fn begin(hdr: &Hdr) {
    if !hdr.ok() {
        m(|m| m.oracle = Some(("storage".into(), "destructor called twice".into())));
        return;
    }
    let id = hdr.id;
    let sh = shared_ids();
    m(|m| {
        if m.reach(&sh)[id as usize] {
            m.oracle.get_or_insert(("unsafe".into(), format!("value {id} destroyed while reachable")));
        }
    });
}
impl Drop for U {
    fn drop(&mut self) {
        begin(&self.hdr);
        if std::thread::panicking() {
            return;
        }
        for a in std::mem::take(&mut self.script.0) {
            let v = self.links.get_mut();
            match a {
                Act::CloneOwn(k) if !v.is_empty() => match &v[k as usize % v.len()] {
                    P::U(g) => drop(unsync::Gc::try_clone(g)),
                    P::S(g) => {
                        if let Some(g) = sync::Gc::try_clone(g) {
                            touch(g.hdr.id);
                            drop(g);
                        }
                    }
                },
                Act::DropOwn(k) if !v.is_empty() => drop(v.swap_remove(k as usize % v.len())),
                Act::Escape(k) if !v.is_empty() => {
                    if let P::S(g) = &v[k as usize % v.len()] {
                        escape(g);
                    }
                }
                a => common(a),
            }
        }
    }
}
impl Drop for S {
    fn drop(&mut self) {
        begin(&self.hdr);
        if std::thread::panicking() {
            return;
        }
        for a in std::mem::take(&mut self.script.0) {
            let v = self.links.get_mut().unwrap();
            match a {
                Act::CloneOwn(k) if !v.is_empty() => {
                    if let Some(g) = sync::Gc::try_clone(&v[k as usize % v.len()]) {
                        touch(g.hdr.id);
                        drop(g);
                    }
                }
                Act::DropOwn(k) if !v.is_empty() => drop(v.swap_remove(k as usize % v.len())),
                Act::Escape(k) if !v.is_empty() => escape(&v[k as usize % v.len()]),
                a => common(a),
            }
        }
    }
}

struct Worker {
    local: Vec<P>,
    slot: usize,
}
impl Worker {
    /// Run `f` on a pocket.
    fn pocket<R>(&mut self, p: u8, f: impl FnOnce(&mut Vec<P>) -> R) -> R {
        let p = p % (TLS + 1);
        if p == LOCAL {
            f(&mut self.local)
        } else {
            tls(p, |v| f(&mut v.borrow_mut())).unwrap()
        }
    }
    fn get(&mut self, p: u8, i: u8) -> Option<P> {
        self.pocket(p, |v| (!v.is_empty()).then(|| v[i as usize % v.len()].dup()))
    }
    fn take(&mut self, p: u8, i: u8) -> Option<P> {
        let slot = self.slot;
        let r = self.pocket(p, |v| (!v.is_empty()).then(|| v.remove(i as usize % v.len())));
        if let Some(r) = &r {
            let id = r.id();
            touch(id);
            m(|m| {
                let v = &mut m.roots[slot][p as usize % (TLS as usize + 1)];
                let k = v.iter().position(|&x| x == id).unwrap();
                v.swap_remove(k);
            });
        }
        r
    }
    fn keep(&mut self, p: u8, x: P) {
        let (slot, id) = (self.slot, x.id());
        touch(id);
        m(|m| m.roots[slot][p as usize % (TLS as usize + 1)].push(id));
        self.pocket(p, |v| v.push(x));
    }
    fn step(&mut self, op: EOp) {
        match op {
            EOp::Touch(i) => {
                tls(i % TLS, |_| ());
            }
            EOp::New(s, script, p) => self.keep(p, new(s, script)),
            EOp::Ring(s, n, script, p) => {
                let first = new(s, script);
                let mut last = first.dup();
                for _ in 1..n {
                    let x = new(s, vec![]);
                    link(&x, last);
                    last = x;
                }
                link(&first, last);
                match p {
                    Some(p) => self.keep(p, first),
                    None => drop(first),
                }
            }
            EOp::Link(p, i, q, j) => {
                if let (Some(a), Some(b)) = (self.get(p, i), self.get(q, j)) {
                    link(&a, b);
                    touch(a.id());
                }
            }
            EOp::Move(p, i, q) => {
                if let Some(x) = self.take(p, i) {
                    self.keep(q, x);
                }
            }
            EOp::Drop(p, i) => drop(self.take(p, i)),
            EOp::Dirty(p, i) => {
                if let Some(x) = self.get(p, i) {
                    touch(x.id());
                    drop(x);
                }
            }
            EOp::Share(p, i) => match self.take(p, i) {
                Some(P::S(g)) => SHARED.lock().unwrap().push(g),
                Some(x) => self.keep(p, x),
                None => {}
            },
            EOp::Fetch(i, p) => {
                let g = {
                    let v = SHARED.lock().unwrap();
                    (!v.is_empty()).then(|| v[i as usize % v.len()].clone())
                };
                if let Some(g) = g {
                    self.keep(p, P::S(g));
                }
            }
            EOp::Unshare(i) => {
                let g = {
                    let mut v = SHARED.lock().unwrap();
                    let n = v.len();
                    (n > 0).then(|| v.swap_remove(i as usize % n))
                };
                if let Some(g) = g {
                    touch(g.hdr.id);
                    drop(g);
                }
            }
            EOp::Collect(true) => sync::collect(),
            EOp::Collect(false) => unsync::collect(),
            EOp::Exit(_) => {}
        }
    }
}

struct Thread {
    tx: mpsc::Sender<EOp>,
    rx: mpsc::Receiver<Result<(), ()>>,
    join: Option<std::thread::JoinHandle<()>>,
    number: u32,
}
fn spawn(slot: usize, number: u32) -> Thread {
    let (tx, crx) = mpsc::channel();
    let (rtx, rx) = mpsc::channel();
    let join = std::thread::spawn(move || {
        let mut w = Worker { local: vec![], slot };
        while let Ok(op) = crx.recv() {
            if let EOp::Exit(p) = op {
                if p {
                    let _ = expect_panic(move || {
                        let _w = w;
                        panic!("thread ends by panicking");
                    });
                }
                return;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.step(op)));
            let _ = rtx.send(r.map_err(|_| ()));
        }
    });
    m(|m| {
        m.roots.resize_with(m.roots.len().max(slot + 1), Vec::new);
        m.roots[slot] = vec![vec![]; TLS as usize + 1];
    });
    Thread { tx, rx, join: Some(join), number }
}

struct Run {
    threads: Vec<Thread>,
    started: u32,
    exits: u32,
    garbage_at_exit: u32,
}
fn panicked() -> Res {
    let msg = LAST_PANIC.lock().ok().and_then(|m| m.clone()).unwrap_or_default();
    fail(panic_class(&msg), msg)
}

impl Run {
    fn exit(&mut self, t: usize, panic: bool) -> Res {
        m(|m| {
            m.now = self.threads[t].number;
            // what it held counts as touched by it when it is dropped
            let ids: Vec<u32> = m.roots[t].iter().flatten().copied().collect();
            for i in ids {
                m.nodes[i as usize].touched |= 1 << m.now.min(31);
            }
            m.roots[t].iter_mut().for_each(Vec::clear);
        });
        let alive_before: u32 = (0..reg::count()).filter(|&i| reg::drops(i) == 0).count() as u32;
        let _ = self.threads[t].tx.send(EOp::Exit(panic));
        if self.threads[t].join.take().unwrap().join().is_err() {
            return fail("panic", "panic while a thread exited");
        }
        let alive: u32 = (0..reg::count()).filter(|&i| reg::drops(i) == 0).count() as u32;
        self.garbage_at_exit += (alive < alive_before) as u32;
        self.exits += 1;
        check()?;
        let number = self.threads[t].number as usize;
        let mut bad = None;
        m(|m| {
            for (i, n) in m.nodes.iter().enumerate() {
                if !n.sync && n.owner == number && reg::drops(i as u32) == 0 {
                    bad = Some(i);
                }
            }
        });
        if let Some(i) = bad {
            return fail("leak", format!("unsync value {i} outlived its thread"));
        }
        for i in 0..reg::count() {
            if reg::drops(i) == 1 && !reg::storage_released(i) && !m(|m| m.nodes[i as usize].sync) {
                return fail("leak", format!("memory of unsync value {i} outlived its thread"));
            }
        }
        Ok(())
    }
    /// collect() on this thread, which uses no pointers itself.
    fn collect_here(&mut self) -> Res {
        m(|m| m.now = 31);
        // sync values reclaimed now: unreachable, not owned by garbage that a running thread handled
        let running: u32 = self.threads.iter().filter(|t| t.join.is_some()).map(|t| 1 << t.number.min(31)).sum();
        let sh = shared_ids();
        let must: Vec<u32> = m(|m| {
            let r = m.reach(&sh);
            let mut spared = vec![false; m.nodes.len()];
            let mut stack: Vec<u32> = (0..m.nodes.len() as u32).filter(|&i| reg::drops(i) == 0 && !r[i as usize] && m.nodes[i as usize].touched & running != 0).collect();
            while let Some(i) = stack.pop() {
                if !std::mem::replace(&mut spared[i as usize], true) {
                    stack.extend(&m.nodes[i as usize].edges);
                }
            }
            (0..m.nodes.len() as u32).filter(|&i| m.nodes[i as usize].sync && !r[i as usize] && !spared[i as usize]).collect()
        });
        sync::collect();
        check()?;
        for i in must {
            if reg::drops(i) == 0 {
                return fail("leak", format!("sync value {i}, left behind by threads that exited, survived collect()"));
            }
            if !reg::storage_released(i) {
                return fail("leak", format!("memory of sync value {i} was not released"));
            }
        }
        Ok(())
    }
}

fn check() -> Res {
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    let sh = shared_ids();
    let (r, o) = m(|m| (m.reach(&sh), m.oracle.clone()));
    if let Some(o) = o {
        return Err(o);
    }
    for (i, r) in r.into_iter().enumerate() {
        let d = reg::drops(i as u32);
        if d > 1 {
            return fail("storage", format!("value {i} destroyed {d} times"));
        }
        if d == 1 && r {
            return fail("unsafe", format!("value {i} destroyed while reachable"));
        }
    }
    // what all threads share is intact
    fn walk(g: &sync::Gc<S>, seen: &mut Vec<u32>) -> Res {
        let Some(s) = sync::Gc::try_deref(g) else { return fail("unsafe", "a shared pointer is dead") };
        if arena::state(s as *const S as usize) == arena::St::Freed || !s.hdr.ok() {
            return fail("unsafe", "a shared value was destroyed");
        }
        if seen.contains(&s.hdr.id) {
            return Ok(());
        }
        seen.push(s.hdr.id);
        let v = s.links.lock().unwrap();
        let ps: Vec<*const sync::Gc<S>> = v.iter().map(|g| g as *const _).collect();
        drop(v);
        ps.into_iter().try_for_each(|p| walk(unsafe { &*p }, seen))
    }
    let v = SHARED.lock().unwrap();
    let mut seen = vec![];
    v.iter().try_for_each(|g| walk(g, &mut seen))
}

fn go(case: &ExitCase, stats: &mut (u32, u32)) -> Res {
    unsync::set_collect_condition(|_| false);
    sync::set_collect_condition(|_| false);
    dumpster::hooks::set_hook(Some(on_op));
    let mut run = Run { threads: vec![], started: 0, exits: 0, garbage_at_exit: 0 };
    for slot in 0..2 {
        run.threads.push(spawn(slot, run.started));
        run.started += 1;
    }
    for (op, t) in &case.ops {
        let t = *t as usize % 3;
        if t == 2 {
            // this thread
            if matches!(op, EOp::Collect(_)) {
                run.collect_here()?;
            }
            continue;
        }
        m(|m| m.now = run.threads[t].number);
        if let EOp::Exit(p) = op {
            run.exit(t, *p)?;
            run.threads[t] = spawn(t, run.started);
            run.started += 1;
        } else {
            let _ = run.threads[t].tx.send(op.clone());
            match run.threads[t].rx.recv() {
                Ok(Ok(())) => {}
                _ => return panicked(),
            }
            check()?;
        }
        *stats = (run.exits, run.garbage_at_exit);
    }
    for t in 0..2 {
        run.exit(t, false)?;
        *stats = (run.exits, run.garbage_at_exit);
    }
    run.collect_here()?;
    m(|m| m.now = 31);
    for _ in 0..100 {
        let g = SHARED.lock().unwrap().pop();
        drop(g);
        run.collect_here()?;
        if SHARED.lock().unwrap().is_empty() {
            break;
        }
    }
    run.collect_here()?;
    for i in 0..reg::count() {
        if SHARED.lock().unwrap().is_empty() && reg::drops(i) != 1 {
            return fail("leak", format!("value {i} was never destroyed"));
        }
    }
    arena::scan();
    check()
}
fn on_op(op: dumpster::hooks::Op, addr: *const ()) {
    if arena::state(addr as usize) == arena::St::Freed {
        arena::fault(arena::F_ATOMIC_UAF, addr as u64);
    }
    if op == dumpster::hooks::Op::Blocked {
        finish(&Out {
            fail: Some(("deadlock".into(), "operation waits for a lock that is never released".into())),
            ..Out::default()
        });
    }
}

pub fn run(case: &ExitCase) -> Out {
    *MODEL.lock().unwrap() = Some(Model::default());
    let mut stats = (0, 0);
    let r = go(case, &mut stats);
    let mut labels = vec![];
    if TLS_DROPS.load(SeqCst) > 0 {
        labels.push("pointers were in thread-local variables at exit".to_string());
    }
    if ESCAPES.load(SeqCst) > 0 {
        labels.push("a destructor handed out a sync pointer".to_string());
    }
    finish(&Out { fail: r.err(), nontrivial: stats.1 > 0 && TLS_DROPS.load(SeqCst) > 0, labels, ..Out::default() })
}

pub fn case() -> BoxedStrategy<ExitCase> {
    let p = || 0u8..TLS + 1;
    let i = || 0u8..6;
    let act = prop_oneof![
        3 => i().prop_map(Act::CloneOwn),
        2 => any::<bool>().prop_map(Act::NewPlain),
        2 => any::<bool>().prop_map(Act::Collect),
        2 => i().prop_map(Act::PeekTls),
        2 => i().prop_map(Act::Escape),
        2 => i().prop_map(Act::DropOwn),
    ];
    let script = prop_oneof![
        3 => Just(vec![]),
        2 => prop::collection::vec(act, 1..3),
    ]
    .boxed();
    let op = weighted(vec![
        (3, (0..TLS).prop_map(EOp::Touch).boxed()),
        (8, (any::<bool>(), script.clone(), p()).prop_map(|(a, b, c)| EOp::New(a, b, c)).boxed()),
        (6, (any::<bool>(), 1u8..4, script, prop::option::weighted(0.8, p())).prop_map(|(a, b, c, d)| EOp::Ring(a, b, c, d)).boxed()),
        (9, (p(), i(), p(), i()).prop_map(|(a, b, c, d)| EOp::Link(a, b, c, d)).boxed()),
        (4, (p(), i(), p()).prop_map(|(a, b, c)| EOp::Move(a, b, c)).boxed()),
        (4, (p(), i()).prop_map(|(a, b)| EOp::Drop(a, b)).boxed()),
        (3, (p(), i()).prop_map(|(a, b)| EOp::Dirty(a, b)).boxed()),
        (3, (p(), i()).prop_map(|(a, b)| EOp::Share(a, b)).boxed()),
        (3, (i(), p()).prop_map(|(a, b)| EOp::Fetch(a, b)).boxed()),
        (2, i().prop_map(EOp::Unshare).boxed()),
        (4, any::<bool>().prop_map(EOp::Collect).boxed()),
        (4, prop::bool::weighted(0.2).prop_map(EOp::Exit).boxed()),
    ]);
    (prop::collection::vec((op, 0u8..3), 3..40), any::<u64>()).prop_map(|(ops, hash)| ExitCase { ops, hash }).boxed()
}

pub fn shrink(c: &ExitCase) -> Vec<ExitCase> {
    let mut out: Vec<ExitCase> = shrink_vec(&c.ops).into_iter().map(|ops| ExitCase { ops, ..c.clone() }).collect();
    for i in 0..c.ops.len() {
        let mut alts = vec![];
        match &c.ops[i].0 {
            EOp::New(s, v, p) => alts.extend(shrink_vec(v).into_iter().map(|v| EOp::New(*s, v, *p))),
            EOp::Ring(s, n, v, p) => {
                alts.extend(shrink_vec(v).into_iter().map(|v| EOp::Ring(*s, *n, v, *p)));
                if *n > 1 {
                    alts.push(EOp::Ring(*s, n - 1, v.clone(), *p));
                }
            }
            EOp::Exit(true) => alts.push(EOp::Exit(false)),
            _ => {}
        }
        for a in alts {
            let mut d = c.clone();
            d.ops[i].0 = a;
            out.push(d);
        }
    }
    out
}
