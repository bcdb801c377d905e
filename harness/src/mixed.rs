//! Programs using both collectors: unsync values that own sync pointers.

use crate::arena;
use crate::reg::{self, Hdr};
use crate::runner::{fail, finish, shrink_vec, Out, Res};
use crate::seqop::{cond, weighted, Cond};
use dumpster::{sync, unsync, Collectable, Visitor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{RefCell, RefMut};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Mutex, MutexGuard, RwLock};

/// What a destructor does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    CollectU,
    CollectS,
    /// make a ring of the other collector's values and drop it
    Garbage(bool),
    /// hand out a sync pointer it owns
    Escape(u8),
    /// release one of its pointers early
    DropOwn(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MOp {
    New(bool, Vec<Act>),
    /// kinds by the bits; unsync ones form a ring, sync ones another, owned by the unsync one before
    Rings(u8, u8, Vec<Act>, u8),
    Clone(u8),
    Drop(u8),
    Link(u8, u8, u8),
    Unlink(u8, u8, u8),
    TakeOut(u8, u8, u8),
    CollectU,
    CollectS,
    Both,
    CondU(Cond),
    CondS(Cond),
    Hold(u8),
    Release(u8),
    /// another thread drops the pointer, and collects if true
    Remote(u8, bool),
    DropAll,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MixCase {
    pub ops: Vec<MOp>,
    pub hash: u64,
}

pub struct Script(Vec<Act>);
unsafe impl Collectable for Script {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}
#[derive(Collectable)]
pub enum P {
    U(unsync::Gc<U>),
    S(sync::Gc<S>),
}
#[derive(Collectable)]
pub struct U {
    s0: RefCell<Vec<P>>,
    s1: Mutex<Vec<Box<P>>>,
    script: Script,
    hdr: Hdr,
}
#[derive(Collectable)]
pub struct S {
    hdr: Hdr,
    s0: Mutex<Vec<sync::Gc<S>>>,
    s1: RwLock<Vec<sync::Gc<S>>>,
    script: Script,
}

impl P {
    fn id(&self) -> u32 {
        match self {
            P::U(g) => g.hdr.id,
            P::S(g) => g.hdr.id,
        }
    }
    fn dup(&self) -> P {
        match self {
            P::U(g) => P::U(g.clone()),
            P::S(g) => P::S(g.clone()),
        }
    }
    fn sync(&self) -> bool {
        matches!(self, P::S(_))
    }
    /// Store a pointer; gives it back if that is impossible.
    fn put(&self, slot: u8, p: P) -> Result<(), P> {
        match (self, p, slot % 2) {
            (P::U(u), p, 0) => match u.s0.try_borrow_mut() {
                Ok(mut v) => v.push(p),
                Err(_) => return Err(p),
            },
            (P::U(u), p, _) => match u.s1.try_lock() {
                Ok(mut v) => v.push(Box::new(p)),
                Err(_) => return Err(p),
            },
            (P::S(s), P::S(p), 0) => match s.s0.try_lock() {
                Ok(mut v) => v.push(p),
                Err(_) => return Err(P::S(p)),
            },
            (P::S(s), P::S(p), _) => match s.s1.try_write() {
                Ok(mut v) => v.push(p),
                Err(_) => return Err(P::S(p)),
            },
            (_, p, _) => return Err(p),
        }
        Ok(())
    }
    fn take(&self, slot: u8, k: u8) -> Option<P> {
        let k = k as usize;
        match (self, slot % 2) {
            (P::U(u), 0) => {
                let mut v = u.s0.try_borrow_mut().ok()?;
                (!v.is_empty()).then(|| k % v.len()).map(|k| v.remove(k))
            }
            (P::U(u), _) => {
                let mut v = u.s1.try_lock().ok()?;
                (!v.is_empty()).then(|| k % v.len()).map(|k| *v.remove(k))
            }
            (P::S(s), 0) => {
                let mut v = s.s0.try_lock().ok()?;
                (!v.is_empty()).then(|| k % v.len()).map(|k| P::S(v.remove(k)))
            }
            (P::S(s), _) => {
                let mut v = s.s1.try_write().ok()?;
                (!v.is_empty()).then(|| k % v.len()).map(|k| P::S(v.remove(k)))
            }
        }
    }
}

struct MNode {
    sync: bool,
    born: u32,
    edges: Vec<u32>,
}
struct Model {
    nodes: Vec<MNode>,
    roots: Vec<u32>,
    op: u32,
    oracle: Option<(String, String)>,
}
static MODEL: Mutex<Option<Model>> = Mutex::new(None);
/// pointers handed out by destructors
static ESCAPED: Mutex<Vec<sync::Gc<S>>> = Mutex::new(Vec::new());
static ACTS: AtomicU32 = AtomicU32::new(0);
fn m<R>(f: impl FnOnce(&mut Model) -> R) -> R {
    f(MODEL.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap())
}
impl Model {
    fn reach(&self, extra: impl IntoIterator<Item = u32>) -> Vec<bool> {
        let mut seen = vec![false; self.nodes.len()];
        let mut stack: Vec<u32> = self.roots.iter().copied().chain(extra).collect();
        while let Some(i) = stack.pop() {
            if !std::mem::replace(&mut seen[i as usize], true) {
                stack.extend(&self.nodes[i as usize].edges);
            }
        }
        seen
    }
    fn unroot(&mut self, id: u32) {
        let k = self.roots.iter().position(|&x| x == id).unwrap();
        self.roots.swap_remove(k);
    }
    fn cut(&mut self, from: u32, to: u32) {
        let e = &mut self.nodes[from as usize].edges;
        let k = e.iter().position(|&x| x == to).unwrap();
        e.swap_remove(k);
    }
}

fn new(sync: bool, script: Vec<Act>) -> P {
    let id;
    let script = Script(script);
    let p = {
        // identities are given out in the order of the model's nodes
        let hdr = m(|m| {
            m.nodes.push(MNode { sync, born: m.op, edges: vec![] });
            Hdr::new()
        });
        id = hdr.id;
        if sync {
            P::S(sync::Gc::new(S { hdr, s0: Mutex::new(vec![]), s1: RwLock::new(vec![]), script }))
        } else {
            P::U(unsync::Gc::new(U { s0: RefCell::new(vec![]), s1: Mutex::new(vec![]), script, hdr }))
        }
    };
    reg::set_addr(
        id,
        match &p {
            P::U(g) => unsync::Gc::as_ptr(g) as usize,
            P::S(g) => sync::Gc::as_ptr(g) as usize,
        },
    );
    p
}
fn link(a: &P, slot: u8, b: P) {
    let (i, j) = (a.id(), b.id());
    m(|m| m.nodes[i as usize].edges.push(j));
    if let Err(b) = a.put(slot, b) {
        m(|m| m.cut(i, j));
        drop(b);
    }
}

fn begin(hdr: &Hdr) -> bool {
    if !hdr.ok() {
        m(|m| m.oracle.get_or_insert(("storage".into(), "destructor called on a destroyed value".into())).clone());
        return false;
    }
    let id = hdr.id;
    let esc: Vec<u32> = ESCAPED.lock().unwrap().iter().map(|g| g.hdr.id).collect();
    m(|m| {
        if m.reach(esc)[id as usize] {
            m.oracle.get_or_insert(("unsafe".into(), format!("value {id} destroyed while reachable")));
        }
    });
    true
}
fn escape(g: &sync::Gc<S>) {
    if let Some(g) = sync::Gc::try_clone(g) {
        ESCAPED.lock().unwrap().push(g);
    }
}
fn common(a: Act) {
    ACTS.fetch_add(1, SeqCst);
    match a {
        Act::CollectU => unsync::collect(),
        Act::CollectS => sync::collect(),
        Act::Garbage(sync) => {
            let (a, b) = (new(sync, vec![]), new(sync, vec![]));
            link(&a, 0, b.dup());
            link(&b, 1, a.dup());
        }
        _ => {}
    }
}
impl Drop for U {
    fn drop(&mut self) {
        if !begin(&self.hdr) {
            return;
        }
        // sync pointers owned by an unsync value are never dead
        for p in self.s0.get_mut().iter().chain(self.s1.get_mut().unwrap().iter().map(|b| &**b)) {
            if let P::S(g) = p {
                let ok = sync::Gc::try_deref(g).is_some_and(|s| arena::state(s as *const S as usize) != arena::St::Freed && s.hdr.ok());
                if !ok {
                    m(|m| m.oracle.get_or_insert(("unsafe".into(), "a sync value owned by an unsync value was destroyed before its owner".into())).clone());
                    return;
                }
            }
        }
        for a in std::mem::take(&mut self.script.0) {
            let v = self.s0.get_mut();
            match a {
                Act::Escape(k) if !v.is_empty() => {
                    ACTS.fetch_add(1, SeqCst);
                    if let P::S(g) = &v[k as usize % v.len()] {
                        escape(g);
                    }
                }
                Act::DropOwn(k) if !v.is_empty() => {
                    ACTS.fetch_add(1, SeqCst);
                    drop(v.swap_remove(k as usize % v.len()))
                }
                a => common(a),
            }
        }
    }
}
impl Drop for S {
    fn drop(&mut self) {
        if !begin(&self.hdr) {
            return;
        }
        for a in std::mem::take(&mut self.script.0) {
            let v = self.s0.get_mut().unwrap();
            match a {
                Act::Escape(k) if !v.is_empty() => {
                    ACTS.fetch_add(1, SeqCst);
                    escape(&v[k as usize % v.len()])
                }
                Act::DropOwn(k) if !v.is_empty() => {
                    ACTS.fetch_add(1, SeqCst);
                    drop(v.swap_remove(k as usize % v.len()))
                }
                a => common(a),
            }
        }
    }
}

/// The mode of each condition: (mode, argument, calls).
static CONDS: [[AtomicU32; 3]; 2] = [const { [const { AtomicU32::new(0) }; 3] }; 2];
static TRUES: [AtomicU32; 2] = [const { AtomicU32::new(0) }; 2];
fn decide(which: usize, default: bool) -> bool {
    let c = &CONDS[which];
    let n = c[2].fetch_add(1, SeqCst);
    let arg = c[1].load(SeqCst);
    let r = match c[0].load(SeqCst) {
        0 => false,
        1 => true,
        2 => default,
        3 => n % arg == arg - 1,
        _ => arg >> (n % 32) & 1 == 1,
    };
    TRUES[which].fetch_add(r as u32, SeqCst);
    r
}
fn set_cond(which: usize, c: Cond) {
    let (mode, a) = match c {
        Cond::Never => (0, 0),
        Cond::Always => (1, 0),
        Cond::Default => (2, 0),
        Cond::Every(n) => (3, n.max(1) as u32),
        Cond::Script(x) => (4, x),
    };
    CONDS[which][0].store(0, SeqCst);
    CONDS[which][1].store(a, SeqCst);
    CONDS[which][0].store(mode, SeqCst);
}

#[allow(dead_code)]
enum Guard {
    U(RefMut<'static, Vec<P>>),
    S(MutexGuard<'static, Vec<sync::Gc<S>>>),
}

struct Run {
    handles: Vec<P>,
    held: Vec<(Guard, P)>,
    freed: [u32; 2],
    released: u32,
}
struct Before {
    reach: Vec<bool>,
    /// reachable from the program or from any unsync value that exists
    owned: Vec<bool>,
    op: u32,
}

impl Run {
    fn before(&self) -> Before {
        m(|m| {
            let us: Vec<u32> = (0..m.nodes.len() as u32).filter(|&i| !m.nodes[i as usize].sync && reg::drops(i) == 0).collect();
            Before { reach: m.reach([]), owned: m.reach(us), op: m.op }
        })
    }
    fn pick(&self, h: u8) -> Option<usize> {
        (!self.handles.is_empty()).then(|| h as usize % self.handles.len())
    }
    fn keep(&mut self, p: P) {
        let id = p.id();
        m(|m| m.roots.push(id));
        self.handles.push(p);
    }
    fn discard(&mut self, i: usize) -> P {
        let p = self.handles.remove(i);
        m(|m| m.unroot(p.id()));
        p
    }
    fn adopt(&mut self) {
        let v = std::mem::take(&mut *ESCAPED.lock().unwrap());
        for g in v {
            self.keep(P::S(g));
        }
    }

    fn step(&mut self, op: &MOp) -> Res {
        m(|m| m.op += 1);
        let before = self.before();
        match op {
            MOp::New(s, script) => self.keep(new(*s, script.clone())),
            MOp::Rings(kinds, n, script, keep) => {
                let mut made: [Vec<P>; 2] = [vec![], vec![]];
                for i in 0..*n {
                    let s = kinds >> i & 1 == 1;
                    let p = new(s, if i == 0 { script.clone() } else { vec![] });
                    if let Some(last) = made[s as usize].last() {
                        link(last, i, p.dup());
                    }
                    if s {
                        if let Some(u) = made[0].last() {
                            link(u, i, p.dup());
                        }
                    }
                    made[s as usize].push(p);
                }
                for v in &made {
                    if let (Some(a), Some(b)) = (v.first(), v.last()) {
                        link(b, 0, a.dup());
                    }
                }
                for (i, p) in made.into_iter().flatten().enumerate() {
                    if keep >> i & 1 == 1 {
                        self.keep(p);
                    }
                }
            }
            MOp::Clone(h) => {
                if let Some(i) = self.pick(*h) {
                    self.keep(self.handles[i].dup());
                }
            }
            MOp::Drop(h) => {
                if let Some(i) = self.pick(*h) {
                    drop(self.discard(i));
                }
            }
            MOp::Link(a, s, b) => {
                if let (Some(a), Some(b)) = (self.pick(*a), self.pick(*b)) {
                    link(&self.handles[a], *s, self.handles[b].dup());
                }
            }
            MOp::Unlink(h, s, k) | MOp::TakeOut(h, s, k) => {
                if let Some(i) = self.pick(*h) {
                    if let Some(p) = self.handles[i].take(*s, *k) {
                        let from = self.handles[i].id();
                        m(|m| m.cut(from, p.id()));
                        if matches!(op, MOp::TakeOut(..)) {
                            self.keep(p);
                        }
                    }
                }
            }
            MOp::CollectU => unsync::collect(),
            MOp::CollectS => sync::collect(),
            MOp::Both => {
                unsync::collect();
                sync::collect();
            }
            MOp::CondU(c) => set_cond(0, *c),
            MOp::CondS(c) => set_cond(1, *c),
            MOp::Hold(h) => {
                if let Some(i) = self.pick(*h) {
                    let p = self.handles[i].dup();
                    // safety: `p` outlives the guard
                    let g = unsafe {
                        match &p {
                            P::U(g) => (*unsync::Gc::as_ptr(g)).s0.try_borrow_mut().ok().map(Guard::U),
                            P::S(g) => (*sync::Gc::as_ptr(g)).s0.try_lock().ok().map(Guard::S),
                        }
                    };
                    if let Some(g) = g {
                        m(|m| m.roots.push(p.id()));
                        self.held.push((g, p));
                    }
                }
            }
            MOp::Release(h) => {
                if !self.held.is_empty() {
                    self.release(*h as usize % self.held.len());
                }
            }
            MOp::Remote(h, collect) => {
                if let Some(i) = self.pick(*h).filter(|&i| self.handles[i].sync()) {
                    let P::S(g) = self.discard(i) else { unreachable!() };
                    let collect = *collect;
                    let t = std::thread::spawn(move || {
                        unsync::set_collect_condition(|_| false);
                        drop(g);
                        if collect {
                            sync::collect();
                        }
                    });
                    if t.join().is_err() {
                        return fail("panic", "another thread panicked");
                    }
                }
            }
            MOp::DropAll => {
                while !self.handles.is_empty() {
                    drop(self.discard(0));
                }
            }
        }
        self.adopt();
        self.verify(op, &before)
    }
    fn release(&mut self, i: usize) {
        let (g, p) = self.held.remove(i);
        drop(g);
        m(|m| m.unroot(p.id()));
        drop(p);
    }

    fn verify(&mut self, op: &MOp, before: &Before) -> Res {
        if let Some(f) = arena::take_fault() {
            return fail("memory", f);
        }
        let (reach, oracle) = m(|m| (m.reach([]), m.oracle.clone()));
        if let Some(o) = oracle {
            return Err(o);
        }
        for (i, &r) in reach.iter().enumerate() {
            let d = reg::drops(i as u32);
            if d > 1 {
                return fail("storage", format!("value {i} destroyed {d} times"));
            }
            if r && d > 0 {
                return fail("unsafe", format!("value {i} destroyed while reachable"));
            }
        }
        let mut seen = vec![false; reach.len()];
        for p in self.handles.iter().chain(self.held.iter().map(|h| &h.1)) {
            walk(p, &mut seen)?;
        }
        let (u, s) = (matches!(op, MOp::CollectU | MOp::Both), matches!(op, MOp::CollectS | MOp::Both));
        let s_held = self.held.iter().any(|h| h.1.sync());
        for (i, &r) in before.reach.iter().enumerate() {
            let (sync, born) = m(|m| (m.nodes[i].sync, m.nodes[i].born));
            let must = born < before.op
                && match sync {
                    false => u && !r,
                    true if s_held => false,
                    // after an unsync collection, which released what its garbage owned
                    true if u && s => !r && !reach[i],
                    true => s && !before.owned[i] && !reach[i],
                };
            if must && reg::drops(i as u32) == 0 {
                return fail("leak", format!("{} value {i} is unreachable but survived", if sync { "sync" } else { "unsync" }));
            }
            if must && !reg::storage_released(i as u32) {
                return fail("storage", format!("value {i} was destroyed but its memory is still allocated"));
            }
            if must {
                self.freed[sync as usize] += 1;
                self.released += (sync && before.owned[i]) as u32;
            }
        }
        Ok(())
    }
}
fn walk(p: &P, seen: &mut [bool]) -> Res {
    let (hdr, addr) = match p {
        P::U(g) => match unsync::Gc::try_deref(g) {
            Some(u) => (&u.hdr, u as *const U as usize),
            None => return fail("unsafe", "a reachable pointer is dead"),
        },
        P::S(g) => match sync::Gc::try_deref(g) {
            Some(s) => (&s.hdr, s as *const S as usize),
            None => return fail("unsafe", "a reachable pointer is dead"),
        },
    };
    if arena::state(addr) == arena::St::Freed || !hdr.ok() {
        return fail("unsafe", "a reachable value was destroyed");
    }
    let id = hdr.id as usize;
    if std::mem::replace(&mut seen[id], true) {
        return Ok(());
    }
    let mut found = vec![];
    let mut whole = true;
    match p {
        P::U(g) => {
            match g.s0.try_borrow() {
                Ok(v) => {
                    for p in v.iter() {
                        walk(p, seen)?;
                        found.push(p.id());
                    }
                }
                Err(_) => whole = false,
            }
            let v: Vec<*const P> = g.s1.lock().unwrap().iter().map(|b| &**b as *const P).collect();
            for p in v {
                let p = unsafe { &*p };
                walk(p, seen)?;
                found.push(p.id());
            }
        }
        P::S(g) => {
            let mut all: Vec<*const sync::Gc<S>> = g.s1.read().unwrap().iter().map(|g| g as *const _).collect();
            match g.s0.try_lock() {
                Ok(v) => all.extend(v.iter().map(|g| g as *const sync::Gc<S>)),
                Err(_) => whole = false,
            }
            for g in all {
                let p = std::mem::ManuallyDrop::new(P::S(unsafe { std::ptr::read(g) }));
                walk(&p, seen)?;
                found.push(p.id());
            }
        }
    }
    let mut want = m(|m| m.nodes[id].edges.clone());
    want.sort();
    found.sort();
    if whole && want != found {
        return fail("content", format!("value {id} owns {found:?} instead of {want:?}"));
    }
    Ok(())
}

fn on_op(op: dumpster::hooks::Op, addr: *const ()) {
    if arena::state(addr as usize) == arena::St::Freed {
        arena::fault(arena::F_ATOMIC_UAF, addr as u64);
    }
    if op == dumpster::hooks::Op::Blocked {
        finish(&Out {
            fail: Some(("deadlock".into(), "operation waits for a lock that is never released".into())),
            ..Out::default()
        });
    }
}

fn go(case: &MixCase, run: &mut Run) -> Res {
    for op in &case.ops {
        run.step(op)?;
    }
    while !run.held.is_empty() {
        run.release(0);
    }
    for op in [MOp::DropAll, MOp::Both, MOp::DropAll, MOp::Both, MOp::DropAll, MOp::Both] {
        run.step(&op)?;
    }
    arena::scan();
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    Ok(())
}

pub fn run(case: &MixCase) -> Out {
    *MODEL.lock().unwrap() = Some(Model { nodes: vec![], roots: vec![], op: 0, oracle: None });
    unsync::set_collect_condition(|i| decide(0, unsync::default_collect_condition(i)));
    sync::set_collect_condition(|i| decide(1, sync::default_collect_condition(i)));
    dumpster::hooks::set_hook(Some(on_op));
    let mut run = Run { handles: vec![], held: vec![], freed: [0; 2], released: 0 };
    let r = go(case, &mut run);
    let mut labels = vec![];
    for (l, b) in [
        ("sync values released by an unsync collection were reclaimed", run.released > 0),
        ("a destructor acted", ACTS.load(SeqCst) > 0),
        ("unsync condition asked for a collection", TRUES[0].load(SeqCst) > 0),
        ("sync condition asked for a collection", TRUES[1].load(SeqCst) > 0),
    ] {
        if b {
            labels.push(l.to_string());
        }
    }
    finish(&Out { fail: r.err(), nontrivial: run.freed[0] > 0 && run.freed[1] > 0, labels, ..Out::default() })
}

pub fn case() -> BoxedStrategy<MixCase> {
    let h = || 0u8..32;
    let act = prop_oneof![
        2 => Just(Act::CollectU),
        2 => Just(Act::CollectS),
        2 => any::<bool>().prop_map(Act::Garbage),
        3 => h().prop_map(Act::Escape),
        2 => h().prop_map(Act::DropOwn),
    ];
    let script = prop_oneof![
        3 => Just(vec![]),
        1 => prop::collection::vec(act, 1..3),
    ]
    .boxed();
    let op = weighted(vec![
        (8, (any::<bool>(), script.clone()).prop_map(|(a, b)| MOp::New(a, b)).boxed()),
        (5, (any::<u8>(), 1u8..7, script, any::<u8>()).prop_map(|(a, b, c, d)| MOp::Rings(a, b, c, d & d.rotate_left(3))).boxed()),
        (4, h().prop_map(MOp::Clone).boxed()),
        (9, h().prop_map(MOp::Drop).boxed()),
        (14, (h(), 0u8..2, h()).prop_map(|(a, b, c)| MOp::Link(a, b, c)).boxed()),
        (4, (h(), 0u8..2, h()).prop_map(|(a, b, c)| MOp::Unlink(a, b, c)).boxed()),
        (4, (h(), 0u8..2, h()).prop_map(|(a, b, c)| MOp::TakeOut(a, b, c)).boxed()),
        (3, Just(MOp::CollectU).boxed()),
        (3, Just(MOp::CollectS).boxed()),
        (3, Just(MOp::Both).boxed()),
        (2, cond().prop_map(MOp::CondU).boxed()),
        (2, cond().prop_map(MOp::CondS).boxed()),
        (2, h().prop_map(MOp::Hold).boxed()),
        (2, h().prop_map(MOp::Release).boxed()),
        (1, (h(), any::<bool>()).prop_map(|(a, b)| MOp::Remote(a, b)).boxed()),
        (1, Just(MOp::DropAll).boxed()),
    ]);
    (prop::collection::vec(op, 4..60), any::<u64>()).prop_map(|(ops, hash)| MixCase { ops, hash }).boxed()
}

pub fn shrink(c: &MixCase) -> Vec<MixCase> {
    let mut out: Vec<MixCase> = shrink_vec(&c.ops).into_iter().map(|ops| MixCase { ops, ..c.clone() }).collect();
    for i in 0..c.ops.len() {
        let alts: Vec<MOp> = match &c.ops[i] {
            MOp::New(s, v) => shrink_vec(v).into_iter().map(|v| MOp::New(*s, v)).collect(),
            MOp::Rings(k, n, v, keep) => {
                let mut a: Vec<MOp> = shrink_vec(v).into_iter().map(|v| MOp::Rings(*k, *n, v, *keep)).collect();
                if *n > 1 {
                    a.push(MOp::Rings(*k, n - 1, v.clone(), *keep));
                }
                if *keep > 0 {
                    a.push(MOp::Rings(*k, *n, v.clone(), keep & (keep - 1)));
                }
                a
            }
            _ => vec![],
        };
        for a in alts {
            let mut d = c.clone();
            d.ops[i] = a;
            out.push(d);
        }
    }
    out
}
