//! Concurrent programs over sync Gcs, run under generated schedules.

use crate::reg::{self, Hdr};
use crate::runner::{fail, finish, hash_str, mix, panic_class, shrink_vec, Out, Res, Rng, LAST_PANIC};
use crate::seqop::{weighted, Cond};
use crate::{arena, sched};
use dumpster::hooks::Op as HOp;
use dumpster::sync::{self, CollectInfo, Gc};
use dumpster::{unsync, Collectable, Visitor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockWriteGuard, TryLockError};

/// A scheduling point inside visits and destructors.
struct Pt;
unsafe impl Collectable for Pt {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        sched::coarse(HOp::Load);
        Ok(())
    }
}
impl Drop for Pt {
    fn drop(&mut self) {
        sched::coarse(HOp::Load);
    }
}

/// What the values' pointers point at: with coerce-unsized, slices.
#[cfg(not(feature = "unsized"))]
type Body = Node;
#[cfg(feature = "unsized")]
type Body = [Node];
type P = Gc<Body>;
#[cfg(not(feature = "unsized"))]
fn body(b: &Body) -> &Node {
    b
}
#[cfg(feature = "unsized")]
fn body(b: &Body) -> &Node {
    &b[0]
}
fn value(p: &P) -> &Node {
    body(p)
}
fn address(p: &P) -> usize {
    Gc::as_ptr(p).cast::<()>() as usize
}

#[derive(Collectable)]
struct Edge {
    pt: Pt,
    gc: P,
}

/// What a destructor does.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum A {
    Nothing,
    /// look at all pointers of the value
    Look,
    /// clone a pointer of the value, if it is alive, into a shared slot
    Rescue(u8),
    /// move a pointer of the value out, dead or alive
    Leave(u8),
    /// make a ring which is garbage and points to what a shared slot does
    Ring(u8),
    /// get a pointer from a shared slot and store it in a new value there
    Wrap(u8),
    /// drop the pointer in a shared slot
    Empty(u8),
    Collect,
    Panic,
}
unsafe impl Collectable for A {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

/// Whether destructors act now.
static ACTING: AtomicBool = AtomicBool::new(false);
static ACTED: AtomicU32 = AtomicU32::new(0);
/// What destructors have found at the pointers of their values: alive, dead.
static SEEN: [AtomicU32; 2] = [AtomicU32::new(0), AtomicU32::new(0)];
static PANICKED: AtomicBool = AtomicBool::new(false);
thread_local! {
    static PANICS: Cell<u32> = const { Cell::new(0) };
}
/// The shared slots, for destructors.
static SLOTS: Mutex<Option<Slots>> = Mutex::new(None);
/// Pointers that destructors have moved out of their values.
static MOVED: Mutex<Vec<P>> = Mutex::new(Vec::new());

impl Node {
    fn own(&mut self) -> Vec<&P> {
        let s0 = self.s0.get_mut().unwrap_or_else(|e| e.into_inner());
        let s1 = self.s1.get_mut().unwrap_or_else(|e| e.into_inner());
        self.fixed.iter().chain(s0.iter().map(|e| &e.gc)).chain(s1.iter().map(|e| &e.gc)).collect()
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        if self.act == A::Nothing || !ACTING.load(SeqCst) || std::thread::panicking() {
            return;
        }
        ACTED.fetch_add(1, SeqCst);
        for g in self.own() {
            // clones are made of what is alive
            sched::coarse(HOp::Load);
            let c = Gc::try_clone(g);
            SEEN[c.is_none() as usize].fetch_add(1, SeqCst);
            match (Gc::try_deref(g), c) {
                (Some(n), Some(c)) => {
                    touch(body(n));
                    touch(value(&c));
                }
                (None, None) => {}
                _ => wrong("dead", "try_clone and try_deref of a destructor disagree"),
            }
        }
        let slots = SLOTS.lock().unwrap().clone().unwrap();
        let slot = |s: u8| &slots[s as usize % slots.len()];
        match self.act {
            A::Nothing | A::Look => {}
            A::Rescue(s) => {
                let alive = self.own().into_iter().filter_map(Gc::try_clone).next();
                if let Some(g) = alive {
                    let old = sched::write(slot(s)).replace(g);
                    drop(old);
                }
            }
            A::Leave(s) => {
                let e = take_own(self, s);
                MOVED.lock().unwrap().extend(e);
            }
            A::Ring(s) => {
                let g = node(sched::read(slot(s)).iter().cloned().collect(), false, A::Look);
                put(value(&g), s, edge(g.clone()));
            }
            A::Wrap(s) => {
                let mut l = sched::write(slot(s));
                if let Some(old) = l.take() {
                    *l = Some(node(vec![old], false, A::Nothing));
                }
            }
            A::Empty(s) => {
                let g = sched::write(slot(s)).take();
                drop(g);
            }
            A::Collect => sync::collect(),
            A::Panic => {
                PANICKED.store(true, SeqCst);
                PANICS.set(PANICS.get() + 1);
                resume_unwind(Box::new("destructor"));
            }
        }
    }
}
fn take_own(n: &mut Node, s: u8) -> Option<P> {
    if s % 2 == 0 && !n.fixed.is_empty() {
        return n.fixed.pop();
    }
    let s0 = n.s0.get_mut().unwrap_or_else(|e| e.into_inner());
    let s1 = n.s1.get_mut().unwrap_or_else(|e| e.into_inner());
    s0.pop().or_else(|| s1.take()).map(|e| {
        let Edge { pt, gc } = e;
        drop(pt);
        gc
    })
}
fn wrong(class: &str, msg: &str) -> ! {
    finish(&Out { fail: Some((class.into(), msg.into())), ..Out::default() })
}

#[derive(Collectable)]
struct Node {
    pt: Pt,
    act: A,
    hdr: Hdr,
    fixed: Vec<P>,
    s0: Mutex<Vec<Edge>>,
    pt2: Pt,
    s1: RwLock<Option<Edge>>,
    leaf: Option<Gc<Leaf>>,
}
#[derive(Collectable)]
struct Leaf {
    hdr: Hdr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum T {
    New,
    NewLeaf,
    /// a value whose destructor acts
    NewAct(A),
    Clone(u8),
    Drop(u8),
    Link(u8, u8, u8),
    LinkMove(u8, u8, u8),
    /// remove and drop, while holding the lock if .2
    Unlink(u8, u8, bool),
    Take(u8, u8),
    CloneOut(u8, u8),
    /// read the pointee of an edge under the lock
    Peek(u8, u8),
    MoveEdge(u8, u8, u8, u8),
    /// move a handle into a shared slot; the displaced handle is kept
    Publish(u8, u8),
    Fetch(u8),
    /// read a value through the pointer in a shared slot
    Look(u8),
    Steal(u8),
    Deref(u8),
    /// keep a plain reference to the value and use it for later operations on this handle
    Cache(u8),
    /// keep a plain reference to what a fixed pointer points to, as long as the handle is there
    Reach(u8, u8),
    CloneFixed(u8, u8),
    Hold(u8, u8),
    /// store a clone of a handle through the held lock
    HeldPut(u8, u8),
    /// take an edge out through the held lock
    HeldTake(u8),
    HeldClone(u8),
    Release,
    Collect,
    DropAll,
    /// make a ring that no other thread knows, let go of it and collect
    Own(u8),
    /// move a handle to a thread-local variable, which is dropped when the thread exits; 255: only use it
    Keep(u8),
    /// move a handle into an unsync value, which points to itself or, if .1, to the one before, and back
    Hide(u8, bool),
    /// use and clone the pointer in an unsync value
    Unhide(u8),
    /// let go of an unsync value
    Forgo(u8),
    CollectUnsync,
}

/// An unsync value that owns a sync pointer.
#[derive(Collectable)]
struct Hider {
    gc: P,
    links: RefCell<Vec<unsync::Gc<Hider>>>,
}

thread_local! {
    static KEPT: RefCell<Vec<P>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Setup {
    pub nodes: u8,
    /// bit i: fixed pointer to an earlier node
    pub fixed: Vec<(u8, u8)>,
    pub edges: Vec<(u8, u8, u8)>,
    pub leaves: u8,
    /// what the destructors of the values do, in order
    #[serde(default)]
    pub acts: Vec<A>,
    pub dirty: u8,
    pub slots: Vec<Option<u8>>,
    pub handles: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConcCase {
    pub setup: Setup,
    pub progs: Vec<Vec<T>>,
    pub first: u8,
    pub cond: Cond,
    pub hash: u64,
    pub sched: Vec<(u16, u8)>,
    /// further schedules, for which the program is run again in the same process
    #[serde(default)]
    pub more: Vec<Vec<(u16, u8)>>,
}

static COND_MODE: AtomicU32 = AtomicU32::new(0);
static COND_ARG: AtomicU32 = AtomicU32::new(0);
static COND_CALLS: AtomicU32 = AtomicU32::new(0);
static COND_TRUES: AtomicU32 = AtomicU32::new(0);
static EXISTING: AtomicU32 = AtomicU32::new(0);

fn condition(info: &CollectInfo) -> bool {
    EXISTING.store(info.n_gcs_existing() as u32, SeqCst);
    let n = COND_CALLS.fetch_add(1, SeqCst);
    let arg = COND_ARG.load(SeqCst);
    let r = match COND_MODE.load(SeqCst) {
        0 => false,
        1 => true,
        2 => sync::default_collect_condition(info),
        3 => n % arg == arg - 1,
        _ => arg >> (n % 32) & 1 == 1,
    };
    if r {
        COND_TRUES.fetch_add(1, SeqCst);
    }
    r
}
fn set_cond(c: Cond) {
    let (m, a) = match c {
        Cond::Never => (0, 0),
        Cond::Always => (1, 0),
        Cond::Default => (2, 0),
        Cond::Every(n) => (3, n.max(1) as u32),
        Cond::Script(x) => (4, x),
    };
    COND_MODE.store(m, SeqCst);
    COND_ARG.store(a, SeqCst);
    COND_CALLS.store(0, SeqCst);
}

struct Handle {
    gc: P,
    cached: Option<&'static Node>,
    /// plain references to values that are reached through this handle by fixed pointers
    reached: Vec<&'static Node>,
}
impl Handle {
    fn new(gc: P) -> Handle {
        Handle { gc, cached: None, reached: vec![] }
    }
    fn node(&self) -> &Node {
        let n = match self.cached {
            Some(n) => n,
            None => value(&self.gc),
        };
        touch(n);
        n
    }
}

fn touch(n: &Node) {
    if arena::state(n as *const Node as usize) == arena::St::Freed || !n.hdr.ok() {
        finish(&Out {
            fail: Some(("unsafe".into(), "a value was destroyed while a thread could reach it".into())),
            ..Out::default()
        });
    }
    if let Some(l) = &n.leaf {
        if arena::state(Gc::as_ptr(l) as usize) == arena::St::Freed || !l.hdr.ok() {
            finish(&Out {
                fail: Some(("unsafe".into(), "a leaf was destroyed while a thread could reach it".into())),
                ..Out::default()
            });
        }
    }
}

fn node(fixed: Vec<P>, leaf: bool, act: A) -> P {
    let leaf = leaf.then(|| {
        let g = Gc::new(Leaf { hdr: Hdr::new() });
        reg::set_addr(g.hdr.id, Gc::as_ptr(&g) as usize);
        g
    });
    let n = Node { pt: Pt, act, hdr: Hdr::new(), fixed, s0: Mutex::new(vec![]), pt2: Pt, s1: RwLock::new(None), leaf };
    #[cfg(not(feature = "unsized"))]
    let g: P = Gc::new(n);
    #[cfg(feature = "unsized")]
    let g: P = Gc::new([n]);
    reg::set_addr(value(&g).hdr.id, address(&g));
    g
}
fn edge(gc: P) -> Edge {
    Edge { pt: Pt, gc }
}

fn put(n: &Node, s: u8, e: Edge) {
    let old = if s % 2 == 0 {
        sched::lock(&n.s0).push(e);
        None
    } else {
        sched::write(&n.s1).replace(e)
    };
    drop(old);
}
fn take(n: &Node, s: u8) -> Option<Edge> {
    if s % 2 == 0 {
        let mut g = sched::lock(&n.s0);
        if g.is_empty() {
            None
        } else {
            let i = s as usize / 2 % g.len();
            Some(g.swap_remove(i))
        }
    } else {
        sched::write(&n.s1).take()
    }
}

enum Held {
    M(MutexGuard<'static, Vec<Edge>>),
    W(RwLockWriteGuard<'static, Option<Edge>>),
}

type Slots = Arc<Vec<RwLock<Option<P>>>>;

struct Worker {
    hs: Vec<Handle>,
    held: Option<(Held, P)>,
    hiders: Vec<unsync::Gc<Hider>>,
    slots: Slots,
}

impl Worker {
    fn pick(&self, h: u8) -> Option<usize> {
        (!self.hs.is_empty()).then(|| h as usize % self.hs.len())
    }
    /// A value to work on: that of a handle or one reached from it, with the index of the handle.
    fn value(&self, h: u8) -> Option<(&'static Node, usize)> {
        let reached = self.hs.iter().map(|h| h.reached.len()).sum::<usize>();
        if self.hs.is_empty() {
            return None;
        }
        let i = h as usize % (self.hs.len() + reached);
        let (n, i) = match i.checked_sub(self.hs.len()) {
            None => (self.hs[i].node(), i),
            Some(k) => {
                let (n, i) = self.hs.iter().enumerate().flat_map(|(i, h)| h.reached.iter().map(move |r| (*r, i))).nth(k).unwrap();
                touch(n);
                (n, i)
            }
        };
        Some((unsafe { std::mem::transmute::<&Node, &'static Node>(n) }, i))
    }
    /// Operations that may wait for a user lock are skipped while holding one.
    fn step(&mut self, op: T) {
        sched::coarse(HOp::Load);
        let busy = self.held.is_some();
        match op {
            T::New => self.hs.push(Handle::new(node(vec![], false, A::Nothing))),
            T::NewLeaf => self.hs.push(Handle::new(node(vec![], true, A::Nothing))),
            T::NewAct(a) => self.hs.push(Handle::new(node(vec![], false, a))),
            T::Clone(h) => {
                if let Some(h) = self.pick(h) {
                    let g = self.hs[h].gc.clone();
                    self.hs.push(Handle::new(g));
                }
            }
            T::Drop(h) => {
                if let Some(h) = self.pick(h) {
                    let x = self.hs.remove(h);
                    drop(x);
                }
            }
            T::Link(h, s, t) if !busy => {
                if let Some(t) = self.pick(t) {
                    let g = self.hs[t].gc.clone();
                    let (n, _) = self.value(h).unwrap();
                    put(n, s, edge(g));
                }
            }
            T::LinkMove(h, s, t) if !busy => {
                if let (Some((n, h)), Some(t)) = (self.value(h), self.pick(t)) {
                    if h != t {
                        let g = self.hs.remove(t);
                        put(n, s, edge(g.gc));
                    }
                }
            }
            T::Unlink(h, s, inside) if !busy => {
                if let Some((n, _)) = self.value(h) {
                    if inside && s % 2 == 0 {
                        let mut g = sched::lock(&n.s0);
                        let e = g.pop();
                        drop(e);
                    } else if inside {
                        let mut g = sched::write(&n.s1);
                        let e = g.take();
                        drop(e);
                    } else {
                        let e = take(n, s);
                        drop(e);
                    }
                }
            }
            T::Take(h, s) if !busy => {
                if let Some((n, _)) = self.value(h) {
                    if let Some(e) = take(n, s) {
                        let Edge { pt, gc } = e;
                        drop(pt);
                        self.hs.push(Handle::new(gc));
                    }
                }
            }
            T::CloneOut(h, s) if !busy => {
                if let Some((n, _)) = self.value(h) {
                    let g = if s % 2 == 0 {
                        sched::lock(&n.s0).first().map(|e| e.gc.clone())
                    } else {
                        sched::read(&n.s1).as_ref().map(|e| e.gc.clone())
                    };
                    self.hs.extend(g.map(Handle::new));
                }
            }
            T::Peek(h, s) if !busy => {
                if let Some((n, _)) = self.value(h) {
                    if s % 2 == 0 {
                        sched::lock(&n.s0).iter().for_each(|e| touch(value(&e.gc)));
                    } else {
                        sched::read(&n.s1).iter().for_each(|e| touch(value(&e.gc)));
                    }
                }
            }
            T::MoveEdge(h, s, h2, s2) if !busy => {
                if let Some((n, _)) = self.value(h) {
                    if let Some(e) = take(n, s) {
                        let (n, _) = self.value(h2).unwrap();
                        put(n, s2, e);
                    }
                }
            }
            T::Publish(s, h) => {
                if let Some(h) = self.pick(h) {
                    let g = self.hs.remove(h).gc;
                    let old = sched::write(&self.slots[s as usize % self.slots.len()]).replace(g);
                    self.hs.extend(old.map(Handle::new));
                }
            }
            T::Fetch(s) => {
                let g = sched::read(&self.slots[s as usize % self.slots.len()]).as_ref().cloned();
                self.hs.extend(g.map(Handle::new));
            }
            T::Look(s) => {
                if let Some(g) = &*sched::read(&self.slots[s as usize % self.slots.len()]) {
                    touch(value(g));
                }
            }
            T::Steal(s) => {
                let g = sched::write(&self.slots[s as usize % self.slots.len()]).take();
                self.hs.extend(g.map(Handle::new));
            }
            T::Deref(h) => {
                if let Some(h) = self.pick(h) {
                    touch(value(&self.hs[h].gc));
                }
            }
            T::Cache(h) => {
                if let Some(h) = self.pick(h) {
                    let n = value(&self.hs[h].gc);
                    touch(n);
                    self.hs[h].cached = Some(unsafe { std::mem::transmute::<&Node, &'static Node>(n) });
                }
            }
            T::Reach(h, k) => {
                if let Some((n, h)) = self.value(h) {
                    if !n.fixed.is_empty() && self.hs[h].reached.len() < 4 {
                        let n = value(&n.fixed[k as usize % n.fixed.len()]);
                        touch(n);
                        self.hs[h].reached.push(unsafe { std::mem::transmute::<&Node, &'static Node>(n) });
                    }
                }
            }
            T::CloneFixed(h, k) => {
                if let Some((n, _)) = self.value(h) {
                    if !n.fixed.is_empty() {
                        let g = n.fixed[k as usize % n.fixed.len()].clone();
                        self.hs.push(Handle::new(g));
                    }
                }
            }
            T::Hold(h, s) if !busy => {
                if let Some(h) = self.pick(h) {
                    let gc = self.hs[h].gc.clone();
                    let n = self.hs[h].node();
                    let held = unsafe {
                        if s % 2 == 0 {
                            Held::M(std::mem::transmute::<MutexGuard<'_, _>, MutexGuard<'static, _>>(sched::lock(&n.s0)))
                        } else {
                            Held::W(std::mem::transmute::<RwLockWriteGuard<'_, _>, RwLockWriteGuard<'static, _>>(sched::write(&n.s1)))
                        }
                    };
                    self.held = Some((held, gc));
                }
            }
            T::HeldPut(t, _) => {
                if let Some(t) = self.pick(t) {
                    let g = self.hs[t].gc.clone();
                    match &mut self.held {
                        Some((Held::M(m), _)) => m.push(edge(g)),
                        Some((Held::W(w), _)) => {
                            let old = w.replace(edge(g));
                            drop(old);
                        }
                        None => drop(g),
                    }
                }
            }
            T::HeldTake(k) => {
                let e = match &mut self.held {
                    Some((Held::M(m), _)) if !m.is_empty() => {
                        let i = k as usize % m.len();
                        Some(m.swap_remove(i))
                    }
                    Some((Held::W(w), _)) => w.take(),
                    _ => None,
                };
                if let Some(Edge { pt, gc }) = e {
                    drop(pt);
                    if k % 4 == 0 {
                        drop(gc);
                    } else {
                        self.hs.push(Handle::new(gc));
                    }
                }
            }
            T::HeldClone(k) => {
                let g = match &self.held {
                    Some((Held::M(m), _)) if !m.is_empty() => Some(m[k as usize % m.len()].gc.clone()),
                    Some((Held::W(w), _)) => w.as_ref().map(|e| e.gc.clone()),
                    _ => None,
                };
                self.hs.extend(g.map(Handle::new));
            }
            T::Release => self.release(),
            T::Collect => sync::collect(),
            T::Own(n) if !busy => {
                let ids: Vec<u32> = {
                    let ring: Vec<P> = (0..n).map(|_| node(vec![], false, A::Nothing)).collect();
                    for (i, g) in ring.iter().enumerate() {
                        put(value(g), i as u8, edge(ring[(i + 1) % ring.len()].clone()));
                    }
                    ring.iter().map(|g| value(g).hdr.id).collect()
                };
                sync::collect();
                if let Some(i) = ids.iter().find(|i| reg::drops(**i) == 0) {
                    finish(&Out {
                        fail: Some(("own".into(), format!("value {i} was garbage of the thread that called collect() and survived it"))),
                        ..Out::default()
                    });
                }
            }
            T::Hide(h, two) => {
                if let Some(h) = self.pick(h) {
                    let gc = self.hs.remove(h).gc;
                    let u = unsync::Gc::new(Hider { gc, links: RefCell::new(vec![]) });
                    let other = self.hiders.last().filter(|_| two).unwrap_or(&u).clone();
                    u.links.borrow_mut().push(other.clone());
                    other.links.borrow_mut().push(u.clone());
                    self.hiders.push(u);
                }
            }
            T::Unhide(k) => {
                if !self.hiders.is_empty() {
                    let u = &self.hiders[k as usize % self.hiders.len()];
                    touch(value(&u.gc));
                    u.links.borrow().iter().for_each(|v| touch(value(&v.gc)));
                    let g = u.gc.clone();
                    self.hs.push(Handle::new(g));
                }
            }
            T::Forgo(k) => {
                if !self.hiders.is_empty() {
                    let i = k as usize % self.hiders.len();
                    let u = self.hiders.remove(i);
                    drop(u);
                }
            }
            T::CollectUnsync => unsync::collect(),
            T::Keep(255) => KEPT.with(|_| ()),
            T::Keep(h) => {
                if let Some(h) = self.pick(h) {
                    let g = self.hs.remove(h).gc;
                    KEPT.with(|k| k.borrow_mut().push(g));
                }
            }
            T::DropAll => {
                while let Some(h) = self.hs.pop() {
                    drop(h);
                }
            }
            _ => {}
        }
    }
    fn release(&mut self) {
        if let Some((g, gc)) = self.held.take() {
            drop(g);
            drop(gc);
        }
    }
}

fn available<G>(l: std::sync::TryLockResult<G>) -> Result<G, (String, String)> {
    match l {
        Ok(g) => Ok(g),
        Err(TryLockError::Poisoned(e)) => Ok(e.into_inner()),
        Err(TryLockError::WouldBlock) => fail("harness", "lock left held"),
    }
}

fn reachable(handles: &[P]) -> Result<Vec<bool>, (String, String)> {
    fn walk(g: &P, seen: &mut [bool]) -> Res {
        if arena::state(address(g)) == arena::St::Freed {
            return fail("unsafe", "a reachable value was freed");
        }
        let n = value(g);
        if !n.hdr.ok() || n.hdr.id as usize >= seen.len() {
            return fail("unsafe", "a reachable value was destroyed");
        }
        if std::mem::replace(&mut seen[n.hdr.id as usize], true) {
            return Ok(());
        }
        if let Some(l) = &n.leaf {
            if arena::state(Gc::as_ptr(l) as usize) == arena::St::Freed || !l.hdr.ok() {
                return fail("unsafe", "a reachable leaf was destroyed");
            }
            seen[l.hdr.id as usize] = true;
        }
        for f in &n.fixed {
            walk(f, seen)?;
        }
        let v = available(n.s0.try_lock())?;
        for e in v.iter() {
            walk(&e.gc, seen)?;
        }
        let v = available(n.s1.try_read())?;
        for e in v.iter() {
            walk(&e.gc, seen)?;
        }
        Ok(())
    }
    let mut seen = vec![false; reg::count() as usize];
    for h in handles {
        walk(h, &mut seen)?;
    }
    Ok(seen)
}

fn check_counts() -> Res {
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    for i in 0..reg::count() {
        if reg::drops(i) > 1 {
            return fail("storage", format!("value {i} destroyed {} times", reg::drops(i)));
        }
    }
    Ok(())
}

/// Only the panics of destructors are expected.
fn contained(f: impl FnOnce()) {
    let before = PANICS.get();
    if catch_unwind(AssertUnwindSafe(f)).is_err() && PANICS.get() == before {
        let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
        wrong(panic_class(&m), &m);
    }
}

fn go(case: &ConcCase, schedule: &[(u16, u8)], stats: &mut ((u64, u64), u32)) -> Res {
    // values that a panic under an earlier schedule has left behind do not count
    let base = reg::count();
    sched::install();
    sync::set_collect_condition(condition);
    set_cond(Cond::Never);
    let n = case.progs.len();
    let slots: Slots = Arc::new((0..case.setup.slots.len().max(1)).map(|_| RwLock::new(None)).collect());
    // The initial graph is built by a thread that exits, so that its candidates are delivered.
    let mut initial: Vec<Vec<P>> = {
        let su = case.setup.clone();
        let slots = slots.clone();
        let t = std::thread::spawn(move || {
            let mut nodes: Vec<P> = Vec::new();
            for i in 0..su.nodes as usize {
                let fixed = su
                    .fixed
                    .iter()
                    .filter(|(a, b)| *a as usize == i && (*b as usize) < i)
                    .map(|(_, b)| nodes[*b as usize].clone())
                    .collect();
                nodes.push(node(fixed, su.leaves >> (i % 8) & 1 == 1, su.acts.get(i).copied().unwrap_or(A::Nothing)));
            }
            let k = nodes.len();
            for &(a, s, b) in &su.edges {
                put(value(&nodes[a as usize % k]), s, edge(nodes[b as usize % k].clone()));
            }
            for (i, g) in nodes.iter().enumerate() {
                if su.dirty >> (i % 8) & 1 == 1 {
                    drop(g.clone());
                }
            }
            for (i, s) in su.slots.iter().enumerate() {
                if let Some(x) = s {
                    *slots[i].write().unwrap() = Some(nodes[*x as usize % k].clone());
                }
            }
            let hs: Vec<Vec<P>> =
                su.handles.iter().map(|v| v.iter().map(|x| nodes[*x as usize % k].clone()).collect()).collect();
            drop(nodes);
            hs
        });
        t.join().map_err(|_| ("panic".to_string(), "panic while building the graph".to_string()))?
    };
    initial.resize_with(n, Vec::new);
    *SLOTS.lock().unwrap() = Some(slots.clone());
    let earlier = PANICKED.swap(false, SeqCst);
    set_cond(case.cond);
    ACTING.store(true, SeqCst);
    let left: Arc<Mutex<Vec<P>>> = Arc::new(Mutex::new(Vec::with_capacity(256)));
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (prog, hs) in case.progs.iter().zip(initial) {
        let (prog, slots, left) = (prog.clone(), slots.clone(), left.clone());
        bodies.push(Box::new(move || {
            let mut w = Worker { hs: hs.into_iter().map(Handle::new).collect(), held: None, hiders: vec![], slots };
            for op in prog {
                contained(|| w.step(op));
            }
            contained(|| w.release());
            contained(|| w.hiders.clear());
            let mut l = left.lock().unwrap();
            for h in w.hs.drain(..) {
                l.push(h.gc);
            }
        }));
    }
    let (steps, preemptions, ok) = sched::run(bodies, case.first as usize, schedule.to_vec());
    *stats = (steps, preemptions);
    if !ok {
        let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
        return fail(panic_class(&m), m);
    }
    check_counts()?;
    // quiescence
    ACTING.store(false, SeqCst);
    *SLOTS.lock().unwrap() = None;
    set_cond(Cond::Never);
    let panicked = PANICKED.load(SeqCst);
    let mut handles = std::mem::take(&mut *left.lock().unwrap());
    // a dead pointer cannot come alive, and dropping it does nothing
    let moved = std::mem::take(&mut *MOVED.lock().unwrap());
    handles.extend(moved.into_iter().filter(|g| Gc::try_deref(g).is_some()));
    for s in slots.iter() {
        handles.extend(s.write().unwrap().take());
    }
    let reach = reachable(&handles)?;
    for _ in 0..3 {
        sync::collect();
    }
    check_counts()?;
    let again = reachable(&handles)?;
    if again != reach {
        return fail("content", "the graph changed while nobody used it");
    }
    for i in base..reg::count() {
        if !reach[i as usize] && reg::drops(i) == 0 && !panicked {
            return fail("leak", format!("unreachable value {i} survived although all threads have finished and collect() ran"));
        }
    }
    drop(handles);
    for _ in 0..3 {
        sync::collect();
    }
    check_counts()?;
    for i in base..reg::count() {
        if panicked {
            break;
        }
        if reg::drops(i) == 0 {
            return fail("leak", format!("value {i} survived although no pointers remain"));
        }
        if !reg::storage_released(i) {
            return fail("kept", format!("memory of value {i} was not released"));
        }
    }
    // further garbage is reclaimed even if destructors have panicked
    let ids: Vec<u32> = {
        let g = node(vec![], true, A::Nothing);
        let h = node(vec![g.clone()], false, A::Nothing);
        put(value(&g), 0, edge(h.clone()));
        vec![value(&g).hdr.id, value(&h).hdr.id]
    };
    sync::collect();
    if ids.iter().any(|i| reg::drops(*i) == 0 || !reg::storage_released(*i)) {
        return fail("leak", "garbage made by the only thread left survived collect()");
    }
    // one more pointer, to read the counter
    let g = Gc::new(Leaf { hdr: Hdr::new() });
    drop(g);
    let e = EXISTING.load(SeqCst);
    PANICKED.store(panicked || earlier, SeqCst);
    if e > 1 && !panicked && !earlier {
        return fail("counter", format!("n_gcs_existing is {e} although no pointers remain"));
    }
    check_counts()
}

pub fn run(case: &ConcCase) -> Out {
    let mut out = Out::default();
    let mut hashes = Vec::new();
    let program = hash_str(&format!("{:?} {:?} {:?} {} {}", case.setup, case.progs, case.cond, case.first, case.hash));
    for (i, schedule) in std::iter::once(&case.sched).chain(&case.more).enumerate() {
        let mut stats = ((0, 0), 0);
        let acted = ACTED.load(SeqCst);
        let r = go(case, schedule, &mut stats);
        out.labels.push(format!("{} preemptions", stats.1.min(9)));
        if stats.1 > 0 && (case.setup.acts.is_empty() || ACTED.load(SeqCst) > acted) {
            hashes.push(mix(&[program, hash_str(&format!("{schedule:?}"))]));
        }
        if i == 0 {
            out.extra = stats.0 .0 << 32 | stats.0 .1;
        }
        out.fail = r.err();
        if out.fail.is_some() {
            finish(&out);
        }
    }
    arena::scan();
    out.fail = check_counts().err();
    if out.fail.is_some() {
        finish(&out);
    }
    if ACTED.load(SeqCst) > 0 {
        out.labels.push("destructors acted".into());
    }
    for (i, l) in ["destructor saw a live pointer", "destructor saw a dead pointer"].iter().enumerate() {
        if SEEN[i].load(SeqCst) > 0 {
            out.labels.push(l.to_string());
        }
    }
    if PANICKED.load(SeqCst) {
        out.labels.push("a destructor panicked".into());
    }
    if COND_TRUES.load(SeqCst) > 0 {
        out.labels.push("condition asked for a collection".into());
    }
    out.nontrivial = !hashes.is_empty();
    out.parts = Some((1 + case.more.len() as u64, hashes));
    out
}

// ---- generation ------------------------------------------------------------------------------------

fn top(w: &ConcW) -> BoxedStrategy<T> {
    let h = || 0u8..6;
    let s = || 0u8..4;
    let all: Vec<(u32, BoxedStrategy<T>)> = vec![
        (3, Just(T::New).boxed()),
        (1, Just(T::NewLeaf).boxed()),
        (6, h().prop_map(T::Clone).boxed()),
        (14, h().prop_map(T::Drop).boxed()),
        (8, (h(), s(), h()).prop_map(|(a, b, c)| T::Link(a, b, c)).boxed()),
        (5, (h(), s(), h()).prop_map(|(a, b, c)| T::LinkMove(a, b, c)).boxed()),
        (5, (h(), s(), any::<bool>()).prop_map(|(a, b, c)| T::Unlink(a, b, c)).boxed()),
        (6, (h(), s()).prop_map(|(a, b)| T::Take(a, b)).boxed()),
        (5, (h(), s()).prop_map(|(a, b)| T::CloneOut(a, b)).boxed()),
        (3, (h(), s()).prop_map(|(a, b)| T::Peek(a, b)).boxed()),
        (4, (h(), s(), h(), s()).prop_map(|(a, b, c, d)| T::MoveEdge(a, b, c, d)).boxed()),
        (4, (s(), h()).prop_map(|(a, b)| T::Publish(a, b)).boxed()),
        (4, s().prop_map(T::Fetch).boxed()),
        (2, s().prop_map(T::Look).boxed()),
        (4, s().prop_map(T::Steal).boxed()),
        (3, h().prop_map(T::Deref).boxed()),
        (4, h().prop_map(T::Cache).boxed()),
        (2, (h(), s()).prop_map(|(a, b)| T::Reach(a, b)).boxed()),
        (3, (h(), s()).prop_map(|(a, b)| T::CloneFixed(a, b)).boxed()),
        (w.hold, (h(), s()).prop_map(|(a, b)| T::Hold(a, b)).boxed()),
        (w.hold, (h(), s()).prop_map(|(a, b)| T::HeldPut(a, b)).boxed()),
        (w.hold, s().prop_map(T::HeldTake).boxed()),
        (w.hold, s().prop_map(T::HeldClone).boxed()),
        (w.hold / 2, Just(T::Release).boxed()),
        (12, Just(T::Collect).boxed()),
        (2, (1u8..4).prop_map(T::Own).boxed()),
        (2, Just(T::DropAll).boxed()),
    ];
    weighted(all)
}

#[derive(Clone, Copy)]
pub struct ConcW {
    pub hold: u32,
    pub maxops: usize,
    pub threads: usize,
    pub conds: bool,
}

fn setup(threads: usize) -> BoxedStrategy<Setup> {
    (1u8..5)
        .prop_flat_map(move |nodes| {
            (
                Just(nodes),
                prop::collection::vec((0..nodes, 0..nodes), 0..3),
                prop::collection::vec((0..nodes, 0u8..2, 0..nodes), 0..7),
                any::<u8>(),
                any::<u8>(),
                prop::collection::vec(prop::option::of(0..nodes), 2),
                prop::collection::vec(prop::collection::vec(0..nodes, 0..3), threads),
            )
        })
        .prop_map(|(nodes, fixed, edges, leaves, dirty, slots, handles)| Setup {
            nodes,
            fixed,
            edges,
            leaves: leaves & leaves >> 3,
            acts: vec![],
            dirty,
            slots,
            handles,
        })
        .boxed()
}

pub fn case(w: ConcW) -> BoxedStrategy<ConcCase> {
    (2..=w.threads)
        .prop_flat_map(move |n| {
            (
                setup(n),
                prop::collection::vec(prop::collection::vec(top(&w), 1..w.maxops), n),
                0u8..n as u8,
                if w.conds {
                    prop_oneof![
                        4 => Just(Cond::Never),
                        2 => Just(Cond::Always),
                        1 => Just(Cond::Default),
                        2 => (1u8..5).prop_map(Cond::Every),
                        1 => any::<u32>().prop_map(Cond::Script),
                    ]
                    .boxed()
                } else {
                    Just(Cond::Never).boxed()
                },
                any::<u64>(),
            )
        })
        .prop_map(|(setup, progs, first, cond, hash)| ConcCase { setup, progs, first, cond, hash, sched: vec![], more: vec![] })
        .boxed()
}

/// A few values known to the collector, one thread that collects, and others that use references
/// from before.
pub fn races(threads: usize) -> BoxedStrategy<ConcCase> {
    let h = || 0u8..4;
    let s = || 0u8..4;
    let op = weighted(vec![
        (4, (h(), s()).prop_map(|(a, b)| T::Take(a, b)).boxed()),
        (6, (h(), s(), h(), s()).prop_map(|(a, b, c, d)| T::MoveEdge(a, b, c, d)).boxed()),
        (4, (h(), s()).prop_map(|(a, b)| T::CloneOut(a, b)).boxed()),
        (3, (h(), s(), h()).prop_map(|(a, b, c)| T::Link(a, b, c)).boxed()),
        (3, (h(), s(), h()).prop_map(|(a, b, c)| T::LinkMove(a, b, c)).boxed()),
        (2, (h(), s(), any::<bool>()).prop_map(|(a, b, c)| T::Unlink(a, b, c)).boxed()),
        (6, h().prop_map(T::Drop).boxed()),
        (2, h().prop_map(T::Clone).boxed()),
        (2, (h(), s()).prop_map(|(a, b)| T::CloneFixed(a, b)).boxed()),
        (2, h().prop_map(T::Deref).boxed()),
        (3, h().prop_map(T::Cache).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::Reach(a, b)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::Peek(a, b)).boxed()),
        (1, (s(), h()).prop_map(|(a, b)| T::Publish(a, b)).boxed()),
        (1, s().prop_map(T::Fetch).boxed()),
        (1, s().prop_map(T::Look).boxed()),
        (1, s().prop_map(T::Steal).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::Hold(a, b)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::HeldPut(a, b)).boxed()),
        (1, s().prop_map(T::HeldTake).boxed()),
        (1, Just(T::Release).boxed()),
        (1, Just(T::Collect).boxed()),
        (1, (1u8..3).prop_map(T::Own).boxed()),
    ]);
    (1u8..4, 2..=threads)
        .prop_flat_map(move |(nodes, n)| {
            (
                Just(nodes),
                prop::collection::vec((0..nodes, 0..nodes), 0..2),
                prop::collection::vec((0..nodes, 0u8..2, 0..nodes), 1..6),
                prop_oneof![3 => Just(0xffu8), 1 => any::<u8>()],
                prop::collection::vec(prop::option::weighted(0.2, 0..nodes), 2),
                prop::collection::vec((prop::collection::vec(0..nodes, 1..4), 0u8..8, prop::collection::vec(op.clone(), 1..5)), n - 1),
                (any::<bool>(), 1usize..3, 0..n as u8),
                any::<u64>(),
            )
        })
        .prop_map(|(nodes, fixed, edges, dirty, slots, users, (own, collects, first), hash)| {
            let mut handles = vec![if own { vec![0] } else { vec![] }];
            let mut progs = vec![vec![T::Collect; collects]];
            if own {
                progs[0].insert(0, T::Drop(0));
            }
            for (hs, cache, ops) in users {
                let mut p: Vec<T> = (0..hs.len() as u8).filter(|i| cache >> i & 1 == 1).map(T::Cache).collect();
                p.extend(ops);
                progs.push(p);
                handles.push(hs);
            }
            ConcCase {
                setup: Setup { nodes, fixed, edges, leaves: 0, acts: vec![], dirty, slots, handles },
                progs,
                first,
                cond: Cond::Never,
                hash,
                sched: vec![],
                more: vec![],
            }
        })
        .boxed()
}

/// The smallest programs: one thread collects, while another, which took references to one or two
/// of the values before, moves pointers about.
pub fn tight() -> BoxedStrategy<ConcCase> {
    let h = || prop_oneof![4 => 0u8..3, 1 => 3u8..5];
    let s = || prop_oneof![6 => 0u8..2, 1 => 2u8..4];
    let op = weighted(vec![
        (3, (h(), s(), h(), s()).prop_map(|(a, b, c, d)| T::MoveEdge(a, b, c, d)).boxed()),
        (3, (h(), s()).prop_map(|(a, b)| T::CloneOut(a, b)).boxed()),
        (4, (h(), s(), h()).prop_map(|(a, b, c)| T::LinkMove(a, b, c)).boxed()),
        (2, (h(), s()).prop_map(|(a, b)| T::Take(a, b)).boxed()),
        (3, h().prop_map(T::Drop).boxed()),
        (3, h().prop_map(T::Clone).boxed()),
        (1, (h(), s(), h()).prop_map(|(a, b, c)| T::Link(a, b, c)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::CloneFixed(a, b)).boxed()),
        (2, (h(), prop_oneof![3 => Just(1u8), 1 => Just(0u8)]).prop_map(|(a, b)| T::Peek(a, b)).boxed()),
        (1, (h(), s(), any::<bool>()).prop_map(|(a, b, c)| T::Unlink(a, b, c)).boxed()),
    ]);
    // the other half of the programs get hold of a new pointer and put away those they had
    let fresh = prop_oneof![
        h().prop_map(T::Clone),
        (h(), s()).prop_map(|(a, b)| T::CloneOut(a, b)),
        (h(), s()).prop_map(|(a, b)| T::Take(a, b)),
    ];
    let hide = (
        prop::collection::vec(fresh, 1..3),
        prop::collection::vec((h(), s(), prop::option::weighted(0.2, op.clone())), 2),
        prop::collection::vec((any::<bool>(), h()), 0..3),
    )
        .prop_map(|(mut v, away, rest)| {
            for (h, s, between) in away {
                v.extend(between);
                v.push(T::LinkMove(h + 1, s, 0));
            }
            for (twice, h) in rest {
                v.push(T::Clone(h));
                if twice {
                    v.push(T::Drop(h + 1));
                }
            }
            v
        });
    let ops = prop_oneof![prop::collection::vec(op, 1..5).boxed(), hide.boxed()];
    prop_oneof![3 => Just(1u8), 5 => Just(2u8), 2 => Just(3u8)]
        .prop_flat_map(move |nodes| {
            (
                Just(nodes),
                prop_oneof![
                    2 => prop::collection::vec((0..nodes, 0..nodes), 0..2),
                    1 => Just((1..nodes).map(|i| (i, i - 1)).collect::<Vec<_>>()),
                ],
                (any::<bool>(), any::<u8>(), prop::collection::vec((0..nodes, 0u8..2, 0..nodes), 0..4)),
                prop_oneof![1 => Just(0xffu8), 1 => any::<u8>()],
                (
                    prop::collection::vec(0..nodes, 1..3),
                    prop_oneof![1 => 0u8..4, 1 => Just(3u8)],
                    prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((0u8..3, 0u8..2), 1..3), 1 => Just(vec![(0, 0), (1, 0)])],
                    ops.clone(),
                ),
                any::<u64>(),
            )
        })
        .prop_map(|(nodes, fixed, (ring, slots, mut edges), dirty, (hs, cache, reach, ops), hash)| {
            if ring || edges.is_empty() {
                edges.splice(0..0, (0..nodes).map(|i| (i, slots >> i & 1, (i + 1) % nodes)));
            }
            let mut p: Vec<T> = (0..hs.len() as u8).filter(|i| cache >> i & 1 == 1).map(T::Cache).collect();
            p.extend(reach.into_iter().map(|(h, k)| T::Reach(h, k)));
            p.extend(ops);
            ConcCase {
                setup: Setup { nodes, fixed, edges, leaves: 0, acts: vec![], dirty, slots: vec![], handles: vec![vec![], hs] },
                progs: vec![vec![T::Collect], p],
                first: 1,
                cond: Cond::Never,
                hash,
                sched: vec![],
                more: vec![],
            }
        })
        .boxed()
}

/// Programs whose threads exit with pointers in a thread-local variable, which may be destroyed before or
/// after those of the library.
pub fn keeping(programs: BoxedStrategy<ConcCase>) -> BoxedStrategy<ConcCase> {
    let keep = || prop::collection::vec((0u8..8, 0u8..6), 0..3);
    (programs, prop::collection::vec((any::<bool>(), keep(), any::<bool>()), 4))
        .prop_map(|(mut c, v)| {
            for (p, (first, keeps, again)) in c.progs.iter_mut().zip(v) {
                for (at, h) in keeps {
                    p.insert(at as usize % (p.len() + 1), T::Keep(h));
                }
                if again {
                    p.push(T::Keep(0));
                }
                if first {
                    p.insert(0, T::Keep(255));
                }
            }
            c
        })
        .boxed()
}

/// Programs whose threads also have unsync values which own sync pointers.
pub fn mixing(programs: BoxedStrategy<ConcCase>) -> BoxedStrategy<ConcCase> {
    let op = weighted(vec![
        (4, (0u8..6, any::<bool>()).prop_map(|(h, two)| T::Hide(h, two)).boxed()),
        (2, (0u8..3).prop_map(T::Unhide).boxed()),
        (3, (0u8..3).prop_map(T::Forgo).boxed()),
        (3, Just(T::CollectUnsync).boxed()),
    ]);
    let some = (any::<u8>(), 0u8..6, any::<bool>(), prop::collection::vec((any::<u8>(), op), 0..5));
    (programs, prop::collection::vec(some, 4))
        .prop_map(|(mut c, v)| {
            for (p, (kind, h, two, ops)) in c.progs.iter_mut().zip(v) {
                // operations after the references were taken
                let from = p.iter().take_while(|t| matches!(t, T::Cache(_) | T::Reach(..))).count();
                for (at, op) in ops {
                    let at = from + at as usize % (p.len() - from + 1);
                    p.insert(at, op);
                }
                if kind % 2 == 0 {
                    p.extend([T::Hide(h, two), T::Forgo(h), T::CollectUnsync]);
                }
            }
            c
        })
        .boxed()
}

/// Programs in which the destructors of values act.
pub fn acting(programs: BoxedStrategy<ConcCase>, panic: bool) -> BoxedStrategy<ConcCase> {
    let s = || 0u8..3;
    let act = weighted(vec![
        (2, Just(A::Nothing).boxed()),
        (2, Just(A::Look).boxed()),
        (3, s().prop_map(A::Rescue).boxed()),
        (2, s().prop_map(A::Leave).boxed()),
        (2, s().prop_map(A::Ring).boxed()),
        (1, s().prop_map(A::Wrap).boxed()),
        (2, s().prop_map(A::Empty).boxed()),
        (1, Just(A::Collect).boxed()),
        (if panic { 8 } else { 0 }, Just(A::Panic).boxed()),
    ]);
    let end = prop_oneof![
        2 => Just(vec![]),
        2 => Just(vec![T::DropAll]),
        3 => Just(vec![T::DropAll, T::Collect]),
        1 => Just(vec![T::DropAll, T::Collect, T::Fetch(0), T::Fetch(1)]),
    ];
    (programs, prop::collection::vec(act, 4), any::<u8>(), any::<u8>(), prop::collection::vec(end, 4))
        .prop_map(|(mut c, acts, slots, put, ends)| {
            for (p, e) in c.progs.iter_mut().zip(ends) {
                p.extend(e);
            }
            // programs without slots get one or two
            if c.setup.slots.is_empty() {
                let n = c.setup.nodes;
                c.setup.slots = (0..1 + (slots & 1)).map(|i| (slots >> (i + 2) & 1 == 1).then_some(slots / 16 % n)).collect();
            }
            // some of the values made by the program act, too
            let mut k = put;
            for t in c.progs.iter_mut().flatten() {
                if matches!(t, T::New | T::NewLeaf) {
                    *t = T::NewAct(acts[k as usize % acts.len()]);
                    k = k.wrapping_add(1);
                }
            }
            c.setup.acts = acts;
            c
        })
        .boxed()
}

/// Schedules for [`tight`]: the collection starts once the references were taken, or within the
/// operations after that; is interrupted at each of its coarse points; and may then be resumed once more.
pub fn tight_variants(c: &ConcCase, o: &Out, rng: &mut Rng) -> Vec<ConcCase> {
    let (steps, coarse) = (o.extra >> 32, o.extra & 0xffff_ffff);
    let cached = c.progs[1].iter().take_while(|t| matches!(t, T::Cache(_) | T::Reach(..))).count() as u64;
    let p = |n: u64| (n as u16, sched::COARSE);
    let mut v: Vec<Vec<(u16, u8)>> = (0..coarse.min(30)).map(|b| vec![p(cached), p(b)]).collect();
    for _ in 0..16 {
        v.push(vec![p(cached), (rng.below(steps) as u16, 0)]);
    }
    for _ in 0..12 {
        v.push(vec![p(cached), p(rng.below(coarse)), p(rng.below(8))]);
        v.push(vec![p(cached + rng.below(coarse)), p(rng.below(coarse))]);
        v.push(vec![p(cached), p(rng.below(coarse)), p(rng.below(8)), p(rng.below(8))]);
        v.push(vec![(rng.below(steps) as u16, 0), (rng.below(steps) as u16, 0)]);
    }
    // the collection starts after the library has loaded something for the program
    let loads = c.progs[1].len() as u64 + 2;
    for _ in 0..24 {
        v.push(vec![((cached + rng.below(loads - cached)) as u16, sched::LOADED), p(rng.below(coarse))]);
    }
    batches(c, v)
}

/// As [`tight`], with a third thread which does one or two things more, to values in the slots.
pub fn tight3() -> BoxedStrategy<ConcCase> {
    let h = || 0u8..3;
    let s = || 0u8..2;
    let other = weighted(vec![
        (4, Just(T::Look(0)).boxed()),
        (2, Just(T::Fetch(0)).boxed()),
        (1, Just(T::Steal(0)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::Peek(a, b)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::CloneOut(a, b)).boxed()),
        (1, (h(), s()).prop_map(|(a, b)| T::Take(a, b)).boxed()),
        (1, (h(), s(), h(), s()).prop_map(|(a, b, c, d)| T::MoveEdge(a, b, c, d)).boxed()),
        (2, h().prop_map(T::Drop).boxed()),
        (1, h().prop_map(T::Clone).boxed()),
        (1, h().prop_map(T::Deref).boxed()),
        (1, Just(T::Collect).boxed()),
    ]);
    // take the pointer out of the slot and put it away
    let away = (h(), s(), any::<bool>()).prop_map(|(h, s, drop)| {
        let mut v = vec![T::Fetch(0), T::Cache(h), T::Steal(0), T::LinkMove(h, s, h + 1)];
        if drop {
            v.push(T::Drop(h));
        }
        v
    });
    (tight(), any::<u8>(), prop::option::weighted(0.6, away), prop::collection::vec(other, 1..3), any::<u8>(), any::<u8>())
        .prop_map(|(mut c, slot, away, other, hs, keep)| {
            c.setup.slots = vec![Some(slot % c.setup.nodes)];
            c.setup.handles.push(if hs & 3 == 0 { vec![hs / 4 % c.setup.nodes] } else { vec![] });
            if let Some(v) = away {
                c.progs[1] = v;
                c.setup.handles[1].truncate(usize::from(keep & 3 == 0));
            }
            c.progs.push(other);
            c.first = 2;
            c
        })
        .boxed()
}

/// Schedules for [`tight3`]: the third thread is stopped within an operation, mostly after a load; a collection
/// starts and is stopped; the second thread goes on; and so on.
pub fn tight3_variants(c: &ConcCase, o: &Out, rng: &mut Rng) -> Vec<ConcCase> {
    let (steps, coarse) = (o.extra >> 32, o.extra & 0xffff_ffff);
    let mut v = Vec::new();
    for _ in 0..100 {
        let mut s = vec![match rng.below(4) {
            0 => (rng.below(steps.min(20)) as u16, 0),
            1 => (rng.below(6) as u16, sched::COARSE),
            _ => (rng.below(3) as u16, sched::LOADED),
        }];
        if rng.below(4) == 0 {
            // the second thread first
            s[0].1 |= 1;
            s.push((rng.below(5) as u16, sched::COARSE));
        }
        // the collection, until the second thread goes on
        s.push((rng.below(coarse.min(16)) as u16, sched::COARSE));
        for i in 0..1 + rng.below(4) {
            let (n, to) = (rng.below(if i == 0 { 8 } else { 4 }) as u16, rng.below(2) as u8);
            s.push((n, to | if rng.below(4) == 0 { 0 } else { sched::COARSE }));
        }
        v.push(s);
    }
    batches(c, v)
}

/// Schedules that are tried in one process.
const BATCH: usize = 100;

/// Schedules for a program: single preemptions at evenly many points (all, if few), pairs of
/// preemptions at coarse points (all, if few), then random sequences.
pub fn variants(c: &ConcCase, o: &Out, rng: &mut Rng) -> Vec<ConcCase> {
    const SINGLES: u64 = 60;
    const PAIRS: u64 = 80;
    const RANDOM: u64 = 60;
    let (steps, coarse) = (o.extra >> 32, o.extra & 0xffff_ffff);
    let targets = c.progs.len() as u64 - 1;
    let mut v = Vec::new();
    let every = (steps * targets).div_ceil(SINGLES).max(1);
    let mut i = rng.below(every);
    while i < steps * targets {
        v.push(vec![((i / targets) as u16, (i % targets) as u8)]);
        i += every;
    }
    // the second thread has as many points again
    let pairs = coarse * coarse * targets * targets;
    let pair = |x: u64| {
        let (a, x) = (x % coarse, x / coarse);
        let (b, x) = (x % coarse, x / coarse);
        vec![(a as u16, (x % targets) as u8 | sched::COARSE), (b as u16, (x / targets) as u8 | sched::COARSE)]
    };
    if pairs <= PAIRS {
        v.extend((0..pairs).map(pair));
    } else {
        v.extend((0..PAIRS).map(|_| pair(rng.below(pairs))));
    }
    for _ in 0..RANDOM {
        let mut s = Vec::new();
        for i in 0..2 + rng.below(4) {
            let to = rng.below(targets) as u8;
            // mostly short gaps after the first
            let short = i > 0 && rng.below(3) > 0;
            let kind = rng.below(5);
            if kind < 2 {
                s.push((rng.below(if short { 5 } else { coarse }) as u16, to | sched::COARSE));
            } else if kind == 2 {
                s.push((rng.below(if short { 3 } else { coarse }) as u16, to | sched::LOADED));
            } else {
                s.push((rng.below(if short { 12 } else { steps }) as u16, to));
            }
        }
        v.push(s);
    }
    batches(c, v)
}

fn batches(c: &ConcCase, v: Vec<Vec<(u16, u8)>>) -> Vec<ConcCase> {
    v.chunks(BATCH).map(|b| ConcCase { sched: b[0].clone(), more: b[1..].to_vec(), ..c.clone() }).collect()
}

pub fn shrink(c: &ConcCase) -> Vec<ConcCase> {
    let mut out = Vec::new();
    if !c.more.is_empty() {
        // the place of the values in memory decides the order in which they are examined, so that a
        // schedule may need another seed when it is the first
        for i in 0..6 {
            for sched in std::iter::once(&c.sched).chain(&c.more) {
                out.push(ConcCase { sched: sched.clone(), more: vec![], hash: c.hash.wrapping_add(i * 2), ..c.clone() });
            }
        }
        for more in shrink_vec(&c.more) {
            out.push(ConcCase { more, ..c.clone() });
        }
        return out;
    }
    if c.progs.len() > 2 {
        for i in 0..c.progs.len() {
            let mut d = c.clone();
            d.progs.remove(i);
            if i < d.setup.handles.len() {
                d.setup.handles.remove(i);
            }
            out.push(d);
        }
    }
    for sched in shrink_vec(&c.sched) {
        out.push(ConcCase { sched, ..c.clone() });
    }
    for i in 0..c.progs.len() {
        for p in shrink_vec(&c.progs[i]) {
            let mut d = c.clone();
            d.progs[i] = p;
            // removing operations moves the preemption point: try a few positions
            for delta in [0i32, 1, 2, 3, 5, 8, 12, 20] {
                let mut e = d.clone();
                if let Some(f) = e.sched.first_mut() {
                    if delta > f.0 as i32 {
                        continue;
                    }
                    f.0 -= delta as u16;
                } else if delta > 0 {
                    continue;
                }
                out.push(e);
            }
        }
    }
    for edges in shrink_vec(&c.setup.edges) {
        let mut d = c.clone();
        d.setup.edges = edges;
        out.push(d);
    }
    for fixed in shrink_vec(&c.setup.fixed) {
        let mut d = c.clone();
        d.setup.fixed = fixed;
        out.push(d);
    }
    for i in 0..c.setup.handles.len() {
        for h in shrink_vec(&c.setup.handles[i]) {
            let mut d = c.clone();
            d.setup.handles[i] = h;
            out.push(d);
        }
    }
    for i in 0..c.setup.slots.len() {
        if c.setup.slots[i].is_some() {
            let mut d = c.clone();
            d.setup.slots[i] = None;
            out.push(d);
        }
    }
    for i in 0..c.setup.acts.len() {
        if c.setup.acts[i] != A::Nothing {
            let mut d = c.clone();
            d.setup.acts[i] = A::Nothing;
            out.push(d);
        }
    }
    if c.setup.leaves != 0 {
        let mut d = c.clone();
        d.setup.leaves = 0;
        out.push(d);
    }
    if c.setup.nodes > 1 {
        let mut d = c.clone();
        d.setup.nodes -= 1;
        out.push(d);
    }
    if c.cond != Cond::Never {
        out.push(ConcCase { cond: Cond::Never, ..c.clone() });
    }
    for i in 0..c.sched.len() {
        for x in [c.sched[i].0 / 2, c.sched[i].0.saturating_sub(8), c.sched[i].0.saturating_sub(1)] {
            if x < c.sched[i].0 {
                let mut d = c.clone();
                d.sched[i].0 = x;
                out.push(d);
            }
        }
    }
    out
}
