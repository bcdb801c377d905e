// Included once per collector, in a module that defines:
//   gcm (the collector's module), Lk1 and Lk2 (cell types), SYNC, and the trait impls of `Lock`.

use crate::arena;
use crate::reg::{self, Hdr};
use crate::runner::{fail, Out, Res};
use crate::seqop::{Cond, Op, SeqCase};
use dumpster::Collectable;
use gcm::{CollectInfo, Gc};
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

#[derive(Collectable)]
pub struct A {
    s0: Lk1<Vec<Any>>,
    hdr: Hdr,
    s1: Lk2<Option<Any>>,
}
#[derive(Collectable)]
#[repr(align(64))]
pub struct B {
    hdr: Hdr,
    s0: Lk2<VecDeque<Any>>,
    s1: Lk1<BTreeMap<u32, Any>>,
    pad: [u8; 70],
}
#[derive(Collectable)]
pub struct C {
    fixed: Vec<Any>,
    s0: Lk1<Vec<Any>>,
    hdr: Hdr,
}
#[derive(Collectable)]
pub struct L {
    hdr: Hdr,
    text: String,
}
#[derive(Collectable)]
pub enum Any {
    A(Gc<A>),
    B(Gc<B>),
    C { gc: Gc<C> },
    L(Gc<L>),
    #[cfg(feature = "unsized")]
    D(Gc<dyn NodeObj>),
    #[cfg(feature = "unsized")]
    S(Gc<[Cellular]>),
}
pub const KINDS: u8 = 4;

static CREATED: AtomicU64 = AtomicU64::new(0);
static COND_MODE: AtomicU32 = AtomicU32::new(0);
static COND_ARG: AtomicU32 = AtomicU32::new(0);
static COND_CALLS: AtomicU32 = AtomicU32::new(0);
static COND_TRUES: AtomicU32 = AtomicU32::new(0);
static SEEN_EXISTING: AtomicUsize = AtomicUsize::new(0);
static SEEN_DROPPED: AtomicUsize = AtomicUsize::new(0);

fn condition(info: &CollectInfo) -> bool {
    SEEN_EXISTING.store(info.n_gcs_existing(), SeqCst);
    SEEN_DROPPED.store(info.n_gcs_dropped_since_last_collect(), SeqCst);
    let n = COND_CALLS.fetch_add(1, SeqCst);
    let arg = COND_ARG.load(SeqCst);
    let r = match COND_MODE.load(SeqCst) {
        0 => false,
        1 => true,
        2 => gcm::default_collect_condition(info),
        3 => n % arg == arg - 1,
        _ => arg >> (n % 32) & 1 == 1,
    };
    if r {
        COND_TRUES.fetch_add(1, SeqCst);
    }
    r
}

fn set_cond(c: Cond) {
    let (m, a) = match c {
        Cond::Never => (0, 0),
        Cond::Always => (1, 0),
        Cond::Default => (2, 0),
        Cond::Every(n) => (3, n.max(1) as u32),
        Cond::Script(x) => (4, x),
    };
    COND_MODE.store(m, SeqCst);
    COND_ARG.store(a, SeqCst);
}

trait Coll {
    fn put(&mut self, a: Any) -> Option<Any>;
    fn take(&mut self, k: usize) -> Option<Any>;
    fn items(&self) -> Vec<&Any>;
}
impl Coll for Vec<Any> {
    fn put(&mut self, a: Any) -> Option<Any> {
        self.push(a);
        None
    }
    fn take(&mut self, k: usize) -> Option<Any> {
        (!self.is_empty()).then(|| self.remove(k % self.len()))
    }
    fn items(&self) -> Vec<&Any> {
        self.iter().collect()
    }
}
impl Coll for VecDeque<Any> {
    fn put(&mut self, a: Any) -> Option<Any> {
        self.push_back(a);
        None
    }
    fn take(&mut self, k: usize) -> Option<Any> {
        (!self.is_empty()).then(|| self.remove(k % self.len()).unwrap())
    }
    fn items(&self) -> Vec<&Any> {
        self.iter().collect()
    }
}
impl Coll for Option<Any> {
    fn put(&mut self, a: Any) -> Option<Any> {
        self.replace(a)
    }
    fn take(&mut self, _: usize) -> Option<Any> {
        Option::take(self)
    }
    fn items(&self) -> Vec<&Any> {
        self.iter().collect()
    }
}
impl Coll for BTreeMap<u32, Any> {
    fn put(&mut self, a: Any) -> Option<Any> {
        let k = self.keys().last().map_or(0, |k| k + 1);
        self.insert(k, a)
    }
    fn take(&mut self, k: usize) -> Option<Any> {
        let n = self.len();
        let key = *self.keys().nth(if n == 0 { 0 } else { k % n })?;
        self.remove(&key)
    }
    fn items(&self) -> Vec<&Any> {
        self.values().collect()
    }
}

/// A cell with interior mutability, of any of the kinds used by the nodes.
trait Lock<T> {
    fn w<R>(&self, f: impl FnOnce(&mut T) -> R) -> Option<R>;
    fn r<R>(&self, f: impl FnOnce(&T) -> R) -> Option<R>;
    fn hold_mut<'a>(&'a self) -> Option<Box<dyn Held + 'a>>;
    fn hold_shared<'a>(&'a self) -> Option<Box<dyn Held + 'a>>;
}
pub trait Held {}
impl<T: ?Sized> Held for T {}

trait Slot {
    fn put(&self, a: Any) -> Result<Option<Any>, Any>;
    fn take(&self, k: usize, inside: bool) -> Option<Option<Any>>;
    fn clone_at(&self, k: usize) -> Option<Any>;
    fn ids(&self) -> Option<Vec<u32>>;
    fn each(&self, f: &mut dyn FnMut(&Any));
    fn clear(&self, inside: bool) -> bool;
    fn hold<'a>(&'a self, mutably: bool) -> Option<Box<dyn Held + 'a>>;
}
struct SlotRef<'a, T, K: Lock<T>>(&'a K, std::marker::PhantomData<T>);
impl<'x, T: Coll, K: Lock<T>> Slot for SlotRef<'x, T, K> {
    fn put(&self, a: Any) -> Result<Option<Any>, Any> {
        let mut a = Some(a);
        match self.0.w(|t| t.put(Option::take(&mut a).unwrap())) {
            Some(o) => Ok(o),
            None => Err(a.unwrap()),
        }
    }
    fn take(&self, k: usize, inside: bool) -> Option<Option<Any>> {
        self.0.w(|t| {
            let a = t.take(k)?;
            if inside {
                drop(a);
                Some(None)
            } else {
                Some(Some(a))
            }
        })?
    }
    fn clone_at(&self, k: usize) -> Option<Any> {
        self.0.r(|t| {
            let v = t.items();
            (!v.is_empty()).then(|| v[k % v.len()].dup())
        })?
    }
    fn ids(&self) -> Option<Vec<u32>> {
        self.0.r(|t| t.items().iter().map(|a| a.id()).collect())
    }
    fn each(&self, f: &mut dyn FnMut(&Any)) {
        self.0.r(|t| t.items().into_iter().for_each(|a| f(a)));
    }
    fn clear(&self, inside: bool) -> bool {
        let mut kept = Vec::new();
        let done = self.0.w(|t| {
            while let Some(a) = t.take(0) {
                if inside {
                    drop(a);
                } else {
                    kept.push(a);
                }
            }
        });
        done.is_some()
    }
    fn hold<'a>(&'a self, mutably: bool) -> Option<Box<dyn Held + 'a>> {
        if mutably {
            self.0.hold_mut()
        } else {
            self.0.hold_shared()
        }
    }
}
fn slot<T: Coll + 'static, K: Lock<T>>(k: &K) -> Box<dyn Slot + '_> {
    Box::new(SlotRef(k, std::marker::PhantomData))
}

impl Any {
    fn dup(&self) -> Any {
        let _n = CREATED.fetch_add(1, SeqCst);
        // sometimes the clone refers to the value by another type
        #[cfg(feature = "unsized")]
        if _n % 3 == 0 {
            return self.dup_as_is().erase();
        }
        self.dup_as_is()
    }
    fn dup_as_is(&self) -> Any {
        match self {
            Any::A(g) => Any::A(g.clone()),
            Any::B(g) => Any::B(Gc::clone(g)),
            Any::C { gc } => Any::C { gc: Gc::try_clone(gc).expect("ORACLE: try_clone of a live pointer") },
            Any::L(g) => Any::L(g.clone()),
            #[cfg(feature = "unsized")]
            Any::D(g) => Any::D(g.clone()),
            #[cfg(feature = "unsized")]
            Any::S(g) => Any::S(g.clone()),
        }
    }
    fn hdr(&self) -> &Hdr {
        match self {
            Any::A(g) => &g.hdr,
            Any::B(g) => &g.hdr,
            Any::C { gc } => &Gc::try_deref(gc).expect("ORACLE: try_deref of a live pointer").hdr,
            Any::L(g) => &g.hdr,
            #[cfg(feature = "unsized")]
            Any::D(g) => g.hdr(),
            #[cfg(feature = "unsized")]
            Any::S(g) => g[0].hdr.as_ref().unwrap(),
        }
    }
    fn id(&self) -> u32 {
        self.hdr().id
    }
    fn intact(&self) -> bool {
        self.hdr().ok()
            && match self {
                Any::B(g) => g.pad.iter().enumerate().all(|(i, &b)| b == (i as u8) ^ (g.hdr.id as u8)) && (&**g as *const B as usize) % 64 == 0,
                Any::L(g) => g.text == text(g.hdr.id),
                #[cfg(feature = "unsized")]
                Any::D(g) => g.intact(),
                #[cfg(feature = "unsized")]
                Any::S(g) => cells_intact(g),
                _ => true,
            }
    }
    fn slots(&self) -> Vec<Box<dyn Slot + '_>> {
        match self {
            Any::A(g) => vec![slot(&g.s0), slot(&g.s1)],
            Any::B(g) => vec![slot(&g.s0), slot(&g.s1)],
            Any::C { gc } => vec![slot(&gc.s0)],
            Any::L(_) => vec![],
            #[cfg(feature = "unsized")]
            Any::D(g) => g.slots(),
            #[cfg(feature = "unsized")]
            Any::S(g) => g.iter().map(|c| slot(&c.s)).collect(),
        }
    }
    fn fixed(&self) -> &[Any] {
        match self {
            Any::C { gc } => &gc.fixed,
            #[cfg(feature = "unsized")]
            Any::D(g) => g.fixed(),
            _ => &[],
        }
    }
    fn addr(&self) -> usize {
        match self {
            Any::A(g) => Gc::as_ptr(g) as usize,
            Any::B(g) => Gc::as_ptr(g) as usize,
            Any::C { gc } => Gc::as_ptr(gc) as usize,
            Any::L(g) => Gc::as_ptr(g) as usize,
            #[cfg(feature = "unsized")]
            Any::D(g) => Gc::as_ptr(g).cast::<u8>() as usize,
            #[cfg(feature = "unsized")]
            Any::S(g) => Gc::as_ptr(g).cast::<u8>() as usize,
        }
    }
}

#[cfg(feature = "unsized")]
include!("seq_unsized.rs");

fn text(id: u32) -> String {
    format!("leaf-{id}-{}", "x".repeat(id as usize % 7))
}

fn make(kind: u8, fixed: Vec<Any>) -> Any {
    CREATED.fetch_add(1, SeqCst);
    let hdr = Hdr::new();
    let id = hdr.id;
    let a = make_sized(kind, hdr, fixed);
    reg::set_addr(id, a.addr());
    a
}
fn make_sized(kind: u8, hdr: Hdr, fixed: Vec<Any>) -> Any {
    let id = hdr.id;
    match kind {
        0 => Any::A(Gc::new(A { s0: Lk1::new(Vec::new()), hdr, s1: Lk2::new(None) })),
        1 => {
            let mut pad = [0u8; 70];
            for (i, p) in pad.iter_mut().enumerate() {
                *p = (i as u8) ^ (id as u8);
            }
            Any::B(Gc::new(B { hdr, s0: Lk2::new(VecDeque::new()), s1: Lk1::new(BTreeMap::new()), pad }))
        }
        2 => Any::C { gc: Gc::new(C { fixed, s0: Lk1::new(Vec::new()), hdr }) },
        3 => Any::L(Gc::new(L { text: text(id), hdr })),
        #[cfg(feature = "unsized")]
        k => make_unsized(k, hdr, fixed),
        #[cfg(not(feature = "unsized"))]
        _ => unreachable!(),
    }
}
fn all_kinds() -> u8 {
    if cfg!(feature = "unsized") { KINDS + 6 } else { KINDS }
}

#[derive(Default, Clone)]
struct MNode {
    slots: Vec<Vec<u32>>,
    /// slots holding at most one element
    single: Vec<bool>,
    fixed: Vec<u32>,
}

struct HeldGuard {
    // dropped in this order
    _guard: Box<dyn Held>,
    a: Any,
    slot: usize,
    exclusive: bool,
}

pub struct State {
    handles: Vec<Any>,
    ids: Vec<u32>,
    held: Vec<HeldGuard>,
    m: Vec<MNode>,
    // statistics
    collected: usize,
    nonempty_collects: u32,
    n_held_collects: u32,
    // counters
    drops_at_collect: u64,
    slack: u64,
    base_existing: usize,
    base_dropped: usize,
    auto_collect_since: bool,
    probing: bool,
}
// guards are only moved between threads while nobody else runs
unsafe impl Send for State {}

impl State {
    pub fn new() -> State {
        State {
            handles: vec![],
            ids: vec![],
            held: vec![],
            m: vec![],
            collected: 0,
            nonempty_collects: 0,
            n_held_collects: 0,
            drops_at_collect: 0,
            slack: 0,
            base_existing: 0,
            base_dropped: 0,
            auto_collect_since: false,
            probing: false,
        }
    }

    fn add(&mut self, kind: u8, fixed: Vec<Any>) -> usize {
        let fids: Vec<u32> = fixed.iter().map(|a| a.id()).collect();
        let a = make(kind, fixed);
        let id = a.id();
        assert_eq!(id as usize, self.m.len());
        let (ns, single) = {
            let s = a.slots();
            (s.len(), kind_single(kind, s.len()))
        };
        let nf = a.fixed().len();
        self.m.push(MNode { slots: vec![vec![]; ns], single, fixed: fids[..nf].to_vec() });
        self.handles.push(a);
        self.ids.push(id);
        self.handles.len() - 1
    }

    fn reach(&self) -> Vec<bool> {
        let mut seen = vec![false; reg::count() as usize];
        let mut stack: Vec<u32> = self.ids.clone();
        stack.extend(self.held.iter().map(|h| self.held_id(h)));
        while let Some(i) = stack.pop() {
            if std::mem::replace(&mut seen[i as usize], true) {
                continue;
            }
            let n = &self.m[i as usize];
            stack.extend(n.slots.iter().flatten());
            stack.extend(&n.fixed);
        }
        seen
    }
    fn held_id(&self, h: &HeldGuard) -> u32 {
        h.a.id()
    }

    /// Nodes that counting alone destroys, given the nodes alive before.
    fn count_freed(&self, alive: &[bool]) -> Vec<bool> {
        let n = reg::count() as usize;
        let mut indeg = vec![0u32; n];
        for &i in &self.ids {
            indeg[i as usize] += 1;
        }
        for h in &self.held {
            indeg[self.held_id(h) as usize] += 1;
        }
        let is_alive = |i: usize| alive.get(i).copied().unwrap_or(true);
        for i in 0..n {
            if is_alive(i) {
                for &t in self.m[i].slots.iter().flatten().chain(&self.m[i].fixed) {
                    indeg[t as usize] += 1;
                }
            }
        }
        let mut freed = vec![false; n];
        let mut stack: Vec<usize> = (0..n).filter(|&i| indeg[i] == 0 && is_alive(i)).collect();
        while let Some(i) = stack.pop() {
            freed[i] = true;
            for &t in self.m[i].slots.iter().flatten().chain(&self.m[i].fixed) {
                indeg[t as usize] -= 1;
                if indeg[t as usize] == 0 {
                    stack.push(t as usize);
                }
            }
        }
        freed
    }

    /// Number of pointers in existence.
    fn existing(&self) -> u64 {
        let mut n = self.ids.len() as u64 + self.held.len() as u64;
        for (i, m) in self.m.iter().enumerate() {
            if reg::drops(i as u32) == 0 {
                n += m.slots.iter().map(|s| s.len() as u64).sum::<u64>() + m.fixed.len() as u64;
            }
        }
        n
    }

    fn excl(&self, id: u32, s: usize) -> bool {
        self.held.iter().any(|h| h.exclusive && h.slot == s && h.a.id() == id)
    }

    fn pick(&self, h: u16) -> Option<usize> {
        (!self.handles.is_empty()).then(|| h as usize % self.handles.len())
    }
    fn pick_slot(&self, h: u16, s: u8) -> Option<(usize, u32, usize)> {
        let h = self.pick(h)?;
        let id = self.ids[h];
        let n = self.m[id as usize].slots.len();
        (n > 0).then(|| (h, id, s as usize % n))
    }
    fn drop_handle(&mut self, i: usize) {
        self.ids.swap_remove(i);
        let a = self.handles.swap_remove(i);
        drop(a);
    }

    fn link(&mut self, h: usize, s: usize, a: Any) -> Res {
        let id = self.ids[h];
        let t = a.id();
        // the pointer being displaced (if any) leaves the graph first
        let single = self.m[id as usize].single[s];
        if self.is_locked(id, s) {
            drop(a);
            return Ok(());
        }
        if single {
            self.m[id as usize].slots[s].clear();
        }
        self.m[id as usize].slots[s].push(t);
        let r = self.handles[h].slots()[s].put(a);
        match r {
            Ok(displaced) => drop(displaced),
            Err(_) => return fail("harness", "slot unexpectedly locked"),
        }
        Ok(())
    }
    fn is_locked(&self, id: u32, s: usize) -> bool {
        // any guard, shared or not, forbids writing
        self.held.iter().any(|h| h.slot == s && h.a.id() == id)
    }

    pub fn exec(&mut self, op: Op) -> Res {
        match op {
            Op::New(k, x, y) => {
                let k = k % all_kinds();
                let mut fixed = Vec::new();
                if kind_fixed(k) {
                    for h in [x, y] {
                        if h % 3 != 0 {
                            if let Some(i) = self.pick(h) {
                                fixed.push(self.handles[i].dup());
                            }
                        }
                    }
                }
                self.add(k, fixed);
            }
            Op::Clone(h) => {
                if let Some(h) = self.pick(h) {
                    let a = self.handles[h].dup();
                    self.handles.push(a);
                    self.ids.push(self.ids[h]);
                }
            }
            Op::Drop(h) => {
                if let Some(h) = self.pick(h) {
                    self.drop_handle(h);
                }
            }
            Op::Link(h, s, t) => {
                if let (Some((h, _, s)), Some(t)) = (self.pick_slot(h, s), self.pick(t)) {
                    let a = self.handles[t].dup();
                    self.link(h, s, a)?;
                }
            }
            Op::LinkMove(h, s, t) => {
                if let (Some((h, id, s)), Some(t)) = (self.pick_slot(h, s), self.pick(t)) {
                    if h != t && !self.is_locked(id, s) {
                        let a = self.handles.swap_remove(t);
                        self.ids.swap_remove(t);
                        let h = if h == self.handles.len() { t } else { h };
                        let m = &mut self.m[id as usize];
                        if m.single[s] {
                            m.slots[s].clear();
                        }
                        m.slots[s].push(a.id());
                        let r = self.handles[h].slots()[s].put(a);
                        match r {
                            Ok(x) => drop(x),
                            Err(_) => return fail("harness", "slot unexpectedly locked"),
                        }
                    }
                }
            }
            Op::Unlink(h, s, k, inside) => {
                if let Some((h, id, s)) = self.pick_slot(h, s) {
                    let n = self.m[id as usize].slots[s].len();
                    if n > 0 && !self.is_locked(id, s) {
                        self.m[id as usize].slots[s].remove(k as usize % n);
                        let r = self.handles[h].slots()[s].take(k as usize, inside);
                        if r.is_none() {
                            return fail("content", "stored pointer is missing");
                        }
                        drop(r);
                    }
                }
            }
            Op::TakeOut(h, s, k) => {
                if let Some((h, id, s)) = self.pick_slot(h, s) {
                    let n = self.m[id as usize].slots[s].len();
                    if n > 0 && !self.is_locked(id, s) {
                        let t = self.m[id as usize].slots[s].remove(k as usize % n);
                        let r = self.handles[h].slots()[s].take(k as usize, false);
                        let Some(Some(a)) = r else {
                            return fail("content", "stored pointer is missing");
                        };
                        self.handles.push(a);
                        self.ids.push(t);
                    }
                }
            }
            Op::CloneOut(h, s, k) => {
                if let Some((h, id, s)) = self.pick_slot(h, s) {
                    let n = self.m[id as usize].slots[s].len();
                    if n > 0 && !self.excl(id, s) {
                        let t = self.m[id as usize].slots[s][k as usize % n];
                        let r = self.handles[h].slots()[s].clone_at(k as usize);
                        let Some(a) = r else {
                            return fail("content", "stored pointer is missing");
                        };
                        self.handles.push(a);
                        self.ids.push(t);
                    }
                }
            }
            Op::Clear(h, s, inside) => {
                if let Some((h, id, s)) = self.pick_slot(h, s) {
                    if !self.is_locked(id, s) {
                        self.m[id as usize].slots[s].clear();
                        if !self.handles[h].slots()[s].clear(inside) {
                            return fail("harness", "slot unexpectedly locked");
                        }
                    }
                }
            }
            Op::MoveEdge(h, s, k, h2, s2) => {
                if let (Some((h, id, s)), Some((h2, id2, s2))) = (self.pick_slot(h, s), self.pick_slot(h2, s2)) {
                    let n = self.m[id as usize].slots[s].len();
                    if n > 0 && (id, s) != (id2, s2) && !self.is_locked(id, s) && !self.is_locked(id2, s2) {
                        let t = self.m[id as usize].slots[s].remove(k as usize % n);
                        let m2 = &mut self.m[id2 as usize];
                        if m2.single[s2] {
                            m2.slots[s2].clear();
                        }
                        m2.slots[s2].push(t);
                        let r = self.handles[h].slots()[s].take(k as usize, false);
                        let Some(Some(a)) = r else {
                            return fail("content", "stored pointer is missing");
                        };
                        let r = self.handles[h2].slots()[s2].put(a);
                        match r {
                            Ok(x) => drop(x),
                            Err(_) => return fail("harness", "slot unexpectedly locked"),
                        }
                    }
                }
            }
            Op::Ring(n, k, mask) => {
                let k = slotted(k);
                let first = self.handles.len();
                for _ in 0..n {
                    self.add(k, vec![]);
                }
                for i in 0..n as usize {
                    let a = self.handles[first + (i + 1) % n as usize].dup();
                    let s = i % self.m[self.ids[first + i] as usize].slots.len();
                    self.link(first + i, s, a)?;
                }
                self.keep(first, n as usize, mask);
            }
            Op::Clique(n, mask) => {
                let first = self.handles.len();
                for _ in 0..n {
                    self.add(0, vec![]);
                }
                for i in 0..n as usize {
                    for j in 0..n as usize {
                        let a = self.handles[first + j].dup();
                        self.link(first + i, 0, a)?;
                    }
                }
                self.keep(first, n as usize, mask);
            }
            Op::Chain(n, k, head) => {
                let k = slotted(k);
                let first = self.handles.len();
                for _ in 0..n {
                    self.add(k, vec![]);
                }
                for i in 0..n as usize - 1 {
                    let a = self.handles[first + i + 1].dup();
                    self.link(first + i, 0, a)?;
                }
                self.keep(first, n as usize, if head { 1 } else { 1 << (n - 1).min(7) });
            }
            Op::DropMany(mask) => {
                let mut i = 0;
                let mut bit = 0;
                while i < self.handles.len() {
                    if mask >> (bit % 8) & 1 == 1 {
                        self.drop_handle(i);
                    } else {
                        i += 1;
                    }
                    bit += 1;
                }
            }
            Op::DropAll => {
                while !self.handles.is_empty() {
                    self.drop_handle(self.handles.len() - 1);
                }
            }
            Op::Collect | Op::CollectAll => self.collect(1),
            Op::CollectMany(n) => self.collect(n),
            Op::Cond(c) => {
                // each time another function
                gcm::set_collect_condition(if COND_CALLS.load(SeqCst) % 2 == 0 { condition } else { |i| condition(i) });
                set_cond(c);
            }
            Op::HoldMut(h, s) | Op::HoldShared(h, s) => {
                let exclusive = matches!(op, Op::HoldMut(..));
                if let Some((h, id, s)) = self.pick_slot(h, s) {
                    if !self.is_locked(id, s) && self.held.len() < 6 {
                        let a = self.handles[h].dup();
                        let g = a.slots()[s].hold(exclusive).map(|g| unsafe {
                            std::mem::transmute::<Box<dyn Held + '_>, Box<dyn Held + 'static>>(g)
                        });
                        let Some(g) = g else { return fail("harness", "could not lock") };
                        // cells without a shared mode are locked exclusively either way
                        let exclusive = exclusive || a.slots()[s].ids().is_none();
                        self.held.push(HeldGuard { _guard: g, a, slot: s, exclusive });
                    }
                }
            }
            Op::Release(i) => {
                if !self.held.is_empty() {
                    let i = i as usize % self.held.len();
                    let h = self.held.swap_remove(i);
                    drop(h);
                }
            }
            Op::ReleaseAll => {
                while let Some(h) = self.held.pop() {
                    drop(h);
                }
            }
            Op::Churn(n) => {
                for i in 0..n {
                    // values that disappear at once
                    let h = self.add(if i % 2 == 0 { 3 } else { 0 }, vec![]);
                    self.drop_handle(h);
                }
            }
            Op::Check => self.verify_contents()?,
            Op::Probe => self.probe()?,
            Op::Restart => {}
            Op::CloneMany(h, n) => {
                if let Some(h) = self.pick(h) {
                    for _ in 0..n {
                        let a = self.handles[h].dup();
                        self.handles.push(a);
                        self.ids.push(self.ids[h]);
                    }
                }
            }
            Op::LinkMany(h, s, t, n) => {
                if let (Some((h, id, s)), Some(t)) = (self.pick_slot(h, s), self.pick(t)) {
                    if !self.is_locked(id, s) && !self.m[id as usize].single[s] {
                        for _ in 0..n {
                            let a = self.handles[t].dup();
                            self.link(h, s, a)?;
                        }
                    }
                }
            }
            Op::Hub(n, extra, keep) => {
                let first = self.handles.len();
                self.add(0, vec![]);
                for _ in 0..n {
                    let i = self.add(0, vec![]);
                    let hub = self.handles[first].dup();
                    self.link(i, 1, hub)?;
                    if extra && i > first + 1 {
                        // and at the one before
                        let a = self.handles[i - 1].dup();
                        self.link(i, 0, a)?;
                    }
                }
                for i in 0..n as usize {
                    let a = self.handles[first + 1 + i].dup();
                    self.link(first, 0, a)?;
                }
                for i in (first..self.handles.len()).rev() {
                    let kept = i == first && keep & 1 != 0
                        || i == first + 1 && keep & 2 != 0
                        || i == first + n as usize && keep & 4 != 0;
                    if !kept {
                        self.drop_handle(i);
                    }
                }
            }
            Op::BigRing(n, k, keep) => {
                let k = slotted(k);
                let first = self.handles.len();
                for _ in 0..n {
                    self.add(k, vec![]);
                }
                for i in 0..n as usize {
                    let a = self.handles[first + (i + 1) % n as usize].dup();
                    self.link(first + i, 0, a)?;
                }
                while self.handles.len() > first + keep as usize {
                    self.drop_handle(self.handles.len() - 1);
                }
            }
        }
        Ok(())
    }

    fn keep(&mut self, first: usize, n: usize, mask: u8) {
        for i in (0..n).rev() {
            if mask >> (i % 8) & 1 == 0 {
                let j = first + i;
                self.ids.remove(j);
                let a = self.handles.remove(j);
                drop(a);
            }
        }
    }

    fn collect(&mut self, times: u32) {
        let before = self.existing();
        if !self.held.is_empty() {
            self.n_held_collects += 1;
        }
        for _ in 0..times {
            gcm::collect();
        }
        let after = self.existing();
        self.slack = before - after;
        self.drops_at_collect = CREATED.load(SeqCst) - after;
        self.auto_collect_since = false;
    }

    /// Read the counters by dropping a fresh pointer.
    fn probe(&mut self) -> Res {
        let calls = COND_CALLS.load(SeqCst);
        let n = self.existing();
        let d = CREATED.load(SeqCst) - n;
        let trues = COND_TRUES.load(SeqCst);
        self.add(3, vec![]);
        self.drop_handle(self.handles.len() - 1);
        if COND_TRUES.load(SeqCst) != trues {
            self.auto_collect_since = true;
        }
        if COND_CALLS.load(SeqCst) == calls {
            return Ok(()); // not consulted for this drop
        }
        let (e, dr) = (SEEN_EXISTING.load(SeqCst), SEEN_DROPPED.load(SeqCst));
        if !self.probing {
            // first probe: nothing else exists yet
            self.probing = true;
            self.base_existing = e;
            self.base_dropped = dr;
            if e > 1 || dr > 1 {
                return fail("counter", format!("first pointer of the process: n_gcs_existing {e}, dropped {dr}"));
            }
            return Ok(());
        }
        let we = n as usize + self.base_existing;
        if e != we && COND_TRUES.load(SeqCst) == trues {
            return fail("counter", format!("n_gcs_existing is {e}, expected {we}"));
        }
        if !self.auto_collect_since && COND_TRUES.load(SeqCst) == trues {
            let lo = (d - self.drops_at_collect) as usize + self.base_dropped;
            let hi = lo + self.slack as usize;
            if dr < lo || dr > hi {
                return fail("counter", format!("n_gcs_dropped_since_last_collect is {dr}, expected {lo}..={hi}"));
            }
        }
        Ok(())
    }

    /// Read everything reachable and compare it to the model.
    fn verify_contents(&mut self) -> Res {
        let mut seen = vec![false; reg::count() as usize];
        for i in 0..self.handles.len() {
            if self.handles[i].id() != self.ids[i] {
                return fail("unsafe", format!("handle of value {} reads value {}", self.ids[i], self.handles[i].id()));
            }
        }
        for a in &self.handles {
            self.walk(a, &mut seen)?;
        }
        Ok(())
    }
    fn walk(&self, a: &Any, seen: &mut [bool]) -> Res {
        let id = a.id();
        if id as usize >= seen.len() {
            return fail("unsafe", "reachable value reads as garbage");
        }
        if std::mem::replace(&mut seen[id as usize], true) {
            return Ok(());
        }
        if !a.intact() || a.addr() != reg::addr(id) {
            return fail("unsafe", format!("contents of reachable value {id} are damaged"));
        }
        let fixed: Vec<u32> = a.fixed().iter().map(|a| a.id()).collect();
        if fixed != self.m[id as usize].fixed {
            return fail("content", format!("fixed pointers of value {id}: {fixed:?}"));
        }
        for b in a.fixed() {
            self.walk(b, seen)?;
        }
        for (s, sl) in a.slots().iter().enumerate() {
            if self.excl(id, s) {
                continue;
            }
            let Some(ids) = sl.ids() else {
                return fail("harness", "slot locked");
            };
            if ids != self.m[id as usize].slots[s] {
                return fail("content", format!("value {id} slot {s} holds {ids:?}, stored {:?}", self.m[id as usize].slots[s]));
            }
            let mut r = Ok(());
            sl.each(&mut |b| {
                if r.is_ok() {
                    r = self.walk(b, seen);
                }
            });
            r?;
        }
        Ok(())
    }

    /// Compare the drop counters to the model after an operation.
    pub fn verify(&mut self, op: Op, before: &Before) -> Res {
        let reach = self.reach();
        let n = reg::count() as usize;
        let collected = op.collects() || op == Op::Restart;
        let trues = COND_TRUES.load(SeqCst) - before.trues;
        if trues > 0 {
            self.auto_collect_since = true;
        }
        if let Some(f) = arena::take_fault() {
            return fail("memory", f);
        }
        let mut destroyed_now = 0;
        for i in 0..n {
            let d = reg::drops(i as u32);
            if d > 1 {
                return fail("storage", format!("value {i} destroyed {d} times"));
            }
            if d == 1 && reach[i] {
                return fail("unsafe", format!("value {i} destroyed while reachable"));
            }
            if d == 1 && before.alive.get(i).copied().unwrap_or(true) {
                destroyed_now += 1;
            }
        }
        self.collected += destroyed_now;
        if op.collects() && destroyed_now > 0 {
            self.nonempty_collects += 1;
        }
        let freed = self.count_freed(&before.alive);
        for i in 0..n {
            let alive_before = before.alive.get(i).copied().unwrap_or(true);
            let dead = reg::drops(i as u32) == 1;
            if !SYNC && freed[i] && !dead {
                return fail("count", format!("value {i} not destroyed although its last pointer is gone"));
            }
            if !collected && trues == 0 && alive_before && dead && !freed[i] {
                return fail("cond", format!("value {i} was collected although no collection was asked for"));
            }
            if !SYNC && trues > 0 && !before.reach.get(i).copied().unwrap_or(true) && !dead && alive_before {
                return fail("cond", format!("value {i} was not collected although the condition asked for it"));
            }
        }
        Ok(())
    }

    /// After a collection: everything unreachable is gone.
    pub fn verify_complete(&mut self) -> Res {
        let reach = self.reach();
        for i in 0..reg::count() as usize {
            if !reach[i] && reg::drops(i as u32) == 0 {
                return fail("leak", format!("unreachable value {i} survived a collection"));
            }
        }
        Ok(())
    }
    /// The storage of destroyed values is released.
    pub fn verify_storage(&mut self) -> Res {
        for i in 0..reg::count() {
            if reg::drops(i) == 1 && !reg::storage_released(i) {
                return fail("storage", format!("value {i} was destroyed but its memory is still allocated"));
            }
        }
        Ok(())
    }
}

pub struct Before {
    alive: Vec<bool>,
    reach: Vec<bool>,
    trues: u32,
}
impl Before {
    fn of(s: &State) -> Before {
        Before {
            alive: (0..reg::count()).map(|i| reg::drops(i) == 0).collect(),
            reach: s.reach(),
            trues: COND_TRUES.load(SeqCst),
        }
    }
}

fn kind_fixed(k: u8) -> bool {
    k == 2 || (cfg!(feature = "unsized") && k == KINDS + 2)
}
fn kind_single(k: u8, n: usize) -> Vec<bool> {
    // only kind A has a slot for a single element (also behind a trait object)
    let is_a = k == 0 || (cfg!(feature = "unsized") && k == KINDS);
    (0..n).map(|s| is_a && s == 1).collect()
}
fn slotted(k: u8) -> u8 {
    let k = k % all_kinds();
    if k == 3 || (cfg!(feature = "unsized") && k == KINDS + 3) { 0 } else { k }
}

fn step(st: &mut State, op: Op) -> Res {
    let before = Before::of(st);
    st.exec(op)?;
    st.verify(op, &before)
}

fn ending(st: &mut State, reverse: bool) -> Res {
    st.exec(Op::ReleaseAll)?;
    st.verify_contents()?;
    let before = Before::of(st);
    if !reverse {
        st.handles.reverse();
        st.ids.reverse();
    }
    st.exec(Op::DropAll)?;
    st.verify(Op::DropAll, &before)
}

fn start(case: &SeqCase) -> State {
    let st = State::new();
    gcm::set_collect_condition(condition);
    set_cond(case.cond0);
    st
}

fn outcome(st: &State, r: Res) -> Out {
    Out {
        fail: r.err(),
        nontrivial: st.nonempty_collects > 0,
        labels: {
            let mut l = Vec::new();
            if st.nonempty_collects > 0 {
                l.push("collect() destroyed something".to_string());
            }
            if st.n_held_collects > 0 {
                l.push("collect() with a borrow held".to_string());
            }
            if COND_TRUES.load(SeqCst) > 0 {
                l.push("condition asked for a collection".to_string());
            }
            if st.m.len() > 1000 {
                l.push("more than 1000 values".to_string());
            }
            if st.m.len() > 20 {
                l.push("more than 20 values".to_string());
            }
            l
        },
        ..Out::default()
    }
}

fn single(case: &SeqCase, st: &mut State, probes: bool) -> Res {
    if probes {
        st.probe()?;
    }
    for &(op, _) in &case.ops {
        step(st, op)?;
        if op.collects() && (!SYNC || st.held.is_empty()) {
            st.verify_complete()?;
            st.verify_storage()?;
        }
        if probes {
            let before = Before::of(st);
            st.probe()?;
            st.verify(Op::Probe, &before)?;
        }
    }
    ending(st, case.reverse)?;
    step(st, Op::Collect)?;
    st.verify_complete()?;
    st.verify_storage()?;
    if probes {
        set_cond(Cond::Never);
        st.probe()?;
    }
    arena::scan();
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    Ok(())
}

pub fn run(case: &SeqCase) -> Out {
    detect_deadlock();
    let mut st = start(case);
    let r = single(case, &mut st, false);
    finish_state(st, r)
}
pub fn run_probed(case: &SeqCase) -> Out {
    detect_deadlock();
    let mut st = start(case);
    let r = single(case, &mut st, true);
    finish_state(st, r)
}
fn finish_state(st: State, r: Res) -> Out {
    let o = outcome(&st, r);
    if o.fail.is_some() {
        // the state may be beyond use
        crate::runner::finish(&o);
    }
    o
}
