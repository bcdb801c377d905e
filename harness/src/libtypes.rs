//! Values nested out of all library types that are Collectable, and what a visit of them must show.

use crate::arena;
use crate::reg::{self, Hdr};
use crate::runner::{expect_panic, fail, Out, Res};
use dumpster::{sync, unsync, Collectable, Visitor};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::cell::{Cell, OnceCell, RefCell};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::{Mutex, RwLock};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Desc {
    /// an unsync pointer to a value
    U(Box<Desc>),
    /// a sync pointer
    S,
    /// another pointer to something that a pointer was made to earlier
    Again(u8),
    Leaf(u8),
    /// within the contents of something: this many pointers
    Many(u32),
    /// library type, state of the cell if it is one, contents
    Node(u8, u8, Vec<Desc>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LibCase {
    pub desc: Desc,
    pub hash: u64,
}

#[derive(Collectable)]
pub struct SLeaf {
    hdr: Hdr,
}
#[derive(Collectable)]
pub struct UBox {
    hdr: Hdr,
    inner: Dyn,
}
/// A pointer that can be cloned.
#[derive(Clone)]
pub enum CG {
    U(unsync::Gc<UBox>),
    S(sync::Gc<SLeaf>),
}
unsafe impl Collectable for CG {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            CG::U(g) => g.accept(v),
            CG::S(g) => g.accept(v),
        }
    }
}
pub struct Key(u32, Dyn);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.0 == o.0
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        // not in order of creation
        (self.0 ^ 5).cmp(&(o.0 ^ 5))
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        // some collide
        (self.0 / 2).hash(h)
    }
}
unsafe impl Collectable for Key {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.1.accept(v)
    }
}
/// A hasher that owns something.
pub struct Build(Dyn);
impl BuildHasher for Build {
    type Hasher = std::collections::hash_map::DefaultHasher;
    fn build_hasher(&self) -> Self::Hasher {
        Default::default()
    }
}
unsafe impl Collectable for Build {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        self.0.accept(v)
    }
}

type D = Dyn;
pub enum Dyn {
    U(unsync::Gc<UBox>),
    S(sync::Gc<SLeaf>),
    Leaf(u64),
    Text(String, Rc<str>, &'static str, std::path::PathBuf, std::ffi::OsString),
    Nums(Cell<u8>, (u8, u16, u32, u64, u128, usize, f32, f64, bool, char), std::num::NonZeroU8, std::sync::atomic::AtomicI64),
    Odds(PhantomData<unsync::Gc<UBox>>, BuildHasherDefault<std::collections::hash_map::DefaultHasher>, (), fn(u8) -> u8, std::any::TypeId),
    Box(Box<D>),
    Opt(Option<Box<D>>),
    Res(Result<Box<D>, Box<D>>),
    Res2(Result<Vec<D>, Vec<D>>),
    Vec(Vec<D>),
    Deque(VecDeque<D>),
    List(LinkedList<D>),
    BMap(BTreeMap<Key, D>),
    HMap(HashMap<Key, D>),
    OMap(Box<HashMap<Key, D, Build>>),
    HSet(HashSet<Key>),
    BSet(BTreeSet<Key>),
    Heap(BinaryHeap<Key>),
    A0([Vec<D>; 0]),
    A1(Box<[D; 1]>),
    A3(Box<[D; 3]>),
    A5(Box<[D; 5]>),
    A40(Box<[D; 40]>),
    A300(Box<[D; 300]>),
    Slice(Box<[D]>),
    Ref(Box<RefCell<D>>),
    RefS(Box<RefCell<[D]>>),
    Mut(Box<Mutex<D>>),
    MutS(Box<Mutex<[D]>>),
    Rw(Box<RwLock<D>>),
    RwS(Box<RwLock<[D]>>),
    Once(Box<OnceCell<D>>),
    Static(&'static D),
    Cow(Cow<'static, Vec<CG>>),
    T1(Box<(D,)>),
    T2(Box<(D, D)>),
    T3(Box<(D, D, D)>),
    T4(Box<(D, D, D, D)>),
    T5(Box<(D, D, D, D, D)>),
    T6(Box<(D, D, D, D, D, D)>),
    T7(Box<(D, D, D, D, D, D, D)>),
    T8(Box<(D, D, D, D, D, D, D, D)>),
    T9(Box<(D, D, D, D, D, D, D, D, D)>),
    T10(Box<(D, D, D, D, D, D, D, D, D, D)>),
}
// not derived: this is about the library types alone
unsafe impl Collectable for Dyn {
    fn accept<V: Visitor>(&self, v: &mut V) -> Result<(), ()> {
        match self {
            Dyn::U(x) => x.accept(v),
            Dyn::S(x) => x.accept(v),
            Dyn::Leaf(x) => x.accept(v),
            Dyn::Text(a, b, c, d, e) => {
                a.accept(v)?;
                a.as_str().accept(v)?;
                b.accept(v)?;
                c.accept(v)?;
                d.accept(v)?;
                d.as_path().accept(v)?;
                e.as_os_str().accept(v)?;
                e.accept(v)
            }
            Dyn::Nums(a, b, c, d) => {
                a.accept(v)?;
                b.accept(v)?;
                c.accept(v)?;
                d.accept(v)
            }
            Dyn::Odds(a, b, c, d, e) => {
                a.accept(v)?;
                b.accept(v)?;
                c.accept(v)?;
                d.accept(v)?;
                e.accept(v)
            }
            Dyn::Box(x) => x.accept(v),
            Dyn::Opt(x) => x.accept(v),
            Dyn::Res(x) => x.accept(v),
            Dyn::Res2(x) => x.accept(v),
            Dyn::Vec(x) => x.accept(v),
            Dyn::Deque(x) => x.accept(v),
            Dyn::List(x) => x.accept(v),
            Dyn::BMap(x) => x.accept(v),
            Dyn::HMap(x) => x.accept(v),
            Dyn::OMap(x) => x.accept(v),
            Dyn::HSet(x) => x.accept(v),
            Dyn::BSet(x) => x.accept(v),
            Dyn::Heap(x) => x.accept(v),
            Dyn::A0(x) => x.accept(v),
            Dyn::A1(x) => x.accept(v),
            Dyn::A3(x) => x.accept(v),
            Dyn::A5(x) => x.accept(v),
            Dyn::A40(x) => x.accept(v),
            Dyn::A300(x) => x.accept(v),
            Dyn::Slice(x) => x.accept(v),
            Dyn::Ref(x) => x.accept(v),
            Dyn::RefS(x) => x.accept(v),
            Dyn::Mut(x) => x.accept(v),
            Dyn::MutS(x) => x.accept(v),
            Dyn::Rw(x) => x.accept(v),
            Dyn::RwS(x) => x.accept(v),
            Dyn::Once(x) => x.accept(v),
            Dyn::Static(x) => x.accept(v),
            Dyn::Cow(x) => x.accept(v),
            Dyn::T1(x) => x.accept(v),
            Dyn::T2(x) => x.accept(v),
            Dyn::T3(x) => x.accept(v),
            Dyn::T4(x) => x.accept(v),
            Dyn::T5(x) => x.accept(v),
            Dyn::T6(x) => x.accept(v),
            Dyn::T7(x) => x.accept(v),
            Dyn::T8(x) => x.accept(v),
            Dyn::T9(x) => x.accept(v),
            Dyn::T10(x) => x.accept(v),
        }
    }
}

/// What is known about a value being built.
#[derive(Default)]
struct Build0 {
    /// pointers owned by the value itself, per nesting of pointers
    owned: Vec<usize>,
    blocked: bool,
    /// something anywhere inside cannot be visited
    blocked_deep: bool,
    /// something is kept alive otherwise
    leaked: bool,
    made: Vec<CG>,
    keys: u32,
    cells: u32,
}

const KINDS: u8 = 40;

impl Build0 {
    fn pointer(&mut self, g: CG) -> CG {
        self.owned.push(match &g {
            CG::U(g) => unsync::Gc::as_ptr(g) as usize,
            CG::S(g) => sync::Gc::as_ptr(g) as usize,
        });
        g
    }
    fn cg(&mut self, d: &Desc) -> Option<CG> {
        let g = match d {
            Desc::U(inner) => {
                // the pointee's pointers are its own
                let outer = (std::mem::take(&mut self.owned), self.blocked);
                let inner = self.build(inner);
                self.owned = outer.0;
                self.blocked = outer.1;
                CG::U(unsync::Gc::new(UBox { hdr: Hdr::new(), inner }))
            }
            Desc::S => CG::S(sync::Gc::new(SLeaf { hdr: Hdr::new() })),
            Desc::Again(k) if !self.made.is_empty() => self.made[*k as usize % self.made.len()].clone(),
            _ => return None,
        };
        self.made.push(g.clone());
        Some(self.pointer(g))
    }
    fn build(&mut self, d: &Desc) -> Dyn {
        match self.cg(d) {
            Some(CG::U(g)) => return Dyn::U(g),
            Some(CG::S(g)) => return Dyn::S(g),
            None => {}
        }
        match d {
            Desc::Node(k, state, c) => self.node(*k % KINDS, *state, c),
            Desc::Leaf(n) => match n % 4 {
                0 => Dyn::Text(format!("t{n}"), "rc".into(), "static", "/p".into(), "os".into()),
                1 => Dyn::Nums(Cell::new(*n), (1, 2, 3, 4, 5, 6, 7., 8., true, 'x'), 3.try_into().unwrap(), 4.into()),
                2 => Dyn::Odds(PhantomData, Default::default(), (), |x| x, std::any::TypeId::of::<u8>()),
                _ => Dyn::Leaf(*n as u64),
            },
            _ => Dyn::Leaf(1),
        }
    }
    fn key(&mut self, d: Dyn) -> Key {
        self.keys += 1;
        Key(self.keys, d)
    }
    /// Put a cell into the state; gives whether that forbids visits.
    fn state(&mut self, cannot: bool) {
        self.cells += 1;
        self.blocked |= cannot;
        self.blocked_deep |= cannot;
    }
    fn node(&mut self, k: u8, state: u8, c: &[Desc]) -> Dyn {
        // things that do not visit what they refer to
        if k == 35 {
            let outer = (std::mem::take(&mut self.owned), self.blocked);
            let d = c.first().map_or(Dyn::Leaf(0), |c| self.build(c));
            self.owned = outer.0;
            self.blocked = outer.1;
            self.leaked = true;
            return Dyn::Static(Box::leak(Box::new(d)));
        }
        if k == 36 {
            let borrowed = state % 2 == 1;
            let outer = (self.owned.clone(), self.blocked);
            let mut v = vec![];
            for d in each(c) {
                if let Some(g) = self.cg(&d) {
                    v.push(g);
                }
            }
            if borrowed {
                self.owned = outer.0;
                self.blocked = outer.1;
                self.leaked = true;
                return Dyn::Cow(Cow::Borrowed(Box::leak(Box::new(v))));
            }
            return Dyn::Cow(Cow::Owned(v));
        }
        let mut v: VecDeque<Dyn> = each(c).map(|d| self.build(&d)).collect();
        // fixed sizes: what is left over goes into the last
        let mut fixed = |n: usize| -> Vec<Dyn> {
            let mut out: Vec<Dyn> = vec![];
            for i in 0..n {
                out.push(if i + 1 == n && v.len() > 1 { Dyn::Vec(v.drain(..).collect()) } else { v.pop_front().unwrap_or(Dyn::Leaf(2)) });
            }
            // not always at the front
            out.rotate_right(state as usize % n);
            out
        };
        macro_rules! tuple {
            ($t:ident, $n:literal, $($d:ident)*) => {{
                let Ok([$($d),*]): Result<[Dyn; $n], _> = fixed($n).try_into() else { unreachable!() };
                Dyn::$t(Box::new(($($d,)*)))
            }};
        }
        macro_rules! one {
            () => {
                fixed(1).pop().unwrap()
            };
        }
        let slice = |v: VecDeque<Dyn>| -> [Dyn; 3] {
            let mut v: Vec<Dyn> = v.into();
            while v.len() < 3 {
                v.insert(0, Dyn::Leaf(3));
            }
            let rest = v.split_off(2);
            v.push(Dyn::Vec(rest));
            v.try_into().ok().unwrap()
        };
        match k {
            0 => Dyn::Box(Box::new(one!())),
            1 => Dyn::Opt(if c.is_empty() { None } else { Some(Box::new(one!())) }),
            2 => Dyn::Res(Ok(Box::new(one!()))),
            3 => Dyn::Res(Err(Box::new(one!()))),
            4 => Dyn::Vec(v.into()),
            5 => {
                // wrapped around the end of its buffer
                let n = v.len();
                let mut q = VecDeque::with_capacity(n.max(1));
                for _ in 0..state as usize % (n + 1) {
                    q.push_back(Dyn::Leaf(0));
                    q.pop_front();
                }
                q.extend(v);
                Dyn::Deque(q)
            }
            6 => Dyn::List(v.into_iter().collect()),
            7 => {
                let mut m = BTreeMap::new();
                while let Some(a) = v.pop_front() {
                    let b = v.pop_front().unwrap_or(Dyn::Leaf(0));
                    m.insert(self.key(a), b);
                }
                Dyn::BMap(m)
            }
            8 => {
                let mut m = HashMap::new();
                while let Some(a) = v.pop_front() {
                    let b = v.pop_front().unwrap_or(Dyn::Leaf(0));
                    m.insert(self.key(a), b);
                }
                Dyn::HMap(m)
            }
            9 => Dyn::HSet(v.into_iter().map(|d| self.key(d)).collect()),
            10 => Dyn::BSet(v.into_iter().map(|d| self.key(d)).collect()),
            11 => Dyn::Heap(v.into_iter().map(|d| self.key(d)).collect()),
            12 => {
                let Ok(a): Result<[Dyn; 3], _> = fixed(3).try_into() else { unreachable!() };
                Dyn::A3(Box::new(a))
            }
            13 => Dyn::Slice(Vec::from(v).into_boxed_slice()),
            14 => {
                let r = Box::new(RefCell::new(one!()));
                match state % 3 {
                    1 => std::mem::forget(r.borrow()),
                    2 => std::mem::forget(r.borrow_mut()),
                    _ => {}
                }
                self.state(state % 3 == 2);
                Dyn::Ref(r)
            }
            15 => {
                let m = Box::new(Mutex::new(one!()));
                lock_state(&m, state);
                self.state(state % 4 / 2 == 1);
                Dyn::Mut(m)
            }
            16 => {
                let m = Box::new(RwLock::new(one!()));
                rw_state(&m, state);
                self.state(state % 3 == 2);
                Dyn::Rw(m)
            }
            17 => {
                let o = OnceCell::new();
                if !c.is_empty() {
                    let _ = o.set(one!());
                }
                Dyn::Once(Box::new(o))
            }
            18 => tuple!(T1, 1, a),
            19 => tuple!(T2, 2, a b),
            20 => tuple!(T3, 3, a b c),
            21 => tuple!(T4, 4, a b c d),
            22 => tuple!(T5, 5, a b c d e),
            23 => tuple!(T6, 6, a b c d e f),
            24 => tuple!(T7, 7, a b c d e f g),
            25 => tuple!(T8, 8, a b c d e f g h),
            26 => tuple!(T9, 9, a b c d e f g h i),
            27 => tuple!(T10, 10, a b c d e f g h i j),
            28 => {
                let b = Build(v.pop_front().unwrap_or(Dyn::Leaf(0)));
                let mut m = HashMap::with_hasher(b);
                while let Some(a) = v.pop_front() {
                    let b = v.pop_front().unwrap_or(Dyn::Leaf(0));
                    m.insert(self.key(a), b);
                }
                Dyn::OMap(Box::new(m))
            }
            29 => {
                let r: Box<RefCell<[Dyn]>> = Box::new(RefCell::new(slice(v)));
                match state % 3 {
                    1 => std::mem::forget(r.borrow()),
                    2 => std::mem::forget(r.borrow_mut()),
                    _ => {}
                }
                self.state(state % 3 == 2);
                Dyn::RefS(r)
            }
            30 => {
                let m: Box<Mutex<[Dyn]>> = Box::new(Mutex::new(slice(v)));
                lock_state(&m, state);
                self.state(state % 4 / 2 == 1);
                Dyn::MutS(m)
            }
            31 => {
                let m: Box<RwLock<[Dyn]>> = Box::new(RwLock::new(slice(v)));
                rw_state(&m, state);
                self.state(state % 3 == 2);
                Dyn::RwS(m)
            }
            32 => Dyn::Res2(Ok(v.into())),
            33 => Dyn::Res2(Err(v.into())),
            34 => {
                let Ok(a): Result<[Dyn; 5], _> = fixed(5).try_into() else { unreachable!() };
                Dyn::A5(Box::new(a))
            }
            37 if c.is_empty() => Dyn::A0([]),
            38 => {
                let Ok(a): Result<[Dyn; 40], _> = fixed(40).try_into() else { unreachable!() };
                Dyn::A40(Box::new(a))
            }
            39 => {
                let Ok(a): Result<[Dyn; 300], _> = fixed(300).try_into() else { unreachable!() };
                Dyn::A300(Box::new(a))
            }
            _ => Dyn::A1(Box::new([one!()])),
        }
    }
}
/// The contents of something one by one.
fn each(c: &[Desc]) -> impl Iterator<Item = Cow<'_, Desc>> {
    c.iter().flat_map(|d| {
        let many = if let Desc::Many(n) = d { *n } else { 0 };
        let own = (many == 0).then_some(Cow::Borrowed(d));
        own.into_iter().chain((0..many).map(|i| Cow::Owned(if i % 16 == 0 { Desc::S } else { Desc::Again(i as u8) })))
    })
}
/// 0: free, 1: poisoned, 2: locked, 3: poisoned and locked
fn lock_state<T: ?Sized>(m: &Mutex<T>, state: u8) {
    if state % 2 == 1 {
        let _ = expect_panic(|| {
            let _g = m.lock();
            panic!("poison");
        });
    }
    if state % 4 / 2 == 1 {
        std::mem::forget(m.lock().unwrap_or_else(|e| e.into_inner()));
    }
}
/// 0: free, 1: being read, 2: being written; from 3, poisoned as well
fn rw_state<T: ?Sized>(m: &RwLock<T>, state: u8) {
    if state % 6 / 3 == 1 {
        let _ = expect_panic(|| {
            let _g = m.write();
            panic!("poison");
        });
    }
    match state % 3 {
        1 => std::mem::forget(m.read().unwrap_or_else(|e| e.into_inner())),
        2 => std::mem::forget(m.write().unwrap_or_else(|e| e.into_inner())),
        _ => {}
    }
}

/// Writes down what it is shown.
#[derive(Default)]
pub struct Record(pub Vec<usize>);
impl Visitor for Record {
    fn visit_sync<T: Collectable + Send + Sync + ?Sized>(&mut self, gc: &sync::Gc<T>) {
        self.0.push(sync::Gc::as_ptr(gc).cast::<u8>() as usize);
    }
    fn visit_unsync<T: Collectable + ?Sized>(&mut self, gc: &unsync::Gc<T>) {
        self.0.push(unsync::Gc::as_ptr(gc).cast::<u8>() as usize);
    }
}

#[derive(Collectable)]
struct Root {
    me: RefCell<Option<unsync::Gc<Root>>>,
    d: Dyn,
}

fn go(case: &LibCase, b: &mut Build0) -> Res {
    unsync::set_collect_condition(|_| false);
    sync::set_collect_condition(|_| false);
    let d = b.build(&case.desc);
    for round in 0..2 {
        let mut rec = Record::default();
        let r = d.accept(&mut rec);
        let mut seen = rec.0;
        seen.sort();
        let mut want = b.owned.clone();
        want.sort();
        match r {
            Ok(()) if b.blocked => return fail("visit", "a visit succeeded although something is mutably borrowed or locked"),
            Ok(()) if seen != want => {
                return fail("visit", format!("a visit showed {} pointers instead of {} (round {round})", seen.len(), want.len()))
            }
            Err(()) if !b.blocked => return fail("visit", "a visit failed although nothing is mutably borrowed or locked"),
            Err(()) => {
                // nothing more often than it is there
                let mut rest = want.iter();
                if !seen.iter().all(|p| rest.any(|q| p == q)) {
                    return fail("visit", "a failed visit showed a pointer too often");
                }
            }
            Ok(()) => {}
        }
    }
    // the collector comes to the same conclusion
    b.made.clear();
    if b.blocked_deep || b.leaked {
        std::mem::forget(d);
        return Ok(());
    }
    let root = unsync::Gc::new(Root { me: RefCell::new(None), d });
    *root.me.borrow_mut() = Some(root.clone());
    unsync::collect();
    if (0..reg::count()).any(|i| reg::drops(i) != 0) {
        return fail("visit", "something was collected while its owner was reachable");
    }
    drop(root);
    unsync::collect();
    sync::collect();
    if let Some(i) = (0..reg::count()).find(|&i| reg::drops(i) != 1) {
        return fail("visit", format!("value {i} was destroyed {} times after its owner became garbage", reg::drops(i)));
    }
    arena::scan();
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    Ok(())
}

pub fn run(case: &LibCase) -> Out {
    let mut b = Build0::default();
    let r = go(case, &mut b);
    let mut labels = vec![];
    if b.blocked {
        labels.push("something is mutably borrowed or locked".to_string());
    } else if b.cells > 0 {
        labels.push("contains cells".to_string());
    }
    let nontrivial = !b.owned.is_empty();
    std::mem::forget(b);
    Out { fail: r.err(), nontrivial, labels, ..Out::default() }
}

pub fn case() -> BoxedStrategy<LibCase> {
    let leaf = prop_oneof![
        3 => Just(Desc::U(Box::new(Desc::Leaf(0)))),
        2 => Just(Desc::S),
        1 => any::<u8>().prop_map(Desc::Again),
        1 => any::<u8>().prop_map(Desc::Leaf),
    ];
    // cells are mostly free, or nothing could be visited
    let state = prop_oneof![10 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => any::<u8>()];
    let desc = leaf.prop_recursive(4, 40, 6, move |d| {
        prop_oneof![
            1 => d.clone().prop_map(|d| Desc::U(Box::new(d))),
            9 => (0..KINDS, state.clone(), prop::collection::vec(d, 0..7)).prop_map(|(k, s, c)| Desc::Node(k, s, c)),
        ]
    });
    (desc, any::<u64>()).prop_map(|(desc, hash)| LibCase { desc, hash }).boxed()
}

/// One container with many pointers in it.
pub fn large() -> BoxedStrategy<LibCase> {
    let few = prop_oneof![Just(Desc::S), Just(Desc::U(Box::new(Desc::Leaf(0)))), any::<u8>().prop_map(Desc::Leaf)];
    let n = prop_oneof![4 => 7u32..80, 4 => 120u32..320, 4 => 1000u32..1300, 2 => 4000u32..9000, 1 => 65_500u32..66_500];
    let state = prop_oneof![10 => Just(0u8), 4 => Just(1u8), 2 => Just(2u8), 1 => any::<u8>()];
    let c = (prop::collection::vec(few.clone(), 0..3), n, prop::collection::vec(few, 0..3)).prop_map(|(mut a, n, b)| {
        a.push(Desc::Many(n));
        a.extend(b);
        a
    });
    let one = (0..KINDS, state, c).prop_map(|(k, s, c)| Desc::Node(k, s, c));
    let desc = prop_oneof![
        2 => one.clone(),
        1 => (0..KINDS, one.clone()).prop_map(|(k, d)| Desc::Node(k, 0, vec![d])),
        1 => one.prop_map(|d| Desc::U(Box::new(d))),
    ];
    (desc, any::<u64>()).prop_map(|(desc, hash)| LibCase { desc, hash }).boxed()
}

fn smaller(d: &Desc) -> Vec<Desc> {
    match d {
        Desc::Many(n) if *n > 1 => vec![Desc::Many(n / 2), Desc::Many(n - n / 8 - 1), Desc::Many(n - 1)],
        Desc::Many(_) => vec![Desc::S],
        Desc::U(x) => {
            let mut v = vec![(**x).clone()];
            v.extend(smaller(x).into_iter().map(|d| Desc::U(Box::new(d))));
            v
        }
        Desc::Node(k, s, c) => {
            let mut v: Vec<Desc> = c.clone();
            for i in 0..c.len() {
                let mut d = c.clone();
                d.remove(i);
                v.push(Desc::Node(*k, *s, d));
            }
            if *s > 0 {
                v.push(Desc::Node(*k, 0, c.clone()));
            }
            for i in 0..c.len() {
                for x in smaller(&c[i]) {
                    let mut d = c.clone();
                    d[i] = x;
                    v.push(Desc::Node(*k, *s, d));
                }
            }
            v
        }
        Desc::Again(_) => vec![Desc::Leaf(3), Desc::S],
        _ => vec![],
    }
}
pub fn shrink(c: &LibCase) -> Vec<LibCase> {
    smaller(&c.desc).into_iter().map(|desc| LibCase { desc, hash: c.hash }).collect()
}
