// Included once per collector, in a module that defines:
//   gcm (the collector's module), Lk1 and Lk2 (cell types) with impls of `Slot`, and prepare().

use crate::arena;
use crate::dtorop::{Act, DOp, DtorCase};
use crate::reg::{self, Hdr};
use crate::runner::{expect_panic, fail, finish, Out, Res, QUIET};
use crate::seqop::Cond;
use dumpster::{Collectable, Visitor};
use gcm::{CollectInfo, Gc};
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering::SeqCst};

struct Script(Vec<Act>);
unsafe impl Collectable for Script {
    fn accept<V: Visitor>(&self, _: &mut V) -> Result<(), ()> {
        Ok(())
    }
}

#[derive(Collectable)]
struct N {
    script: Script,
    s0: Lk1<Vec<P>>,
    s1: Lk2<Vec<P>>,
    hdr: Hdr,
}

/// What the values' pointers point at: with coerce-unsized, slices.
#[cfg(not(feature = "unsized"))]
type Body = N;
#[cfg(feature = "unsized")]
type Body = [N];
type P = Gc<Body>;
#[cfg(not(feature = "unsized"))]
fn body(b: &Body) -> &N {
    b
}
#[cfg(feature = "unsized")]
fn body(b: &Body) -> &N {
    &b[0]
}
fn node(p: &P) -> &N {
    body(p)
}

trait Slot {
    fn with<R>(&self, f: impl FnOnce(&mut Vec<P>) -> R) -> R;
    fn own(&mut self) -> &mut Vec<P>;
    fn forget(&self);
}

#[derive(Default)]
struct MNode {
    /// None is a dead pointer
    slots: [Vec<Option<u32>>; 2],
    locked: [bool; 2],
    begun: bool,
}
#[derive(Default)]
struct World {
    handles: Vec<P>,
    ids: Vec<Option<u32>>,
    m: Vec<MNode>,
    /// values whose destructors are running
    active: Vec<u32>,
    /// values that a panic may leave behind
    suspects: Vec<u32>,
    acts: u32,
    dead_seen: u32,
    live_seen: u32,
    panics: u32,
    poisoned: u32,
    forgotten: u32,
    /// values whose pointers were found dead before their destructor ran
    doomed: Vec<u32>,
    oracle: Option<(String, String)>,
    op: usize,
    /// from now on destructors do nothing but panic
    leaving: bool,
}
static mut WORLD: Option<World> = None;
/// Not held across anything that can run a destructor.
fn w() -> &'static mut World {
    unsafe { (*std::ptr::addr_of_mut!(WORLD)).as_mut().unwrap() }
}
/// Report a violation found inside a destructor.
fn bad(class: &str, msg: String) {
    if w().oracle.is_none() {
        let msg = format!("operation {}: {msg}", w().op);
        w().oracle = Some((class.into(), msg));
    }
}

static MAYBE_COLLECTING: AtomicBool = AtomicBool::new(false);
static COND_MODE: AtomicU32 = AtomicU32::new(0);
static COND_ARG: AtomicU32 = AtomicU32::new(0);
static COND_CALLS: AtomicU32 = AtomicU32::new(0);

fn condition(info: &CollectInfo) -> bool {
    let n = COND_CALLS.fetch_add(1, SeqCst);
    let arg = COND_ARG.load(SeqCst);
    let r = match COND_MODE.load(SeqCst) {
        0 => false,
        1 => true,
        2 => gcm::default_collect_condition(info),
        3 => n % arg == arg - 1,
        _ => arg >> (n % 32) & 1 == 1,
    };
    if r {
        MAYBE_COLLECTING.store(true, SeqCst);
    }
    r
}
fn set_cond(c: Cond) {
    let (m, a) = match c {
        Cond::Never => (0, 0),
        Cond::Always => (1, 0),
        Cond::Default => (2, 0),
        Cond::Every(n) => (3, n.max(1) as u32),
        Cond::Script(x) => (4, x),
    };
    COND_MODE.store(m, SeqCst);
    COND_ARG.store(a, SeqCst);
}

fn make(script: Vec<Act>) -> P {
    let hdr = Hdr::new();
    let id = hdr.id;
    assert_eq!(id as usize, w().m.len());
    w().m.push(MNode::default());
    let n = N { script: Script(script), s0: Lk1::new(vec![]), s1: Lk2::new(vec![]), hdr };
    #[cfg(feature = "unsized")]
    let n = [n];
    let g: P = Gc::new(n);
    reg::set_addr(id, Gc::as_ptr(&g).cast::<u8>() as usize);
    g
}
/// Store a pointer in a live value.
fn put(g: &P, s: u8, p: P, pid: Option<u32>) {
    let n = node(g);
    let m = &mut w().m[n.hdr.id as usize];
    let s = s as usize % 2;
    if m.locked[s] {
        drop(p);
        return;
    }
    m.slots[s].push(pid);
    if s == 0 {
        n.s0.with(|v| v.push(p));
    } else {
        n.s1.with(|v| v.push(p));
    }
}
fn take(g: &P, s: u8, k: u8) -> Option<(P, Option<u32>)> {
    let n = node(g);
    let m = &mut w().m[n.hdr.id as usize];
    let s = s as usize % 2;
    let len = m.slots[s].len();
    if m.locked[s] || len == 0 {
        return None;
    }
    let i = k as usize % len;
    let pid = m.slots[s].remove(i);
    let f = |v: &mut Vec<P>| (v.len() == len).then(|| v.remove(i));
    let p = if s == 0 { n.s0.with(f) } else { n.s1.with(f) };
    if p.is_none() {
        bad("content", format!("value {} lost a pointer", n.hdr.id));
    }
    Some((p?, pid))
}
fn hold(g: P, id: Option<u32>) {
    w().handles.push(g);
    w().ids.push(id);
}
fn unhold(i: usize) -> (P, Option<u32>) {
    let id = w().ids.remove(i);
    (w().handles.remove(i), id)
}
fn any(h: u8) -> Option<usize> {
    let n = w().handles.len();
    (n > 0).then(|| h as usize % n)
}
/// A handle that is not dead.
fn live(h: u8) -> Option<usize> {
    let n = w().handles.len();
    (0..n).map(|i| (h as usize + i) % n).find(|&i| w().ids[i].is_some())
}
fn dup(i: usize) -> P {
    w().handles[i].clone()
}

fn reach() -> Vec<bool> {
    let mut seen = vec![false; w().m.len()];
    let mut stack: Vec<u32> = w().ids.iter().flatten().copied().collect();
    while let Some(i) = stack.pop() {
        if !std::mem::replace(&mut seen[i as usize], true) {
            stack.extend(w().m[i as usize].slots.iter().flatten().flatten());
        }
    }
    seen
}

/// What a destructor must find at one of its own pointers; whether it is alive.
fn judge(p: &P, pid: Option<u32>) -> bool {
    let found = Gc::try_deref(p).map(body);
    let Some(y) = pid else {
        if found.is_some() {
            bad("dead", "a dead pointer came alive".into());
        }
        w().dead_seen += 1;
        return false;
    };
    match found {
        Some(n) => {
            w().live_seen += 1;
            if arena::state(n as *const N as usize) == arena::St::Freed {
                bad("dead", format!("try_deref in a destructor gave value {y}, whose memory was freed"));
            } else if w().m[y as usize].begun || !n.hdr.ok() {
                bad("dead", format!("try_deref in a destructor gave value {y}, which was already destroyed"));
            } else if n.hdr.id != y {
                bad("dead", format!("pointer to value {y} reads value {}", n.hdr.id));
            } else {
                return true;
            }
            false
        }
        None => {
            w().dead_seen += 1;
            if !w().m[y as usize].begun {
                if reach()[y as usize] {
                    bad("dead", format!("try_deref in a destructor gave None for value {y}, which is reachable"));
                } else if !MAYBE_COLLECTING.load(SeqCst) {
                    bad("dead", format!("try_deref in a destructor gave None for value {y} although no collection ran"));
                }
                w().doomed.push(y);
            }
            false
        }
    }
}

impl N {
    fn own(&mut self, k: u8) -> Option<(usize, usize)> {
        let (a, b) = (self.s0.own().len(), self.s1.own().len());
        let m = &w().m[self.hdr.id as usize];
        if a != m.slots[0].len() || b != m.slots[1].len() {
            bad("content", format!("value {} lost pointers", self.hdr.id));
            return None;
        }
        if a + b == 0 {
            return None;
        }
        let k = k as usize % (a + b);
        Some(if k < a { (0, k) } else { (1, k - a) })
    }
    fn slot(&mut self, s: usize) -> &mut Vec<P> {
        if s == 0 {
            self.s0.own()
        } else {
            self.s1.own()
        }
    }
    fn pid(&self, s: usize, k: usize) -> Option<u32> {
        w().m[self.hdr.id as usize].slots[s][k]
    }
    fn take_own(&mut self, k: u8) -> Option<(P, Option<u32>)> {
        let (s, k) = self.own(k)?;
        let pid = self.pid(s, k);
        let alive = judge(&self.slot(s)[k], pid);
        w().m[self.hdr.id as usize].slots[s].remove(k);
        let g = self.slot(s).remove(k);
        Some((g, pid.filter(|_| alive)))
    }

    fn act(&mut self, a: Act) {
        w().acts += 1;
        match a {
            Act::TryDeref(k) => {
                if let Some((s, k)) = self.own(k) {
                    let pid = self.pid(s, k);
                    judge(&self.slot(s)[k], pid);
                }
            }
            Act::TryClone(k) => {
                if let Some((s, k)) = self.own(k) {
                    let pid = self.pid(s, k);
                    let alive = judge(&self.slot(s)[k], pid);
                    let c = Gc::try_clone(&self.slot(s)[k]);
                    if c.is_some() != alive && w().oracle.is_none() {
                        bad("dead", "try_clone and try_deref disagree".into());
                    }
                    if let Some(c) = c {
                        hold(c, pid);
                    }
                }
            }
            Act::MoveOut(k) => {
                if let Some((g, id)) = self.take_own(k) {
                    hold(g, id);
                }
            }
            Act::MoveToLive(k, h, s) => {
                if let Some(h) = live(h) {
                    let to = dup(h);
                    if let Some((g, id)) = self.take_own(k) {
                        put(&to, s, g, id);
                    }
                    let _keep = w().ids[h];
                    drop(to);
                }
            }
            Act::CloneLiveInto(h) => {
                if let Some(h) = live(h) {
                    let g = dup(h);
                    let id = w().ids[h];
                    w().m[self.hdr.id as usize].slots[0].push(id);
                    self.s0.own().push(g);
                }
            }
            Act::DerefDead(k) => {
                if let Some((s, k)) = self.own(k) {
                    let pid = self.pid(s, k);
                    if !judge(&self.slot(s)[k], pid) && w().oracle.is_none() {
                        check_dead(&self.slot(s)[k]);
                    }
                }
            }
            Act::DropOwn(k) => {
                if let Some((g, _)) = self.take_own(k) {
                    drop(g);
                }
            }
            Act::NewKept => {
                let g = make(vec![]);
                let id = node(&g).hdr.id;
                hold(g, Some(id));
            }
            Act::NewRing(n) => ring(vec![vec![]; n as usize], 0, None),
            Act::NewRingTo(n, h) => ring(vec![vec![]; n as usize], 0, live(h)),
            Act::DropWorld(h) => {
                if let Some(h) = any(h) {
                    let g = unhold(h);
                    drop(g);
                }
            }
            Act::CloneRoot(h) => {
                if let Some(h) = live(h) {
                    hold(dup(h), w().ids[h]);
                }
            }
            Act::LinkRoots(h, s, t) => {
                if let (Some(h), Some(t)) = (live(h), live(t)) {
                    let (g, p) = (dup(h), dup(t));
                    put(&g, s, p, w().ids[t]);
                    drop(g);
                }
            }
            Act::UnlinkRoots(h, s, k) => {
                if let Some(h) = live(h) {
                    let g = dup(h);
                    let p = take(&g, s, k);
                    drop(g);
                    drop(p);
                }
            }
            Act::Collect => {
                MAYBE_COLLECTING.store(true, SeqCst);
                gcm::collect();
            }
            Act::Panic => {
                w().panics += 1;
                involve();
                QUIET.with(|q| q.set(true));
                panic!("destructor panics as its script says");
            }
        }
    }
}

/// A dead pointer refuses everything by panicking.
fn check_dead(p: &P) {
    if Gc::try_deref(p).is_some() || Gc::try_clone(p).is_some() {
        bad("dead", "a dead pointer came alive".into());
        return;
    }
    if expect_panic(|| {
        let n = node(p);
        n.hdr.id
    })
    .is_ok()
    {
        bad("dead", "dereferencing a dead pointer did not panic".into());
    }
    if expect_panic(|| std::mem::forget(p.clone())).is_ok() {
        bad("dead", "cloning a dead pointer did not panic".into());
    }
}

impl Drop for N {
    fn drop(&mut self) {
        let id = self.hdr.id;
        if id as usize >= w().m.len() || !self.hdr.ok() || w().m[id as usize].begun {
            bad("storage", "destructor called on a value that was already destroyed".into());
            return;
        }
        if reach()[id as usize] {
            bad("unsafe", format!("value {id} destroyed while reachable"));
        }
        w().m[id as usize].begun = true;
        if std::thread::panicking() {
            return;
        }
        struct Active;
        impl Drop for Active {
            fn drop(&mut self) {
                w().active.pop();
            }
        }
        w().active.push(id);
        let _active = Active;
        for a in std::mem::take(&mut self.script.0) {
            if w().oracle.is_some() {
                return;
            }
            if !w().leaving || a == Act::Panic {
                self.act(a);
            }
        }
    }
}

fn ring(scripts: Vec<Vec<Act>>, mask: u8, to: Option<usize>) {
    let first = w().handles.len();
    let n = scripts.len();
    for s in scripts {
        let g = make(s);
        let id = node(&g).hdr.id;
        hold(g, Some(id));
    }
    if let Some(t) = to {
        put(&w().handles[first], 1, dup(t), w().ids[t]);
    }
    for i in 0..n {
        let j = first + (i + 1) % n;
        put(&w().handles[first + i], i as u8, dup(j), w().ids[j]);
    }
    // destructors may run from here on, and change the handles
    let mut dropped = Vec::new();
    for i in (0..n).rev() {
        if mask >> i & 1 == 0 {
            dropped.push(unhold(first + i));
        }
    }
    for (g, _) in dropped {
        drop(g);
    }
}

fn exec(op: &DOp) {
    match op.clone() {
        DOp::New(s) => {
            let g = make(s);
            let id = node(&g).hdr.id;
            hold(g, Some(id));
        }
        DOp::Ring(s, mask) => ring(s, mask, None),
        DOp::Clone(h) => {
            if let Some(h) = live(h) {
                hold(dup(h), w().ids[h]);
            }
        }
        DOp::Drop(h) => {
            if let Some(h) = any(h) {
                let g = unhold(h);
                drop(g);
            }
        }
        DOp::Link(h, s, t) => {
            if let (Some(h), Some(t)) = (live(h), live(t)) {
                put(&w().handles[h], s, dup(t), w().ids[t]);
            }
        }
        DOp::LinkMove(h, s, t) => {
            // dead pointers may be stored, too
            if let (Some(h), Some(t)) = (live(h), any(t)) {
                if h != t {
                    let g = dup(h);
                    let (p, id) = unhold(t);
                    put(&g, s, p, id);
                    drop(g);
                }
            }
        }
        DOp::Unlink(h, s, k) => {
            if let Some(h) = live(h) {
                let p = take(&w().handles[h], s, k);
                drop(p);
            }
        }
        DOp::TakeOut(h, s, k) => {
            if let Some(h) = live(h) {
                if let Some((p, id)) = take(&w().handles[h], s, k) {
                    hold(p, id);
                }
            }
        }
        DOp::DropAll => {
            let (hs, ids) = (std::mem::take(&mut w().handles), std::mem::take(&mut w().ids));
            drop(ids);
            drop(hs);
        }
        DOp::Collect => {
            MAYBE_COLLECTING.store(true, SeqCst);
            gcm::collect();
        }
        DOp::Cond(c) => set_cond(c),
        DOp::Poison(h, s) => {
            if let Some(h) = live(h) {
                if w().m[w().ids[h].unwrap() as usize].locked[s as usize % 2] {
                    return;
                }
                let n = node(&w().handles[h]);
                w().poisoned += 1;
                let f = |_: &mut Vec<P>| panic!("while holding a lock");
                let _ = expect_panic(|| if s % 2 == 0 { n.s0.with(f) } else { n.s1.with(f) });
            }
        }
        DOp::Forget(h, s) => {
            if let Some(h) = live(h) {
                let n = node(&w().handles[h]);
                let m = &mut w().m[n.hdr.id as usize];
                if !std::mem::replace(&mut m.locked[s as usize % 2], true) {
                    w().forgotten += 1;
                    if s % 2 == 0 {
                        n.s0.forget();
                    } else {
                        n.s1.forget();
                    }
                }
            }
        }
    }
}

/// A destructor panics. It and those that called it are interrupted, and this may concern all garbage that is
/// connected with their values.
fn involve() {
    let r = reach();
    let n = r.len();
    let mut near = vec![vec![]; n];
    for (i, m) in w().m.iter().enumerate() {
        for &j in m.slots.iter().flatten().flatten() {
            near[i].push(j);
            near[j as usize].push(i as u32);
        }
    }
    let mut seen = vec![false; n];
    let mut stack = w().active.clone();
    while let Some(i) = stack.pop() {
        if !r[i as usize] && !std::mem::replace(&mut seen[i as usize], true) {
            w().suspects.push(i);
            stack.extend(&near[i as usize]);
        }
    }
    // their destruction is interrupted, too
    for i in 0..n as u32 {
        if w().m[i as usize].begun && !reg::storage_released(i) {
            w().suspects.push(i);
        }
    }
}

/// Values that may stay behind: left by a panic or forever locked, and what they own.
fn excused() -> Vec<bool> {
    let mut seen = vec![false; w().m.len()];
    let mut stack: Vec<u32> = w().suspects.iter().copied().filter(|&i| reg::drops(i) == 0).collect();
    for (i, m) in w().m.iter().enumerate() {
        if m.locked[0] || m.locked[1] {
            stack.push(i as u32);
        }
    }
    while let Some(i) = stack.pop() {
        if !std::mem::replace(&mut seen[i as usize], true) {
            stack.extend(w().m[i as usize].slots.iter().flatten().flatten());
        }
    }
    seen
}

fn verify() -> Res {
    if let Some(o) = w().oracle.clone() {
        return Err(o);
    }
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    let r = reach();
    for i in 0..w().m.len() {
        let d = reg::drops(i as u32);
        if d > 1 {
            return fail("storage", format!("value {i} destroyed {d} times"));
        }
        if r[i] && (d == 1 || w().m[i].begun) {
            return fail("unsafe", format!("value {i} destroyed while reachable"));
        }
    }
    if w().panics == 0 && !w().doomed.is_empty() {
        let x = excused();
        for y in std::mem::take(&mut w().doomed) {
            if reg::drops(y) == 0 && !x[y as usize] {
                return fail("dead", format!("pointers to value {y} are dead although it was not destroyed"));
            }
        }
    }
    let mut seen = vec![false; w().m.len()];
    for i in 0..w().handles.len() {
        walk(&w().handles[i], w().ids[i], &mut seen)?;
    }
    match w().oracle.clone() {
        Some(o) => Err(o),
        None => Ok(()),
    }
}
fn walk(g: &P, id: Option<u32>, seen: &mut [bool]) -> Res {
    let Some(id) = id else {
        check_dead(g);
        return Ok(());
    };
    let Some(n) = Gc::try_deref(g).map(body) else {
        return fail("unsafe", format!("pointer to value {id} is dead although the program can reach it"));
    };
    if arena::state(n as *const N as usize) == arena::St::Freed || !n.hdr.ok() || n.hdr.id != id {
        return fail("unsafe", format!("contents of reachable value {id} are damaged"));
    }
    if std::mem::replace(&mut seen[id as usize], true) {
        return Ok(());
    }
    for s in 0..2 {
        if w().m[id as usize].locked[s] {
            continue;
        }
        let mut f = |v: &mut Vec<P>| {
            let m = w().m[id as usize].slots[s].clone();
            if m.len() != v.len() {
                return fail("content", format!("value {id} holds {} pointers, {} were stored", v.len(), m.len()));
            }
            // the cell is free again before its pointers are followed
            Ok(v.iter().map(|g| g as *const P).zip(m).collect::<Vec<_>>())
        };
        let v = if s == 0 { n.s0.with(&mut f) } else { n.s1.with(&mut f) }?;
        for (g, i) in v {
            walk(unsafe { &*g }, i, seen)?;
        }
    }
    Ok(())
}

fn step(op: &DOp) -> Res {
    MAYBE_COLLECTING.store(false, SeqCst);
    let unreachable_before: Vec<usize> = if *op == DOp::Collect {
        let (r, x) = (reach(), excused());
        (0..r.len()).filter(|&i| !r[i] && !x[i]).collect()
    } else {
        vec![]
    };
    let panics = w().panics;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(op)));
    QUIET.with(|q| q.set(false));
    if w().panics == panics && r.is_err() {
        let m = crate::runner::LAST_PANIC.lock().ok().and_then(|m| m.clone()).unwrap_or_default();
        return fail(crate::runner::panic_class(&m), m);
    }
    verify()?;
    if w().panics == panics {
        for i in unreachable_before {
            if reg::drops(i as u32) == 0 {
                return fail("leak", format!("value {i} was unreachable but survived collect()"));
            }
            if !reg::storage_released(i as u32) && !w().suspects.contains(&(i as u32)) {
                return fail("leak", format!("memory of value {i} was not released"));
            }
        }
    }
    Ok(())
}

fn go(case: &DtorCase) -> Res {
    prepare();
    gcm::set_collect_condition(condition);
    set_cond(case.cond0);
    for (i, op) in case.ops.iter().enumerate() {
        w().op = i;
        step(op)?;
    }
    w().op = case.ops.len();
    set_cond(Cond::Never);
    // destructors may hand out pointers again, but each runs only once
    for _ in 0..1000 {
        if w().handles.is_empty() {
            break;
        }
        step(&DOp::DropAll)?;
        step(&DOp::Collect)?;
    }
    step(&DOp::Collect)?;
    step(&DOp::Collect)?;
    arena::scan();
    verify()
}

/// The same on a thread that exits with its garbage.
fn leave(case: &DtorCase) -> Res {
    prepare();
    gcm::set_collect_condition(condition);
    set_cond(case.cond0);
    for (i, op) in case.ops.iter().enumerate() {
        w().op = i;
        step(op)?;
    }
    w().op = case.ops.len();
    set_cond(Cond::Never);
    for _ in 0..8 {
        step(&DOp::DropAll)?;
    }
    w().leaving = true;
    Ok(())
}
fn left() -> Res {
    if IS_SYNC {
        for _ in 0..2 {
            let panics = w().panics;
            let r = std::panic::catch_unwind(gcm::collect);
            QUIET.with(|q| q.set(false));
            if r.is_err() && w().panics == panics {
                return fail("panic", "collect() panicked after a thread left its garbage");
            }
        }
    }
    if let Some(o) = w().oracle.clone() {
        return Err(o);
    }
    arena::scan();
    if let Some(f) = arena::take_fault() {
        return fail("memory", f);
    }
    let (r, x) = (reach(), excused());
    for i in 0..r.len() {
        match reg::drops(i as u32) {
            0 if !r[i] && !x[i] => return fail("leak", format!("value {i} was not destroyed although its thread has exited")),
            1 if r[i] => return fail("unsafe", format!("value {i} destroyed while reachable")),
            1 if !reg::storage_released(i as u32) && !w().suspects.contains(&(i as u32)) => return fail("leak", format!("memory of value {i} was not released")),
            0 | 1 => {}
            d => return fail("storage", format!("value {i} destroyed {d} times")),
        }
    }
    Ok(())
}
pub fn run_exit(case: &DtorCase) -> Out {
    unsafe { *std::ptr::addr_of_mut!(WORLD) = Some(World::default()) };
    let r = std::thread::scope(|s| s.spawn(|| leave(case)).join());
    let r = match r {
        Ok(r) => r.and_then(|()| left()),
        Err(_) => fail("panic", "the thread panicked"),
    };
    report(r)
}

pub fn run(case: &DtorCase) -> Out {
    unsafe { *std::ptr::addr_of_mut!(WORLD) = Some(World::default()) };
    let r = go(case);
    report(r)
}
fn report(r: Res) -> Out {
    let wd = w();
    let mut labels = Vec::new();
    for (n, l) in [
        (wd.dead_seen, "a destructor met a dead pointer"),
        (wd.live_seen, "a destructor met a live pointer"),
        (wd.panics, "a destructor panicked"),
        (wd.poisoned, "a lock was poisoned"),
        (wd.forgotten, "a guard was leaked"),
    ] {
        if n > 0 {
            labels.push(l.to_string());
        }
    }
    let o = Out { fail: r.err(), nontrivial: NONTRIVIAL(wd), labels, ..Out::default() };
    // whatever is left is not dropped again
    finish(&o)
}
const NONTRIVIAL: fn(&World) -> bool = |w| w.acts > 0 && (w.dead_seen + w.live_seen > 0 || w.panics + w.poisoned + w.forgotten > 0);
