//! Collect conditions: who is asked, when, with which counters, and what their answers cause.

use crate::reg::{self, Hdr};
use crate::runner::{fail, panic_class, shrink_vec, Out, Res, LAST_PANIC};
use dumpster::{sync, unsync, Collectable};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{mpsc, Mutex};

const K: usize = 3;
/// Marks "the default condition".
const DEFAULT: usize = K;

static CALLS: [AtomicU64; 2 * K] = [const { AtomicU64::new(0) }; 2 * K];
static ANSWER: [AtomicBool; 2 * K] = [const { AtomicBool::new(false) }; 2 * K];
static EXISTING: AtomicUsize = AtomicUsize::new(0);
static DROPPED: AtomicUsize = AtomicUsize::new(0);

macro_rules! conditions {
    ($($u:ident $s:ident $k:expr),*) => {
        $(
        fn $u(i: &unsync::CollectInfo) -> bool {
            CALLS[$k].fetch_add(1, SeqCst);
            EXISTING.store(i.n_gcs_existing(), SeqCst);
            DROPPED.store(i.n_gcs_dropped_since_last_collect(), SeqCst);
            ANSWER[$k].load(SeqCst)
        }
        fn $s(i: &sync::CollectInfo) -> bool {
            CALLS[K + $k].fetch_add(1, SeqCst);
            EXISTING.store(i.n_gcs_existing(), SeqCst);
            DROPPED.store(i.n_gcs_dropped_since_last_collect(), SeqCst);
            ANSWER[K + $k].load(SeqCst)
        }
        )*
        const U: [fn(&unsync::CollectInfo) -> bool; K] = [$($u),*];
        const S: [fn(&sync::CollectInfo) -> bool; K] = [$($s),*];
    };
}
conditions!(u0 s0 0, u1 s1 1, u2 s2 2);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    /// install condition .1 (or the default) for unsync (false) or sync (true)
    Set(bool, u8),
    Answer(bool, u8, bool),
    /// create and drop this many plain pointers
    Drops(bool, u16),
    /// hold this many more pointers
    Hold(bool, u8),
    Unhold(bool),
    /// make a garbage ring
    Garbage(bool, u8),
    /// make a ring which stays held
    Ring(bool, u8),
    Collect(bool),
    /// the thread exits and another takes its place
    Exit,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ScopeCase {
    pub ops: Vec<(Op, u8)>,
    pub hash: u64,
}

#[derive(Collectable)]
struct Un {
    hdr: Hdr,
    next: RefCell<Option<unsync::Gc<Un>>>,
}
#[derive(Collectable)]
struct Sn {
    hdr: Hdr,
    next: Mutex<Option<sync::Gc<Sn>>>,
}
fn un() -> unsync::Gc<Un> {
    unsync::Gc::new(Un { hdr: Hdr::new(), next: RefCell::new(None) })
}
fn sn() -> sync::Gc<Sn> {
    sync::Gc::new(Sn { hdr: Hdr::new(), next: Mutex::new(None) })
}
fn uring(n: u8) -> unsync::Gc<Un> {
    let first = un();
    let mut last = first.clone();
    for _ in 1..n {
        let g = un();
        *g.next.borrow_mut() = Some(last);
        last = g;
    }
    *first.next.borrow_mut() = Some(last);
    first
}
fn sring(n: u8) -> sync::Gc<Sn> {
    let first = sn();
    let mut last = first.clone();
    for _ in 1..n {
        let g = sn();
        *g.next.lock().unwrap() = Some(last);
        last = g;
    }
    *first.next.lock().unwrap() = Some(last);
    first
}

struct Thread {
    tx: mpsc::Sender<Op>,
    rx: mpsc::Receiver<()>,
    join: Option<std::thread::JoinHandle<()>>,
    // model
    cond: usize,
    garbage: Vec<u32>,
    existing: usize,
    held: Vec<Vec<u32>>,
    sheld: Vec<Vec<u32>>,
}

fn spawn() -> Thread {
    let (tx, crx) = mpsc::channel();
    let (rtx, rx) = mpsc::channel();
    let join = std::thread::spawn(move || {
        let mut uheld = Vec::new();
        let mut sheld = Vec::new();
        while let Ok(op) = crx.recv() {
            match op {
                Op::Set(false, k) => match U.get(k as usize) {
                    Some(f) => unsync::set_collect_condition(*f),
                    None => unsync::set_collect_condition(unsync::default_collect_condition),
                },
                Op::Set(true, k) => match S.get(k as usize) {
                    Some(f) => sync::set_collect_condition(*f),
                    None => sync::set_collect_condition(sync::default_collect_condition),
                },
                Op::Answer(s, k, b) => ANSWER[k as usize + if s { K } else { 0 }].store(b, SeqCst),
                Op::Drops(false, n) => (0..n).for_each(|_| drop(unsync::Gc::new(7u8))),
                Op::Drops(true, n) => (0..n).for_each(|_| drop(sync::Gc::new(7u8))),
                Op::Hold(false, n) => (0..n).for_each(|_| uheld.push(un())),
                Op::Hold(true, n) => (0..n).for_each(|_| sheld.push(sn())),
                Op::Ring(false, n) => uheld.push(uring(n)),
                Op::Ring(true, n) => sheld.push(sring(n)),
                Op::Unhold(false) => drop(uheld.pop()),
                Op::Unhold(true) => drop(sheld.pop()),
                Op::Garbage(false, n) => drop(uring(n)),
                Op::Garbage(true, n) => drop(sring(n)),
                Op::Collect(false) => unsync::collect(),
                Op::Collect(true) => sync::collect(),
                Op::Exit => break,
            }
            let _ = rtx.send(());
        }
        // what is still held is dropped here
    });
    Thread { tx, rx, join: Some(join), cond: DEFAULT, garbage: vec![], existing: 0, held: vec![], sheld: vec![] }
}

struct Model {
    /// sync garbage whose threads are all gone
    orphans: Vec<u32>,
    /// sync garbage per thread
    sgarbage: Vec<Vec<u32>>,
    scond: usize,
    collections: u32,
    consulted: u32,
    scope: u32,
}

fn destroyed(v: &[u32]) -> Option<u32> {
    v.iter().copied().find(|&i| reg::drops(i) > 0)
}
fn surviving(v: &[u32]) -> Option<u32> {
    v.iter().copied().find(|&i| reg::drops(i) == 0)
}

fn go(case: &ScopeCase, m: &mut Model) -> Res {
    const N: usize = 2;
    let mut ts: Vec<Thread> = (0..N).map(|_| spawn()).collect();
    m.sgarbage = vec![vec![]; N];
    for (step, &(op, t)) in case.ops.iter().enumerate() {
        let t = t as usize % N;
        // an Unhold of nothing does nothing
        match op {
            Op::Unhold(false) if ts[t].held.is_empty() => continue,
            Op::Unhold(true) if ts[t].sheld.is_empty() => continue,
            _ => {}
        }
        let calls: Vec<u64> = CALLS.iter().map(|c| c.load(SeqCst)).collect();
        let first = reg::count();
        if op == Op::Exit {
            let _ = ts[t].tx.send(op);
            let panicked = ts[t].join.take().unwrap().join().is_err();
            if panicked {
                let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
                return fail(panic_class(&m), m);
            }
        } else {
            let _ = ts[t].tx.send(op);
            if ts[t].rx.recv().is_err() {
                let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
                return fail(panic_class(&m), m);
            }
        }
        let new: Vec<u32> = (first..reg::count()).collect();
        let called: Vec<usize> = (0..2 * K).filter(|&i| CALLS[i].load(SeqCst) > calls[i]).collect();
        let is_sync = match op {
            Op::Set(s, _)
            | Op::Answer(s, _, _)
            | Op::Drops(s, _)
            | Op::Hold(s, _)
            | Op::Unhold(s)
            | Op::Garbage(s, _)
            | Op::Ring(s, _)
            | Op::Collect(s) => Some(s),
            Op::Exit => None,
        };
        // who may have been asked
        for &c in &called {
            let ok = if c < K { is_sync != Some(true) && ts[t].cond == c } else { is_sync != Some(false) && m.scond == c - K };
            if !ok {
                return fail("cond", format!("step {step}: condition {c} was consulted but is not installed there"));
            }
        }
        let key = |s: bool, k: usize| if s { K + k } else { k };
        let (scond, ucond) = (m.scond, ts[t].cond);
        let installed = |s: bool| if s { scond } else { ucond };
        if let Op::Drops(s, n) = op {
            if installed(s) != DEFAULT {
                m.scope += 1;
                if n >= 4096 && !called.contains(&key(s, installed(s))) {
                    return fail("cond", format!("step {step}: condition was not consulted in {n} drops"));
                }
                m.consulted += called.len() as u32;
            }
        }
        // did a collection have to run, could one?
        let asked = |s: bool| {
            let k = installed(s);
            k != DEFAULT && called.contains(&key(s, k)) && ANSWER[key(s, k)].load(SeqCst)
        };
        let (must_u, may_u) = match op {
            Op::Collect(false) => (true, true),
            Op::Exit => (true, true),
            _ => (asked(false), asked(false) || (is_sync == Some(false) && ts[t].cond == DEFAULT)),
        };
        let (must_s, may_s) = match op {
            Op::Collect(true) => (true, true),
            _ => (asked(true), asked(true) || (is_sync != Some(false) && m.scond == DEFAULT)),
        };
        // model of the operation itself
        match op {
            Op::Set(false, k) => ts[t].cond = (k as usize).min(DEFAULT),
            Op::Set(true, k) => m.scond = (k as usize).min(DEFAULT),
            Op::Hold(false, n) => ts[t].held.extend((0..n).map(|_| vec![])),
            Op::Hold(true, n) => ts[t].sheld.extend((0..n).map(|_| vec![])),
            Op::Ring(false, _) => ts[t].held.push(new.clone()),
            Op::Ring(true, _) => ts[t].sheld.push(new.clone()),
            _ => {}
        }
        // garbage made by this very operation may or may not be seen by a collection during it
        let mut fresh_u = Vec::new();
        let mut fresh_s = Vec::new();
        match op {
            Op::Garbage(false, _) => fresh_u = new.clone(),
            Op::Garbage(true, _) => fresh_s = new.clone(),
            Op::Unhold(false) => fresh_u = ts[t].held.pop().unwrap(),
            Op::Unhold(true) => fresh_s = ts[t].sheld.pop().unwrap(),
            Op::Exit => {
                fresh_u = ts[t].held.drain(..).flatten().collect();
                fresh_s = ts[t].sheld.drain(..).flatten().collect();
            }
            _ => {}
        }
        // nothing that is held may go
        for th in &ts {
            if let Some(i) = th.held.iter().chain(&th.sheld).find_map(|v| destroyed(v)) {
                return fail("unsafe", format!("step {step}: value {i} was destroyed while held"));
            }
        }
        if must_u {
            m.collections += 1;
            if let Some(i) = surviving(&ts[t].garbage) {
                return fail("cond", format!("step {step}: a collection was asked for but unsync garbage {i} survived"));
            }
        } else if !may_u {
            if let Some(i) = destroyed(&ts[t].garbage) {
                return fail("cond", format!("step {step}: unsync garbage {i} was collected although nothing asked for it"));
            }
        }
        for o in (0..N).filter(|&o| o != t) {
            if let Some(i) = destroyed(&ts[o].garbage) {
                return fail("cond", format!("step {step}: unsync garbage {i} was collected by another thread"));
            }
        }
        if must_s {
            m.collections += 1;
            if let Some(i) = surviving(&m.orphans) {
                return fail("cond", format!("step {step}: a collection was asked for but sync garbage {i} survived"));
            }
            if op == Op::Collect(true) {
                if let Some(i) = surviving(&m.sgarbage[t]) {
                    return fail("leak", format!("step {step}: sync garbage {i} survived collect()"));
                }
            }
        } else if !may_s {
            if let Some(i) = m.sgarbage.iter().find_map(|v| destroyed(v)).or(destroyed(&m.orphans)) {
                return fail("cond", format!("step {step}: sync garbage {i} was collected although nothing asked for it"));
            }
        }
        ts[t].garbage.extend(fresh_u);
        m.sgarbage[t].extend(fresh_s);
        match op {
            Op::Exit => {
                if surviving(&ts[t].garbage).is_some() {
                    return fail("cond", "garbage survived the exit of its thread");
                }
                let left = std::mem::take(&mut m.sgarbage[t]);
                m.orphans.extend(left);
                ts[t] = spawn();
            }
            _ => {}
        }
        ts[t].garbage.retain(|&i| reg::drops(i) == 0);
        m.orphans.retain(|&i| reg::drops(i) == 0);
        for v in &mut m.sgarbage {
            v.retain(|&i| reg::drops(i) == 0);
        }
    }
    for mut t in ts {
        let _ = t.tx.send(Op::Exit);
        if t.join.take().unwrap().join().is_err() {
            let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
            return fail(panic_class(&m), m);
        }
    }
    Ok(())
}

pub fn run(case: &ScopeCase) -> Out {
    let mut m = Model { orphans: vec![], sgarbage: vec![], scond: DEFAULT, collections: 0, consulted: 0, scope: 0 };
    let r = go(case, &mut m);
    Out {
        fail: r.err(),
        nontrivial: m.collections > 0 && m.consulted > 0,
        labels: if m.collections > 0 { vec!["a collection was asked for".into()] } else { vec![] },
        ..Out::default()
    }
}

// ---- counters ------------------------------------------------------------------------------------

/// Counters over several threads: each operation is followed by reading both counters.
pub fn run_counters(case: &ScopeCase) -> Out {
    let mut n = 0;
    let r = counters(case, &mut n);
    Out { fail: r.err(), nontrivial: n > 2, labels: vec![], ..Out::default() }
}

fn counters(case: &ScopeCase, checked: &mut u32) -> Res {
    const N: usize = 2;
    let mut ts: Vec<Thread> = (0..N).map(|_| spawn()).collect();
    let ask = |t: &Thread, op: Op| -> Res {
        let _ = t.tx.send(op);
        if t.rx.recv().is_err() {
            let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
            return fail(panic_class(&m), m);
        }
        Ok(())
    };
    // condition 0 answers false throughout
    for t in &ts {
        ask(t, Op::Set(false, 0))?;
    }
    ask(&ts[0], Op::Set(true, 0))?;
    let base = |ts: &Thread, s: bool| -> Res<Option<(usize, usize)>> {
        let before = CALLS[if s { K } else { 0 }].load(SeqCst);
        ask(ts, Op::Drops(s, 1))?;
        if CALLS[if s { K } else { 0 }].load(SeqCst) == before {
            return Ok(None);
        }
        Ok(Some((EXISTING.load(SeqCst), DROPPED.load(SeqCst))))
    };
    let mut ub = vec![None; N];
    let mut sb = None;
    let mut sexisting = 0usize;
    // (minimum, maximum) number of drops counted since the last collection
    let mut udropped = [(0usize, 0usize); N];
    let mut sdropped = (0usize, 0usize);
    // pointers in garbage not yet collected
    let mut ugarb = [0usize; N];
    let mut sgarb = [0usize; N];
    let mut sorph = 0usize;
    for &(op, t) in case.ops.iter() {
        let t = t as usize % N;
        match op {
            Op::Set(..) | Op::Answer(..) => continue,
            Op::Unhold(false) if ts[t].held.is_empty() => continue,
            Op::Unhold(true) if ts[t].sheld.is_empty() => continue,
            _ => {}
        }
        if op == Op::Exit {
            let _ = ts[t].tx.send(op);
            if ts[t].join.take().unwrap().join().is_err() {
                let m = LAST_PANIC.lock().unwrap().clone().unwrap_or_default();
                return fail(panic_class(&m), m);
            }
            // held pointers were dropped, rings among them are garbage now
            for n in std::mem::take(&mut ts[t].sheld) {
                sexisting -= 1;
                sdropped.0 += 1;
                sdropped.1 += 1;
                sgarb[t] += n.len();
            }
            sorph += std::mem::take(&mut sgarb[t]);
            ugarb[t] = 0;
            udropped[t] = (0, 0);
            ub[t] = None;
            ts[t] = spawn();
            ask(&ts[t], Op::Set(false, 0))?;
        } else {
            ask(&ts[t], op)?;
        }
        match op {
            Op::Drops(false, n) => {
                udropped[t].0 += n as usize;
                udropped[t].1 += n as usize;
            }
            Op::Drops(true, n) => {
                sdropped.0 += n as usize;
                sdropped.1 += n as usize;
            }
            Op::Hold(false, n) => {
                ts[t].existing += n as usize;
                ts[t].held.extend((0..n).map(|_| vec![]));
            }
            Op::Hold(true, n) => {
                sexisting += n as usize;
                ts[t].sheld.extend((0..n).map(|_| vec![]));
            }
            Op::Ring(false, n) => {
                ts[t].existing += 1 + n as usize;
                ts[t].held.push(vec![0; n as usize]);
            }
            Op::Ring(true, n) => {
                sexisting += 1 + n as usize;
                ts[t].sheld.push(vec![0; n as usize]);
            }
            Op::Garbage(false, n) => {
                ts[t].existing += n as usize;
                ugarb[t] += n as usize;
                udropped[t].0 += 1;
                udropped[t].1 += 1;
            }
            Op::Garbage(true, n) => {
                sexisting += n as usize;
                sgarb[t] += n as usize;
                sdropped.0 += 1;
                sdropped.1 += 1;
            }
            Op::Unhold(false) => {
                let n = ts[t].held.pop().unwrap();
                ts[t].existing -= 1;
                udropped[t].0 += 1;
                udropped[t].1 += 1;
                ugarb[t] += n.len();
            }
            Op::Unhold(true) => {
                let n = ts[t].sheld.pop().unwrap();
                sexisting -= 1;
                sdropped.0 += 1;
                sdropped.1 += 1;
                sgarb[t] += n.len();
            }
            Op::Collect(false) => {
                let n = std::mem::take(&mut ugarb[t]);
                ts[t].existing -= n;
                udropped[t] = (0, n);
            }
            Op::Collect(true) => {
                let n = std::mem::take(&mut sgarb[t]) + std::mem::take(&mut sorph);
                sexisting -= n;
                sdropped = (0, n);
            }
            _ => {}
        }
        if let Some((e, d)) = base(&ts[t], false)? {
            // whether the pointer being dropped still counts is settled by the first reading
            let b = *ub[t].get_or_insert((e.wrapping_sub(ts[t].existing), d.wrapping_sub(udropped[t].1.min(d))));
            if b.0 > 1 {
                return fail("counter", format!("n_gcs_existing (unsync) is {e}, expected {}", ts[t].existing));
            }
            *checked += 1;
            if e != ts[t].existing + b.0 {
                return fail("counter", format!("n_gcs_existing (unsync) is {e}, expected {}", ts[t].existing + b.0));
            }
            if d < udropped[t].0 || d > udropped[t].1 + 1 {
                return fail("counter", format!("n_gcs_dropped (unsync) is {d}, expected {:?}", udropped[t]));
            }
            udropped[t].0 += 1;
            udropped[t].1 += 1;
        }
        if let Some((e, d)) = base(&ts[t], true)? {
            let b = *sb.get_or_insert(e.wrapping_sub(sexisting));
            if b > 1 || e != sexisting + b {
                return fail("counter", format!("n_gcs_existing (sync) is {e}, expected {sexisting}"));
            }
            if d < sdropped.0 || d > sdropped.1 + 1 {
                return fail("counter", format!("n_gcs_dropped (sync) is {d}, expected {sdropped:?}"));
            }
            sdropped.0 += 1;
            sdropped.1 += 1;
        }
    }
    for mut t in ts {
        let _ = t.tx.send(Op::Exit);
        let _ = t.join.take().unwrap().join();
    }
    Ok(())
}

pub fn case(big: bool) -> BoxedStrategy<ScopeCase> {
    let s = || any::<bool>();
    let k = || 0u8..K as u8 + 1;
    let op = prop_oneof![
        5 => (s(), k()).prop_map(|(a, b)| Op::Set(a, b)),
        5 => (s(), 0..K as u8, any::<bool>()).prop_map(|(a, b, c)| Op::Answer(a, b, c)),
        6 => (s(), 1u16..6).prop_map(|(a, b)| Op::Drops(a, b)),
        (if big { 2 } else { 1 }) => (s(), 4096u16..5000).prop_map(|(a, b)| Op::Drops(a, b)),
        2 => (s(), 1u8..5).prop_map(|(a, b)| Op::Hold(a, b)),
        2 => (s(), 1u8..4).prop_map(|(a, b)| Op::Ring(a, b)),
        3 => s().prop_map(Op::Unhold),
        6 => (s(), 1u8..4).prop_map(|(a, b)| Op::Garbage(a, b)),
        3 => s().prop_map(Op::Collect),
        3 => Just(Op::Exit),
    ];
    (prop::collection::vec((op, 0u8..2), 3..40), any::<u64>()).prop_map(|(ops, hash)| ScopeCase { ops, hash }).boxed()
}

pub fn shrink(c: &ScopeCase) -> Vec<ScopeCase> {
    let mut v: Vec<ScopeCase> = shrink_vec(&c.ops).into_iter().map(|ops| ScopeCase { ops, ..c.clone() }).collect();
    for i in 0..c.ops.len() {
        let smaller = match c.ops[i].0 {
            Op::Drops(s, n) if n > 1 => Some(Op::Drops(s, 1)),
            Op::Garbage(s, n) if n > 1 => Some(Op::Garbage(s, n - 1)),
            Op::Hold(s, n) if n > 1 => Some(Op::Hold(s, 1)),
            _ => None,
        };
        if let Some(o) = smaller {
            let mut d = c.clone();
            d.ops[i].0 = o;
            v.push(d);
        }
        if c.ops[i].1 != 0 {
            let mut d = c.clone();
            d.ops[i].1 = 0;
            v.push(d);
        }
    }
    v
}
