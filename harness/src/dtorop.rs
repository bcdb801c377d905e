//! Operations of the destructor engines (shared by both collectors).

use crate::runner::shrink_vec;
use crate::seqop::{cond, weighted, Cond};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What a destructor does. `k` chooses one of the value's own pointers, `h` and `t` pointers of the program.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Act {
    TryDeref(u8),
    /// try_clone, and hand the clone out
    TryClone(u8),
    MoveOut(u8),
    /// move an own pointer into a slot of a live value
    MoveToLive(u8, u8, u8),
    /// store a clone of a live pointer among the own ones
    CloneLiveInto(u8),
    /// dereference and clone a dead pointer, which must panic
    DerefDead(u8),
    DropOwn(u8),
    NewKept,
    /// make a ring of new values, and drop it
    NewRing(u8),
    /// make a ring of new values which also holds a clone of a live pointer, and drop it
    NewRingTo(u8, u8),
    DropWorld(u8),
    CloneRoot(u8),
    LinkRoots(u8, u8, u8),
    UnlinkRoots(u8, u8, u8),
    Collect,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum DOp {
    New(Vec<Act>),
    /// a ring of values with these scripts; handles to those in the mask are kept
    Ring(Vec<Vec<Act>>, u8),
    Clone(u8),
    Drop(u8),
    Link(u8, u8, u8),
    LinkMove(u8, u8, u8),
    Unlink(u8, u8, u8),
    TakeOut(u8, u8, u8),
    DropAll,
    Collect,
    Cond(Cond),
    /// panic while holding a lock of the value
    Poison(u8, u8),
    /// leak a guard of a cell of the value
    Forget(u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DtorCase {
    pub ops: Vec<DOp>,
    pub hash: u64,
    pub cond0: Cond,
}

#[derive(Clone, Copy)]
pub struct DtorW {
    pub panic: u32,
    pub poison: u32,
    pub forget: u32,
}

fn act(w: DtorW) -> BoxedStrategy<Act> {
    let k = || 0u8..4;
    let h = || 0u8..12;
    let s = || 0u8..2;
    weighted(vec![
        (6, k().prop_map(Act::TryDeref).boxed()),
        (5, k().prop_map(Act::TryClone).boxed()),
        (5, k().prop_map(Act::MoveOut).boxed()),
        (4, (k(), h(), s()).prop_map(|(a, b, c)| Act::MoveToLive(a, b, c)).boxed()),
        (3, h().prop_map(Act::CloneLiveInto).boxed()),
        (3, k().prop_map(Act::DerefDead).boxed()),
        (3, k().prop_map(Act::DropOwn).boxed()),
        (2, Just(Act::NewKept).boxed()),
        (3, (1u8..4).prop_map(Act::NewRing).boxed()),
        (3, (1u8..4, h()).prop_map(|(a, b)| Act::NewRingTo(a, b)).boxed()),
        (4, h().prop_map(Act::DropWorld).boxed()),
        (2, h().prop_map(Act::CloneRoot).boxed()),
        (3, (h(), s(), h()).prop_map(|(a, b, c)| Act::LinkRoots(a, b, c)).boxed()),
        (2, (h(), s(), k()).prop_map(|(a, b, c)| Act::UnlinkRoots(a, b, c)).boxed()),
        (4, Just(Act::Collect).boxed()),
        (w.panic, Just(Act::Panic).boxed()),
    ])
}

pub fn case(w: DtorW, len: usize) -> BoxedStrategy<DtorCase> {
    let h = || 0u8..24;
    let s = || 0u8..2;
    let script = || {
        prop_oneof![
            2 => Just(vec![]),
            5 => prop::collection::vec(act(w), 1..4),
        ]
    };
    let op = weighted(vec![
        (8, script().prop_map(DOp::New).boxed()),
        (6, (prop::collection::vec(script(), 1..4), any::<u8>()).prop_map(|(a, b)| DOp::Ring(a, b)).boxed()),
        (3, h().prop_map(DOp::Clone).boxed()),
        (10, h().prop_map(DOp::Drop).boxed()),
        (14, (h(), s(), h()).prop_map(|(a, b, c)| DOp::Link(a, b, c)).boxed()),
        (5, (h(), s(), h()).prop_map(|(a, b, c)| DOp::LinkMove(a, b, c)).boxed()),
        (4, (h(), s(), h()).prop_map(|(a, b, c)| DOp::Unlink(a, b, c)).boxed()),
        (2, (h(), s(), h()).prop_map(|(a, b, c)| DOp::TakeOut(a, b, c)).boxed()),
        (1, Just(DOp::DropAll).boxed()),
        (7, Just(DOp::Collect).boxed()),
        (2, cond().prop_map(DOp::Cond).boxed()),
        (w.poison, (h(), s()).prop_map(|(a, b)| DOp::Poison(a, b)).boxed()),
        (w.forget, (h(), s()).prop_map(|(a, b)| DOp::Forget(a, b)).boxed()),
    ]);
    (prop::collection::vec(op, 3..len), any::<u64>(), cond())
        .prop_map(|(ops, hash, cond0)| DtorCase { ops, hash, cond0 })
        .boxed()
}

pub fn shrink(c: &DtorCase) -> Vec<DtorCase> {
    let mut out: Vec<DtorCase> = shrink_vec(&c.ops).into_iter().map(|ops| DtorCase { ops, ..c.clone() }).collect();
    if c.cond0 != Cond::Never {
        out.push(DtorCase { cond0: Cond::Never, ..c.clone() });
    }
    for i in 0..c.ops.len() {
        let mut alts = Vec::new();
        match &c.ops[i] {
            DOp::New(s) => alts.extend(shrink_vec(s).into_iter().map(DOp::New)),
            DOp::Ring(v, m) => {
                for w in shrink_vec(v) {
                    if !w.is_empty() {
                        alts.push(DOp::Ring(w, *m));
                    }
                }
                for j in 0..v.len() {
                    for s in shrink_vec(&v[j]) {
                        let mut w = v.clone();
                        w[j] = s;
                        alts.push(DOp::Ring(w, *m));
                    }
                }
                if *m != 0 {
                    alts.push(DOp::Ring(v.clone(), 0));
                }
            }
            _ => {}
        }
        for a in alts {
            let mut d = c.clone();
            d.ops[i] = a;
            out.push(d);
        }
    }
    out
}
