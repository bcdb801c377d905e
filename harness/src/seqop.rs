//! Operations of the sequential engines (shared by both collectors).

use crate::runner::shrink_vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cond {
    Never,
    Always,
    Default,
    Every(u8),
    Script(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Op {
    /// kind, and handles to store in it when it is of a kind with fixed pointers
    New(u8, u16, u16),
    Clone(u16),
    Drop(u16),
    /// store a clone of handle .2 in slot .1 of handle .0
    Link(u16, u8, u16),
    /// move handle .2 into slot .1 of handle .0
    LinkMove(u16, u8, u16),
    /// remove element .2 of slot .1 of handle .0 and drop it, while the slot is borrowed if .3
    Unlink(u16, u8, u16, bool),
    TakeOut(u16, u8, u16),
    CloneOut(u16, u8, u16),
    Clear(u16, u8, bool),
    /// move an element between two slots
    MoveEdge(u16, u8, u16, u16, u8),
    /// make a ring of n new nodes of a kind; keep handles to those in the mask
    Ring(u8, u8, u8),
    /// n new nodes all pointing at each other
    Clique(u8, u8),
    Chain(u8, u8, bool),
    DropMany(u8),
    DropAll,
    Collect,
    CollectAll,
    Cond(Cond),
    HoldMut(u16, u8),
    HoldShared(u16, u8),
    Release(u16),
    ReleaseAll,
    Churn(u8),
    Check,
    Probe,
    /// the acting thread exits and is replaced (sync only)
    Restart,
    /// keep n more clones of a handle
    CloneMany(u16, u32),
    /// store n clones of handle .2 in slot .1 of handle .0
    LinkMany(u16, u8, u16, u32),
    /// a value pointing at n others, which all point back; .2 tells which of them to keep
    Hub(u16, bool, u8),
    /// a long ring, of which one handle is kept if asked for
    BigRing(u16, u8, bool),
    CollectMany(u32),
}

impl Op {
    pub fn collects(self) -> bool {
        matches!(self, Op::Collect | Op::CollectAll | Op::CollectMany(_))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    /// operation, and the thread it runs on
    pub ops: Vec<(Op, u8)>,
    pub threads: u8,
    pub hash: u64,
    pub reverse: bool,
    pub cond0: Cond,
}

fn cond_for(w: Weights) -> BoxedStrategy<Cond> {
    if w.many > 0 {
        // collecting thousands of values at every drop would take too long
        return prop_oneof![Just(Cond::Never), Just(Cond::Default)].boxed();
    }
    cond()
}

pub fn cond() -> BoxedStrategy<Cond> {
    prop_oneof![
        3 => Just(Cond::Never),
        2 => Just(Cond::Always),
        2 => Just(Cond::Default),
        2 => (1u8..9).prop_map(Cond::Every),
        1 => any::<u32>().prop_map(Cond::Script),
    ]
    .boxed()
}

#[derive(Clone, Copy)]
pub struct Weights {
    pub hold: u32,
    pub cond: u32,
    pub restart: u32,
    pub probe: u32,
    pub kinds: u8,
    /// operations on hundreds or thousands of values or pointers
    pub many: u32,
}

pub fn op(w: Weights) -> BoxedStrategy<Op> {
    let h = || 0u16..64;
    let s = || 0u8..3;
    let k = w.kinds;
    let n = || prop_oneof![8 => 200u32..700, 1 => 65_000u32..66_500];
    let all: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (8, (0..k, h(), h()).prop_map(|(a, b, c)| Op::New(a, b, c)).boxed()),
        (5, h().prop_map(Op::Clone).boxed()),
        (10, h().prop_map(Op::Drop).boxed()),
        (14, (h(), s(), h()).prop_map(|(a, b, c)| Op::Link(a, b, c)).boxed()),
        (6, (h(), s(), h()).prop_map(|(a, b, c)| Op::LinkMove(a, b, c)).boxed()),
        (5, (h(), s(), h(), any::<bool>()).prop_map(|(a, b, c, d)| Op::Unlink(a, b, c, d)).boxed()),
        (4, (h(), s(), h()).prop_map(|(a, b, c)| Op::TakeOut(a, b, c)).boxed()),
        (4, (h(), s(), h()).prop_map(|(a, b, c)| Op::CloneOut(a, b, c)).boxed()),
        (2, (h(), s(), any::<bool>()).prop_map(|(a, b, c)| Op::Clear(a, b, c)).boxed()),
        (4, (h(), s(), h(), h(), s()).prop_map(|(a, b, c, d, e)| Op::MoveEdge(a, b, c, d, e)).boxed()),
        (4, (1u8..6, 0..k, any::<u8>()).prop_map(|(a, b, c)| Op::Ring(a, b, c)).boxed()),
        (2, (1u8..5, any::<u8>()).prop_map(|(a, b)| Op::Clique(a, b)).boxed()),
        (2, (1u8..8, 0..k, any::<bool>()).prop_map(|(a, b, c)| Op::Chain(a, b, c)).boxed()),
        (3, any::<u8>().prop_map(Op::DropMany).boxed()),
        (1, Just(Op::DropAll).boxed()),
        (7, Just(Op::Collect).boxed()),
        (2, Just(Op::CollectAll).boxed()),
        (w.cond, cond_for(w).prop_map(Op::Cond).boxed()),
        (w.hold, (h(), s()).prop_map(|(a, b)| Op::HoldMut(a, b)).boxed()),
        (w.hold / 2, (h(), s()).prop_map(|(a, b)| Op::HoldShared(a, b)).boxed()),
        (w.hold, h().prop_map(Op::Release).boxed()),
        (w.hold / 4, Just(Op::ReleaseAll).boxed()),
        (1, (1u8..20).prop_map(Op::Churn).boxed()),
        (2, Just(Op::Check).boxed()),
        (w.probe, Just(Op::Probe).boxed()),
        (w.restart, Just(Op::Restart).boxed()),
        (w.many, (h(), n()).prop_map(|(a, b)| Op::CloneMany(a, b)).boxed()),
        (w.many, (h(), s(), h(), n()).prop_map(|(a, b, c, d)| Op::LinkMany(a, b, c, d)).boxed()),
        (w.many, (prop_oneof![3 => 100u16..1_000, 1 => 4_000u16..9_000], any::<bool>(), 0u8..8).prop_map(|(a, b, c)| Op::Hub(a, b, c)).boxed()),
        (w.many, n().prop_map(Op::CollectMany).boxed()),
        (w.many, (100u16..1_500, 0..k, any::<bool>()).prop_map(|(a, b, c)| Op::BigRing(a, b, c)).boxed()),
    ];
    weighted(all)
}

/// A choice in which options of weight zero are absent.
pub fn weighted<T: std::fmt::Debug + 'static>(all: Vec<(u32, BoxedStrategy<T>)>) -> BoxedStrategy<T> {
    proptest::strategy::Union::new_weighted(all.into_iter().filter(|x| x.0 > 0).collect()).boxed()
}

pub fn case(w: Weights, len: usize, threads: u8, conds: bool) -> BoxedStrategy<SeqCase> {
    let o = (op(w), 0..threads.max(1));
    (
        prop_oneof![
            3 => prop::collection::vec(o.clone(), 4..len / 3),
            2 => prop::collection::vec(o, len / 3..len),
        ],
        any::<u64>(),
        any::<bool>(),
        if conds { cond_for(w) } else { Just(Cond::Never).boxed() },
    )
        .prop_map(move |(ops, hash, reverse, cond0)| SeqCase { ops, threads: threads.max(1), hash, reverse, cond0 })
        .boxed()
}

pub fn shrink(c: &SeqCase) -> Vec<SeqCase> {
    let mut out: Vec<SeqCase> =
        shrink_vec(&c.ops).into_iter().map(|ops| SeqCase { ops, ..c.clone() }).collect();
    if c.threads > 1 {
        out.push(SeqCase { threads: 1, ops: c.ops.iter().map(|o| (o.0, 0)).collect(), ..c.clone() });
    }
    if c.cond0 != Cond::Never {
        out.push(SeqCase { cond0: Cond::Never, ..c.clone() });
    }
    if c.reverse {
        out.push(SeqCase { reverse: false, ..c.clone() });
    }
    for i in 0..c.ops.len() {
        for o in shrink_op(&c.ops[i].0) {
            let mut d = c.clone();
            d.ops[i].0 = o;
            out.push(d);
        }
        if c.ops[i].1 != 0 {
            let mut d = c.clone();
            d.ops[i].1 = 0;
            out.push(d);
        }
    }
    out
}

fn dec(x: u16) -> Vec<u16> {
    let mut v = vec![];
    if x > 0 {
        v.push(0);
        v.push(x / 2);
        v.push(x - 1);
        v.dedup();
    }
    v
}

fn less(n: u32) -> Vec<u32> {
    let mut v = vec![n / 2, n - n / 4, n - n / 16, n.saturating_sub(1)];
    v.retain(|&x| x > 0 && x < n);
    v
}

fn shrink_op(o: &Op) -> Vec<Op> {
    use Op::*;
    let mut v = Vec::new();
    match *o {
        New(k, a, b) if k > 0 => v.push(New(0, a, b)),
        Clone(a) => v.extend(dec(a).into_iter().map(Clone)),
        Drop(a) => v.extend(dec(a).into_iter().map(Drop)),
        Link(a, s, b) => {
            v.extend(dec(a).into_iter().map(|a| Link(a, s, b)));
            v.extend(dec(b).into_iter().map(|b| Link(a, s, b)));
        }
        LinkMove(a, s, b) => {
            v.push(Link(a, s, b));
            v.extend(dec(a).into_iter().map(|a| LinkMove(a, s, b)));
            v.extend(dec(b).into_iter().map(|b| LinkMove(a, s, b)));
        }
        Unlink(a, s, b, c) => {
            v.extend(dec(a).into_iter().map(|a| Unlink(a, s, b, c)));
            if c {
                v.push(Unlink(a, s, b, false));
            }
        }
        TakeOut(a, s, b) => v.extend(dec(a).into_iter().map(|a| TakeOut(a, s, b))),
        CloneOut(a, s, b) => v.extend(dec(a).into_iter().map(|a| CloneOut(a, s, b))),
        MoveEdge(a, s, b, c, d) => {
            v.extend(dec(a).into_iter().map(|a| MoveEdge(a, s, b, c, d)));
            v.extend(dec(c).into_iter().map(|c| MoveEdge(a, s, b, c, d)));
        }
        Ring(n, k, m) => {
            if n > 1 {
                v.push(Ring(n - 1, k, m));
            }
            if k > 0 {
                v.push(Ring(n, 0, m));
            }
            if m > 0 {
                v.push(Ring(n, k, m & (m - 1)));
            }
        }
        Clique(n, m) if n > 1 => v.push(Clique(n - 1, m)),
        Chain(n, k, b) if n > 1 => v.push(Chain(n - 1, k, b)),
        Churn(n) if n > 1 => v.push(Churn(n / 2)),
        Cond(c) if c != self::Cond::Never && c != self::Cond::Always => v.push(Cond(self::Cond::Always)),
        CollectAll => v.push(Collect),
        CloneMany(h, n) => {
            v.push(Clone(h));
            v.extend(less(n).into_iter().map(|n| CloneMany(h, n)));
        }
        LinkMany(a, s, b, n) => {
            v.push(Link(a, s, b));
            v.extend(less(n).into_iter().map(|n| LinkMany(a, s, b, n)));
        }
        CollectMany(n) => {
            v.push(Collect);
            v.extend(less(n).into_iter().map(CollectMany));
        }
        Hub(n, x, k) => v.extend(less(n as u32).into_iter().map(|n| Hub(n as u16, x, k))),
        BigRing(n, k, x) => v.extend(less(n as u32).into_iter().map(|n| BigRing(n as u16, k, x))),
        _ => {}
    }
    v
}
