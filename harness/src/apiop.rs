//! Histories over the pointer interface, for values of several types.

use crate::runner::shrink_vec;
use dumpster::Collectable;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum AOp {
    New(u64),
    Default,
    Clone(u8),
    TryClone(u8),
    Drop(u8),
    /// move the pointer into a box, and from there elsewhere
    Move(u8),
    /// store the pointer in a value that owns it, part of a cycle if true
    Own(u8, bool),
    /// garbage cycle that owns a clone
    Garbage(u8),
    Compare(u8, u8),
    Write(u8, u64),
    Format(u8, u8),
    Collect,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ApiCase {
    pub kind: u8,
    pub ops: Vec<AOp>,
    pub hash: u64,
}

pub const TYPES: u8 = 12;

/// A type to put in a pointer.
pub trait Val: Collectable + PartialEq + Default + Send + Sync + 'static {
    fn make(x: u64) -> Self;
    /// Identical contents (not equality).
    fn same(&self, other: &Self) -> bool;
    /// Change through a shared reference; gives the value it is then the same as, if the type can.
    fn write(&self, _: u64) -> bool {
        false
    }
}
macro_rules! val {
    ($t:ty, |$x:ident| $make:expr) => {
        impl Val for $t {
            fn make($x: u64) -> Self {
                $make
            }
            fn same(&self, other: &Self) -> bool {
                self == other
            }
        }
    };
}
val!(u8, |x| x as u8);
val!(i64, |x| x as i64);
val!((), |_x| ());
val!(String, |x| "ab".repeat(x as usize % 9));
val!(Vec<u16>, |x| (0..x % 7).map(|i| (x >> i) as u16).collect());
val!((u8, Option<Box<u32>>), |x| (x as u8, (x & 256 != 0).then(|| Box::new(x as u32))));
val!([u64; 4], |x| [x, x / 2, x / 3, 0]);

/// Not equal to itself when not a number.
impl Val for f64 {
    fn make(x: u64) -> f64 {
        match x % 4 {
            0 => f64::NAN,
            1 => 0.0,
            2 => -0.0,
            _ => x as f64,
        }
    }
    fn same(&self, other: &f64) -> bool {
        self.to_bits() == other.to_bits()
    }
}
/// Equality that is neither symmetric nor reflexive.
#[derive(Default, Collectable)]
pub struct Odd(u8);
impl PartialEq for Odd {
    fn eq(&self, other: &Odd) -> bool {
        self.0 % 5 < other.0 % 5
    }
}
impl Val for Odd {
    fn make(x: u64) -> Odd {
        Odd(x as u8)
    }
    fn same(&self, other: &Odd) -> bool {
        self.0 == other.0
    }
}
#[derive(Default, PartialEq, Collectable)]
#[repr(align(128))]
pub struct Wide(u8, u32);
val!(Wide, |x| Wide(x as u8, (x >> 8) as u32));
#[derive(PartialEq, Collectable)]
pub struct Large(Vec<u8>, [u32; 700]);
impl Default for Large {
    fn default() -> Large {
        Large(vec![], [9; 700])
    }
}
val!(Large, |x| Large(vec![x as u8; 3], std::array::from_fn(|i| (x as u32).wrapping_mul(i as u32 + 1))));
/// Can be changed in place.
#[derive(Default, Collectable)]
pub struct Shared(AtomicU64);
impl PartialEq for Shared {
    fn eq(&self, other: &Shared) -> bool {
        self.0.load(SeqCst) == other.0.load(SeqCst)
    }
}
impl Val for Shared {
    fn make(x: u64) -> Shared {
        Shared(AtomicU64::new(x % 4))
    }
    fn same(&self, other: &Shared) -> bool {
        self == other
    }
    fn write(&self, x: u64) -> bool {
        self.0.store(x % 4, SeqCst);
        true
    }
}

pub fn case() -> BoxedStrategy<ApiCase> {
    let h = || 0u8..12;
    let x = || prop_oneof![0u64..6, any::<u64>()];
    let op = prop_oneof![
        4 => x().prop_map(AOp::New),
        1 => Just(AOp::Default),
        4 => h().prop_map(AOp::Clone),
        2 => h().prop_map(AOp::TryClone),
        3 => h().prop_map(AOp::Drop),
        1 => h().prop_map(AOp::Move),
        2 => (h(), any::<bool>()).prop_map(|(a, b)| AOp::Own(a, b)),
        1 => h().prop_map(AOp::Garbage),
        6 => (h(), h()).prop_map(|(a, b)| AOp::Compare(a, b)),
        2 => (h(), x()).prop_map(|(a, b)| AOp::Write(a, b)),
        2 => (h(), any::<u8>()).prop_map(|(a, b)| AOp::Format(a, b)),
        2 => Just(AOp::Collect),
    ];
    (0..TYPES, prop::collection::vec(op, 2..30), any::<u64>()).prop_map(|(kind, ops, hash)| ApiCase { kind, ops, hash }).boxed()
}
pub fn shrink(c: &ApiCase) -> Vec<ApiCase> {
    let mut out: Vec<ApiCase> = shrink_vec(&c.ops).into_iter().map(|ops| ApiCase { ops, ..c.clone() }).collect();
    for i in 0..c.ops.len() {
        if let AOp::New(x) = c.ops[i] {
            for y in [0, 1, x / 2] {
                if y < x {
                    let mut d = c.clone();
                    d.ops[i] = AOp::New(y);
                    out.push(d);
                }
            }
        }
    }
    out
}
