//! Programs that leave it to the default condition to reclaim their garbage.

use crate::runner::shrink_vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Shape {
    Ring,
    Loops,
    Linked,
    Into,
    Severed,
    Clique,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Churn {
    Clone,
    Plain,
    Owner,
    Store,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    pub garbage: Vec<(Shape, u8)>,
    pub churn: Churn,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChurnCase {
    pub live: u16,
    pub ring_live: bool,
    pub hub: bool,
    pub rounds: Vec<Round>,
    pub hash: u64,
}

pub fn case(rounds: usize) -> BoxedStrategy<ChurnCase> {
    let shape = prop_oneof![Just(Shape::Ring), Just(Shape::Loops), Just(Shape::Linked), Just(Shape::Into), Just(Shape::Severed), Just(Shape::Clique)];
    let churn = prop_oneof![Just(Churn::Clone), Just(Churn::Plain), Just(Churn::Owner), Just(Churn::Store)];
    let round = (prop::collection::vec((shape, 1u8..40), 0..6), churn).prop_map(|(garbage, churn)| Round { garbage, churn });
    (
        prop_oneof![1 => Just(0u16), 3 => 1u16..20, 2 => 20u16..300, 1 => 300u16..1500],
        any::<bool>(),
        any::<bool>(),
        prop::collection::vec(round, 1..=rounds),
        any::<u64>(),
    )
        .prop_map(|(live, ring_live, hub, rounds, hash)| ChurnCase { live, ring_live, hub, rounds, hash })
        .boxed()
}

pub fn shrink(c: &ChurnCase) -> Vec<ChurnCase> {
    let mut out: Vec<ChurnCase> = shrink_vec(&c.rounds).into_iter().filter(|r| !r.is_empty()).map(|rounds| ChurnCase { rounds, ..c.clone() }).collect();
    for live in [0, c.live / 2, c.live.saturating_sub(1)] {
        if live < c.live {
            out.push(ChurnCase { live, ..c.clone() });
        }
    }
    if c.hub {
        out.push(ChurnCase { hub: false, ..c.clone() });
    }
    if c.ring_live {
        out.push(ChurnCase { ring_live: false, ..c.clone() });
    }
    for i in 0..c.rounds.len() {
        for g in shrink_vec(&c.rounds[i].garbage) {
            let mut d = c.clone();
            d.rounds[i].garbage = g;
            out.push(d);
        }
        for k in 0..c.rounds[i].garbage.len() {
            let n = c.rounds[i].garbage[k].1;
            for x in [n / 2, n - 1] {
                if x > 0 && x < n {
                    let mut d = c.clone();
                    d.rounds[i].garbage[k].1 = x;
                    out.push(d);
                }
            }
        }
    }
    out
}
