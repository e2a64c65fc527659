//! scenarios shared by several properties
use crate::c04::{setup, swaps, Layout};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;

/// what may happen in a scenario of one pool
#[derive(Clone, Copy)]
pub struct Mix {
    pub opens: usize,
    pub claims: bool,
    pub gives: bool,
    pub withdraw: bool,
    /// segment ends that swap amounts aim at
    pub reach: usize,
    /// price limits besides the extreme one
    pub limits: usize,
    /// also amounts one unit around the segment ends
    pub around: bool,
    pub max_pos: usize,
}
pub const MIX: Mix =
    Mix { opens: 9, claims: true, gives: false, withdraw: false, reach: 2, limits: 0, around: false, max_pos: 5 };

pub fn life(y: &Layout, share: u64, depth: usize, x: Mix) -> Scenario {
    let extra: Vec<_> = y.extra.iter().take(x.opens).cloned().collect();
    Scenario {
        name: y.name.into(),
        share,
        init: setup(y),
        depth,
        alphabet: Box::new(move |s, _| {
            let mut v = vec![];
            if s.m.all_pos().count() < x.max_pos {
                for (lo, hi, l) in &extra {
                    v.push(open(BOB, 0, *lo, *hi, *l));
                }
            }
            v.extend(closes(s, &[ALICE, BOB]));
            if x.claims {
                v.extend(claims(s, &[ALICE, BOB]));
            }
            if x.gives {
                for i in 0..s.m.pos[ALICE].len() {
                    v.push(Op::Give { who: ALICE, idx: i as u32, to: BOB });
                }
                for i in 0..s.m.pos[BOB].len() {
                    v.push(Op::NftTransfer { who: BOB, owner: BOB, idx: i as u32, to: ALICE });
                }
            }
            if x.withdraw {
                v.push(Op::Withdraw { who: ADMIN, pool: 0 });
            }
            v.extend(swaps(s, 0, CAROL, x.reach, x.around, x.limits));
            v
        }),
    }
}
/// forty neighbouring ranges, so that one swap crosses dozens of ticks
pub fn comb(share: u64, depth: usize) -> Scenario {
    let l = 1_000_000 * E6;
    let mut init = one_pool(TIER_A, 0, price_at(0));
    for i in -20..20i32 {
        init.push(open(ALICE, 0, 10 * i, 10 * i + 10, l + (i * i) as u128 * l / 7));
    }
    init.push(Op::Wait { ms: 1357, blocks: 1 });
    Scenario {
        name: "forty ranges".into(),
        share,
        init,
        depth,
        alphabet: Box::new(move |s, _| {
            let mut v = vec![Op::Wait { ms: 642, blocks: 1 }, open(BOB, 0, -150, 150, 3 * l)];
            for x2y in [true, false] {
                for exact_in in [true, false] {
                    let e = edges(&s.m, 0, x2y, exact_in, 60);
                    for i in [0, 7, 15, 17, 33, 39] {
                        if let Some(a) = e.get(i) {
                            v.push(swap(CAROL, 0, x2y, *a + 1, exact_in));
                        }
                    }
                    if let Some(a) = e.last() {
                        v.push(swap(CAROL, 0, x2y, a.saturating_sub(1), exact_in));
                    }
                }
            }
            for i in [0, 19, 20, 39] {
                if i < s.m.pos[ALICE].len() as u32 {
                    v.push(Op::Close { who: ALICE, idx: i });
                    v.push(Op::Claim { who: ALICE, idx: i });
                }
            }
            v
        }),
    }
}
