//! every kind of message through two pools
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::ops::*;

/// two pools and every kind of message that moves positions, prices, fees or rates
pub fn mixed(depth: usize) -> Scenario {
    let l = 1_000_000 * E6 + 271_829;
    Scenario {
        name: "mixed messages".into(),
        share: SHARE,
        init: crate::c01::two_pools(),
        depth,
        alphabet: Box::new(move |s, _| {
            let mut v = vec![
                Op::Wait { ms: 700, blocks: 1 },
                Op::Share { who: ADMIN, v: 500_000_000_000 },
                Op::Share { who: ADMIN, v: 0 },
                Op::Withdraw { who: ADMIN, pool: 0 },
                swap(CAROL, 0, true, 700, true),
                swap(CAROL, 1, false, 900, false),
            ];
            if s.m.all_pos().count() < 4 {
                v.push(Op::Open { who: BOB, pool: 0, lo: 0, hi: 10, l: 3 * l, slip: ANY_SLIP, funds: Funds::Exact, mint: true });
                v.push(open(ALICE, 1, 3, 4, l));
            }
            for (amt, hops) in [
                (700, vec![(0, false)]),
                (900, vec![(0, true), (1, true)]),
                (1200, vec![(1, false), (0, false)]),
                (1000, vec![(0, false), (0, true), (1, true)]),
            ] {
                v.push(Op::Route { who: CAROL, amt, expect: 0, slip: 0, hops, funds: Funds::Exact });
            }
            v.extend(claims(s, &[ALICE, BOB]));
            for (a, b) in [(ALICE, BOB), (BOB, ALICE)] {
                for i in 0..s.m.pos[a].len() as u32 {
                    v.push(Op::Close { who: a, idx: i });
                    v.push(Op::NftBurn { who: a, owner: a, idx: i });
                    v.push(if i == 0 { Op::Give { who: a, idx: i, to: b } } else { Op::NftTransfer { who: a, owner: a, idx: i, to: b } });
                }
            }
            v
        }),
    }
}
