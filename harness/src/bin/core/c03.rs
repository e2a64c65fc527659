//! one account alone against passive liquidity never gains for free
use crate::c04::{setup, swaps, Layout};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;
use mc::report::Report;

pub struct NoFree;
const ME: usize = DAVE;
impl Check for NoFree {
    fn ghost(&self, s: &State) -> Ghost {
        Ghost { v: s.w.ledger[ME].iter().map(|v| *v as i128).collect(), ..Default::default() }
    }
    fn hash_ledger(&self, w: &World, h: &mut dyn FnMut(u128)) {
        for v in w.ledger[ME] {
            h(v)
        }
    }
    fn on_state(&self, s: &State, g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        // whoever is still invested leaves first
        let mut q = s.clone();
        while !q.m.pos[ME].is_empty() {
            let d = step(&mut q, &Op::Close { who: ME, idx: 0 });
            if !d.real.ok || !d.pred.ok {
                return Ok(());
            }
        }
        let net: Vec<i128> = (0..NT).map(|t| q.w.ledger[ME][t] as i128 - g.v[t]).collect();
        t.add("balances judged", 1);
        if net.iter().all(|v| *v >= 0) && net.iter().any(|v| *v > 0) {
            return Err(format!(
                "after closing all its positions the account has gained for free: {}",
                net.iter().enumerate().filter(|v| *v.1 != 0).map(|(i, v)| format!("{}{:+} ", TOKENS[i], v)).collect::<String>()
            ));
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    let mk = |name, tier: (u64, u16), tick: i32, mid, pos: &[(i32, i32, u128)], extra: &[(i32, i32, u128)]| {
        let s = tier.1 as i32;
        let f = |v: &[(i32, i32, u128)]| v.iter().map(|(a, b, l)| (a * s, b * s, *l)).collect::<Vec<_>>();
        Layout { name, tier, tick: tick * s, mid, pos: f(pos), extra: f(extra), warm: vec![] }
    };
    let ys = vec![
        mk("wide and narrow", TIER_A, 0, false, &[(-3, 3, l), (-1, 1, 2 * l)], &[(-1, 1, l), (0, 1, 5 * l), (-1, 0, 9 * l)]),
        mk("no fee", TIER_0, 0, true, &[(-40, 40, l), (0, 1, 30 * l)], &[(0, 1, 50 * l), (-40, 40, l / 7), (1, 2, l)]),
        mk("coarse units", TIER_B, 3, true, &[(-900, 900, 3000 * E6)], &[(3, 4, 100_000 * E6), (-300, 300, 777 * E6), (2, 3, 5000 * E6)]),
        mk("high fee", TIER_H, 0, true, &[(-2, 2, l / 10)], &[(0, 1, l), (-1, 0, l / 50), (-2, 2, l)]),
        mk("dear", TIER_B, 150_000, true, &[(149_900, 150_100, 1_000_000 * l)], &[(150_000, 150_001, 3_000_000 * l), (149_990, 150_010, l)]),
        mk("cheap", TIER_B, -150_000, true, &[(-150_100, -149_900, 1_000_000 * l)], &[(-150_000, -149_999, 3000 * l), (-150_010, -149_990, l)]),
        mk("gap", TIER_A, 0, false, &[(-4, -2, l), (1, 3, 2 * l)], &[(-2, 1, 500), (-4, 3, l), (0, 1, 3 * l)]),
    ];
    for share in [0, 250_000_000_000] {
        for y in &ys {
            let extra = y.extra.clone();
            let mut init = setup(y);
            if share > 0 {
                // a pool with a past: fees accrued, price moved
                for x2y in [true, false, false] {
                    let mut m = Model::new(share);
                    for op in &init {
                        predict(&mut m, op, T0, H0);
                    }
                    if let Some(a) = amounts_around(&m, 0, x2y, true, 1, false).first() {
                        let op = swap(CAROL, 0, x2y, *a, true);
                        if predict(&mut m, &op, T0, H0).ok {
                            init.push(op);
                        }
                    }
                }
            }
            r.run(
                Scenario {
                    name: format!("{} share {share}", y.name),
                    share,
                    init,
                    depth: if th { 5 } else { 4 },
                    alphabet: Box::new(move |s, _| {
                        let mut v = vec![];
                        if s.m.pos[ME].len() < 2 {
                            for (lo, hi, l) in &extra {
                                v.push(open(ME, 0, *lo, *hi, *l));
                            }
                        }
                        v.extend(closes(s, &[ME]));
                        v.extend(claims(s, &[ME]));
                        v.extend(swaps(s, 0, ME, 1, false, 0));
                        for x2y in [true, false] {
                            v.push(swap(ME, 0, x2y, 7, true));
                            v.push(swap(ME, 0, x2y, 3, false));
                        }
                        v.push(Op::Route { who: ME, amt: 120, expect: 1, slip: 0, hops: vec![(0, true), (0, false)], funds: Funds::Exact });
                        v
                    }),
                },
                &NoFree,
            );
        }
    }
    // native coins and change
    r.run(
        Scenario {
            name: "native coins".into(),
            share: SHARE,
            init: vec![
                add_tier(TIER_A),
                new_pool(T_ATOM, T_USDT, TIER_A, 0),
                open(ALICE, 0, -20, 20, l),
                open(BOB, 0, 0, 10, 5 * l),
            ],
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(move |s, _| {
                let mut v = closes(s, &[ME]);
                v.extend(claims(s, &[ME]));
                for funds in [Funds::Exact, Funds::Extra(1000), Funds::Short] {
                    for x2y in [true, false] {
                        v.push(Op::Swap { who: ME, pool: 0, x2y, amt: 200, exact_in: true, limit: limit_of(x2y), funds });
                        v.push(Op::Swap { who: ME, pool: 0, x2y, amt: 333, exact_in: false, limit: limit_of(x2y), funds });
                    }
                    if s.m.pos[ME].len() < 2 {
                        for (lo, hi) in [(-10, 10), (10, 20), (-20, -10)] {
                            v.push(Op::Open { who: ME, pool: 0, lo, hi, l, slip: ANY_SLIP, funds, mint: false });
                        }
                    }
                    for hops in [vec![(0, true), (0, false)], vec![(0, false), (0, true), (0, false)]] {
                        v.push(Op::Route { who: ME, amt: 100, expect: 1, slip: 0, hops, funds });
                    }
                }
                v
            }),
        },
        &NoFree,
    );
}
