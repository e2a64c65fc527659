use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;

/// swaps against the reference walk along the curve
pub struct Curve;
impl Check for Curve {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let pool = match c.op {
            Op::Swap { pool, .. } => *pool,
            _ => return Ok(()),
        };
        let (r, p) = (&c.done.real, &c.done.pred);
        if r.ok != p.ok {
            return Err(if p.ok {
                format!("the contract refuses a swap that the curve allows: {} (expected {:?})", r.err, p.swap)
            } else {
                format!("the contract accepts a swap that should fail with {:?}: moved {}", p.fail, show_delta(&c.done.delta))
            });
        }
        if !r.ok {
            t.add("refusals agreed", 1);
            return Ok(());
        }
        let o = p.swap.as_ref().unwrap();
        if c.done.delta != p.delta {
            return Err(format!("amounts differ: contract moved {}, curve says {}", show_delta(&c.done.delta), show_delta(&p.delta)));
        }
        let rp = observe::pool(&c.after.w, &c.after.m.pools[pool])?;
        let (price, tick, l) = observe::pool_values(&rp);
        if (price, tick) != (o.price, o.tick) {
            return Err(format!("price {price} tick {tick} after the swap, the curve says {} and {}", o.price, o.tick));
        }
        let al = c.after.m.active(pool, o.tick);
        if l != al {
            return Err(format!("liquidity {l} after the swap, open positions at tick {tick} sum to {al}"));
        }
        t.add("swaps agreed", 1);
        t.add("ticks crossed", o.crossed.len() as u64);
        t.add("swaps with leftover", o.leftover as u64);
        t.add("swaps of several segments", (o.steps > 1) as u64);
        Ok(())
    }
}

pub fn swaps(s: &State, pool: usize, who: usize, n: usize, around: bool, nl: usize) -> Vec<Op> {
    let mut v = vec![];
    for x2y in [true, false] {
        for exact_in in [true, false] {
            let am = amounts_around(&s.m, pool, x2y, exact_in, n, around);
            for (i, limit) in limits(&s.m, pool, x2y, nl).into_iter().enumerate() {
                for a in &am {
                    if i > 0 && !around && a % 2 == 0 {
                        continue;
                    }
                    v.push(swap_lim(who, pool, x2y, *a, exact_in, limit));
                }
            }
        }
    }
    v
}

pub struct Layout {
    pub name: &'static str,
    pub tier: (u64, u16),
    pub tick: i32,
    pub mid: bool,
    pub pos: Vec<(i32, i32, u128)>,
    pub extra: Vec<(i32, i32, u128)>,
    /// (x_to_y, amount, exact_in) of swaps that belong to the setup
    pub warm: Vec<(bool, u128, bool)>,
}
pub fn layouts() -> Vec<Layout> {
    let l = 1_000_000 * E6 + 271_829; // about 1e6 of liquidity, and not a whole number of it
    let mk = |name, tier: (u64, u16), tick, mid, pos: &[(i32, i32, u128)], extra: &[(i32, i32, u128)]| {
        let s = tier.1 as i32;
        let f = |v: &[(i32, i32, u128)]| v.iter().map(|(a, b, l)| (a * s, b * s, *l)).collect::<Vec<_>>();
        Layout { name, tier, tick: tick * s, mid, pos: f(pos), extra: f(extra), warm: vec![] }
    };
    let mut v = vec![
        mk("nested", TIER_A, 0, false, &[(-3, 3, l)], &[(-1, 1, 2 * l), (0, 1, 3 * l + 7), (-1, 0, l / 3), (1, 2, 5 * l)]),
        // positions that end and start at the same tick with the same liquidity
        mk("balanced", TIER_A, 0, false, &[(-3, 0, l), (0, 3, l), (-2, 2, l)], &[(0, 2, l), (-2, 0, l), (-1, 1, 2 * l)]),
        mk("thin-thick", TIER_A, -1, true, &[(-2, 2, 40 * E6)], &[(0, 4, 5000 * l), (-5, -1, 3000 * l), (-1, 0, 1), (2, 3, 100 * l)]),
        mk("gap", TIER_A, 1, false, &[(2, 4, l), (-4, -2, l)], &[(1, 2, l), (-2, 1, 12345), (300, 302, l), (-303, -301, l)]),
        mk("fine", TIER_B, 5, true, &[(-6, 7, 3 * l), (5, 6, l)], &[(4, 5, 1000 * l), (6, 8, 999), (-200, 200, l)]),
        mk("free", TIER_0, 0, false, &[(-2, 2, l), (-1, 1, 10 * l)], &[(0, 1, 77 * l), (-1, 0, 13)]),
        mk("half", TIER_H, 0, true, &[(-2, 2, l)], &[(0, 1, 3 * l), (1, 2, l), (-1, 0, 2 * l)]),
        mk("almost-all", TIER_X, 0, true, &[(-2, 2, l)], &[(0, 1, 3 * l), (-1, 0, 2 * l)]),
        mk("top", TIER_A, 22170, true, &[(22160, 22181, 1_000_000 * l)], &[(22170, 22180, 3 * l), (22171, 22172, 7_000_000 * l)]),
        mk("bottom", TIER_A, -22170, true, &[(-22181, -22160, 1_000_000 * l)], &[(-22180, -22169, 3 * l), (-22172, -22171, 7_000_000 * l)]),
        mk("high", TIER_B, 150_000, true, &[(149_998, 150_002, l)], &[(150_000, 150_001, 3000 * l), (150_001, 150_003, 40)]),
        mk("low", TIER_B, -150_000, true, &[(-150_002, -149_998, 10 * l)], &[(-150_000, -149_999, 3000 * l), (-150_001, -150_000, 40)]),
        // ranges wider than the search horizon, the widest spacing
        mk("wide", TIER_C, 1, true, &[(-900, 900, 50 * l)], &[(-300, 257, 3 * l), (258, 600, l), (-1, 2, 90 * l)]),
        // a fraction of one unit of liquidity over a wide range: every token moves the price a lot
        mk("sparse", TIER_C, -1000, true, &[(-2100, 2100, 12_345)], &[(-1001, -900, 77_777), (-1300, 500, 999_999), (-1200, -1000, 3)]),
        mk("sparse up", TIER_C, 1000, true, &[(-2100, 2100, 12_345)], &[(900, 1001, 77_777), (-500, 1300, 999_999), (1000, 1200, 3)]),
        // as much as a tick can hold: amounts beyond 64 bits
        mk("full", TIER_A, 0, true, &[(-3, 3, FULL / 2), (-3, 1, FULL - 1 - FULL / 2)], &[(-1, 2, FULL / 3), (1, 3, FULL / 2), (0, 1, 7 * l)]),
        // one unit of liquidity collects a whole fee: the next one takes its growth past 2^128
        mk("wrap", TIER_W, -10_001, false, &[(-10_010, -10_000, 24_000 * E6), (-10_000, -9_999, 1)], &[(-10_001, -9_999, 5_000 * E6), (-10_000, -9_999, 1)]),
    ];
    v.last_mut().unwrap().warm = vec![(false, 33_334, true), (true, 1_000_000, true), (false, 6, false)];
    v
}
/// the cap on the liquidity of a tick for a spacing of 10
const FULL: u128 = u128::MAX / ((2 * MAX_TICK as u128 + 1) / 10);
const TIER_C: (u64, u16) = (3_000_000_000, 100);
const TIER_W: (u64, u16) = (999_970_000_000, 2);
pub fn setup(y: &Layout) -> Vec<Op> {
    let price = if y.mid { mid_price(y.tick, y.tier.1 as i32) } else { price_at(y.tick) };
    let mut v = one_pool(y.tier, y.tick, price);
    for (lo, hi, l) in &y.pos {
        v.push(open(ALICE, 0, *lo, *hi, *l));
    }
    // moments are not whole seconds apart, and a pool gets older than 32 bits of milliseconds
    v.push(Op::Wait { ms: (1 << 32) + 1357, blocks: 1 });
    for (x2y, a, exact_in) in &y.warm {
        v.push(swap(CAROL, 0, *x2y, *a, *exact_in));
    }
    v.push(Op::Wait { ms: 642, blocks: 1 });
    v
}

pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::gen::comb(SHARE, if th { 3 } else { 2 }), &Curve);
    for y in layouts() {
        let depth = if th { 5 } else { 4 };
        let extra = y.extra.clone();
        let init = setup(&y);
        r.run(
            Scenario {
                name: y.name.into(),
                share: SHARE,
                init,
                depth,
                alphabet: Box::new(move |s, d| {
                    let last = d + 1 == depth;
                    let mut v = vec![];
                    if !last {
                        for (lo, hi, l) in &extra {
                            v.push(open(BOB, 0, *lo, *hi, *l));
                        }
                        v.extend(closes(s, &[ALICE, BOB]));
                    }
                    v.extend(swaps(s, 0, CAROL, if last { 3 } else { 2 }, last, if last { 2 } else { 1 }));
                    v
                }),
            },
            &Curve,
        );
    }
}
