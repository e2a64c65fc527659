//! opening and closing a position
use crate::c04::layouts;
use crate::gen::*;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;
use mc::report::Report;

pub struct RoundTrip {
    pub grid: usize,
}
fn fresh_ok(taken: (u128, u128), paid: (u128, u128)) -> Result<(), String> {
    for (t, p) in [(taken.0, paid.0), (taken.1, paid.1)] {
        if p > t {
            return Err(format!("closing pays {paid:?}, the opening took only {taken:?}"));
        }
        if t - p > 2 + t / 100_000_000_000_000 {
            return Err(format!("closing pays only {paid:?} of {taken:?}, more than rounding is lost"));
        }
    }
    Ok(())
}
fn moved(c: &Ctx, pool: usize) -> (i128, i128) {
    let pl = &c.before.m.pools[pool];
    (c.done.delta[CONTRACT][pl.tx], c.done.delta[CONTRACT][pl.ty])
}
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    match c.op {
        Op::Open { pool, lo, hi, .. } if d.real.ok && d.pred.ok => {
            if d.delta != d.pred.delta {
                return Err(format!(
                    "the opening moved {} instead of {}, the curve amounts rounded up",
                    show_delta(&d.delta),
                    show_delta(&d.pred.delta)
                ));
            }
            let m = moved(c, *pool);
            let tick = c.before.m.pools[*pool].tick;
            if tick < *lo && m.1 != 0 || tick >= *hi && m.0 != 0 {
                return Err(format!("a range on one side of tick {tick} took both tokens: {m:?}"));
            }
            t.add("openings", 1);
        }
        Op::Close { .. } | Op::NftBurn { .. } => {
            if d.pred.ok && !d.real.ok {
                return Err(format!("an open position cannot be closed: {}", d.real.err));
            }
            if !d.real.ok || !d.pred.ok {
                return Ok(());
            }
            let pos = d.pred.pos.as_ref().unwrap();
            let m = moved(c, pos.pool);
            if m.0 > 0 || m.1 > 0 {
                return Err(format!("closing takes tokens: {m:?}"));
            }
            let paid = (-m.0 as u128, -m.1 as u128);
            if let Some(taken) = pos.fresh {
                fresh_ok(taken, paid)?;
                t.add("closings without a trade in between", 1);
            }
            if d.delta != d.pred.delta {
                return Err(format!(
                    "the closing moved {} instead of {}, the curve amounts rounded down plus fees {:?}",
                    show_delta(&d.delta),
                    show_delta(&d.pred.delta),
                    d.pred.owed
                ));
            }
            t.add("closings", 1);
        }
        _ => {}
    }
    Ok(())
}
impl Check for RoundTrip {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let pl = &s.m.pools[0];
        let (k, mt) = (pl.s, max_tick(pl.s));
        let base = pl.tick;
        let mut ends: Vec<i32> = vec![-mt, base - 2 * k, base - k, base, base + k, base + 2 * k, mt];
        ends.retain(|e| e.abs() <= mt);
        ends.sort();
        ends.dedup();
        let ls: &[u128] = match self.grid {
            0 => &[],
            1 => &[1, 999_999_999_999],
            _ => &[1, 1_000_001, 999_999_999_999, 1_000_000_000_000_000_000_000],
        };
        for (i, lo) in ends.iter().enumerate() {
            for hi in &ends[i + 1..] {
                for l in ls {
                    let mut q = s.clone();
                    for op in [open(DAVE, 0, *lo, *hi, *l), Op::Close { who: DAVE, idx: 0 }] {
                        let before = q.clone();
                        let done = step(&mut q, &op);
                        if done.real.ok != done.pred.ok {
                            if matches!(op, Op::Open { .. }) {
                                break; // whether it opens is another property
                            }
                            return Err(format!("probe {lo}..{hi} liquidity {l}: cannot be closed: {}", done.real.err));
                        }
                        if !done.real.ok {
                            break;
                        }
                        let c = Ctx { before: &before, op: &op, done: &done, after: &q };
                        judge(&c, t).map_err(|e| format!("probe {lo}..{hi} liquidity {l}: {e}"))?;
                        t.add("probe operations", 1);
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::mixed::mixed(if th { 4 } else { 3 }), &RoundTrip { grid: 0 });
    for y in layouts() {
        r.run(life(&y, SHARE, if th { 4 } else { 3 }, Mix { gives: true, ..MIX }), &RoundTrip { grid: if th { 2 } else { 1 } });
    }
    // exact initial prices over the whole range, no trades: every interleaving of two owners
    for (tier, ticks) in [(TIER_B, [-221_000, -60_000, -1, 0, 44_000, 221_000]), (TIER_H, [-221_000, -60_000, -100, 0, 44_000, 221_000])] {
        for tick in ticks {
            let s = tier.1 as i32;
            for price in [price_at(tick), price_at(tick) + 1, mid_price(tick, s), price_at(tick + s) - 1] {
                r.run(
                    Scenario {
                        name: format!("spacing {s} tick {tick} price {price}"),
                        share: SHARE,
                        init: one_pool(tier, tick, price),
                        depth: 3,
                        alphabet: Box::new(move |st, _| {
                            let l = 7_000_000 * E6 + 1;
                            let mut v = closes(st, &[ALICE, BOB]);
                            for who in [ALICE, BOB] {
                                if st.m.pos[who].len() < 2 {
                                    v.push(open(who, 0, tick, tick + s, l));
                                    v.push(open(who, 0, tick - s, tick, l));
                                    v.push(open(who, 0, tick - 2 * s, tick + 2 * s, l));
                                    v.push(open(who, 0, tick + s, tick + 2 * s, l));
                                }
                            }
                            v
                        }),
                    },
                    &RoundTrip { grid: 2 },
                );
            }
        }
    }
}
