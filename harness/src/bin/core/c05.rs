//! requests are honoured exactly or refused
use crate::c04::layouts;
use crate::gen::*;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;

pub struct Honour {
    pub wide: bool,
}
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    match c.op {
        Op::Swap { who, pool, x2y, amt, exact_in, limit, .. } => {
            let pl = &c.before.m.pools[*pool];
            if !d.real.ok {
                t.add("swaps refused", 1);
                return Ok(());
            }
            t.add("swaps honoured", 1);
            let (ti, to) = if *x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
            let (i, o) = (-d.delta[*who][ti], d.delta[*who][to]);
            if *amt == 0 {
                return Err("a swap of nothing is accepted".into());
            }
            if *exact_in && i != *amt as i128 {
                return Err(format!("asked to swap exactly {amt}, {i} were taken"));
            }
            if !*exact_in && o != *amt as i128 {
                return Err(format!("asked for exactly {amt}, received {o}"));
            }
            if o <= 0 {
                return Err(format!("the trader receives nothing ({o}) for {i}"));
            }
            if i <= 0 {
                return Err(format!("the trader pays nothing ({i}) for {o}"));
            }
            let before = observe::pool_values(&observe::pool(&c.before.w, pl)?).0;
            let after = observe::pool_values(&observe::pool(&c.after.w, pl)?).0;
            let side = if *x2y { before > *limit } else { before < *limit };
            if !side {
                return Err(format!("accepted although the limit {limit} is on the wrong side of the price {before}"));
            }
            let dir = if *x2y { after <= before } else { after >= before };
            if !dir {
                return Err(format!("the price moves against the trade: {before} -> {after}"));
            }
            let kept = if *x2y { after >= *limit } else { after <= *limit };
            if !kept {
                return Err(format!("the price {after} is beyond the caller's limit {limit}"));
            }
        }
        Op::Open { pool, lo, hi, l, slip, .. } => {
            t.add(if d.real.ok { "openings honoured" } else { "openings refused" }, 1);
            if d.real.ok != d.pred.ok {
                return Err(if d.real.ok {
                    format!(
                        "opening {lo}..{hi} of {l} with price bounds {slip:?} at price {} accepted, should be refused ({})",
                        c.before.m.pools[*pool].price, d.pred.why
                    )
                } else {
                    format!("opening {lo}..{hi} of {l} with price bounds {slip:?} at price {} refused: {}", c.before.m.pools[*pool].price, d.real.err)
                });
            }
        }
        _ => {}
    }
    Ok(())
}
impl Check for Honour {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let mut probe = |op: Op| -> Result<(), String> {
            let mut q = s.clone();
            let done = step(&mut q, &op);
            t.add("probes", 1);
            judge(&Ctx { before: s, op: &op, done: &done, after: &q }, t).map_err(|e| format!("probe {op:?}: {e}"))
        };
        let pl = &s.m.pools[0];
        for x2y in [true, false] {
            for exact_in in [true, false] {
                let mut am = amounts_around(&s.m, 0, x2y, exact_in, if self.wide { 2 } else { 1 }, true);
                am.push(0);
                for a in am {
                    let mut lim = vec![limit_of(x2y), pl.price, pl.price - 1, pl.price + 1];
                    if let Ok(o) = s.m.swap(0, x2y, a, exact_in, limit_of(x2y)) {
                        lim.extend([o.price - 1, o.price, o.price + 1]);
                    }
                    if self.wide {
                        lim.extend([0, 1, MIN_PRICE - 1, MAX_PRICE + 1, u128::MAX, limit_of(!x2y)]);
                        for l in limits(&s.m, 0, x2y, 2) {
                            lim.extend([l - 1, l + 1]);
                        }
                    }
                    lim.sort();
                    lim.dedup();
                    for limit in lim {
                        probe(swap_lim(CAROL, 0, x2y, a, exact_in, limit))?;
                    }
                }
            }
        }
        let l = 1_000_000 * E6;
        let p = pl.price;
        let (k, mt) = (pl.s, max_tick(pl.s));
        let near = |a: i32, z: i32, l: u128, slip: (u128, u128)| Op::Open {
            who: DAVE,
            pool: 0,
            lo: a,
            hi: z,
            l,
            slip,
            funds: Funds::Exact,
            mint: a % 2 == 0,
        };
        let b = pl.tick;
        for slip in [(p, p), (p + 1, u128::MAX), (0, p - 1), (p - 1, p + 1), (p, p + 1), (p - 1, p), (p + 1, p - 1), (p + 1, p), (0, 0), (u128::MAX, u128::MAX)] {
            probe(near(b - k, b + k, l, slip))?;
            if self.wide {
                probe(near(b + k, b + 2 * k, l, slip))?;
            }
        }
        let mut ranges = vec![
            (b, b), (b + k, b), (b + k, b - k), (b - k, b), (b, b + k), (b - k + 1, b + k), (b - k, b + k - 1), (b + 1, b + 1 + k),
        ];
        if self.wide {
            ranges.extend([
                (-mt, mt), (-mt - k, b), (b, mt + k), (-mt, -mt + k), (mt - k, mt), (mt, mt + k), (-mt - k, -mt), (i32::MIN, b), (b, i32::MAX), (MAX_TICK, MAX_TICK + k), (-MAX_TICK, MAX_TICK),
            ]);
        }
        for (lo, hi) in ranges {
            probe(near(lo, hi, l, ANY_SLIP))?;
        }
        for l in [0, 1] {
            probe(near(b - k, b + k, l, ANY_SLIP))?;
        }
        // what still fits on the ticks
        let cap = u128::MAX / ((2 * MAX_TICK as u128 + 1) / k as u128);
        let ticks = s.m.ticks(0);
        let g = |t: i32| ticks.get(&t).map_or(0, |e| e.1);
        for (lo, hi) in if self.wide { vec![(b - k, b + k), (b, b + k), (b - 2 * k, b), (b + k, b + 3 * k)] } else { vec![(b, b + k)] } {
            if lo < -mt || hi > mt {
                continue;
            }
            let room = cap - g(lo).max(g(hi));
            for l in [room - 1, room, cap] {
                probe(near(lo, hi, l, ANY_SLIP))?;
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::gen::comb(SHARE, if th { 2 } else { 1 }), &Honour { wide: false });
    for y in layouts() {
        r.run(life(&y, SHARE, if th { 3 } else { 2 }, MIX), &Honour { wide: true });
    }
    for y in layouts() {
        let mut sc = life(&y, SHARE, if th { 4 } else { 3 }, MIX);
        sc.name += " deeper";
        r.run(sc, &Honour { wide: false });
    }
}
