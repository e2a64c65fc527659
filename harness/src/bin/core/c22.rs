//! time in range
use crate::c01::two_pools;
use crate::c04::{layouts, setup, swaps};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::PositionTick;

pub struct Clock;
/// time inside lo..hi since the pool started, as the counters tell it (modulo 2^64)
fn inside(s: &State, pool: usize, lo: i32, hi: i32) -> Result<u64, String> {
    let pl = &s.m.pools[pool];
    let r = observe::pool(&s.w, pl)?;
    let total = s.w.now.wrapping_sub(r.start_timestamp);
    let (a, b) = (observe::tick(&s.w, &pl.key(), lo)?.seconds_outside, observe::tick(&s.w, &pl.key(), hi)?.seconds_outside);
    let cur = r.current_tick_index;
    let below = if cur >= lo { a } else { total.wrapping_sub(a) };
    let above = if cur < hi { b } else { total.wrapping_sub(b) };
    Ok(total.wrapping_sub(below).wrapping_sub(above))
}
fn pairs(m: &Model, pool: usize) -> Vec<(i32, i32)> {
    let t: Vec<i32> = m.ticks(pool).keys().cloned().collect();
    let mut v = vec![];
    for i in 0..t.len() {
        for j in i + 1..t.len() {
            v.push((t[i], t[j]));
        }
    }
    v
}
impl Clock {
    /// pairs of ticks that exist on both sides keep their time; new pairs start anywhere
    fn sync(&self, s: &State, g: &mut Ghost) -> Result<(), String> {
        for pool in 0..s.m.pools.len() {
            let p = pairs(&s.m, pool);
            g.m.retain(|k, _| k.0 != pool || p.contains(&(k.1, k.2)));
            for (lo, hi) in p {
                if !g.m.contains_key(&(pool, lo, hi)) {
                    g.m.insert((pool, lo, hi), inside(s, pool, lo, hi)? as i128);
                }
            }
        }
        Ok(())
    }
}
impl Check for Clock {
    fn ghost(&self, s: &State) -> Ghost {
        let mut g = Ghost::default();
        let _ = self.sync(s, &mut g);
        g.v = s.m.pools.iter().map(|p| observe::pool(&s.w, p).map_or(0, |r| r.last_timestamp as i128)).collect();
        g
    }
    fn on_step(&self, c: &Ctx, g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        if !c.done.real.ok || c.done.real.ok != c.done.pred.ok {
            return Ok(());
        }
        if let Op::Wait { ms, .. } = c.op {
            for (k, v) in g.m.iter_mut() {
                let cur = c.before.m.pools[k.0].tick;
                if k.1 <= cur && cur < k.2 {
                    *v = (*v as u64).wrapping_add(*ms) as i128;
                }
            }
        }
        // removed and created again means a new start
        for pool in 0..c.after.m.pools.len() {
            let p = pairs(&c.after.m, pool);
            g.m.retain(|k, _| k.0 != pool || p.contains(&(k.1, k.2)));
        }
        // the pool notes when its liquidity was last looked at or changed
        let touched = match c.op {
            Op::Open { pool, .. } => vec![*pool],
            Op::Swap { .. } | Op::Route { .. } => c.done.pred.crossed.iter().map(|k| k.0).collect(),
            Op::Close { .. } | Op::Claim { .. } | Op::NftBurn { .. } => c.done.pred.pos.iter().map(|p| p.pool).collect(),
            _ => vec![],
        };
        for p in touched {
            g.v[p] = c.after.w.now as i128;
        }
        // new ticks start with the age of the pool or zero
        for pool in 0..c.after.m.pools.len() {
            let old = c.before.m.ticks(pool);
            let pl = &c.after.m.pools[pool];
            for k in c.after.m.ticks(pool).keys().filter(|k| !old.contains_key(k)) {
                let want = if *k <= pl.tick { c.after.w.now - pl.start } else { 0 };
                let got = observe::tick(&c.after.w, &pl.key(), *k)?.seconds_outside;
                if got != want {
                    return Err(format!("the counter of the new tick {k} starts at {got} instead of {want}"));
                }
                t.add("new ticks", 1);
            }
        }
        // counters of ticks that were not crossed stay
        for pool in 0..c.before.m.pools.len() {
            let pl = &c.before.m.pools[pool];
            let now = c.after.m.ticks(pool);
            for k in c.before.m.ticks(pool).keys().filter(|k| now.contains_key(k)) {
                if c.done.pred.crossed.contains(&(pool, *k)) {
                    t.add("crossings", 1);
                    continue;
                }
                let (a, b) = (observe::tick(&c.before.w, &pl.key(), *k)?, observe::tick(&c.after.w, &pl.key(), *k)?);
                if a.seconds_outside != b.seconds_outside {
                    return Err(format!("the counter of tick {k} changes from {} to {} though it is not crossed", a.seconds_outside, b.seconds_outside));
                }
            }
        }
        Ok(())
    }
    fn on_state(&self, s: &State, g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for (i, p) in s.m.pools.iter().enumerate() {
            let r = observe::pool(&s.w, p)?;
            if r.start_timestamp != p.start {
                return Err(format!("pool {i} was created at {}, it reports {}", p.start, r.start_timestamp));
            }
            if r.last_timestamp as i128 != g.v[i] {
                return Err(format!("pool {i} was last touched at {}, it reports {}", g.v[i], r.last_timestamp));
            }
        }
        for (k, v) in &g.m {
            let x = inside(s, k.0, k.1, k.2)?;
            if x != *v as u64 {
                return Err(format!(
                    "pool {}, range {}..{}: the counters tell {x} ms inside, expected {} (difference {})",
                    k.0,
                    k.1,
                    k.2,
                    *v as u64,
                    x.wrapping_sub(*v as u64) as i64
                ));
            }
            t.add("ranges compared", 1);
        }
        self.sync(s, g)?;
        // the position listing shows the same counters
        for a in [ALICE, BOB] {
            let v: Vec<PositionTick> = s.w.query(QueryMsg::PositionTicks { owner: addr(a), offset: 0 })?;
            for (i, p) in s.m.pos[a].iter().enumerate() {
                for (j, k) in [p.lo, p.hi].into_iter().enumerate() {
                    let r = observe::tick(&s.w, &s.m.pools[p.pool].key(), k)?;
                    match v.get(2 * i + j) {
                        Some(x) if (x.index, x.seconds_outside) == (k, r.seconds_outside) => {}
                        x => return Err(format!("position {i} of {}: listed {x:?}, the tick is {r:?}", ACCTS[a])),
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::mixed::mixed(if th { 5 } else { 4 }), &Clock);
    r.run(crate::gen::comb(SHARE, if th { 3 } else { 2 }), &Clock);
    for y in layouts() {
        if ["free", "almost-all", "fine"].contains(&y.name) && !th {
            continue;
        }
        let extra: Vec<_> = y.extra.iter().take(3).cloned().collect();
        let mut init = setup(&y);
        // the pool is older than its first ticks
        init.insert(2, Op::Wait { ms: 5, blocks: 1 });
        let mut d = if th { 6 } else { 5 };
        if ["thin-thick", "top", "bottom", "high", "low"].contains(&y.name) {
            d += 1;
        }
        r.run(
            Scenario {
                name: y.name.into(),
                share: SHARE,
                init,
                depth: d,
                alphabet: Box::new(move |s, _| {
                    let mut v = vec![Op::Wait { ms: 1000, blocks: 1 }, Op::Wait { ms: 70, blocks: 0 }];
                    if s.m.all_pos().count() < 4 {
                        for (lo, hi, l) in &extra {
                            v.push(open(BOB, 0, *lo, *hi, *l));
                        }
                    }
                    v.extend(closes(s, &[ALICE, BOB]));
                    v.extend(claims(s, &[ALICE]).into_iter().take(1));
                    v.extend(swaps(s, 0, CAROL, 2, false, 0).into_iter().filter(|o| matches!(o, Op::Swap { exact_in, .. } if *exact_in)));
                    v
                }),
            },
            &Clock,
        );
    }    // routes, and trades by output, through two pools
    let l = 1_000_000 * E6;
    r.run(
        Scenario {
            name: "routes".into(),
            share: SHARE,
            init: two_pools(),
            depth: if th { 6 } else { 5 },
            alphabet: Box::new(move |s, _| {
                let mut v = vec![
                    Op::Wait { ms: 1000, blocks: 1 },
                    Op::Wait { ms: 333, blocks: 0 },
                    open(BOB, 1, 3, 4, l),
                    open(BOB, 0, -10, 10, 2 * l),
                    Op::Close { who: BOB, idx: 1 },
                    swap(CAROL, 0, true, 600, false),
                    swap(CAROL, 1, false, 900, false),
                ];
                for (amt, hops) in [
                    (700, vec![(0, true)]),
                    (800, vec![(1, false)]),
                    (900, vec![(0, true), (1, true)]),
                    (1200, vec![(1, false), (0, false)]),
                    (1000, vec![(0, false), (0, true), (1, true)]),
                ] {
                    v.push(Op::Route { who: CAROL, amt, expect: 0, slip: 0, hops, funds: Funds::Exact });
                }
                if s.m.all_pos().count() > 4 {
                    v.retain(|o| !matches!(o, Op::Open { .. }));
                }
                v
            }),
        },
        &Clock,
    );
}
