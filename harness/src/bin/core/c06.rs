//! pool liquidity, ticks and tick map against the list of positions
use crate::c04::layouts;
use crate::gen::*;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::msg::QueryMsg;
use std::collections::BTreeMap;

pub struct Books;
/// judged on the contract's own queries only
pub fn books(s: &State, t: &mut Tally) -> Result<(), String> {
    use decimal::Decimal;
    // all positions the contract knows
    let mut regs = vec![];
    for a in 0..NA {
        regs.extend(observe::positions(&s.w, a)?);
    }
    for (i, pl) in s.m.pools.iter().enumerate() {
        let key = pl.key();
        let p = observe::pool(&s.w, pl)?;
        let (price, tick, l) = observe::pool_values(&p);
        let mine: Vec<_> = regs.iter().filter(|r| r.pool_key == key).collect();
        let sum: u128 = mine
            .iter()
            .filter(|r| r.lower_tick_index <= tick && tick < r.upper_tick_index)
            .map(|r| r.liquidity.get())
            .sum();
        if l != sum {
            return Err(format!("pool {i} at tick {tick}: active liquidity {l}, positions in range sum to {sum}"));
        }
        if tick % pl.s != 0 {
            return Err(format!("pool {i}: tick {tick} is not aligned to {}", pl.s));
        }
        let upper = if tick + pl.s > MAX_TICK { MAX_PRICE } else { price_at(tick + pl.s) };
        if price < price_at(tick) || price > upper {
            return Err(format!("pool {i}: price {price} outside {}..{upper} of tick {tick}", price_at(tick)));
        }
        let mut want: BTreeMap<i32, (i128, u128)> = BTreeMap::new();
        for r in &mine {
            let q = r.liquidity.get();
            let e = want.entry(r.lower_tick_index).or_default();
            e.0 += q as i128;
            e.1 += q;
            let e = want.entry(r.upper_tick_index).or_default();
            e.0 -= q as i128;
            e.1 += q;
        }
        let mapped = observe::mapped_ticks(&s.w, pl)?;
        let w: Vec<i32> = want.keys().cloned().collect();
        if mapped != w {
            return Err(format!("pool {i}: the tick map has {mapped:?}, positions start or end at {w:?}"));
        }
        for (tk, (net, gross)) in &want {
            let x = observe::tick(&s.w, &key, *tk).map_err(|e| format!("tick {tk}: {e}"))?;
            let n = x.liquidity_change.get() as i128 * if x.sign { 1 } else { -1 };
            if x.index != *tk || n != *net || x.liquidity_gross.get() != *gross {
                return Err(format!("pool {i} tick {tk}: net {n} gross {}, positions give {net} and {gross}", x.liquidity_gross.get()));
            }
            if x.sqrt_price.get() != price_at(*tk) {
                return Err(format!("pool {i} tick {tk}: price {}", x.sqrt_price.get()));
            }
            t.add("ticks compared", 1);
        }
        // no tick anywhere else
        let around: Vec<i32> = w.iter().flat_map(|t| [t - pl.s, *t, t + pl.s]).chain([tick, 0]).filter(|t| t.abs() <= max_tick(pl.s)).collect();
        for tk in around {
            let exists = observe::tick(&s.w, &key, tk).is_ok();
            let init: bool = s.w.query(QueryMsg::IsTickInitialized { key: key.clone(), index: tk })?;
            let should = want.contains_key(&tk);
            if exists != should || init != should {
                return Err(format!("pool {i} tick {tk}: exists {exists}, marked {init}, positions say {should}"));
            }
        }
        t.add("pools compared", 1);
    }
    Ok(())
}
impl Check for Books {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        books(s, t)
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::mixed::mixed(if th { 5 } else { 4 }), &Books);
    r.run(crate::gen::comb(SHARE, if th { 3 } else { 2 }), &Books);
    for y in layouts() {
        let deep = !["thin-thick", "gap", "fine"].contains(&y.name);
        let d = if th { 5 } else if deep { 4 } else { 3 };
        r.run(life(&y, SHARE, d, Mix { claims: false, gives: false, limits: if th { 1 } else { 0 }, ..MIX }), &Books);
        r.run(
            Scenario { name: format!("{} limits and transfers", y.name), ..life(&y, SHARE, if th { 4 } else { 3 }, Mix { gives: true, limits: 2, ..MIX }) },
            &Books,
        );
    }
    // chunk boundaries of the tick map and the ends of the tick range
    for (tier, ends) in [
        (TIER_B, vec![-221_818, -221_817, -221_755, -221_754, -1, 0, 1, 53, 54, 117, 118, 221_817, 221_818]),
        (TIER_A, vec![-221_810, -221_800, -221_180, -221_170, 0, 10, 20, 30, 660, 670, 221_800, 221_810]),
        (TIER_H, vec![-221_800, -221_700, -215_500, -215_400, 0, 100, 215_400, 221_800]),
    ] {
        let s = tier.1 as i32;
        r.run(
            Scenario {
                name: format!("edges of spacing {s}"),
                share: SHARE,
                init: one_pool(tier, 0, price_at(0)),
                depth: if th { 4 } else { 3 },
                alphabet: Box::new(move |st, _| {
                    let l = 1_000_000 * E6;
                    let mut v = closes(st, &[ALICE, BOB]);
                    for (i, e) in ends.iter().enumerate() {
                        if i + 1 < ends.len() {
                            v.push(open(ALICE, 0, *e, ends[i + 1], l));
                        }
                        if i + 3 < ends.len() {
                            v.push(open(BOB, 0, *e, ends[i + 3], 3 * l));
                        }
                    }
                    v.extend(crate::c04::swaps(st, 0, CAROL, 1, false, 0));
                    v
                }),
            },
            &Books,
        );
    }
}
