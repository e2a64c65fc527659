//! C19: the SDK against the contract. In every reachable state, the SDK's simulation is fed with
//! what the contract's queries return and compared with the contract's own execution; the fee
//! calculation with what claiming pays. The functions that exist on both sides are compared over
//! their domains in mirror.rs.
use crate::c04::{layouts, setup, swaps};
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::{ContractError, LiquidityTick, Position};
use oraiswap_v3_wasm as sdk;
use wasm_bindgen::JsValue;

pub struct View {
    pub pool: sdk::Pool,
    pub map: sdk::Tickmap,
    pub ticks: Vec<sdk::LiquidityTick>,
    pub tier: sdk::FeeTier,
}
/// what a client knows about a pool, asked from the contract
pub fn view(s: &State, pool: usize) -> Result<View, String> {
    let pl = &s.m.pools[pool];
    let p = observe::pool(&s.w, pl)?;
    let mt = max_tick(pl.s);
    let chunks: Vec<(u16, u64)> =
        s.w.query(QueryMsg::TickMap { pool_key: pl.key(), lower_tick_index: -mt, upper_tick_index: mt, x_to_y: false })?;
    let mut map = sdk::Tickmap::default();
    let mut idx = vec![];
    for (c, bits) in chunks {
        map.bitmap.insert(c as u64, bits);
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                idx.push(sdk::position_to_tick(c, b, pl.s as u16));
            }
        }
    }
    let l: Vec<LiquidityTick> = s.w.query(QueryMsg::LiquidityTicks { pool_key: pl.key(), tick_indexes: idx })?;
    let ticks = l
        .iter()
        .map(|t| sdk::LiquidityTick {
            index: t.index,
            liquidity_change: sdk::liquidity::Liquidity::new(t.liquidity_change.get()),
            sign: t.sign,
        })
        .collect();
    Ok(View {
        pool: sdk::Pool {
            liquidity: sdk::liquidity::Liquidity::new(p.liquidity.get()),
            sqrt_price: sdk::sqrt_price::SqrtPrice::new(p.sqrt_price.get()),
            current_tick_index: p.current_tick_index,
            fee_growth_global_x: sdk::fee_growth::FeeGrowth::new(p.fee_growth_global_x.get()),
            fee_growth_global_y: sdk::fee_growth::FeeGrowth::new(p.fee_growth_global_y.get()),
            fee_protocol_token_x: sdk::token_amount::TokenAmount::new(p.fee_protocol_token_x.get()),
            fee_protocol_token_y: sdk::token_amount::TokenAmount::new(p.fee_protocol_token_y.get()),
            start_timestamp: p.start_timestamp,
            last_timestamp: p.last_timestamp,
            fee_receiver: p.fee_receiver.clone(),
        },
        map,
        ticks,
        tier: sdk::FeeTier { fee: sdk::percentage::Percentage::new(pl.fee), tick_spacing: pl.s as u16 },
    })
}
fn simulate(v: &View, x2y: bool, amt: u128, exact_in: bool, limit: u128) -> Option<sdk::CalculateSwapResult> {
    serde_wasm_bindgen::pass(&v.ticks);
    tried(|| {
        sdk::simulate_swap(
            v.map.clone(),
            v.tier,
            v.pool.clone(),
            JsValue::NULL,
            x2y,
            sdk::token_amount::TokenAmount::new(amt),
            exact_in,
            sdk::sqrt_price::SqrtPrice::new(limit),
        )
    })
}
fn one(s: &State, v: &View, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128, t: &mut Tally) -> Result<(), String> {
    let req = || format!("x_to_y {x2y} amount {amt} by_amount_in {exact_in} limit {limit}");
    let pl = &s.m.pools[pool];
    let sim = simulate(v, x2y, amt, exact_in, limit);
    let mut e = s.clone();
    let done = step(&mut e, &swap_lim(CAROL, pool, x2y, amt, exact_in, limit));
    t.add("simulations", 1);
    // crossings that the execution makes, in the order of the trade
    let crossed = |e: &State| -> Result<Vec<i32>, String> {
        let (a, b) = (v.pool.current_tick_index, observe::pool(&e.w, pl)?.current_tick_index);
        let mut k: Vec<i32> = s.m.ticks(pool).keys().cloned().filter(|k| if x2y { *k <= a && *k > b } else { *k > a && *k <= b }).collect();
        if x2y {
            k.reverse();
        }
        Ok(k)
    };
    let cap = sdk::consts::MAX_TICK_CROSS as usize;
    if let Some(r) = sim.as_ref().filter(|r| r.max_ticks_crossed) {
        // the simulation gives up after so many ticks
        t.add("capped", 1);
        if r.crossed_ticks.len() != cap + 1 {
            return Err(format!("{}: the simulation gives up after {} ticks", req(), r.crossed_ticks.len()));
        }
        let k = if done.real.ok { crossed(&e)? } else { vec![] };
        let got: Vec<i32> = r.crossed_ticks.iter().map(|c| c.index).collect();
        if done.real.ok && (k.len() <= cap || k[..=cap] != got[..]) {
            return Err(format!("{}: the simulation gives up after {got:?}, the contract crosses {k:?}", req()));
        }
        return Ok(());
    }
    if !done.real.ok {
        let err = &done.real.err;
        let limit_hit = *err == ContractError::PriceLimitReached.to_string() || *err == ContractError::TickLimitReached.to_string();
        let no_gain = *err == ContractError::NoGainSwap.to_string();
        return match sim {
            None if !limit_hit && !no_gain => {
                t.add("refused by both", 1);
                Ok(())
            }
            Some(r) if r.state_outdated && !limit_hit && !no_gain => Ok(()),
            Some(r) if r.global_insufficient_liquidity && limit_hit => {
                t.add("insufficient on both sides", 1);
                Ok(())
            }
            Some(r) if no_gain && !r.global_insufficient_liquidity && !r.state_outdated && r.amount_out.get() == 0 => {
                t.add("no gain on both sides", 1);
                Ok(())
            }
            r => Err(format!("{}: the contract refuses ({err}), the simulation gives {r:?}", req())),
        };
    }
    let Some(r) = sim else {
        return Err(format!("{}: executed by the contract, the simulation fails", req()));
    };
    if r.global_insufficient_liquidity || r.state_outdated {
        return Err(format!("{}: executed by the contract, the simulation flags {r:?}", req()));
    }
    let (ti, to) = if x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
    let (i, o) = (-done.delta[CAROL][ti], done.delta[CAROL][to]);
    if (r.amount_in.get() as i128, r.amount_out.get() as i128) != (i, o) {
        return Err(format!("{}: simulated {} -> {}, executed {i} -> {o}", req(), r.amount_in.get(), r.amount_out.get()));
    }
    let after = observe::pool(&e.w, pl)?;
    if r.target_sqrt_price.get() != after.sqrt_price.get() || r.start_sqrt_price != v.pool.sqrt_price {
        return Err(format!("{}: simulated price {:?}, executed {:?}", req(), r.target_sqrt_price, after.sqrt_price));
    }
    let k = crossed(&e)?;
    let got: Vec<i32> = r.crossed_ticks.iter().map(|c| c.index).collect();
    if k != got {
        return Err(format!("{}: simulated crossings {got:?}, executed {k:?}", req()));
    }
    for c in &r.crossed_ticks {
        if !v.ticks.contains(c) {
            return Err(format!("{}: crossed tick {c:?} is not one that was passed", req()));
        }
    }
    if let Some(o) = &done.pred.swap {
        if (o.ain, o.aout) == (r.amount_in.get(), r.amount_out.get()) && o.fee != r.fee.get() {
            return Err(format!("{}: simulated fee {}, charged {}", req(), r.fee.get(), o.fee));
        }
    }
    t.add("swaps agreed", 1);
    t.add("crossings agreed", got.len() as u64);
    Ok(())
}

pub struct Sdk {
    pub around: bool,
    pub reach: usize,
}
impl Check for Sdk {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for pool in 0..s.m.pools.len() {
            let v = view(s, pool)?;
            for x2y in [true, false] {
                for exact_in in [true, false] {
                    let mut am = amounts_around(&s.m, pool, x2y, exact_in, self.reach, self.around);
                    am.extend([0, 1]);
                    for limit in limits(&s.m, pool, x2y, 1) {
                        for a in &am {
                            one(s, &v, pool, x2y, *a, exact_in, limit, t)?;
                        }
                    }
                    if s.m.pools[pool].s > 1 {
                        one(s, &v, pool, x2y, 1 << 80, exact_in, limit_of(x2y), t)?;
                    }
                    let p = s.m.pools[pool].price;
                    for limit in [p, p - 1, p + 1, limit_of(!x2y)] {
                        one(s, &v, pool, x2y, 7, exact_in, limit, t)?;
                    }
                }
            }
        }
        // fees
        for a in [ALICE, BOB] {
            for (i, p) in observe::positions(&s.w, a)?.iter().enumerate() {
                let (x, y) = fee_of(s, p)?;
                let mut e = s.clone();
                let d = step(&mut e, &Op::Claim { who: a, idx: i as u32 });
                let pl = &s.m.pools[s.m.pos[a][i].pool];
                let got = (d.delta[a][pl.tx], d.delta[a][pl.ty]);
                t.add("fees compared", 1);
                t.add("fees not zero", (x + y > 0) as u64);
                if !d.real.ok {
                    return Err(format!("claiming position {i} of {}: {}", ACCTS[a], d.real.err));
                }
                if got != (x as i128, y as i128) {
                    return Err(format!("position {i} of {}: calculated fee {x}, {y}, claiming pays {got:?}", ACCTS[a]));
                }
            }
        }
        Ok(())
    }
}
fn fee_of(s: &State, p: &Position) -> Result<(u128, u128), String> {
    let g = sdk::fee_growth::FeeGrowth::new;
    let pool: oraiswap_v3::Pool = s.w.query(QueryMsg::Pool {
        token_0: p.pool_key.token_x.clone(),
        token_1: p.pool_key.token_y.clone(),
        fee_tier: p.pool_key.fee_tier,
    })?;
    let lo = observe::tick(&s.w, &p.pool_key, p.lower_tick_index)?;
    let hi = observe::tick(&s.w, &p.pool_key, p.upper_tick_index)?;
    tried(|| {
        sdk::calculate_fee(
            lo.index,
            g(lo.fee_growth_outside_x.get()),
            g(lo.fee_growth_outside_y.get()),
            hi.index,
            g(hi.fee_growth_outside_x.get()),
            g(hi.fee_growth_outside_y.get()),
            pool.current_tick_index,
            g(pool.fee_growth_global_x.get()),
            g(pool.fee_growth_global_y.get()),
            g(p.fee_growth_inside_x.get()),
            g(p.fee_growth_inside_y.get()),
            sdk::liquidity::Liquidity::new(p.liquidity.get()),
        )
    })
    .map(|a| (a.x.get(), a.y.get()))
    .ok_or_else(|| "the fee calculation fails".to_string())
}

pub fn run(r: &mut Report) {
    let th = r.thorough();
    for y in layouts() {
        let extra = y.extra.clone();
        r.run(
            Scenario {
                name: y.name.into(),
                share: SHARE,
                init: setup(&y),
                depth: if th { 4 } else { 3 },
                alphabet: Box::new(move |s, _| {
                    let mut v = vec![];
                    if s.m.all_pos().count() < 5 {
                        for (lo, hi, l) in &extra {
                            v.push(open(BOB, 0, *lo, *hi, *l));
                        }
                    }
                    v.extend(closes(s, &[ALICE, BOB]));
                    v.extend(swaps(s, 0, CAROL, 2, false, 0));
                    v
                }),
            },
            &Sdk { around: true, reach: 2 },
        );
    }
    // more initialized ticks than the simulation is ready to cross, around its cap
    let l = 1_000_000 * E6;
    let mut init = one_pool(TIER_B, 0, price_at(0));
    for k in 0..90 {
        init.push(open(ALICE, 0, 2 * k + 1, 2 * k + 2, l));
        init.push(open(ALICE, 0, -2 * k - 2, -2 * k - 1, l));
    }
    r.run(
        Scenario {
            name: "many ticks".into(),
            share: SHARE,
            init,
            depth: if th { 2 } else { 1 },
            alphabet: Box::new(|s, _| {
                let mut v = vec![];
                for x2y in [true, false] {
                    let e = edges(&s.m, 0, x2y, true, 3);
                    v.extend(e.iter().map(|a| swap_lim(CAROL, 0, x2y, *a, true, limit_of(x2y))));
                }
                v
            }),
        },
        &Many,
    );
    if r.violation.is_none() {
        if let Err(e) = crate::mirror::go(r) {
            r.fail(e);
        }
    }
}
struct Many;
impl Check for Many {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let v = view(s, 0)?;
        for x2y in [true, false] {
            for exact_in in [true, false] {
                let e = edges(&s.m, 0, x2y, exact_in, 100);
                for a in &e {
                    if e.len() > 12 && *a < e[e.len() - 8] && *a > e[3] {
                        continue;
                    }
                    for a in [*a - 1, *a, *a + 1] {
                        one(s, &v, 0, x2y, a, exact_in, limit_of(x2y), t)?;
                    }
                }
            }
        }
        Ok(())
    }
}
