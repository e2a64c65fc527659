//! The functions that the SDK and the contract both have, compared on whole domains (ticks,
//! prices of ticks, slots) and on products of boundary values (amounts, liquidities, fees).
use decimal::Decimal;
use mc::chain::*;
use mc::model::*;
use mc::num::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3 as con;
use oraiswap_v3::fee_growth::FeeGrowth;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::seconds_per_liquidity::SecondsPerLiquidity;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::state;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3_wasm as sdk;
use serde_json::json;
use std::fmt::Debug;

fn sp(p: u128) -> sdk::sqrt_price::SqrtPrice {
    sdk::sqrt_price::SqrtPrice::new(p)
}
fn sl(p: u128) -> sdk::liquidity::Liquidity {
    sdk::liquidity::Liquidity::new(p)
}
fn sa(p: u128) -> sdk::token_amount::TokenAmount {
    sdk::token_amount::TokenAmount::new(p)
}
fn sf(p: u64) -> sdk::percentage::Percentage {
    sdk::percentage::Percentage::new(p)
}
fn sg(p: u128) -> sdk::fee_growth::FeeGrowth {
    sdk::fee_growth::FeeGrowth::new(p)
}
fn ss(p: u128) -> sdk::seconds_per_liquidity::SecondsPerLiquidity {
    sdk::seconds_per_liquidity::SecondsPerLiquidity::new(p)
}
fn same<T: PartialEq + Debug>(what: impl Fn() -> String, s: T, c: T) -> Result<u64, String> {
    if s == c {
        Ok(1)
    } else {
        Err(format!("{}: the SDK gives {s:?}, the contract {c:?}", what()))
    }
}
fn note(r: &mut Report, name: &str, n: u64) {
    r.states += n;
    r.transitions += 2 * n;
    r.traces += n;
    r.details.insert(name.into(), json!({ "inputs": n }));
    eprintln!("[{name}] {n} inputs, {:.1} s", r.start.elapsed().as_secs_f64());
}

pub fn go(r: &mut Report) -> Result<(), String> {
    let th = r.thorough();
    // constants
    let c = [
        (sdk::MAX_TICK as u128, con::MAX_TICK as u128),
        (-sdk::MIN_TICK as u128, -con::MIN_TICK as u128),
        (sdk::MAX_SQRT_PRICE, con::MAX_SQRT_PRICE),
        (sdk::MIN_SQRT_PRICE, con::MIN_SQRT_PRICE),
        (sdk::TICK_SEARCH_RANGE as u128, con::TICK_SEARCH_RANGE as u128),
        (sdk::CHUNK_SIZE as u128, con::CHUNK_SIZE as u128),
        (sdk::get_tick_search_range() as u128, con::TICK_SEARCH_RANGE as u128),
        (sdk::get_chunk_size() as u128, con::CHUNK_SIZE as u128),
    ];
    for (i, (s, c)) in c.iter().enumerate() {
        same(|| format!("constant {i}"), *s, *c)?;
    }
    // 1. ticks, prices, slots
    let spac: Vec<u16> = if th { (1..=100).collect() } else { vec![1, 2, 3, 10, 64, 100] };
    let parts = 256;
    let width = (2 * MAX_TICK + 1) / parts + 1;
    let n = sweep(parts as usize, |j| {
        let mut n = 0;
        let lo = -MAX_TICK + j as i32 * width;
        for t in lo..(lo + width).min(MAX_TICK + 1) {
            let p = tried(|| con::sqrt_price::calculate_sqrt_price(t)).map(|p| p.get());
            n += same(|| format!("price of tick {t}"), tried(|| sdk::sqrt_price::calculate_sqrt_price(t)).map(|p| p.get()), p)?;
            n += same(|| format!("price of tick {t}"), tried(|| sdk::sqrt_price::SqrtPrice::from_tick(t)).map(|p| p.get()), p)?;
            let Some(p) = p else { continue };
            for q in [p - 1, p, p + 1, p + p / 60_000] {
                for s in &spac {
                    n += same(
                        || format!("tick of price {q} at spacing {s}"),
                        tried(|| sdk::get_tick_at_sqrt_price(sp(q), *s)),
                        tried(|| con::log::get_tick_at_sqrt_price(SqrtPrice::new(q), *s)),
                    )?;
                }
            }
        }
        Ok(n)
    })?;
    note(r, "ticks and prices", n);
    let n = sweep(101, |i| {
        let s = i as u16;
        let si = s as i32;
        let mut n = 0;
        n += same(|| format!("largest tick at spacing {s}"), tried_plain(|| sdk::sqrt_price::get_max_tick(s)), tried_plain(|| con::sqrt_price::get_max_tick(s)))?;
        n += same(|| format!("smallest tick at spacing {s}"), tried_plain(|| sdk::sqrt_price::get_min_tick(s)), tried_plain(|| con::sqrt_price::get_min_tick(s)))?;
        n += same(
            || format!("largest price at spacing {s}"),
            tried_plain(|| sdk::sqrt_price::get_max_sqrt_price(s).get()),
            tried_plain(|| con::sqrt_price::get_max_sqrt_price(s).get()),
        )?;
        n += same(
            || format!("smallest price at spacing {s}"),
            tried_plain(|| sdk::sqrt_price::get_min_sqrt_price(s).get()),
            tried_plain(|| con::sqrt_price::get_min_sqrt_price(s).get()),
        )?;
        n += same(|| format!("last chunk at spacing {s}"), tried_plain(|| sdk::get_max_chunk(s)), tried_plain(|| con::get_max_chunk(s)))?;
        n += same(
            || format!("liquidity per tick at spacing {s}"),
            tried_plain(|| sdk::clamm::calculate_max_liquidity_per_tick(s).get()),
            tried_plain(|| con::clamm::calculate_max_liquidity_per_tick(s).get()),
        )?;
        if s == 0 {
            return Ok(n);
        }
        let m = max_tick(si);
        let mut odd: Vec<i32> = vec![];
        for k in [0, 1, 2, 63, 64, 65, 255, 256, 257] {
            odd.extend([m - k * si, -m + k * si, m + si, -m - si, k * si, -k * si, MAX_TICK - k, k - MAX_TICK, MAX_TICK + k, -MAX_TICK - k, k, -k]);
        }
        odd.extend([i32::MAX / 2, i32::MIN / 2]);
        odd.sort();
        odd.dedup();
        for t in (-m..=m).step_by(s as usize).chain(odd.iter().cloned()) {
            n += same(|| format!("slot of {t} at spacing {s}"), tried_plain(|| sdk::tickmap::tick_to_position(t, s)), tried_plain(|| con::tick_to_position(t, s)))?;
            n += same(
                || format!("slot of {t} at spacing {s}"),
                tried(|| sdk::tickmap::tick_to_position_js(t, s)).map(|p| (p.chunk, p.bit)),
                tried_plain(|| con::tick_to_position(t, s)),
            )?;
            for up in [true, false] {
                n += same(
                    || format!("search limit of {t} at spacing {s} up {up}"),
                    tried_plain(|| sdk::tickmap::get_search_limit(t, s, up)),
                    tried_plain(|| con::get_search_limit(t, s, up)),
                )?;
            }
            n += same(|| format!("validity of {t} at spacing {s}"), tried(|| sdk::clamm::check_tick(t, s)), tried(|| con::clamm::check_tick(t, s)))?;
            n += same(
                || format!("{t} aligned to {s}"),
                tried_plain(|| sdk::align_tick_to_spacing(t, si)),
                Some(t.div_euclid(si) * si),
            )?;
        }
        for c in 0..con::get_max_chunk(s) + 1 {
            for b in 0..64 {
                n += same(|| format!("tick of slot {c}/{b} at spacing {s}"), tried_plain(|| sdk::tickmap::position_to_tick(c, b, s)), tried_plain(|| con::position_to_tick(c, b, s)))?;
            }
        }
        for a in &odd {
            for b in &odd {
                n += same(|| format!("validity of {a}..{b} at spacing {s}"), tried(|| sdk::clamm::check_ticks(*a, *b, s)), tried(|| con::clamm::check_ticks(*a, *b, s)))?;
            }
            for d in [-1, 0, 1] {
                for e in [-1i128, 0, 1] {
                    let x = (*a as i64 + d * si as i64).clamp(-MAX_TICK as i64, MAX_TICK as i64) as i32;
                    let p = (price_at(x) as i128 + e) as u128;
                    n += same(
                        || format!("price {p} belongs to tick {a} at spacing {s}"),
                        tried(|| sdk::check_tick_to_sqrt_price_relationship(*a, s, sp(p))),
                        tried(|| con::sqrt_price::check_tick_to_sqrt_price_relationship(*a, s, SqrtPrice::new(p))),
                    )?;
                }
            }
        }
        for f in [0, 1, E12 as u64 - 1, E12 as u64, E12 as u64 + 1, u64::MAX] {
            n += same(
                || format!("fee tier {f} {s}"),
                tried(|| sdk::fee_tier::new_fee_tier(sf(f), s).map_err(|_| ())).map(|t| (t.fee.get(), t.tick_spacing)),
                tried(|| con::FeeTier::new(Percentage::new(f), s)).map(|t| (t.fee.get(), t.tick_spacing)),
            )?;
        }
        Ok(n)
    })?;
    note(r, "slots and bounds", n);
    let names = ["", "a", "b", "ab", "B", "orai1x", "orai1y", "usdt", "zcoin", "orai", "Orai", "\u{e4}"];
    let mut n = 0;
    for a in names {
        for b in names {
            let k = tried(|| con::PoolKey::new(a.into(), b.into(), con::FeeTier { fee: Percentage::new(1), tick_spacing: 1 }));
            let q = tried(|| sdk::new_pool_key(a.into(), b.into(), sdk::FeeTier { fee: sf(1), tick_spacing: 1 }).map_err(|_| ()));
            n += same(|| format!("pool key of {a:?}, {b:?}"), q.map(|q| (q.token_x, q.token_y)), k.map(|k| (k.token_x, k.token_y)))?;
            if a != b {
                n += same(|| format!("{a:?} is the first token of {a:?}, {b:?}"), tried(|| sdk::is_token_x(a.into(), b.into())), Some(a < b))?;
            }
        }
    }
    note(r, "pool keys", n);

    // 2. search in tick maps
    let spac: Vec<u16> = if th { vec![1, 2, 3, 7, 10, 33, 63, 64, 65, 100] } else { vec![1, 2, 10, 64, 100] };
    let n = sweep(spac.len() * 64, |j| {
        let s = spac[j / 64];
        let si = s as i32;
        let k = MPool { tx: T_A, ty: T_B, fee: 1, s: si, price: 0, tick: 0, pf: [0; 2], receiver: 0, start: 0 }.key();
        let m = max_tick(si);
        let mut n = 0;
        let near = [-257, -256, -255, -129, -128, -65, -64, -63, -1, 0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257];
        let ph = (j % 64) as i32;
        for from in [ph * si, (ph - 640) * si, m - ph * si, -m + ph * si, m - (64 + ph * 4) * si, -m + (64 + ph * 4) * si] {
            let mut sets: Vec<Vec<i32>> = vec![vec![]];
            for d in -258..=258 {
                sets.push(vec![from + d * si]);
            }
            for (i, x) in near.iter().enumerate() {
                for y in near.iter().skip(i + 1) {
                    sets.push(vec![from + x * si, from + y * si]);
                }
            }
            for set in sets {
                if set.iter().any(|t| t.abs() > m) {
                    continue;
                }
                let mut kv = Kv::default();
                let mut map = sdk::Tickmap::default();
                for t in &set {
                    let a = tried(|| state::flip_bitmap(&mut kv, true, *t, s, &k)).is_some();
                    let b = tried_plain(|| map.flip(true, *t, s)).is_some();
                    n += same(|| format!("marking {t} at spacing {s}"), b, a)?;
                }
                let what = |w: &'static str| format!("{w} from {from} at spacing {s} in {set:?}");
                n += same(|| what("next"), tried_plain(|| map.next_initialized(from, s)), tried_plain(|| state::next_initialized(&kv, from, s, &k)))?;
                n += same(|| what("previous"), tried_plain(|| map.prev_initialized(from, s)), tried_plain(|| state::prev_initialized(&kv, from, s, &k)))?;
                n += same(|| what("marked"), tried_plain(|| map.get(from, s)), tried_plain(|| state::get_bitmap(&kv, from, s, &k)))?;
                let stop = set.first().cloned().unwrap_or(from);
                for x2y in [true, false] {
                    for lim in [price_at(stop) - 1, price_at(stop), price_at(stop) + 1, limit(x2y)] {
                        n += same(
                            || format!("{} x_to_y {x2y} limit {lim}", what("segment end")),
                            tried(|| map.get_closer_limit(sp(lim), x2y, from, s).map_err(|_| ())).map(|(p, t)| (p.get(), t)),
                            tried(|| state::get_closer_limit(&kv, SqrtPrice::new(lim), x2y, from, s, &k)).map(|(p, t)| (p.get(), t)),
                        )?;
                    }
                }
            }
        }
        Ok(n)
    })?;
    note(r, "tick maps", n);

    // 3. curve arithmetic on products
    let ticks: Vec<i32> = if th {
        vec![-221818, -221817, -150000, -100000, -50000, -20000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 20000, 50000, 100000, 150000, 221817, 221818]
    } else {
        vec![-221818, -221817, -100000, -20000, -100, -10, -1, 0, 1, 10, 100, 20000, 100000, 221817, 221818]
    };
    let mut prices: Vec<u128> = vec![0, 1, E12, E24 - 1, E24 + 1, MIN_PRICE - 1, MAX_PRICE + 1, u128::MAX];
    for t in &ticks {
        prices.push(price_at(*t));
        prices.push(price_at(*t) + price_at(*t) / 31_337);
    }
    let ls: Vec<u128> = vec![0, 1, 999_999, E6, 12345 * E6 + 7, 1_000_000 * E6, 10u128.pow(15) + 1, 10u128.pow(18), 10u128.pow(22), 10u128.pow(27) + 3, 10u128.pow(30) - 1, 10u128.pow(30) + 1, 1 << 100, u128::MAX];
    let ams: Vec<u128> = vec![0, 1, 2, 9, 10, 499, 1000, 123_456, 10u128.pow(9) + 7, 10u128.pow(14), 10u128.pow(18) + 1, 10u128.pow(24), 1 << 100, u128::MAX - 1, u128::MAX];
    let fees: Vec<u64> = vec![0, 1, 100_000_000, 6_000_000_000, 500_000_000_000, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001];
    let n = sweep(prices.len(), |j| {
        let p = prices[j];
        let cp = SqrtPrice::new(p);
        let mut n = 0;
        for q in &prices {
            let cq = SqrtPrice::new(*q);
            for l in &ls {
                let cl = Liquidity::new(*l);
                for up in [true, false] {
                    n += same(
                        || format!("x between {p} and {q} for liquidity {l}, up {up}"),
                        tried(|| sdk::clamm::get_delta_x(sp(p), sp(*q), sl(*l), up)).map(|a| a.get()),
                        tried(|| con::clamm::get_delta_x(cp, cq, cl, up)).map(|a| a.get()),
                    )?;
                    n += same(
                        || format!("y between {p} and {q} for liquidity {l}, up {up}"),
                        tried(|| sdk::clamm::get_delta_y(sp(p), sp(*q), sl(*l), up)).map(|a| a.get()),
                        tried(|| con::clamm::get_delta_y(cp, cq, cl, up)).map(|a| a.get()),
                    )?;
                }
                for a in &ams {
                    for exact_in in [true, false] {
                        for f in &fees {
                            n += same(
                                || format!("step from {p} to {q}, liquidity {l}, amount {a}, by_amount_in {exact_in}, fee {f}"),
                                tried(|| sdk::clamm::compute_swap_step(sp(p), sp(*q), sl(*l), sa(*a), exact_in, sf(*f)))
                                    .map(|r| (r.next_sqrt_price.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get())),
                                tried(|| con::clamm::compute_swap_step(cp, cq, cl, TokenAmount::new(*a), exact_in, Percentage::new(*f)))
                                    .map(|r| (r.next_sqrt_price.get(), r.amount_in.get(), r.amount_out.get(), r.fee_amount.get())),
                            )?;
                        }
                    }
                }
            }
        }
        for l in &ls {
            let cl = Liquidity::new(*l);
            for a in &ams {
                let ca = TokenAmount::new(*a);
                for b in [true, false] {
                    n += same(
                        || format!("next price from {p} by x {a}, liquidity {l}, add {b}"),
                        tried(|| sdk::clamm::get_next_sqrt_price_x_up(sp(p), sl(*l), sa(*a), b)).map(|a| a.get()),
                        tried(|| con::clamm::get_next_sqrt_price_x_up(cp, cl, ca, b)).map(|a| a.get()),
                    )?;
                    // these exist only in the SDK; the contract's are reached through its steps
                    if (MIN_PRICE..=MAX_PRICE).contains(&p) && *l > 0 && *l < 1 << 90 && *a < 1 << 70 {
                        n += same(
                            || format!("next price from {p} by y {a}, liquidity {l}, add {b}"),
                            tried(|| sdk::clamm::get_next_sqrt_price_y_down(sp(p), sl(*l), sa(*a), b)).map(|a| a.get()),
                            next_y(p, *l, *a, b),
                        )?;
                        n += same(
                            || format!("next price from {p} by input {a}, liquidity {l}, x_to_y {b}"),
                            tried(|| sdk::clamm::get_next_sqrt_price_from_input(sp(p), sl(*l), sa(*a), b)).map(|a| a.get()),
                            if b { next_x(p, *l, *a, true) } else { next_y(p, *l, *a, true) },
                        )?;
                        n += same(
                            || format!("next price from {p} by output {a}, liquidity {l}, x_to_y {b}"),
                            tried(|| sdk::clamm::get_next_sqrt_price_from_output(sp(p), sl(*l), sa(*a), b)).map(|a| a.get()),
                            if b { next_y(p, *l, *a, false) } else { next_x(p, *l, *a, false) },
                        )?;
                    }
                    for x2y in [true, false] {
                        for f in &fees {
                            n += same(
                                || format!("does {a} move {p}, liquidity {l}, fee {f}, by_amount_in {b}, x_to_y {x2y}"),
                                tried(|| sdk::clamm::is_enough_amount_to_change_price(sa(*a), sp(p), sl(*l), sf(*f), b, x2y)),
                                tried(|| con::clamm::is_enough_amount_to_change_price(ca, cp, cl, Percentage::new(*f), b, x2y)),
                            )?;
                        }
                    }
                }
            }
            for (i, lo) in ticks.iter().enumerate() {
                for hi in ticks.iter().skip(i.saturating_sub(1)) {
                    for cur in [lo - 1, *lo, lo + 1, hi - 1, *hi, hi + 1] {
                        for add in [true, false] {
                            n += same(
                                || format!("amounts of liquidity {l} in {lo}..{hi} at tick {cur}, price {p}, add {add}"),
                                tried(|| sdk::clamm::calculate_amount_delta(cur, sp(p), sl(*l), add, *hi, *lo)).map(|a| (a.x.get(), a.y.get(), a.update_liquidity)),
                                tried(|| con::clamm::calculate_amount_delta(cur, cp, cl, add, *hi, *lo)).map(|a| (a.0.get(), a.1.get(), a.2)),
                            )?;
                        }
                    }
                }
            }
        }
        for a in &ams {
            for (i, lo) in ticks.iter().enumerate() {
                for hi in ticks.iter().skip(i.saturating_sub(1)) {
                    for up in [true, false] {
                        n += same(
                            || format!("liquidity by x {a} in {lo}..{hi} at {p}, up {up}"),
                            tried(|| sdk::math::get_liquidity_by_x(sa(*a), *lo, *hi, sp(p), up)).map(|r| (r.l.get(), r.amount.get())),
                            tried(|| con::logic::math::get_liquidity_by_x(TokenAmount::new(*a), *lo, *hi, cp, up)).map(|r| (r.l.get(), r.amount.get())),
                        )?;
                        n += same(
                            || format!("liquidity by y {a} in {lo}..{hi} at {p}, up {up}"),
                            tried(|| sdk::math::get_liquidity_by_y(sa(*a), *lo, *hi, sp(p), up)).map(|r| (r.l.get(), r.amount.get())),
                            tried(|| con::logic::math::get_liquidity_by_y(TokenAmount::new(*a), *lo, *hi, cp, up)).map(|r| (r.l.get(), r.amount.get())),
                        )?;
                    }
                }
            }
        }
        Ok(n)
    })?;
    note(r, "curve arithmetic", n);

    // 4. fees, minimum output
    let gs: Vec<u128> = vec![0, 1, 2, 1000, 10u128.pow(10), 10u128.pow(20), 10u128.pow(28) + 1, 10u128.pow(33), 1 << 127, u128::MAX - 1000, u128::MAX - 1, u128::MAX];
    let n = sweep(gs.len() * gs.len(), |j| {
        let (a, b) = (gs[j / gs.len()], gs[j % gs.len()]);
        let mut n = 0;
        n += same(|| format!("{a} + {b}"), sg(a).unchecked_add(sg(b)).get(), FeeGrowth::new(a).unchecked_add(FeeGrowth::new(b)).get())?;
        n += same(|| format!("{a} - {b}"), sg(a).unchecked_sub(sg(b)).get(), FeeGrowth::new(a).unchecked_sub(FeeGrowth::new(b)).get())?;
        n += same(
            || format!("seconds {a} + {b}"),
            ss(a).unchecked_add(ss(b)).get(),
            SecondsPerLiquidity::new(a).unchecked_add(SecondsPerLiquidity::new(b)).get(),
        )?;
        n += same(
            || format!("seconds {a} - {b}"),
            ss(a).unchecked_sub(ss(b)).get(),
            SecondsPerLiquidity::new(a).unchecked_sub(SecondsPerLiquidity::new(b)).get(),
        )?;
        for g in &gs {
            for h in &gs {
                for (lo, hi) in [(-20, 20), (0, 10), (10, 20), (-20, -10), (-10, 0)] {
                    for cur in [-30, -20, -11, -10, -1, 0, 9, 10, 19, 20, 30] {
                        n += same(
                            || format!("growth in {lo}..{hi} at {cur}: outside {a} {b} {g} {h}"),
                            {
                                let (x, y) = sdk::fee_growth::calculate_fee_growth_inside(lo, sg(a), sg(b), hi, sg(b), sg(*g), cur, sg(*h), sg(a));
                                (x.get(), y.get())
                            },
                            {
                                let c = FeeGrowth::new;
                                let (x, y) = con::fee_growth::calculate_fee_growth_inside(lo, c(a), c(b), hi, c(b), c(*g), cur, c(*h), c(a));
                                (x.get(), y.get())
                            },
                        )?;
                        n += same(
                            || format!("seconds in {lo}..{hi} at {cur}: {a} {b} {g}"),
                            tried(|| sdk::seconds_per_liquidity::calculate_seconds_per_liquidity_inside(lo, hi, cur, ss(a), ss(b), ss(*g))).map(|x| x.get()),
                            tried(|| {
                                let c = SecondsPerLiquidity::new;
                                con::seconds_per_liquidity::calculate_seconds_per_liquidity_inside(lo, hi, cur, c(a), c(b), c(*g))
                            })
                            .map(|x| x.get()),
                        )?;
                    }
                }
            }
        }
        for l in &ls {
            n += same(
                || format!("fee of growth {a} for liquidity {l}"),
                tried(|| sg(a).to_fee(sl(*l))).map(|x| x.get()),
                tried(|| FeeGrowth::new(a).to_fee(Liquidity::new(*l))).map(|x| x.get()),
            )?;
            for m in &ams {
                n += same(
                    || format!("growth of fee {m} for liquidity {l}"),
                    tried(|| sdk::fee_growth::FeeGrowth::from_fee(sl(*l), sa(*m))).map(|x| x.get()),
                    tried(|| FeeGrowth::from_fee(Liquidity::new(*l), TokenAmount::new(*m))).map(|x| x.get()),
                )?;
            }
            for (t0, t1) in [(0, 0), (0, 1), (1, 0), (5, 1_000_000), (0, u64::MAX), (u64::MAX - 1, u64::MAX)] {
                n += same(
                    || format!("seconds per liquidity {l} from {t0} to {t1}"),
                    tried(|| sdk::seconds_per_liquidity::SecondsPerLiquidity::calculate_seconds_per_liquidity_global(sl(*l), t1, t0)).map(|x| x.get()),
                    tried(|| SecondsPerLiquidity::calculate_seconds_per_liquidity_global(Liquidity::new(*l), t1, t0)).map(|x| x.get()),
                )?;
            }
        }
        for m in &ams {
            for f in fees.iter().cloned().chain([10_000_000_000, 333_333_333_333, 999_000_000_000]) {
                for d in [0, 1, 7] {
                    let x = m.saturating_sub(d).saturating_sub(a % 1000);
                    n += same(
                        || format!("minimum output of {x} with slippage {f}"),
                        tried_plain(|| sdk::clamm::calculate_min_amount_out(sa(x), sf(f))).map(|x| x.get()),
                        tried_plain(|| con::clamm::calculate_min_amount_out(TokenAmount::new(x), Percentage::new(f))).map(|x| x.get()),
                    )?;
                }
            }
        }
        Ok(n)
    })?;
    note(r, "fees and minimum output", n);
    r.samples.push(json!({"mirrored": "get_tick_at_sqrt_price", "price": (E24 + 12345).to_string(), "sdk": tried(|| sdk::get_tick_at_sqrt_price(sp(E24 + 12345), 10)), "contract": tried(|| con::log::get_tick_at_sqrt_price(SqrtPrice::new(E24 + 12345), 10))}));
    Ok(())
}
fn limit(x2y: bool) -> u128 {
    if x2y {
        MIN_PRICE
    } else {
        MAX_PRICE
    }
}
