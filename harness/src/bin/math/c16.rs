//! C16: tick and price conversions. Every tick of the domain; for every tick spacing every
//! price at which the answer can change, its neighbours and a grid in between; the pool
//! creation rule that relates tick and price, on the contract's entry point.
use decimal::Decimal;
use mc::chain::*;
use mc::num::*;
use mc::ops::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::log::get_tick_at_sqrt_price;
use oraiswap_v3::msg::ExecuteMsg;
use oraiswap_v3::sqrt_price::{calculate_sqrt_price, get_max_tick, get_min_tick, SqrtPrice};
use serde_json::json;

const MAX: i32 = 221_818;

/// sqrt(1.0001)^t for t in 0..=MAX, 200 fractional bits, error far below 2^-150
fn powers() -> Vec<U512> {
    let one = U512::one() << 200;
    let s = ((U512::one() << 400) * b(10001) / b(10000)).integer_sqrt();
    let mut v = vec![one];
    for _ in 0..MAX {
        v.push((*v.last().unwrap() * s) >> 200);
    }
    v
}

pub fn run(r: &mut Report) {
    if let Err(e) = go(r) {
        r.fail(e);
    }
}
fn go(r: &mut Report) -> Result<(), String> {
    // 1. the price of every tick
    let mut table: Vec<u128> = vec![];
    for t in -MAX..=MAX {
        match tried(|| calculate_sqrt_price(t)) {
            Some(p) => table.push(p.get()),
            None => return Err(format!("valid tick {t} has no price")),
        }
    }
    let pow = powers();
    let (mut worst_rel, mut worst_abs) = (0f64, 0f64);
    for t in -MAX..=MAX {
        let p = table[(t + MAX) as usize];
        if t > -MAX && p <= table[(t + MAX - 1) as usize] {
            return Err(format!("price of tick {t} ({p}) is not above the price of tick {}", t - 1));
        }
        let q = pow[t.unsigned_abs() as usize];
        // exact price scaled by 10^24
        let exact = if t >= 0 { (q * b(E24)) >> 200 } else { ((U512::one() << 400) / q * b(E24)) >> 200 };
        let d = if exact > b(p) { exact - b(p) } else { b(p) - exact };
        // 2 parts in 10^11 and 2 in 10^14 per tick of distance from zero, plus two units of the
        // twelfth decimal, in which prices are expressed
        let tol = exact * b(2 * t.unsigned_abs() as u128 + 2000) / b(100_000_000_000_000) + b(2 * E12);
        if d > tol {
            return Err(format!("price of tick {t} is {p}, the exact power is {exact}"));
        }
        if exact >= b(E24) {
            worst_rel = worst_rel.max(d.as_u128() as f64 / exact.as_u128() as f64);
        } else {
            worst_abs = worst_abs.max(d.as_u128() as f64 / E12 as f64);
        }
    }
    r.states += table.len() as u64;
    r.transitions += 3 * table.len() as u64;
    r.details.insert(
        "ticks".into(),
        json!({"ticks": table.len(), "largest_relative_error_at_or_above_one": worst_rel, "largest_error_below_one_in_units_of_1e-12": worst_abs}),
    );
    for t in [MAX + 1, -MAX - 1, MAX + 2, -MAX - 2, 1 << 18, -(1 << 18), (1 << 18) + 1, 1 << 30, i32::MAX, i32::MIN + 1, i32::MIN] {
        r.states += 1;
        r.transitions += 1;
        if let Some(p) = tried(|| calculate_sqrt_price(t)) {
            return Err(format!("tick {t} is out of bounds and still has a price {p:?}"));
        }
    }
    // 2. the tick of prices
    let (lo, hi) = (table[0], *table.last().unwrap());
    let k = if r.thorough() { 40u128 } else { 4 };
    let tick_of = |p: u128| table.partition_point(|q| *q <= p) as i32 - 1 - MAX;
    let block = 512usize;
    let blocks = (table.len() + block - 1) / block;
    let points = std::sync::atomic::AtomicU64::new(0);
    let n = sweep(blocks, |bi| {
        let mut done = 0;
        for i in bi * block..((bi + 1) * block).min(table.len()) {
            let p = table[i];
            let mut ps = vec![p, p + 1, p.saturating_sub(1)];
            if i + 1 < table.len() {
                let gap = table[i + 1] - p;
                for j in 1..=k {
                    ps.push(p + gap * j / (k + 1));
                }
            }
            // where the price's 32-bit fraction steps, near the tick
            let n = (b(p) << 32) / b(E24);
            for d in 0..=2u32 {
                let e = small(div_up((n + U512::from(d)) * b(E24), U512::one() << 32)).unwrap();
                ps.push(e);
                ps.push(e - 1);
            }
            ps.retain(|q| (lo..=hi).contains(q));
            ps.sort();
            ps.dedup();
            points.fetch_add(ps.len() as u64, std::sync::atomic::Ordering::Relaxed);
            for q in ps {
                let t1 = tick_of(q);
                for s in 1..=100i32 {
                    let want = t1.div_euclid(s) * s;
                    let got = tried(|| get_tick_at_sqrt_price(SqrtPrice::new(q), s as u16));
                    done += 1;
                    // below the price of the lowest aligned tick no tick of the spacing is valid
                    let ok = if want < -(MAX / s * s) { got.is_none() || got == Some(want) } else { got == Some(want) };
                    if !ok {
                        return Err(format!(
                            "price {q} at spacing {s}: tick {got:?} reported, the largest aligned tick not above it is {want}"
                        ));
                    }
                }
            }
        }
        Ok(done)
    })?;
    let points = points.into_inner();
    r.states += points;
    r.transitions += n;
    r.details.insert("prices".into(), json!({"prices": points, "spacings": 100, "evaluations": n, "grid_points_between_two_ticks": k as u64}));
    for s in 1..=100u16 {
        for p in [0, 1, lo - 1, lo - E12, hi + 1, hi + E12, u128::MAX, u128::MAX - 1, E24 * 100_000] {
            r.transitions += 1;
            if let Some(t) = tried(|| get_tick_at_sqrt_price(SqrtPrice::new(p), s)) {
                return Err(format!("price {p} is out of bounds and still belongs to tick {t} (spacing {s})"));
            }
        }
        let m = MAX / s as i32 * s as i32;
        if get_max_tick(s) != m || get_min_tick(s) != -m {
            return Err(format!("spacing {s}: bounds {}..{} instead of {}..{}", get_min_tick(s), get_max_tick(s), -m, m));
        }
    }
    // 3. pool creation accepts a tick and a price exactly when the price belongs to the tick
    let spac: Vec<u16> = if r.thorough() { (1..=100).collect() } else { vec![1, 2, 3, 7, 10, 64, 99, 100] };
    let traces = std::sync::atomic::AtomicU64::new(0);
    let n = sweep(spac.len(), |si| {
        let s = spac[si] as i32;
        let m = MAX / s * s;
        let mut base = World::new(0);
        let t = tier(1_000_000_000, s as u16);
        let o = base.exec(ADMIN, &ExecuteMsg::AddFeeTier { fee_tier: t.clone() }, &[]);
        if !o.ok {
            return Err(format!("listing a fee tier with spacing {s} fails: {}", o.err));
        }
        let mut done = 0;
        let mut ticks: Vec<i32> = vec![0, s, -s, 2 * s, -2 * s, m, -m, m - s, -m + s, m + s, -m - s, m - 2 * s, 64 * s, -64 * s, 1, -1, MAX, -MAX, m / 2 / s * s, -(m / 2 / s * s)];
        ticks.sort();
        ticks.dedup();
        for t0 in ticks {
            let mut ps = vec![lo, hi, E24];
            for d in [-1, 0, 1, 2] {
                let x = t0 + d * s;
                if (-MAX..=MAX).contains(&x) {
                    let p = table[(x + MAX) as usize];
                    ps.extend([p - 1, p, p + 1]);
                }
            }
            ps.sort();
            ps.dedup();
            for p in ps {
                let valid = t0 % s == 0 && t0.abs() <= m;
                let want = valid
                    && if t0 == m {
                        p == table[(m + MAX) as usize]
                    } else {
                        table[(t0 + MAX) as usize] <= p && p < table[(t0 + s + MAX) as usize]
                    };
                let mut w = base.clone();
                let o = w.exec(
                    ALICE,
                    &ExecuteMsg::CreatePool {
                        token_0: TOKENS[T_A].to_string(),
                        token_1: TOKENS[T_B].to_string(),
                        fee_tier: t.clone(),
                        init_sqrt_price: SqrtPrice::new(p),
                        init_tick: t0,
                    },
                    &[],
                );
                done += 1;
                traces.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if o.ok != want {
                    return Err(format!("pool creation at tick {t0}, price {p}, spacing {s}: ok {}, should be {want} ({})", o.ok, o.err));
                }
            }
        }
        Ok(done)
    })?;
    r.states += n;
    r.transitions += n;
    r.traces += traces.into_inner();
    r.details.insert("pool creations".into(), json!({"spacings": spac.len(), "requests": n}));
    r.samples.push(json!({"tick": 12345, "price": table[(12345 + MAX) as usize].to_string(), "tick_of_price_minus_one_at_spacing_10": tick_of(table[(12345 + MAX) as usize] - 1).div_euclid(10) * 10}));
    Ok(())
}
