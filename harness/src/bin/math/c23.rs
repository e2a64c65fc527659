//! C23: one swap step and the token amounts of a piece of liquidity, on the product of prices,
//! distances, liquidities, fees and amounts chosen around every threshold, judged with exact
//! rational arithmetic.
use decimal::Decimal;
use mc::model::*;
use mc::num::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::clamm;
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// exact amount of x (or y) between two prices, as numerator and denominator
fn exact(x: bool, p: u128, q: u128, l: u128) -> (U512, U512) {
    let d = b(p.abs_diff(q)) * b(l);
    if x {
        (d * b(E18), b(p) * b(q))
    } else {
        (d, b(E24) * b(E6))
    }
}
fn up(e: (U512, U512)) -> U512 {
    div_up(e.0, e.1)
}
fn down(e: (U512, U512)) -> U512 {
    e.0 / e.1
}
/// what the precision of the price product allows an amount of x to be off, on top of rounding
fn slack(x: bool, p: u128, q: u128, e: (U512, U512)) -> U512 {
    if x {
        let pr = b(p) * b(q) / b(E24);
        up(e) / pr + b(1)
    } else {
        b(0)
    }
}
fn sp(p: u128) -> SqrtPrice {
    SqrtPrice::new(p)
}

/// the two roundings of the amount between two prices
fn deltas(p: u128, q: u128, l: u128) -> Result<u64, String> {
    for (x, name) in [(true, "x"), (false, "y")] {
        let e = exact(x, p, q, l);
        let s = slack(x, p, q, e);
        for rounding_up in [true, false] {
            let f = |p: u128, q: u128| {
                tried(|| {
                    if x {
                        clamm::get_delta_x(sp(p), sp(q), Liquidity::new(l), rounding_up)
                    } else {
                        clamm::get_delta_y(sp(p), sp(q), Liquidity::new(l), rounding_up)
                    }
                })
                .map(|t| t.get())
            };
            let what = || format!("amount of {name} between prices {p} and {q} for liquidity {l}, rounding up {rounding_up}");
            let got = f(p, q);
            if got != f(q, p) {
                return Err(format!("{} depends on the order of the prices", what()));
            }
            let Some(g) = got else {
                if up(e) + s <= b(u128::MAX) {
                    return Err(format!("{} fails, it is {}", what(), up(e)));
                }
                continue;
            };
            let (lo, hi) = if rounding_up { (up(e), up(e) + s) } else { (down(e).saturating_sub(s), down(e)) };
            if b(g) < lo || b(g) > hi {
                return Err(format!("{} is {g}, exactly {} and {}/{}", what(), down(e), e.0 % e.1, e.1));
            }
        }
    }
    Ok(4)
}

#[derive(Clone, Copy)]
struct Req {
    p: u128,
    t: u128,
    l: u128,
    amt: u128,
    exact_in: bool,
    fee: u64,
}
struct Seen {
    reached: AtomicU64,
    stopped: AtomicU64,
    failed: AtomicU64,
}
fn one(r: &Req, seen: &Seen) -> Result<(), String> {
    let Req { p, t, l, amt, exact_in, fee } = *r;
    let what = || format!("step from price {p} to {t}, liquidity {l}, amount {amt}, by input {exact_in}, fee {fee}");
    let got = tried(|| {
        clamm::compute_swap_step(sp(p), sp(t), Liquidity::new(l), TokenAmount::new(amt), exact_in, Percentage::new(fee))
    });
    let dn = p >= t;
    let ein = |q: u128| exact(dn, p, q, l);
    let eout = |q: u128| exact(!dn, p, q, l);
    let Some(g) = got else {
        seen.failed.fetch_add(1, Relaxed);
        // only amounts that do not fit: an amount with 48 more decimals has to fit in 256 bits
        let room = b(1 << 96);
        let fits = up(ein(t)) + slack(dn, p, t, ein(t)) < room && up(eout(t)) < room;
        return if fits { Err(format!("{} fails", what())) } else { Ok(()) };
    };
    let (next, ain, aout, f) = (g.next_sqrt_price.get(), g.amount_in.get(), g.amount_out.get(), g.fee_amount.get());
    let bad = |m: String| Err(format!("{}: price {next}, in {ain}, out {aout}, fee {f}: {m}", what()));
    if l == 0 {
        return if (next, ain, aout, f) == (t, 0, 0, 0) { Ok(()) } else { bad("without liquidity the price goes to the target for nothing".into()) };
    }
    if dn && !(t <= next && next <= p) || !dn && !(p <= next && next <= t) {
        return bad("the price leaves the segment".into());
    }
    let (ei, eo) = (ein(next), eout(next));
    if b(ain) < up(ei) {
        // the input may be all there is when the exact need is below it
        return bad(format!("the curve needs {}", up(ei)));
    }
    if b(aout) > down(eo) {
        return bad(format!("the curve gives {}", down(eo)));
    }
    let reached = next == t;
    if reached {
        seen.reached.fetch_add(1, Relaxed);
    } else {
        seen.stopped.fetch_add(1, Relaxed);
    }
    let aaf = after_fee(amt, fee);
    if exact_in {
        if b(ain) + b(f) > b(amt) {
            return bad("takes more than the amount".into());
        }
        if !reached && ain + f != amt {
            return bad("the amount is not used up and the target not reached".into());
        }
        if f < pct(ain, fee, true) {
            return bad(format!("the fee of the input is {}", pct(ain, fee, true)));
        }
        if reached && f != pct(ain, fee, true) {
            return bad(format!("the fee of the input is {}", pct(ain, fee, true)));
        }
        // the price goes as far as the amount allows, up to two units of price
        let further = if dn { next.saturating_sub(2).max(1) } else { next + 2 };
        if !reached && up(ein(further)) + slack(dn, p, further, ein(further)) < b(aaf) {
            return bad(format!("{aaf} after the fee moves the price further"));
        }
        if !reached && b(aaf) > b(ain) + up(exact(dn, next, further, l)) + slack(dn, p, next, ei) + b(1) {
            return bad(format!("{aaf} after the fee, only {ain} charged as input"));
        }
    } else {
        if aout > amt {
            return bad("gives more than the amount".into());
        }
        if f != pct(ain, fee, true) {
            return bad(format!("the fee of the input is {}", pct(ain, fee, true)));
        }
        if !reached && b(aout) + slack(!dn, p, next, eo) < b(amt) {
            return bad("the target is not reached and the amount not given".into());
        }
        // the price goes no further than the amount needs, up to two units
        let less = if dn { (next + 2).min(p) } else { (next - 2).max(p) };
        if !reached && less != p && b(amt) < down(eout(less)) {
            return bad("a smaller price move gives the amount".into());
        }
    }
    // no more is charged and no less is given than rounding and price precision explain
    if b(ain) > up(ei) + slack(dn, p, next, ei) {
        return bad(format!("the curve needs {}", up(ei)));
    }
    if b(aout) + slack(!dn, p, next, eo) < down(eo).min(if exact_in { b(u128::MAX) } else { b(amt) }) {
        return bad(format!("the curve gives {}", down(eo)));
    }
    Ok(())
}

pub fn run(r: &mut Report) {
    if let Err(e) = go(r) {
        r.fail(e);
    }
}
fn go(r: &mut Report) -> Result<(), String> {
    let th = r.thorough();
    // prices: spread over the range, denser at its ends, at a tick and between two
    let stride = if th { 23 } else { 307 };
    let mut ticks: Vec<i32> = (-MAX_TICK..MAX_TICK).step_by(stride).collect();
    for t in [0, 1, 10, 100, 1000, MAX_TICK - 2, MAX_TICK - 100, MAX_TICK - 1000] {
        ticks.extend([t, -t]);
    }
    ticks.sort();
    ticks.dedup();
    let mut prices: Vec<u128> = vec![];
    for t in &ticks {
        let (a, c) = (price_at(*t), price_at(*t + 1));
        prices.extend([a, a + (c - a) / 3]);
        if th {
            prices.extend([a - 1, a + 1]);
        }
    }
    prices.retain(|p| *p >= MIN_PRICE && *p <= MAX_PRICE);
    let ls: &[u128] = &[1, 1_000_001, 1_000_000 * E6, 987_654_321 * E12, E18 * E12, 333 * E18 * E12, 1 << 126];
    let fees: &[u64] = &[0, 1, 6_000_000_000, 500_000_000_000, 999_999_999_999];
    let targets = |p: u128| -> Vec<u128> {
        let t = tick_at(p, 1).unwrap();
        let mut v = vec![p - 1, p + 1, p + 3, p];
        let ds: &[i32] = if th { &[1, 2, 10, 100, 2560, 25_600] } else { &[1, 10, 2560] };
        for d in ds {
            for q in [t - d, t + d] {
                if q.abs() <= MAX_TICK {
                    v.push(price_at(q));
                }
            }
        }
        v.retain(|q| *q >= MIN_PRICE && *q <= MAX_PRICE);
        v
    };
    let seen = Seen { reached: AtomicU64::new(0), stopped: AtomicU64::new(0), failed: AtomicU64::new(0) };
    let n1 = sweep(prices.len(), |i| {
        let p = prices[i];
        let mut n = 0;
        for t in targets(p) {
            for l in ls.iter().chain(&[0, 2, 999_999, u128::MAX]) {
                n += deltas(p, t, *l)?;
            }
            // liquidities around those whose amount is a whole number
            for x in [true, false] {
                let (d, den) = exact(x, p, t, 1);
                if d.is_zero() {
                    continue;
                }
                for k in [1, 2, 1000, E12] {
                    if let Some(l0) = small(den * b(k) / d) {
                        for l in [l0.saturating_sub(1), l0, l0.saturating_add(1), l0.saturating_add(2)] {
                            n += deltas(p, t, l)?;
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += n1;
    r.transitions += n1;
    r.details.insert("amounts between two prices".into(), json!({"evaluations": n1, "prices": prices.len()}));
    let n2 = sweep(prices.len(), |i| {
        let p = prices[i];
        let mut n = 0;
        for t in targets(p) {
            for l in ls.iter().chain(&[0]) {
                let dn = p >= t;
                for fee in fees {
                    for exact_in in [true, false] {
                        let mut am = vec![1u128, 2, 3, 1000, E18, 1 << 110];
                        let edge = if exact_in { up(exact(dn, p, t, *l)) } else { down(exact(!dn, p, t, *l)) };
                        if let Some(e) = small(edge) {
                            let rough = exact_in.then(|| delta_x(p, t, *l, true)).flatten().filter(|_| dn);
                            let mut around = vec![e, e / 2, e / 7];
                            around.extend(rough);
                            if let Some(r) = rough {
                                around.push(e + (r.max(e) - e) / 2);
                            }
                            for a in around {
                                // the amount whose part after the fee is a
                                let a = if exact_in {
                                    match small(div_up(b(a) * b(E12), b(E12 - *fee as u128))) {
                                        Some(a) => a,
                                        None => continue,
                                    }
                                } else {
                                    a
                                };
                                am.extend([a, a.saturating_sub(1), a.saturating_sub(2), a.saturating_add(1), a.saturating_add(2)]);
                            }
                        }
                        am.sort();
                        am.dedup();
                        for amt in am {
                            if amt > 0 && amt < u128::MAX >> 2 {
                                one(&Req { p, t, l: *l, amt, exact_in, fee: *fee }, &seen)?;
                                n += 1;
                            }
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += n2;
    r.transitions += n2;
    r.details.insert(
        "swap steps".into(),
        json!({"evaluations": n2, "reach the target": seen.reached.into_inner(), "stop before it": seen.stopped.into_inner(),
               "refused for their size": seen.failed.into_inner()}),
    );
    eprintln!("[swap steps] {:?}", r.details);
    Ok(())
}
