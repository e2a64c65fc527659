//! C20: liquidity from token amounts. Products of amounts, ranges and prices on the helpers of
//! the contract and the SDK, judged with exact arithmetic; and positions really opened on the
//! contract with the liquidity the helpers chose.
use decimal::Decimal;
use mc::chain::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::logic::math as cm;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3_wasm as sdk;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// (liquidity, other amount)
type Got = Option<(u128, u128)>;
fn c_by(by_x: bool, a: u128, lo: i32, hi: i32, p: u128, up: bool) -> Got {
    tried(|| {
        let (a, p) = (TokenAmount::new(a), SqrtPrice::new(p));
        if by_x {
            cm::get_liquidity_by_x(a, lo, hi, p, up)
        } else {
            cm::get_liquidity_by_y(a, lo, hi, p, up)
        }
    })
    .map(|r| (r.l.get(), r.amount.get()))
}
fn s_by(by_x: bool, a: u128, lo: i32, hi: i32, p: u128, up: bool) -> Got {
    tried(|| {
        let (a, p) = (sdk::token_amount::TokenAmount::new(a), sdk::sqrt_price::SqrtPrice::new(p));
        if by_x {
            sdk::math::get_liquidity_by_x(a, lo, hi, p, up)
        } else {
            sdk::math::get_liquidity_by_y(a, lo, hi, p, up)
        }
    })
    .map(|r| (r.l.get(), r.amount.get()))
}
/// what opening takes of x and y, rounded up (None: more than fits)
fn takes(p: u128, pl: u128, ph: u128, l: u128) -> Option<(u128, u128)> {
    if p < pl {
        Some((delta_x(pl, ph, l, true)?, 0))
    } else if p < ph {
        Some((delta_x(p, ph, l, true)?, delta_y(pl, p, l, true)?))
    } else {
        Some((0, delta_y(pl, ph, l, true)?))
    }
}

struct Case {
    a: u128,
    lo: i32,
    hi: i32,
    p: u128,
    by_x: bool,
}
fn judge(who: &str, c: &Case, up: bool, got: Got) -> Result<(), String> {
    let Case { a, lo, hi, p, by_x } = *c;
    let what = || format!("{who} liquidity by {} = {a}, range {lo}..{hi}, price {p}, up {up}", if by_x { "x" } else { "y" });
    let (pl, ph) = (price_at(lo), price_at(hi));
    // the token is not needed: the helper must refuse
    let needed = if by_x { p < ph } else { p > pl };
    if !needed {
        // exactly on the bound the amount cannot be spent either
        return match got {
            Some(g) if (by_x && p > ph) || (!by_x && p < pl) => Err(format!("{} gives {g:?}, the range takes none of that token", what())),
            Some((l, _)) if l != 0 && lo < hi && a == 0 => Err(format!("{} gives liquidity {l} for nothing", what())),
            _ => Ok(()),
        };
    }
    // exact liquidity that the amount buys
    let (a0, b0) = if by_x { (if p < pl { pl } else { p }, ph) } else { (pl, if p >= ph { ph } else { p }) };
    let exact = if by_x {
        b(a) * (b(a0) * b(b0)) * b(E6) / (b(E24) * b(b0 - a0))
    } else {
        b(a) * b(E24) * b(E6) / b(b0 - a0)
    };
    let Some((l, other)) = got else {
        // may fail only when values come near the limits of the integer types
        let roomy = exact < b(1u128 << 100) && a < 1u128 << 90;
        let o = small(exact).and_then(|l| takes(p, pl, ph, l));
        let roomy = roomy && o.map(|(x, y)| x < 1u128 << 90 && y < 1u128 << 90).unwrap_or(false);
        return if roomy { Err(format!("{} fails, it buys {exact}", what())) } else { Ok(()) };
    };
    let Some((tx, ty)) = takes(p, pl, ph, l) else {
        return Err(format!("{}: liquidity {l} takes more than any amount", what()));
    };
    let (mine, its) = if by_x { (tx, ty) } else { (ty, tx) };
    if mine > a {
        return Err(format!("{}: liquidity {l} takes {mine} of the token", what()));
    }
    // the largest one, up to a unit and one part in 10^13
    let more = b(l) + b(2) + b(l) / b(10_000_000_000_000);
    if more < exact {
        return Err(format!("{}: liquidity {l}, the amount buys {exact}", what()));
    }
    // the other token: what opening takes, up to rounding in the asked direction and the fraction
    // of the liquidity (y) or the last decimal of the intermediate values (x)
    let round = |n: U512, d: U512| if up { div_up(n, d) } else { n / d };
    let (low, high) = if by_x {
        let d = b(if p > pl { p - pl } else { 0 });
        (round(d * b(l / E6), b(E24)), round(d * b(l), b(E24) * b(E6)))
    } else {
        let den = b(p) * b(ph) / b(E24);
        let (n, d) = (b(l) * b(if p < ph { ph - p } else { 0 }) * b(E24), b(p) * b(ph));
        // in millionths of a token
        (round((n / d).saturating_sub(b(E24) / den + b(2)), b(E6)), round(n * (den + b(1)) / (d * den), b(E6)))
    };
    if b(other) < low || b(other) > high {
        return Err(format!("{}: reports {other} of the other token, opening with {l} takes {its}", what()));
    }
    Ok(())
}

pub fn run(r: &mut Report) {
    if let Err(e) = go(r) {
        r.fail(e);
    }
}
fn go(r: &mut Report) -> Result<(), String> {
    let th = r.thorough();
    let mut ticks: Vec<i32> = vec![-221818, -221817, -200000, -150000, -100000, -50000, -20000, -5000, -1000, -500, -100, -11, -10, -1, 0, 1, 2, 10, 11, 20, 100, 500, 1000, 5000, 20000, 50000, 100000, 150000, 200000, 221817, 221818];
    if th {
        ticks.extend((-221_000..=221_000).step_by(8_123));
        ticks.sort();
        ticks.dedup();
    }
    let mut amounts: Vec<u128> = vec![0, 1, 2, 3, 7, 10, 99, 1000, 999_999, 1_000_000, 43_0000, 123_456_789, 10u128.pow(12), 10u128.pow(15) + 7, 10u128.pow(18), 10u128.pow(21) + 1, 10u128.pow(24), 10u128.pow(28), 1 << 64, (1 << 64) - 1, 1 << 100, u128::MAX, u128::MAX - 1];
    amounts.extend([5, 11, 63, 64, 65, 12345, 1_000_001, 7_777_777, 10u128.pow(9) + 9, 10u128.pow(16) - 1, 10u128.pow(20) + 3, 10u128.pow(26), 1 << 80, 1 << 90, 1 << 110]);
    if th {
        amounts.extend((3..120).map(|k| (1u128 << k) + 1));
    }
    let mut ranges = vec![];
    for (i, lo) in ticks.iter().enumerate() {
        for hi in ticks.iter().skip(i + 1) {
            ranges.push((*lo, *hi));
        }
    }
    let cases = AtomicU64::new(0);
    let n = sweep(ranges.len(), |i| {
        let (lo, hi) = ranges[i];
        let (pl, ph) = (price_at(lo), price_at(hi));
        let mut ps = vec![pl, pl + 1, pl.saturating_sub(1), ph, ph - 1, ph + 1, pl / 2 + ph / 2, pl + (ph - pl) / 3, MIN_PRICE, MAX_PRICE, E24, E24 - 1, E24 + 1];
        for t in &ticks {
            ps.push(price_at(*t));
        }
        for t in [lo - 1, lo + 1, hi - 1, hi + 1, (lo + hi) / 2] {
            if t.abs() <= MAX_TICK {
                ps.push(price_at(t));
            }
        }
        ps.retain(|p| (MIN_PRICE..=MAX_PRICE).contains(p));
        ps.sort();
        ps.dedup();
        let mut n = 0;
        for p in ps {
            for by_x in [true, false] {
                let mut last = [0u128; 2];
                let mut sorted = amounts.clone();
                sorted.sort();
                for a in &sorted {
                    let c = Case { a: *a, lo, hi, p, by_x };
                    cases.fetch_add(1, Relaxed);
                    let mut down = [None; 2];
                    for up in [false, true] {
                        let g = [c_by(by_x, *a, lo, hi, p, up), s_by(by_x, *a, lo, hi, p, up)];
                        n += 2;
                        for (k, who) in ["contract:", "SDK:"].iter().enumerate() {
                            judge(who, &c, up, g[k])?;
                            if let Some((l, o)) = g[k] {
                                // a larger amount never buys less
                                if l < last[k] {
                                    return Err(format!("{who} {a} buys {l}, a smaller amount {}", last[k]));
                                }
                                last[k] = l;
                                if !up {
                                    down[k] = Some((l, o));
                                } else if let Some((dl, d)) = down[k] {
                                    if dl != l || o < d || o > d + 1 {
                                        return Err(format!("{who} by {a} range {lo}..{hi} price {p}: rounded down {d}, up {o}, liquidity {dl} and {l}"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += cases.load(Relaxed);
    r.transitions += n;
    r.details.insert("single token".into(), json!({"cases": cases.load(Relaxed), "evaluations": n, "ranges": ranges.len(), "amounts": amounts.len()}));
    // ranges that make no sense
    for (lo, hi) in [(-MAX_TICK - 1, 0), (0, MAX_TICK + 1), (i32::MIN + 1, i32::MAX)] {
        for by_x in [true, false] {
            for f in [c_by, s_by] {
                if f(by_x, 1000, lo, hi, E24, true).is_some() {
                    return Err(format!("range {lo}..{hi} is out of bounds and gets liquidity"));
                }
            }
        }
    }
    // both tokens
    let am: Vec<u128> = vec![0, 1, 2, 1000, 999_999, 123_456_789, 10u128.pow(12), 10u128.pow(18) + 1, 10u128.pow(24), 1 << 90];
    let both = AtomicU64::new(0);
    let n = sweep(ranges.len(), |i| {
        let (lo, hi) = ranges[i];
        let (pl, ph) = (price_at(lo), price_at(hi));
        let mut ps = vec![pl, pl + 1, ph, ph - 1, ph + 1, pl.saturating_sub(1), pl / 2 + ph / 2, E24, MIN_PRICE, MAX_PRICE];
        ps.retain(|p| (MIN_PRICE..=MAX_PRICE).contains(p));
        ps.sort();
        ps.dedup();
        let mut n = 0;
        for p in ps {
            for x in &am {
                for y in &am {
                    both.fetch_add(1, Relaxed);
                    for up in [false, true] {
                        n += 1;
                        let what = || format!("liquidity of {x} and {y}, range {lo}..{hi}, price {p}, up {up}");
                        let got = tried(|| cm::get_liquidity(TokenAmount::new(*x), TokenAmount::new(*y), lo, hi, SqrtPrice::new(p), up));
                        let bx = if p < ph { c_by(true, *x, lo, hi, p, up).map(|g| g.0) } else { None };
                        let by = if p > pl { c_by(false, *y, lo, hi, p, up).map(|g| g.0) } else { None };
                        let want = if p <= pl { bx } else if p >= ph { by } else { bx.and_then(|u| by.map(|v| u.min(v))) };
                        let Some(g) = got else {
                            if p == pl {
                                continue;
                            }
                            if want.is_some() {
                                return Err(format!("{} fails, the amounts buy {want:?}", what()));
                            }
                            continue;
                        };
                        let l = g.l.get();
                        let Some((tx, ty)) = takes(p, pl, ph, l) else {
                            return Err(format!("{}: liquidity {l} takes more than any amount", what()));
                        };
                        if tx > *x && p < ph || ty > *y && p > pl {
                            return Err(format!("{}: liquidity {l} takes {tx} and {ty}", what()));
                        }
                        if p != pl && Some(l) != want {
                            return Err(format!("{}: liquidity {l}, the smaller of both tokens buys {want:?}", what()));
                        }
                        // the reported amounts are those of the liquidity, or the given one that bound it
                        let sx = small(div_up(b(E24 / E6), b(p.max(pl)) * b(ph) / b(E24))).unwrap() + 2 + tx / 10_000_000_000_000;
                        let sy = small(div_up(b(p.min(ph).saturating_sub(pl)), b(E24))).unwrap() + 2 + ty / 10_000_000_000_000;
                        let (gx, gy) = (g.x.get(), g.y.get());
                        // the token that decides is reported as given
                        let by_x = p <= pl || (p < ph && bx <= by);
                        let okx = if by_x { gx == *x || gx.abs_diff(tx) <= sx } else { gx.abs_diff(tx) <= sx };
                        let oky = if !by_x { gy == *y || gy.abs_diff(ty) <= sy } else { gy.abs_diff(ty) <= sy };
                        if !okx || !oky {
                            return Err(format!("{}: liquidity {l} takes {tx} and {ty}, reported {gx} and {gy}", what()));
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += both.load(Relaxed);
    r.transitions += n;
    r.details.insert("both tokens".into(), json!({"cases": both.load(Relaxed), "evaluations": n}));
    opened(r)
}

/// positions opened on the contract with the chosen liquidity
fn opened(r: &mut Report) -> Result<(), String> {
    let th = r.thorough();
    let mut starts: Vec<i32> = vec![-221818, -100000, -500, -1, 0, 1, 500, 100000, 221817];
    if th {
        starts.extend((-220_000..220_000).step_by(9_973));
    }
    let amounts: Vec<u128> = vec![1, 7, 1000, 999_999, 123_456_789, 10u128.pow(12) + 3, 10u128.pow(18)];
    let jobs: Vec<(i32, u128)> = starts
        .iter()
        .flat_map(|t| {
            let p = price_at(*t);
            let q = if *t < MAX_TICK { price_at(t + 1) } else { p + 1 };
            [(*t, p), (*t, p + (q - p) / 2), (*t, q - 1)]
        })
        .collect();
    let traces = AtomicU64::new(0);
    let sample = std::sync::Mutex::new(None);
    let n = sweep(jobs.len(), |i| {
        let (t0, p) = jobs[i];
        let mut st = State::new(0);
        step(&mut st, &add_tier((1_000_000_000, 1)));
        let o = step(&mut st, &Op::NewPool { who: ALICE, t0: T_A, t1: T_B, fee: 1_000_000_000, s: 1, price: p, tick: t0 });
        if !o.real.ok {
            return Err(format!("pool at tick {t0} price {p}: {}", o.real.err));
        }
        let mut n = 0;
        for (dl, dh) in [(-1, 1), (0, 1), (-1, 0), (1, 2), (-10, 20), (-1000, 1000), (5, 1000), (-1000, -5), (-20000, 30), (-300_000, 300_000), (0, 300_000), (-300_000, 0)] {
            let (lo, hi) = ((t0 + dl).clamp(-MAX_TICK, MAX_TICK), (t0 + dh).clamp(-MAX_TICK, MAX_TICK));
            if lo >= hi {
                continue;
            }
            for a in &amounts {
                for by_x in [true, false] {
                    for (k, f) in [c_by, s_by].iter().enumerate() {
                        let Some((l, other)) = f(by_x, *a, lo, hi, p, true) else { continue };
                        if l == 0 {
                            continue;
                        }
                        let mut s2 = st.clone();
                        let o = step(&mut s2, &open(ALICE, 0, lo, hi, l));
                        n += 1;
                        if !o.real.ok {
                            // nobody here owns that much
                            if o.pred.ok && !o.real.err.starts_with("insufficient balance") {
                                return Err(format!("opening {lo}..{hi} with {l} at price {p}: {}", o.real.err));
                            }
                            continue;
                        }
                        traces.fetch_add(1, Relaxed);
                        let took = (-o.delta[ALICE][T_A], -o.delta[ALICE][T_B]);
                        let (mine, its) = if by_x { took } else { (took.1, took.0) };
                        if mine > *a as i128 {
                            return Err(format!("{}: {a} given for {lo}..{hi} at price {p}, the opening with {l} took {mine}", ["contract", "SDK"][k]));
                        }
                        let slack = if by_x { p / E24 + 3 } else { 3 + small(b(E24 / E6) / (b(p) * b(price_at(hi)) / b(E24))).unwrap() } as i128 + its / 10_000_000_000_000;
                        if (its - other as i128).abs() > slack {
                            return Err(format!("{}: {other} of the other token reported for {lo}..{hi} at price {p}, the opening with {l} took {its}", ["contract", "SDK"][k]));
                        }
                        let mut g = sample.lock().unwrap();
                        if g.is_none() && l > E6 && its > 10 {
                            *g = Some(json!({"amount": a.to_string(), "by_x": by_x, "range": [lo, hi], "price": p.to_string(), "liquidity": l.to_string(), "taken": [took.0.to_string(), took.1.to_string()]}));
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += n;
    r.transitions += n;
    r.traces += traces.into_inner();
    r.samples.extend(sample.into_inner().unwrap());
    r.details.insert("opened on the contract".into(), json!({"openings": n, "pools": jobs.len()}));
    Ok(())
}
