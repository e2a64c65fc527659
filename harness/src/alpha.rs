//! Building blocks for scenarios: setups and state-dependent operation choices.
use crate::chain::*;
use crate::model::*;
use crate::num::*;
use crate::ops::*;

pub const TIER_A: (u64, u16) = (6_000_000_000, 10); // 0.6 %
pub const TIER_B: (u64, u16) = (100_000_000, 1); // 0.01 %
pub const TIER_0: (u64, u16) = (0, 1);
pub const TIER_H: (u64, u16) = (500_000_000_000, 100); // 50 %
pub const TIER_X: (u64, u16) = (999_999_999_999, 2);
pub const SHARE: u64 = 10_000_000_000; // 1 %

/// one tier, one pool A/B at `price` (which belongs to `tick`)
pub fn one_pool(t: (u64, u16), tick: i32, price: u128) -> Vec<Op> {
    vec![add_tier(t), Op::NewPool { who: ALICE, t0: T_A, t1: T_B, fee: t.0, s: t.1, price, tick }]
}
pub fn mid_price(t: i32, s: i32) -> u128 {
    let (a, c) = (price_at(t), price_at(t + s));
    a + (c - a) / 3
}

/// amounts that exactly reach the next `n` segment ends (and just do not), in trade direction
pub fn edges(m: &Model, pool: usize, x2y: bool, exact_in: bool, n: usize) -> Vec<u128> {
    let pl = &m.pools[pool];
    let ticks: Vec<i32> = m.ticks(pool).keys().cloned().collect();
    let mut v = vec![];
    let mut base: u128 = 0;
    let (mut p, mut tick) = (pl.price, pl.tick);
    let mut left = n;
    let targets: Vec<i32> = if x2y {
        ticks.iter().rev().cloned().filter(|t| *t <= tick).collect()
    } else {
        ticks.iter().cloned().filter(|t| *t > tick).collect()
    };
    for t in targets {
        if left == 0 {
            break;
        }
        let q = price_at(t);
        let l = m.active(pool, tick);
        if l > 0 && q != p {
            let (i, o) = if x2y {
                (delta_x(q, p, l, true), delta_y(q, p, l, false))
            } else {
                (delta_y(p, q, l, true), delta_x(p, q, l, false))
            };
            let (i, o) = match (i, o) {
                (Some(i), Some(o)) => (i, o),
                _ => break,
            };
            if exact_in {
                let need = small(div_up(b(i) * b(E12), b(E12 - pl.fee as u128))).unwrap_or(u128::MAX / 4);
                v.push(base + need);
                base += i + pct(i, pl.fee, true);
            } else {
                v.push(base + o);
                base += o;
            }
            left -= 1;
        }
        p = q;
        tick = if x2y { t - pl.s } else { t };
    }
    v
}
/// representative amounts around the edges
pub fn amounts_around(m: &Model, pool: usize, x2y: bool, exact_in: bool, n: usize, around: bool) -> Vec<u128> {
    let e = edges(m, pool, x2y, exact_in, n);
    let mut v = vec![];
    let mut prev = 0;
    for a in e {
        v.push((prev + a) / 2);
        if around {
            v.push(a.saturating_sub(1));
            v.push(a + 1);
        }
        v.push(a);
        prev = a;
    }
    if around {
        v.extend([1, 2]);
    }
    v.retain(|a| *a > 0 && *a < 1_000_000_000_000_000_000_000_000_000);
    v.sort();
    v.dedup();
    v
}
/// interesting price limits: extreme, next initialized ticks, between them, current price +-1
pub fn limits(m: &Model, pool: usize, x2y: bool, n: usize) -> Vec<u128> {
    let pl = &m.pools[pool];
    let mut v = vec![limit_of(x2y)];
    let ticks: Vec<i32> = m.ticks(pool).keys().cloned().collect();
    let near: Vec<i32> = if x2y {
        ticks.iter().rev().cloned().filter(|t| price_at(*t) < pl.price).take(n).collect()
    } else {
        ticks.iter().cloned().filter(|t| price_at(*t) > pl.price).take(n).collect()
    };
    let mut last = pl.price;
    for t in near {
        let p = price_at(t);
        v.push(p);
        v.push(p / 2 + last / 2);
        last = p;
    }
    v.dedup();
    v
}
pub fn closes(s: &State, who: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for w in who {
        for i in 0..s.m.pos[*w].len() {
            v.push(Op::Close { who: *w, idx: i as u32 });
        }
    }
    v
}
pub fn claims(s: &State, who: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for w in who {
        for i in 0..s.m.pos[*w].len() {
            v.push(Op::Claim { who: *w, idx: i as u32 });
        }
    }
    v
}
