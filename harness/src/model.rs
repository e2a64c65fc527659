//! The reference model: pools as (price, tick, protocol fees, receiver), positions as plain
//! lists per account, each with its own fee accumulators that grow whenever a fee is paid
//! while the current tick is inside its range. No ticks, no bitmap, no "outside" counters:
//! everything of that kind is derived by summing over the list of positions.
use crate::chain::*;
use crate::num::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub const MAX_TICK: i32 = 221_818;
pub const MAX_PRICE: u128 = 65535383934512647000000000000;
pub const MIN_PRICE: u128 = 15258932000000000000;
pub const HORIZON: i32 = 256;

/// 1.0001^(2^i / 2) with 12 digits
const POW: [u128; 18] = [
    1000049998750,
    1000100000000,
    1000200010000,
    1000400060004,
    1000800280056,
    1001601200560,
    1003204964963,
    1006420201726,
    1012881622442,
    1025929181080,
    1052530684591,
    1107820842005,
    1227267017980,
    1506184333421,
    2268591246242,
    5146506242525,
    26486526504348,
    701536086265529,
];
fn price_raw(t: i32) -> u128 {
    let a = t.unsigned_abs();
    let mut p: u128 = E12;
    for (i, f) in POW.iter().enumerate() {
        if a >> i & 1 == 1 {
            p = p * f / E12;
        }
    }
    if t < 0 {
        p = E24 / p;
    }
    p * E12
}
fn table() -> &'static Vec<u128> {
    static T: OnceLock<Vec<u128>> = OnceLock::new();
    T.get_or_init(|| (-MAX_TICK..=MAX_TICK).map(price_raw).collect())
}
pub fn price_at(t: i32) -> u128 {
    table()[(t + MAX_TICK) as usize]
}
/// largest aligned tick whose price does not exceed p
pub fn tick_at(p: u128, s: i32) -> Option<i32> {
    if !(MIN_PRICE..=MAX_PRICE).contains(&p) {
        return None;
    }
    let n = table().partition_point(|q| *q <= p) as i32;
    if n == 0 {
        return None;
    }
    Some((n - 1 - MAX_TICK).div_euclid(s) * s)
}
pub fn max_tick(s: i32) -> i32 {
    MAX_TICK / s * s
}
pub fn tick_valid(t: i32, s: i32) -> bool {
    t % s == 0 && t.unsigned_abs() as i64 <= max_tick(s) as i64
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Exp {
    Never,
    Height(u64),
    /// milliseconds
    Time(u64),
}
impl Exp {
    pub fn expired(&self, now: u64, height: u64) -> bool {
        match self {
            Exp::Never => false,
            Exp::Height(h) => height >= *h,
            Exp::Time(t) => now >= *t,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MPos {
    pub pool: usize,
    pub lo: i32,
    pub hi: i32,
    pub l: u128,
    /// fee growth credited while in range, 28 decimals, modulo 2^128
    pub gx: u128,
    pub gy: u128,
    pub block: u64,
    pub appr: Vec<(usize, Exp)>,
    /// what the opening took, as long as no trade has touched the pool since
    pub fresh: Option<(u128, u128)>,
}
impl MPos {
    pub fn covers(&self, tick: i32) -> bool {
        self.lo <= tick && tick < self.hi
    }
    pub fn owed(&self) -> (u128, u128) {
        let f = |g: u128| small(b(g) * b(self.l) / (b(E24) * b(10_000_000_000))).unwrap();
        (f(self.gx), f(self.gy))
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MPool {
    pub tx: usize,
    pub ty: usize,
    pub fee: u64,
    pub s: i32,
    pub price: u128,
    pub tick: i32,
    pub pf: [u128; 2],
    pub receiver: usize,
    pub start: u64,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Model {
    pub pools: Vec<MPool>,
    pub pos: Vec<Vec<MPos>>,
    pub oper: BTreeMap<(usize, usize), Exp>,
    pub admin: usize,
    pub share: u64,
    pub tiers: Vec<(u64, u16)>,
}

#[derive(Clone, Debug, Default)]
pub struct SwapOut {
    pub ain: u128,
    pub aout: u128,
    pub fee: u128,
    pub price: u128,
    pub tick: i32,
    pub crossed: Vec<i32>,
    /// (tick at which the fee is paid, fee)
    pub fees: Vec<(i32, u128)>,
    pub steps: u32,
    /// a remainder too small to move the price was kept as a fee
    pub leftover: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fail {
    Zero,
    NoPool,
    WrongLimit,
    PriceLimit,
    TickLimit,
    NoGain,
    Arith,
}

// ---- curve formulas -------------------------------------------------------------------
fn big(p: u128, q: u128, d: u128, up: bool) -> U512 {
    if up {
        div_up(b(p) * b(q), b(d))
    } else {
        b(p) * b(q) / b(d)
    }
}
pub fn delta_x(pa: u128, pb: u128, l: u128, up: bool) -> Option<u128> {
    let d = pa.abs_diff(pb);
    let nom = big(d, l, E6, up) * b(E24);
    if up {
        let den = big(pa, pb, E24, false);
        small(div_up(div_up(nom, den), b(E24)))
    } else {
        let den = big(pa, pb, E24, true);
        small(nom / den / b(E24))
    }
}
pub fn delta_y(pa: u128, pb: u128, l: u128, up: bool) -> Option<u128> {
    let d = pa.abs_diff(pb);
    if up {
        small(div_up(big(d, l, E6, true), b(E24)))
    } else {
        small(big(d, l, E6, false) / b(E24))
    }
}
/// price after `x` of the first token is added to / taken from liquidity l
pub fn next_x(p: u128, l: u128, x: u128, add: bool) -> Option<u128> {
    if x == 0 {
        return Some(p);
    }
    let ld = b(l) * b(E18);
    let px = b(p) * b(x);
    let den = if add {
        ld + px
    } else if px < ld {
        ld - px
    } else {
        return None;
    };
    small(div_up(big(p, l, E6, true) * b(E24), den))
}
pub fn next_y(p: u128, l: u128, y: u128, add: bool) -> Option<u128> {
    let n = b(y) * b(E24) * b(E24);
    let d = b(l) * b(E18);
    if add {
        p.checked_add(small(n / d)?)
    } else {
        p.checked_sub(small(div_up(n, d))?)
    }
}
pub fn pct(a: u128, f: u64, up: bool) -> u128 {
    small(big(a, f as u128, E12, up)).unwrap()
}
pub fn after_fee(a: u128, fee: u64) -> u128 {
    pct(a, (E12 as u64) - fee, false)
}
pub struct Step {
    pub next: u128,
    pub ain: u128,
    pub aout: u128,
    pub fee: u128,
}
pub fn swap_step(p: u128, target: u128, l: u128, amt: u128, exact_in: bool, fee: u64) -> Option<Step> {
    if l == 0 {
        return Some(Step { next: target, ain: 0, aout: 0, fee: 0 });
    }
    let down = p >= target;
    let input = |q: u128| if down { delta_x(q, p, l, true) } else { delta_y(p, q, l, true) };
    let output = |q: u128| if down { delta_y(q, p, l, false) } else { delta_x(p, q, l, false) };
    let next = if exact_in {
        let a = after_fee(amt, fee);
        if a >= input(target)? {
            target
        } else if down {
            // the input to the target is a rounded one: the price never passes the target
            next_x(p, l, a, true)?.max(target)
        } else {
            next_y(p, l, a, true)?
        }
    } else if amt >= output(target)? {
        target
    } else if down {
        next_y(p, l, amt, false)?
    } else {
        next_x(p, l, amt, false)?
    };
    let mut ain = input(next)?;
    if exact_in {
        ain = ain.min(after_fee(amt, fee));
    }
    let mut aout = output(next)?;
    if !exact_in {
        aout = aout.min(amt);
    }
    let f = if exact_in && next != target { amt.checked_sub(ain)? } else { pct(ain, fee, true) };
    Some(Step { next, ain, aout, fee: f })
}
/// would the rest of the amount move the price away from p?
fn moves(p: u128, l: u128, amt: u128, exact_in: bool, down: bool, fee: u64) -> bool {
    if l == 0 {
        return true;
    }
    let a = if exact_in { after_fee(amt, fee) } else { amt };
    let q = match (exact_in, down) {
        (true, true) => next_x(p, l, a, true),
        (true, false) => next_y(p, l, a, true),
        (false, true) => next_y(p, l, a, false),
        (false, false) => next_x(p, l, a, false),
    };
    q != Some(p)
}
pub fn amounts(tick: i32, price: u128, lo: i32, hi: i32, l: u128, up: bool) -> Option<(u128, u128)> {
    let (pl, ph) = (price_at(lo), price_at(hi));
    if tick < lo {
        Some((delta_x(pl, ph, l, up)?, 0))
    } else if tick < hi {
        Some((delta_x(price, ph, l, up)?, delta_y(pl, price, l, up)?))
    } else {
        Some((0, delta_y(pl, ph, l, up)?))
    }
}

impl Model {
    pub fn new(share: u64) -> Model {
        Model {
            pools: vec![],
            pos: vec![vec![]; NA],
            oper: BTreeMap::new(),
            admin: ADMIN,
            share,
            tiers: vec![],
        }
    }
    pub fn all_pos(&self) -> impl Iterator<Item = (usize, usize, &MPos)> {
        self.pos.iter().enumerate().flat_map(|(a, v)| v.iter().enumerate().map(move |(i, p)| (a, i, p)))
    }
    pub fn pool_pos(&self, pool: usize) -> impl Iterator<Item = &MPos> {
        self.pos.iter().flatten().filter(move |p| p.pool == pool)
    }
    pub fn active(&self, pool: usize, tick: i32) -> u128 {
        self.pool_pos(pool).filter(|p| p.covers(tick)).map(|p| p.l).sum()
    }
    /// initialized ticks with (net, gross), ascending
    pub fn ticks(&self, pool: usize) -> BTreeMap<i32, (i128, u128)> {
        let mut m: BTreeMap<i32, (i128, u128)> = BTreeMap::new();
        for p in self.pool_pos(pool) {
            let e = m.entry(p.lo).or_default();
            e.0 += p.l as i128;
            e.1 += p.l;
            let e = m.entry(p.hi).or_default();
            e.0 -= p.l as i128;
            e.1 += p.l;
        }
        m
    }
    pub fn pool_by_key(&self, t0: usize, t1: usize, fee: u64, s: i32) -> Option<usize> {
        let (x, y) = (t0.min(t1), t0.max(t1));
        self.pools.iter().position(|p| p.tx == x && p.ty == y && p.fee == fee && p.s == s)
    }
    pub fn can_send(&self, who: usize, owner: usize, idx: usize, now: u64, h: u64) -> bool {
        who == owner
            || self.pos[owner][idx].appr.iter().any(|(a, e)| *a == who && !e.expired(now, h))
            || self.operates(who, owner, now, h)
    }
    pub fn operates(&self, who: usize, owner: usize, now: u64, h: u64) -> bool {
        self.oper.get(&(owner, who)).map_or(false, |e| !e.expired(now, h))
    }
    /// the walk along the curve; does not modify the model
    pub fn swap(&self, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128) -> Result<SwapOut, Fail> {
        let pl = &self.pools[pool];
        if amt == 0 {
            return Err(Fail::Zero);
        }
        if x2y && (pl.price <= limit || limit > MAX_PRICE) || !x2y && (pl.price >= limit || limit < MIN_PRICE) {
            return Err(Fail::WrongLimit);
        }
        let ticks: Vec<i32> = self.ticks(pool).keys().cloned().collect();
        let mt = max_tick(pl.s);
        let (mut price, mut tick, mut rem) = (pl.price, pl.tick, amt);
        let mut o = SwapOut::default();
        while rem != 0 {
            o.steps += 1;
            let l = self.active(pool, tick);
            // the nearest initialized tick within the horizon, else the horizon itself
            let hz = if x2y { (tick - HORIZON * pl.s).max(-mt) } else { (tick + HORIZON * pl.s).min(mt) };
            let near = if x2y {
                ticks.iter().rev().find(|t| **t <= tick && **t >= hz)
            } else {
                ticks.iter().find(|t| **t > tick && **t <= hz)
            };
            let (t, init) = match near {
                Some(t) => (*t, true),
                None if hz == tick => return Err(Fail::TickLimit),
                None => (hz, false),
            };
            let tp = price_at(t);
            let by_limit = if x2y { tp <= limit } else { tp > limit };
            let target = if by_limit { limit } else { tp };
            let st = swap_step(price, target, l, rem, exact_in, pl.fee).ok_or(Fail::Arith)?;
            let used = if exact_in { st.ain + st.fee } else { st.aout };
            rem = rem.checked_sub(used).ok_or(Fail::Arith)?;
            o.fees.push((tick, st.fee));
            o.fee += st.fee;
            o.ain += st.ain + st.fee;
            o.aout += st.aout;
            price = st.next;
            if price == limit && rem != 0 {
                return Err(Fail::PriceLimit);
            }
            if by_limit || price != target {
                tick = tick_at(price, pl.s).ok_or(Fail::Arith)?;
            } else {
                let enough = moves(price, l, rem, exact_in, x2y, pl.fee);
                if init {
                    if !x2y || enough {
                        o.crossed.push(t);
                    } else if rem != 0 {
                        if exact_in {
                            o.fees.push((tick, rem));
                            o.ain += rem;
                            o.leftover = true;
                        }
                        rem = 0;
                    }
                }
                tick = if x2y && enough { t - pl.s } else { t };
            }
            if x2y && tick <= -mt || !x2y && tick >= mt {
                return Err(Fail::TickLimit);
            }
        }
        if o.aout == 0 {
            return Err(Fail::NoGain);
        }
        o.price = price;
        o.tick = tick;
        Ok(o)
    }
    pub fn growth(fee: u128, l: u128) -> Option<u128> {
        small(b(fee) * b(E24) * b(10_000_000_000) / b(l))
    }
    pub fn apply_swap(&mut self, pool: usize, x2y: bool, o: &SwapOut) -> Result<(), Fail> {
        for (tick, f) in &o.fees {
            let l = self.active(pool, *tick);
            let prot = pct(*f, self.share, true);
            let pf = f.checked_sub(prot).ok_or(Fail::Arith)?;
            if *f == 0 || l == 0 {
                continue;
            }
            let g = Self::growth(pf, l).ok_or(Fail::Arith)?;
            for p in self.pos.iter_mut().flatten().filter(|p| p.pool == pool && p.covers(*tick)) {
                let a = if x2y { &mut p.gx } else { &mut p.gy };
                *a = a.wrapping_add(g);
            }
            self.pools[pool].pf[!x2y as usize] += prot;
        }
        let pl = &mut self.pools[pool];
        pl.price = o.price;
        pl.tick = o.tick;
        for p in self.pos.iter_mut().flatten().filter(|p| p.pool == pool) {
            p.fresh = None;
        }
        Ok(())
    }
}
