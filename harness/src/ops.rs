//! Operations, executed on the real contract and predicted by the reference model.
use crate::chain::*;
use crate::model::*;
use crate::num::*;
use cosmwasm_std::{Addr, Binary, Timestamp};
use cw20::Expiration;
use decimal::Decimal;
use oraiswap_v3::interface::SwapHop;
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, NftExtensionMsg, QueryMsg};
use oraiswap_v3::percentage::Percentage;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::token_amount::TokenAmount;
use oraiswap_v3::{FeeTier, PoolKey};

/// how many native coins are attached where the operation needs some
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Funds {
    Exact,
    Extra(u128),
    /// that much more of every native coin, needed or not
    Every(u128),
    Short,
    Missing,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Open { who: usize, pool: usize, lo: i32, hi: i32, l: u128, slip: (u128, u128), funds: Funds, mint: bool },
    Close { who: usize, idx: u32 },
    Claim { who: usize, idx: u32 },
    Give { who: usize, idx: u32, to: usize },
    Swap { who: usize, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128, funds: Funds },
    Route { who: usize, amt: u128, expect: u128, slip: u64, hops: Vec<(usize, bool)>, funds: Funds },
    Withdraw { who: usize, pool: usize },
    Share { who: usize, v: u64 },
    Receiver { who: usize, pool: usize, to: usize },
    Admin { who: usize, to: usize },
    AddTier { who: usize, fee: u64, s: u16 },
    DelTier { who: usize, fee: u64, s: u16 },
    NewPool { who: usize, t0: usize, t1: usize, fee: u64, s: u16, price: u128, tick: i32 },
    NftTransfer { who: usize, owner: usize, idx: u32, to: usize },
    NftSend { who: usize, owner: usize, idx: u32, to: usize },
    NftBurn { who: usize, owner: usize, idx: u32 },
    Approve { who: usize, owner: usize, idx: u32, spender: usize, exp: Option<Exp> },
    Revoke { who: usize, owner: usize, idx: u32, spender: usize },
    ApproveAll { who: usize, op: usize, exp: Option<Exp> },
    RevokeAll { who: usize, op: usize },
    /// the clock moves: milliseconds, blocks
    Wait { ms: u64, blocks: u64 },
}

pub const ANY_SLIP: (u128, u128) = (0, u128::MAX);

pub fn limit_of(x2y: bool) -> u128 {
    if x2y {
        MIN_PRICE
    } else {
        MAX_PRICE
    }
}
pub fn open(who: usize, pool: usize, lo: i32, hi: i32, l: u128) -> Op {
    Op::Open { who, pool, lo, hi, l, slip: ANY_SLIP, funds: Funds::Exact, mint: false }
}
pub fn swap(who: usize, pool: usize, x2y: bool, amt: u128, exact_in: bool) -> Op {
    Op::Swap { who, pool, x2y, amt, exact_in, limit: limit_of(x2y), funds: Funds::Exact }
}
pub fn swap_lim(who: usize, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128) -> Op {
    Op::Swap { who, pool, x2y, amt, exact_in, limit, funds: Funds::Exact }
}
pub fn new_pool(t0: usize, t1: usize, tier: (u64, u16), tick: i32) -> Op {
    Op::NewPool { who: ALICE, t0, t1, fee: tier.0, s: tier.1, price: price_at(tick), tick }
}
pub fn add_tier(t: (u64, u16)) -> Op {
    Op::AddTier { who: ADMIN, fee: t.0, s: t.1 }
}

pub fn tier(fee: u64, s: u16) -> FeeTier {
    FeeTier { fee: Percentage::new(fee), tick_spacing: s }
}
impl MPool {
    pub fn key(&self) -> PoolKey {
        PoolKey {
            token_x: TOKENS[self.tx].into(),
            token_y: TOKENS[self.ty].into(),
            fee_tier: tier(self.fee, self.s as u16),
        }
    }
}
pub fn nft_id(owner: usize, idx: u32) -> Binary {
    let mut v = ACCTS[owner].as_bytes().to_vec();
    v.extend_from_slice(&idx.to_be_bytes());
    Binary::from(v)
}
pub fn expiration(e: Exp) -> Expiration {
    match e {
        Exp::Never => Expiration::Never {},
        Exp::Height(h) => Expiration::AtHeight(h),
        Exp::Time(ms) => Expiration::AtTime(Timestamp::from_nanos(ms * 1_000_000)),
    }
}
pub fn exp_of(e: &Expiration) -> Exp {
    match e {
        Expiration::Never {} => Exp::Never,
        Expiration::AtHeight(h) => Exp::Height(*h),
        Expiration::AtTime(t) => Exp::Time(t.nanos() / 1_000_000),
    }
}
pub fn ad(a: usize) -> Addr {
    addr(a)
}

/// what the model says an operation does
#[derive(Clone, Debug, Default)]
pub struct Pred {
    pub ok: bool,
    pub fail: Option<Fail>,
    pub why: &'static str,
    /// net token movement per account
    pub delta: [[i128; NT]; NA],
    /// (x, y) of openings, closings (withdrawn part only), claims
    pub xy: (u128, u128),
    /// fees paid along with a closing
    pub owed: (u128, u128),
    pub swap: Option<SwapOut>,
    /// payment needed per native token
    pub need: [u128; NT],
    pub takes: [bool; NT],
    pub out: u128,
    /// (pool, direction, in, out) of every trade
    pub hops: Vec<(usize, bool, u128, u128)>,
    /// (pool, tick) crossed by trades
    pub crossed: Vec<(usize, i32)>,
    /// the position acted on, before the operation
    pub pos: Option<MPos>,
}
impl Pred {
    fn pay(&mut self, from: usize, to: usize, t: usize, amt: u128) {
        self.delta[from][t] -= amt as i128;
        self.delta[to][t] += amt as i128;
    }
}

#[derive(Clone)]
pub struct State {
    pub w: World,
    pub m: Model,
}

impl State {
    pub fn new(share: u64) -> State {
        State { w: World::new(share), m: Model::new(share) }
    }
    pub fn key(&self, pool: usize) -> PoolKey {
        self.m.pools[pool].key()
    }
}

pub fn message(m: &Model, op: &Op) -> Option<(usize, ExecuteMsg)> {
    let key = |p: usize| m.pools[p].key();
    Some(match op.clone() {
        Op::Open { who, pool, lo, hi, l, slip, mint, .. } => (
            who,
            if mint {
                ExecuteMsg::Mint {
                    extension: NftExtensionMsg {
                        pool_key: key(pool),
                        lower_tick: lo,
                        upper_tick: hi,
                        liquidity_delta: Liquidity::new(l),
                        slippage_limit_lower: SqrtPrice::new(slip.0),
                        slippage_limit_upper: SqrtPrice::new(slip.1),
                    },
                }
            } else {
                ExecuteMsg::CreatePosition {
                    pool_key: key(pool),
                    lower_tick: lo,
                    upper_tick: hi,
                    liquidity_delta: Liquidity::new(l),
                    slippage_limit_lower: SqrtPrice::new(slip.0),
                    slippage_limit_upper: SqrtPrice::new(slip.1),
                }
            },
        ),
        Op::Close { who, idx } => (who, ExecuteMsg::RemovePosition { index: idx }),
        Op::Claim { who, idx } => (who, ExecuteMsg::ClaimFee { index: idx }),
        Op::Give { who, idx, to } => (who, ExecuteMsg::TransferPosition { index: idx, receiver: ACCTS[to].into() }),
        Op::Swap { who, pool, x2y, amt, exact_in, limit, .. } => (
            who,
            ExecuteMsg::Swap {
                pool_key: key(pool),
                x_to_y: x2y,
                amount: TokenAmount::new(amt),
                by_amount_in: exact_in,
                sqrt_price_limit: SqrtPrice::new(limit),
            },
        ),
        Op::Route { who, amt, expect, slip, hops, .. } => (
            who,
            ExecuteMsg::SwapRoute {
                amount_in: TokenAmount::new(amt),
                expected_amount_out: TokenAmount::new(expect),
                slippage: Percentage::new(slip),
                swaps: hops.iter().map(|(p, d)| SwapHop { pool_key: key(*p), x_to_y: *d }).collect(),
            },
        ),
        Op::Withdraw { who, pool } => (who, ExecuteMsg::WithdrawProtocolFee { pool_key: key(pool) }),
        Op::Share { who, v } => (who, ExecuteMsg::ChangeProtocolFee { protocol_fee: Percentage::new(v) }),
        Op::Receiver { who, pool, to } => {
            (who, ExecuteMsg::ChangeFeeReceiver { pool_key: key(pool), fee_receiver: ad(to) })
        }
        Op::Admin { who, to } => (who, ExecuteMsg::ChangeAdmin { new_admin: ad(to) }),
        Op::AddTier { who, fee, s } => (who, ExecuteMsg::AddFeeTier { fee_tier: tier(fee, s) }),
        Op::DelTier { who, fee, s } => (who, ExecuteMsg::RemoveFeeTier { fee_tier: tier(fee, s) }),
        Op::NewPool { who, t0, t1, fee, s, price, tick } => (
            who,
            ExecuteMsg::CreatePool {
                token_0: TOKENS[t0].into(),
                token_1: TOKENS[t1].into(),
                fee_tier: tier(fee, s),
                init_sqrt_price: SqrtPrice::new(price),
                init_tick: tick,
            },
        ),
        Op::NftTransfer { who, owner, idx, to } => {
            (who, ExecuteMsg::TransferNft { recipient: ad(to), token_id: nft_id(owner, idx) })
        }
        Op::NftSend { who, owner, idx, to } => (
            who,
            ExecuteMsg::SendNft { contract: ad(to), token_id: nft_id(owner, idx), msg: Some(Binary::from(b"hi".to_vec())) },
        ),
        Op::NftBurn { who, owner, idx } => (who, ExecuteMsg::Burn { token_id: nft_id(owner, idx) }),
        Op::Approve { who, owner, idx, spender, exp } => (
            who,
            ExecuteMsg::Approve { spender: ad(spender), token_id: nft_id(owner, idx), expires: exp.map(expiration) },
        ),
        Op::Revoke { who, owner, idx, spender } => {
            (who, ExecuteMsg::Revoke { spender: ad(spender), token_id: nft_id(owner, idx) })
        }
        Op::ApproveAll { who, op, exp } => {
            (who, ExecuteMsg::ApproveAll { operator: ad(op), expires: exp.map(expiration) })
        }
        Op::RevokeAll { who, op } => (who, ExecuteMsg::RevokeAll { operator: ad(op) }),
        Op::Wait { .. } => return None,
    })
}

/// predicts the operation and applies it to the model when it succeeds
pub fn predict(m: &mut Model, op: &Op, now: u64, height: u64) -> Pred {
    let mut p = Pred::default();
    let mut nm = m.clone();
    match run(&mut nm, op, now, height, &mut p) {
        Ok(()) => {
            p.ok = true;
            *m = nm;
        }
        Err(e) => {
            p.ok = false;
            p.why = e;
            p.delta = Default::default();
        }
    }
    p
}

fn close(m: &mut Model, owner: usize, idx: usize, p: &mut Pred) -> Result<(), &'static str> {
    let pos = m.pos[owner][idx].clone();
    let pl = m.pools[pos.pool].clone();
    let (x, y) = amounts(pl.tick, pl.price, pos.lo, pos.hi, pos.l, false).ok_or("arith")?;
    let (fx, fy) = pos.owed();
    p.xy = (x, y);
    p.owed = (fx, fy);
    p.pay(CONTRACT, owner, pl.tx, x + fx);
    p.pay(CONTRACT, owner, pl.ty, y + fy);
    p.pos = Some(pos);
    m.pos[owner].swap_remove(idx);
    Ok(())
}
fn run(m: &mut Model, op: &Op, now: u64, height: u64, p: &mut Pred) -> Result<(), &'static str> {
    let exists = |m: &Model, a: usize, i: u32| (i as usize) < m.pos[a].len();
    match op.clone() {
        Op::Wait { .. } => {}
        Op::Open { who, pool, lo, hi, l, slip, .. } => {
            let pl = m.pools[pool].clone();
            p.takes[pl.tx] = true;
            p.takes[pl.ty] = true;
            if l == 0 {
                return Err("zero liquidity");
            }
            if !tick_valid(lo, pl.s) || !tick_valid(hi, pl.s) || lo >= hi {
                return Err("range");
            }
            if pl.price < slip.0 || pl.price > slip.1 {
                return Err("slippage");
            }
            let cap = u128::MAX / ((2 * MAX_TICK as u128 + 1) / pl.s as u128);
            for t in [lo, hi] {
                let gross = m.ticks(pool).get(&t).map_or(0, |e| e.1);
                if gross.checked_add(l).map_or(true, |g| g >= cap) {
                    return Err("tick liquidity cap");
                }
            }
            let (x, y) = amounts(pl.tick, pl.price, lo, hi, l, true).ok_or("arith")?;
            p.xy = (x, y);
            p.pay(who, CONTRACT, pl.tx, x);
            p.pay(who, CONTRACT, pl.ty, y);
            p.need[pl.tx] = x;
            p.need[pl.ty] = y;
            m.pos[who].push(MPos {
                pool,
                lo,
                hi,
                l,
                gx: 0,
                gy: 0,
                block: height,
                appr: vec![],
                fresh: Some((x, y)),
            });
        }
        Op::Close { who, idx } => {
            if !exists(m, who, idx) {
                return Err("no position");
            }
            close(m, who, idx as usize, p)?;
        }
        Op::NftBurn { who, owner, idx } => {
            if !exists(m, owner, idx) || !m.can_send(who, owner, idx as usize, now, height) {
                return Err("not allowed");
            }
            close(m, owner, idx as usize, p)?;
        }
        Op::Claim { who, idx } => {
            if !exists(m, who, idx) {
                return Err("no position");
            }
            let pos = &mut m.pos[who][idx as usize];
            p.pos = Some(pos.clone());
            let (fx, fy) = pos.owed();
            pos.gx = 0;
            pos.gy = 0;
            let pl = &m.pools[m.pos[who][idx as usize].pool];
            p.xy = (fx, fy);
            p.pay(CONTRACT, who, pl.tx, fx);
            p.pay(CONTRACT, who, pl.ty, fy);
        }
        Op::Give { who, idx, to } => {
            if !exists(m, who, idx) {
                return Err("no position");
            }
            let mut q = m.pos[who].swap_remove(idx as usize);
            q.appr.clear();
            m.pos[to].push(q);
        }
        Op::NftTransfer { who, owner, idx, to } | Op::NftSend { who, owner, idx, to } => {
            if !exists(m, owner, idx) || !m.can_send(who, owner, idx as usize, now, height) {
                return Err("not allowed");
            }
            let mut q = m.pos[owner].swap_remove(idx as usize);
            q.appr.clear();
            m.pos[to].push(q);
        }
        Op::Swap { who, pool, x2y, amt, exact_in, limit, .. } => {
            let pl = m.pools[pool].clone();
            let (ti, to) = if x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
            p.takes[ti] = true;
            let o = m.swap(pool, x2y, amt, exact_in, limit).map_err(|e| {
                p.fail = Some(e);
                "swap"
            })?;
            m.apply_swap(pool, x2y, &o).map_err(|e| {
                p.fail = Some(e);
                "swap fee"
            })?;
            p.pay(who, CONTRACT, ti, o.ain);
            p.pay(CONTRACT, who, to, o.aout);
            p.need[ti] = o.ain;
            p.out = o.aout;
            p.hops.push((pool, x2y, o.ain, o.aout));
            p.crossed.extend(o.crossed.iter().map(|k| (pool, *k)));
            p.swap = Some(o);
        }
        Op::Route { who, amt, expect, slip, hops, .. } => {
            for (pool, x2y) in &hops {
                let pl = &m.pools[*pool];
                p.takes[if *x2y { pl.tx } else { pl.ty }] = true;
            }
            let mut a = amt;
            for (pool, x2y) in &hops {
                let pl = m.pools[*pool].clone();
                let (ti, to) = if *x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
                let o = m.swap(*pool, *x2y, a, true, limit_of(*x2y)).map_err(|e| {
                    p.fail = Some(e);
                    "hop"
                })?;
                m.apply_swap(*pool, *x2y, &o).map_err(|_| "hop fee")?;
                p.pay(who, CONTRACT, ti, o.ain);
                p.pay(CONTRACT, who, to, o.aout);
                p.need[ti] += o.ain;
                p.hops.push((*pool, *x2y, o.ain, o.aout));
                p.crossed.extend(o.crossed.iter().map(|k| (*pool, *k)));
                a = o.aout;
            }
            if slip as u128 > E12 || a < pct(expect, E12 as u64 - slip, true) {
                return Err("minimum output");
            }
            p.out = a;
        }
        Op::Withdraw { who, pool } => {
            let pl = &mut m.pools[pool];
            if pl.receiver != who {
                return Err("not receiver");
            }
            let pf = std::mem::take(&mut pl.pf);
            let (tx, ty) = (pl.tx, pl.ty);
            p.xy = (pf[0], pf[1]);
            p.pay(CONTRACT, who, tx, pf[0]);
            p.pay(CONTRACT, who, ty, pf[1]);
        }
        Op::Share { who, v } => {
            if who != m.admin {
                return Err("not admin");
            }
            m.share = v;
        }
        Op::Receiver { who, pool, to } => {
            if who != m.admin {
                return Err("not admin");
            }
            m.pools[pool].receiver = to;
        }
        Op::Admin { who, to } => {
            if who != m.admin {
                return Err("not admin");
            }
            m.admin = to;
        }
        Op::AddTier { who, fee, s } => {
            if who != m.admin {
                return Err("not admin");
            }
            if s == 0 || s > 100 || fee as u128 >= E12 || m.tiers.contains(&(fee, s)) {
                return Err("invalid tier");
            }
            m.tiers.push((fee, s));
        }
        Op::DelTier { who, fee, s } => {
            if who != m.admin {
                return Err("not admin");
            }
            let i = m.tiers.iter().position(|t| *t == (fee, s)).ok_or("no tier")?;
            m.tiers.remove(i);
        }
        Op::NewPool { t0, t1, fee, s, price, tick, .. } => {
            if t0 == t1 || !m.tiers.contains(&(fee, s)) || m.pool_by_key(t0, t1, fee, s as i32).is_some() {
                return Err("pool");
            }
            let s = s as i32;
            if !tick_valid(tick, s) {
                return Err("tick");
            }
            let fits = if tick + s > MAX_TICK {
                price == price_at(max_tick(s))
            } else {
                price >= price_at(tick) && price < price_at(tick + s)
            };
            if !fits {
                return Err("price");
            }
            m.pools.push(MPool {
                tx: t0.min(t1),
                ty: t0.max(t1),
                fee,
                s,
                price,
                tick,
                pf: [0; 2],
                receiver: m.admin,
                start: now,
            });
        }
        Op::Approve { who, owner, idx, spender, exp } => {
            if !exists(m, owner, idx) || !(who == owner || m.operates(who, owner, now, height)) {
                return Err("not allowed");
            }
            let e = exp.unwrap_or(Exp::Never);
            if e.expired(now, height) {
                return Err("expired");
            }
            let a = &mut m.pos[owner][idx as usize].appr;
            a.retain(|x| x.0 != spender);
            a.push((spender, e));
        }
        Op::Revoke { who, owner, idx, spender } => {
            if !exists(m, owner, idx) || !(who == owner || m.operates(who, owner, now, height)) {
                return Err("not allowed");
            }
            m.pos[owner][idx as usize].appr.retain(|x| x.0 != spender);
        }
        Op::ApproveAll { who, op, exp } => {
            let e = exp.unwrap_or(Exp::Never);
            if e.expired(now, height) {
                return Err("expired");
            }
            m.oper.insert((who, op), e);
        }
        Op::RevokeAll { who, op } => {
            m.oper.remove(&(who, op));
        }
    }
    Ok(())
}

pub fn funds_of(op: &Op) -> Option<Funds> {
    match op {
        Op::Open { funds, .. } | Op::Swap { funds, .. } | Op::Route { funds, .. } => Some(*funds),
        _ => None,
    }
}
/// native coins to attach; also whether they suffice
pub fn attach(op: &Op, p: &Pred) -> (Vec<(usize, u128)>, bool) {
    let mut v = vec![];
    let mut enough = true;
    if let Some(f) = funds_of(op) {
        for t in 0..NT {
            if !is_native(t) || !(p.takes[t] || matches!(f, Funds::Every(_))) {
                continue;
            }
            let need = p.need[t];
            let a = match f {
                Funds::Exact => need,
                Funds::Extra(e) | Funds::Every(e) => need + e,
                Funds::Short => need.saturating_sub(1),
                Funds::Missing => 0,
            };
            if a < need {
                enough = false;
            }
            // a request that fails anyway still carries some coins
            let a = if !p.ok && f != Funds::Missing { 1000 } else { a };
            if a > 0 {
                v.push((t, a));
            }
        }
    }
    (v, enough)
}

pub struct Done {
    pub real: TxOut,
    pub pred: Pred,
    /// real movement per account
    pub delta: [[i128; NT]; NA],
    pub attached: Vec<(usize, u128)>,
}

/// executes `op` on both sides
pub fn step(s: &mut State, op: &Op) -> Done {
    if let Op::Wait { ms, blocks } = op {
        s.w.now += ms;
        s.w.height += blocks;
        return Done {
            real: TxOut { ok: true, ..Default::default() },
            pred: Pred { ok: true, ..Default::default() },
            delta: Default::default(),
            attached: vec![],
        };
    }
    let (who, msg) = message(&s.m, op).unwrap();
    let mut nm = s.m.clone();
    let mut pred = predict(&mut nm, op, s.w.now, s.w.height);
    let (attached, enough) = attach(op, &pred);
    if !enough {
        pred.ok = false;
        pred.why = "not enough coins attached";
        pred.delta = Default::default();
    }
    if pred.ok {
        s.m = nm;
    }
    let before = s.w.ledger;
    let real = s.w.exec(who, &msg, &attached);
    let mut delta = [[0i128; NT]; NA];
    for a in 0..NA {
        for t in 0..NT {
            delta[a][t] = s.w.ledger[a][t] as i128 - before[a][t] as i128;
        }
    }
    Done { real, pred, delta, attached }
}
pub fn show_delta(d: &[[i128; NT]; NA]) -> String {
    let mut s = String::new();
    for a in 0..NA {
        for t in 0..NT {
            if d[a][t] != 0 {
                s += &format!("{}:{}{:+} ", &ACCTS[a][5..], TOKENS[t], d[a][t]);
            }
        }
    }
    if s.is_empty() {
        s = "nothing".into();
    }
    s
}
/// the message as JSON, for replays
pub fn describe(m: &Model, op: &Op) -> String {
    match message(m, op) {
        None => format!("{op:?}"),
        Some((w, msg)) => {
            format!("{} {}", ACCTS[w], cosmwasm_std::to_binary(&msg).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default())
        }
    }
}
pub fn quote_msg(m: &Model, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128) -> QueryMsg {
    QueryMsg::Quote {
        pool_key: m.pools[pool].key(),
        x_to_y: x2y,
        amount: TokenAmount::new(amt),
        by_amount_in: exact_in,
        sqrt_price_limit: SqrtPrice::new(limit),
    }
}
