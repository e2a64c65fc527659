//! pools and fee tiers
use crate::c01::two_pools;
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::interface::PoolWithPoolKey;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::{Pool, PoolKey};

pub struct Registry {
    pub grid: bool,
}
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    if matches!(c.op, Op::NewPool { .. } | Op::AddTier { .. } | Op::DelTier { .. }) {
        if d.real.ok != d.pred.ok {
            return Err(if d.real.ok {
                format!("accepted although invalid ({})", d.pred.why)
            } else {
                format!("refused although valid: {}", d.real.err)
            });
        }
        t.add(if d.real.ok { "registrations accepted" } else { "registrations refused" }, 1);
        if d.delta != <[[i128; NT]; NA]>::default() {
            return Err("moves tokens".into());
        }
    }
    if !d.real.ok {
        return Ok(());
    }
    // the pools that the operation may touch
    let touched: Vec<usize> = match c.op {
        Op::Open { pool, .. } | Op::Swap { pool, .. } | Op::Withdraw { pool, .. } | Op::Receiver { pool, .. } => vec![*pool],
        Op::Close { .. } | Op::Claim { .. } | Op::NftBurn { .. } => d.pred.pos.iter().map(|p| p.pool).collect(),
        Op::Route { hops, .. } => hops.iter().map(|h| h.0).collect(),
        _ => vec![],
    };
    for (i, p) in c.before.m.pools.iter().enumerate() {
        if touched.contains(&i) {
            continue;
        }
        let mut ticks: Vec<i32> = c.before.m.ticks(i).keys().cloned().collect();
        // also where the touched pools have ticks
        for k in &touched {
            ticks.extend(c.before.m.ticks(*k).keys().chain(c.after.m.ticks(*k).keys()).cloned());
        }
        ticks.sort();
        ticks.dedup();
        let (a, b) = (observe::pool_snapshot(&c.before.w, p, &ticks), observe::pool_snapshot(&c.after.w, p, &ticks));
        for (x, y) in a.iter().zip(&b) {
            if x != y {
                return Err(format!("an operation on pools {touched:?} changes pool {i}: {} {} -> {}", x.0, x.1, y.1));
            }
        }
        t.add("untouched pools compared", 1);
    }
    Ok(())
}
fn listing(s: &State, t: &mut Tally) -> Result<(), String> {
    let got: Vec<PoolWithPoolKey> = s.w.query(QueryMsg::Pools { limit: None, start_after: None })?;
    if got.len() != s.m.pools.len() {
        return Err(format!("{} pools listed, {} exist", got.len(), s.m.pools.len()));
    }
    for (i, p) in s.m.pools.iter().enumerate() {
        let k = p.key();
        let e: Vec<&PoolWithPoolKey> = got.iter().filter(|g| g.pool_key == k).collect();
        if e.len() != 1 {
            return Err(format!("pool {i} ({k:?}) is listed {} times", e.len()));
        }
        let ask = |a: usize, b: usize| -> Result<Pool, String> {
            s.w.query(QueryMsg::Pool { token_0: TOKENS[a].into(), token_1: TOKENS[b].into(), fee_tier: k.fee_tier })
        };
        let (x, y) = (ask(p.tx, p.ty)?, ask(p.ty, p.tx)?);
        if x != y || x != e[0].pool {
            return Err(format!("pool {i} looks different by token order or listing: {x:?} {y:?} {:?}", e[0].pool));
        }
        if (x.sqrt_price.get(), x.current_tick_index, x.start_timestamp) != (p.price, p.tick, p.start) {
            return Err(format!("pool {i}: price {} tick {} start {}, expected {} {} {}", x.sqrt_price.get(), x.current_tick_index, x.start_timestamp, p.price, p.tick, p.start));
        }
        t.add("pools compared", 1);
    }
    for tr in [TIER_A, TIER_B, TIER_H, (TIER_A.0, TIER_B.1), (TIER_B.0, TIER_A.1), (TIER_A.0 + 1, TIER_A.1)] {
        let e: bool = s.w.query(QueryMsg::FeeTierExist { fee_tier: tier(tr.0, tr.1) })?;
        if e != s.m.tiers.contains(&tr) {
            return Err(format!("fee tier {tr:?} is reported as {}", if e { "listed" } else { "not listed" }));
        }
    }
    for a in 0..NT {
        for b in 0..NT {
            let r: Result<Vec<PoolWithPoolKey>, String> = s.w.query(QueryMsg::PoolsForPair { token_0: TOKENS[a].into(), token_1: TOKENS[b].into() });
            if a == b {
                continue;
            }
            let mut got: Vec<String> = r?.iter().map(|p| format!("{:?}", p.pool_key)).collect();
            let mut want: Vec<String> = s
                .m
                .pools
                .iter()
                .filter(|p| (p.tx, p.ty) == (a.min(b), a.max(b)) && s.m.tiers.contains(&(p.fee, p.s as u16)))
                .map(|p| format!("{:?}", p.key()))
                .collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("pools of {} and {}: {got:?} instead of {want:?}", TOKENS[a], TOKENS[b]));
            }
        }
    }
    Ok(())
}
fn grid(s: &State) -> Vec<Op> {
    let mut v = vec![];
    let np = |t0, t1, tr: (u64, u16), price, tick| Op::NewPool { who: BOB, t0, t1, fee: tr.0, s: tr.1, price, tick };
    for tr in [TIER_A, TIER_B, TIER_H, (TIER_A.0, TIER_B.1)] {
        let k = tr.1 as i32;
        for (a, b) in [(T_ATOM, T_A), (T_A, T_ATOM), (T_A, T_A), (T_A, T_B), (T_B, T_A), (T_ATOM, T_USDT), (T_C, T_B)] {
            v.push(np(a, b, tr, price_at(0), 0));
        }
        let mt = max_tick(k);
        let m2 = MAX_TICK / k * k;
        for tick in [0, k, -k, 5 * k, -7 * k, 1, k + 1, mt, -mt, mt - k, k - mt, mt + k, -mt - k, MAX_TICK, -MAX_TICK, i32::MAX / 2, i32::MIN / 2, m2] {
            let mut pr = vec![];
            let at = |t: i32| if t.abs() <= MAX_TICK { Some(price_at(t)) } else { None };
            for x in [at(tick.clamp(-MAX_TICK, MAX_TICK)), at(tick.saturating_add(k)), at(tick.saturating_sub(k))].into_iter().flatten() {
                pr.extend([x - 1, x, x + 1]);
            }
            pr.extend([0, 1, MIN_PRICE, MAX_PRICE, MAX_PRICE + 1]);
            pr.sort();
            pr.dedup();
            for p in pr {
                v.push(np(T_USDT, T_Z, tr, p, tick));
            }
        }
    }
    let who = s.m.admin;
    for sp in [0, 1, 2, 10, 99, 100, 101, 102, 255, 256, 1000, u16::MAX] {
        for fee in [0, 1, TIER_A.0, TIER_H.0, 999_999_999_998, 999_999_999_999, 1_000_000_000_000, 1_000_000_000_001, u64::MAX] {
            v.push(Op::AddTier { who, fee, s: sp });
            v.push(Op::DelTier { who, fee, s: sp });
        }
    }
    v
}
impl Check for Registry {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        listing(s, t)?;
        if self.grid {
            for op in grid(s) {
                let mut q = s.clone();
                let done = step(&mut q, &op);
                judge(&Ctx { before: s, op: &op, done: &done, after: &q }, t).map_err(|e| format!("probe {op:?}: {e}"))?;
                t.add("probes", 1);
                if done.real.ok {
                    listing(&q, t).map_err(|e| format!("after probe {op:?}: {e}"))?;
                }
            }
        } else {
            // pools work whatever happens to their tiers: every user operation goes as predicted
            for (p, x2y, a) in [(0, true, 100), (0, false, 100), (1, true, 100), (1, false, 100)] {
                for op in [swap(CAROL, p, x2y, a, true), open(DAVE, p, -10, 10, 1_000_000 * E6), Op::Withdraw { who: s.m.pools[p].receiver, pool: p }] {
                    let mut q = s.clone();
                    let done = step(&mut q, &op);
                    if done.real.ok != done.pred.ok || done.delta != done.pred.delta {
                        return Err(format!("probe {op:?}: {} {}, moved {} instead of {}", done.real.err, done.pred.why, show_delta(&done.delta), show_delta(&done.pred.delta)));
                    }
                    judge(&Ctx { before: s, op: &op, done: &done, after: &q }, t).map_err(|e| format!("probe {op:?}: {e}"))?;
                }
            }
        }
        Ok(())
    }
}
/// names whose concatenations coincide still name different pools
fn names(r: &mut Report) {
    let n = ["A", "AB", "a", "aa", "ab", "abc", "b", "bc", "c", "orai1a", "orai1ab", "orai1b"];
    let tiers = [(1u64, 1u16), (256, 1), (1, 2), (256, 2), (TIER_A.0, 10)];
    // tiers that differ in one bit of the fee or in the spacing only, all with one pair
    let mut wide: Vec<(u64, u16)> = (0..40).map(|b| (1u64 << b, 1)).filter(|t| t.0 < E12 as u64).collect();
    wide.push((0, 1));
    wide.extend((2..=100).map(|s| (0, s)));
    wide.retain(|t| !tiers.contains(t));
    let mut w = World::new(SHARE);
    for t in tiers.iter().chain(&wide) {
        let o = w.exec(ADMIN, &ExecuteMsg::AddFeeTier { fee_tier: tier(t.0, t.1) }, &[]);
        if !o.ok {
            return r.fail(format!("adding fee tier {t:?} is refused: {}", o.err));
        }
    }
    let mut made: Vec<(String, String, (u64, u16), i32)> = vec![];
    let mut k = 0;
    for (i, a) in n.iter().enumerate() {
        for b in &n[i + 1..] {
            let more: &[(u64, u16)] = if (*a, *b) == ("a", "b") { &wide } else { &[] };
            for t in tiers.iter().chain(more) {
                let t = *t;
                k = (k + 100.max(t.1 as i32)) / t.1 as i32 * t.1 as i32;
                let (x, y) = if made.len() % 2 == 0 { (a, b) } else { (b, a) };
                let mk = |w: &mut World, x: &str, y: &str| {
                    w.exec(
                        BOB,
                        &ExecuteMsg::CreatePool { token_0: x.into(), token_1: y.into(), fee_tier: tier(t.0, t.1), init_sqrt_price: SqrtPrice::new(price_at(k)), init_tick: k },
                        &[],
                    )
                };
                let o = mk(&mut w, x, y);
                if !o.ok {
                    return r.fail(format!("pool {x}/{y} {t:?} cannot be created: {}", o.err));
                }
                for (x, y) in [(x, y), (y, x)] {
                    if mk(&mut w, x, y).ok {
                        return r.fail(format!("pool {x}/{y} {t:?} is created twice"));
                    }
                }
                made.push((a.to_string(), b.to_string(), t, k));
                r.states += 1;
                r.transitions += 3;
                r.traces += 3;
            }
        }
    }
    let mut next = None;
    let mut count = 0;
    loop {
        let page: Result<Vec<PoolWithPoolKey>, String> = w.query(QueryMsg::Pools { limit: Some(7), start_after: next.clone() });
        let page = match page {
            Ok(p) => p,
            Err(e) => return r.fail(format!("pool listing: {e}")),
        };
        if page.is_empty() {
            break;
        }
        count += page.len();
        if count > made.len() {
            break;
        }
        next = page.last().map(|p| p.pool_key.clone());
    }
    if count != made.len() {
        return r.fail(format!("{} pools created, {count} listed", made.len()));
    }
    // each is found under both orders, at its own price; a change of one leaves the rest alone
    let look = |w: &World, m: &(String, String, (u64, u16), i32), rev: bool| -> Result<Pool, String> {
        let (a, b) = if rev { (&m.1, &m.0) } else { (&m.0, &m.1) };
        w.query(QueryMsg::Pool { token_0: a.clone(), token_1: b.clone(), fee_tier: tier(m.2 .0, m.2 .1) })
    };
    for m in &made {
        for rev in [false, true] {
            match look(&w, m, rev) {
                Ok(p) if p.current_tick_index == m.3 && p.sqrt_price.get() == price_at(m.3) => {}
                x => return r.fail(format!("pool {m:?} (reversed: {rev}) is reported as {x:?}")),
            }
        }
    }
    for m in made.iter().step_by(7) {
        let mut q = w.clone();
        let key = PoolKey { token_x: m.0.clone(), token_y: m.1.clone(), fee_tier: tier(m.2 .0, m.2 .1) };
        let o = q.exec(ADMIN, &ExecuteMsg::ChangeFeeReceiver { pool_key: key, fee_receiver: addr(VAULT) }, &[]);
        if !o.ok {
            return r.fail(format!("receiver of {m:?}: {}", o.err));
        }
        for z in &made {
            let p = look(&q, z, false).map(|p| p.fee_receiver).unwrap_or_default();
            if (p == ACCTS[VAULT]) != (z == m) {
                return r.fail(format!("changing the receiver of {m:?} shows in {z:?}"));
            }
        }
        r.transitions += 1;
    }
    // positions of one pool show in no other one
    let range = |m: &(String, String, (u64, u16), i32)| {
        let s = m.2 .1 as i32;
        (m.3 / s * s - 2 * s, m.3 / s * s + s)
    };
    let pk = |m: &(String, String, (u64, u16), i32)| PoolKey { token_x: m.0.clone(), token_y: m.1.clone(), fee_tier: tier(m.2 .0, m.2 .1) };
    let seen = |w: &World, m: &(String, String, (u64, u16), i32)| -> Result<(Vec<i32>, u128), String> {
        let s = m.2 .1 as i32;
        let chunks: Vec<(u16, u64)> = w.query(QueryMsg::TickMap { pool_key: pk(m), lower_tick_index: -100 / s * s, upper_tick_index: (k + 100) / s * s, x_to_y: false })?;
        let mut v = vec![];
        for (c, bits) in chunks {
            v.extend((0..64).filter(|b| bits >> b & 1 == 1).map(|b| observe::slot_tick(c, b, s)));
        }
        Ok((v, look(w, m, false)?.liquidity.get()))
    };
    let coins = |m: &(String, String, (u64, u16), i32)| -> Vec<cosmwasm_std::Coin> {
        [&m.0, &m.1].into_iter().filter(|t| !t.starts_with("orai1")).map(|t| cosmwasm_std::coin(1_000_000_000_000, t.as_str())).collect()
    };
    let look_all = |w: &World, open: usize, r: &mut Report| -> Result<(), String> {
        for (i, m) in made.iter().enumerate() {
            let (lo, hi) = range(m);
            let want = if i < open { (vec![lo, hi], 1_000_000 + i as u128) } else { (vec![], 0) };
            let got = seen(w, m)?;
            if got != want {
                return Err(format!("with positions in {open} pools, pool {m:?} shows ticks and liquidity {got:?} instead of {want:?}"));
            }
            for t in [lo, hi] {
                let g = observe::tick(w, &pk(m), t).map_or(0, |t| t.liquidity_gross.get());
                if g != want.1 {
                    return Err(format!("pool {m:?}: tick {t} carries {g} instead of {}", want.1));
                }
            }
            r.states += 1;
        }
        Ok(())
    };
    let res = (|| -> Result<(), String> {
        for (i, m) in made.iter().enumerate() {
            let (lo, hi) = range(m);
            let msg = ExecuteMsg::CreatePosition {
                pool_key: pk(m),
                lower_tick: lo,
                upper_tick: hi,
                liquidity_delta: oraiswap_v3::liquidity::Liquidity::new(1_000_000 + i as u128),
                slippage_limit_lower: SqrtPrice::new(price_at(m.3)),
                slippage_limit_upper: SqrtPrice::new(price_at(m.3)),
            };
            w.exec_alone(BOB, &msg, coins(m)).map_err(|e| format!("opening in {m:?}: {e}"))?;
            r.transitions += 1;
            if i % 25 == 0 || i + 1 == made.len() {
                look_all(&w, i + 1, r)?;
            }
        }
        for i in (0..made.len()).rev() {
            w.exec_alone(BOB, &ExecuteMsg::RemovePosition { index: i as u32 }, vec![]).map_err(|e| format!("closing in {:?}: {e}", made[i]))?;
            r.transitions += 1;
            if i % 25 == 0 {
                look_all(&w, i, r)?;
            }
        }
        Ok(())
    })();
    if let Err(e) = res {
        return r.fail(e);
    }
    r.details.insert("names".into(), serde_json::json!({"pools": made.len()}));
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    names(r);
    r.run(
        Scenario {
            name: "registrations".into(),
            share: SHARE,
            init: vec![add_tier(TIER_A)],
            depth: if th { 6 } else { 5 },
            alphabet: Box::new(|s, _| {
                let a = s.m.admin;
                let mut v = vec![
                    Op::Admin { who: ADMIN, to: BOB },
                    Op::Wait { ms: 1500, blocks: 1 },
                    new_pool(T_A, T_B, TIER_A, 10),
                    new_pool(T_B, T_A, TIER_A, 20),
                    new_pool(T_A, T_B, TIER_B, 0),
                    new_pool(T_USDT, T_Z, TIER_A, 0),
                    new_pool(T_Z, T_USDT, TIER_B, -3),
                ];
                for t in [TIER_A, TIER_B] {
                    v.push(Op::AddTier { who: a, fee: t.0, s: t.1 });
                    v.push(Op::DelTier { who: a, fee: t.0, s: t.1 });
                }
                v
            }),
        },
        &Registry { grid: true },
    );
    let mut init = two_pools();
    init.push(new_pool(T_A, T_B, TIER_B, 1));
    init.push(open(BOB, 2, -20, 20, l));
    init.push(new_pool(T_A, T_C, TIER_A, 0));
    // same tokens and spacing as pool 0, another fee
    init.push(add_tier((TIER_A.0 / 2, TIER_A.1)));
    init.push(new_pool(T_A, T_B, (TIER_A.0 / 2, TIER_A.1), 0));
    init.push(open(BOB, 4, -20, 10, l));
    r.run(
        Scenario {
            name: "pools side by side".into(),
            share: SHARE,
            init,
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(move |s, _| {
                let mut v = vec![
                    Op::DelTier { who: ADMIN, fee: TIER_A.0, s: TIER_A.1 },
                    add_tier(TIER_A),
                    new_pool(T_B, T_A, TIER_A, 0),
                    open(BOB, 0, -20, 20, l),
                    open(BOB, 2, -20, 10, 3 * l),
                    open(BOB, 3, -20, 20, l),
                    Op::Withdraw { who: ADMIN, pool: 0 },
                    Op::Receiver { who: ADMIN, pool: 2, to: BOB },
                ];
                for p in 0..s.m.pools.len() {
                    v.push(swap(CAROL, p, true, 600, true));
                    v.push(swap(CAROL, p, false, 500, false));
                }
                v.push(Op::Route { who: CAROL, amt: 100, expect: 1, slip: 0, hops: vec![(0, true), (1, true)], funds: Funds::Exact });
                v.extend(closes(s, &[ALICE, BOB]));
                v.extend(claims(s, &[ALICE]));
                v
            }),
        },
        &Registry { grid: false },
    );
}
