//! Observations of the real contract through its queries.
use crate::chain::*;
use crate::model::*;
use crate::ops::*;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::{Pool, PoolKey, Position, Tick};
use std::collections::BTreeMap;

pub fn pool(w: &World, p: &MPool) -> Result<Pool, String> {
    w.query(QueryMsg::Pool {
        token_0: TOKENS[p.tx].into(),
        token_1: TOKENS[p.ty].into(),
        fee_tier: tier(p.fee, p.s as u16),
    })
}
pub fn tick(w: &World, key: &PoolKey, index: i32) -> Result<Tick, String> {
    w.query(QueryMsg::Tick { key: key.clone(), index })
}
pub fn positions(w: &World, a: usize) -> Result<Vec<Position>, String> {
    let mut v: Vec<Position> = vec![];
    loop {
        let page: Vec<Position> =
            w.query(QueryMsg::Positions { owner_id: addr(a), limit: Some(100), offset: Some(v.len() as u32) })?;
        let n = page.len();
        v.extend(page);
        if n < 100 {
            return Ok(v);
        }
    }
}
pub fn count(w: &World, a: usize) -> Result<u32, String> {
    w.query(QueryMsg::UserPositionAmount { owner: addr(a) })
}
/// initialized ticks according to the tick map of the whole range
pub fn mapped_ticks(w: &World, p: &MPool) -> Result<Vec<i32>, String> {
    let mt = max_tick(p.s);
    mapped_within(w, p, -mt, mt)
}
/// the same for the chunks that the range touches
pub fn mapped_within(w: &World, p: &MPool, lo: i32, hi: i32) -> Result<Vec<i32>, String> {
    let chunks: Vec<(u16, u64)> =
        w.query(QueryMsg::TickMap { pool_key: p.key(), lower_tick_index: lo, upper_tick_index: hi, x_to_y: false })?;
    let mut v = vec![];
    for (c, bits) in chunks {
        for b in 0..64 {
            if bits >> b & 1 == 1 {
                v.push(slot_tick(c, b, p.s));
            }
        }
    }
    Ok(v)
}
/// slot (chunk, bit) of the tick map to tick: slots are numbered from the lowest tick
pub fn slot_tick(chunk: u16, bit: u8, s: i32) -> i32 {
    (chunk as i32 * 64 + bit as i32 - MAX_TICK / s) * s
}
pub fn pool_values(p: &Pool) -> (u128, i32, u128) {
    use decimal::Decimal;
    (p.sqrt_price.get(), p.current_tick_index, p.liquidity.get())
}
pub fn pos_eq(r: &Position, m: &MPos, pools: &[MPool]) -> Result<(), String> {
    use decimal::Decimal;
    if r.pool_key != pools[m.pool].key() {
        return Err(format!("pool {:?} instead of {:?}", r.pool_key, pools[m.pool].key()));
    }
    if (r.lower_tick_index, r.upper_tick_index, r.liquidity.get()) != (m.lo, m.hi, m.l) {
        return Err(format!(
            "range {}..{} liquidity {} instead of {}..{} {}",
            r.lower_tick_index,
            r.upper_tick_index,
            r.liquidity.get(),
            m.lo,
            m.hi,
            m.l
        ));
    }
    if r.last_block_number != m.block {
        return Err(format!("opened in block {} instead of {}", r.last_block_number, m.block));
    }
    Ok(())
}
pub fn appr_of(r: &[oraiswap_v3::interface::Approval]) -> Result<BTreeMap<String, Exp>, String> {
    let mut b = BTreeMap::new();
    for a in r {
        if b.insert(a.spender.to_string(), exp_of(&a.expires)).is_some() {
            return Err(format!("{} approved twice", a.spender));
        }
    }
    Ok(b)
}
fn js<T: serde::Serialize>(t: &T) -> String {
    serde_json::to_string(t).unwrap_or_default()
}
/// one pool with everything that belongs to it, through queries
pub fn pool_snapshot(w: &World, p: &MPool, ticks: &[i32]) -> Vec<(String, String)> {
    let mut v = vec![];
    v.push(("pool".into(), format!("{:?}", pool(w, p).map(|q| js(&q)))));
    let mt = max_tick(p.s);
    let lo = ticks.iter().min().map_or(p.tick, |t| *t.min(&p.tick)) / p.s * p.s - 64 * p.s;
    let hi = ticks.iter().max().map_or(p.tick, |t| *t.max(&p.tick)) / p.s * p.s + 64 * p.s;
    v.push(("tick map".into(), format!("{:?}", mapped_within(w, p, lo.max(-mt), hi.min(mt)))));
    for t in ticks {
        v.push((format!("tick {t}"), format!("{:?}", tick(w, &p.key(), *t).map(|q| js(&q)))));
    }
    v
}
/// everything the queries show, under readable names
pub fn snapshot(s: &State) -> BTreeMap<String, String> {
    let (w, m) = (&s.w, &s.m);
    let mut b = BTreeMap::new();
    b.insert("admin".into(), format!("{:?}", w.query::<cosmwasm_std::Addr>(QueryMsg::Admin {})));
    b.insert("share".into(), format!("{:?}", w.query::<oraiswap_v3::percentage::Percentage>(QueryMsg::ProtocolFee {})));
    b.insert("tiers".into(), format!("{:?}", w.query::<Vec<oraiswap_v3::FeeTier>>(QueryMsg::FeeTiers {})));
    for (i, p) in m.pools.iter().enumerate() {
        let t: Vec<i32> = m.ticks(i).keys().cloned().collect();
        for (k, v) in pool_snapshot(w, p, &t) {
            b.insert(format!("pool {i} {k}"), v);
        }
    }
    for a in 0..NA {
        b.insert(format!("positions of {}", ACCTS[a]), format!("{:?}", positions(w, a).map(|q| js(&q))));
        b.insert(format!("count of {}", ACCTS[a]), format!("{:?}", count(w, a)));
        b.insert(
            format!("operators of {}", ACCTS[a]),
            format!(
                "{:?}",
                w.query::<serde_json::Value>(QueryMsg::ApprovedForAll {
                    owner: addr(a),
                    include_expired: Some(true),
                    start_after: None,
                    limit: Some(100)
                })
            ),
        );
    }
    b
}
pub fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    let mut v = vec![];
    for k in a.keys().chain(b.keys().filter(|k| !a.contains_key(*k))) {
        if a.get(k) != b.get(k) {
            v.push(k.clone());
        }
    }
    v
}
/// positions of every account equal to the model's, in order
pub fn registry(s: &State) -> Result<(), String> {
    for a in 0..NA {
        let r = positions(&s.w, a)?;
        let n = count(&s.w, a)?;
        let m = &s.m.pos[a];
        if n as usize != m.len() || r.len() != m.len() {
            return Err(format!("{} has {} positions, the count says {n} and {} are listed", ACCTS[a], m.len(), r.len()));
        }
        for (i, (x, y)) in r.iter().zip(m).enumerate() {
            pos_eq(x, y, &s.m.pools).map_err(|e| format!("position {i} of {}: {e}", ACCTS[a]))?;
            let ap = appr_of(&x.approvals)?;
            let ex: BTreeMap<String, Exp> = y.appr.iter().map(|(w, e)| (ACCTS[*w].to_string(), *e)).collect();
            if ap != ex {
                return Err(format!("position {i} of {}: approvals {ap:?} instead of {ex:?}", ACCTS[a]));
            }
        }
    }
    Ok(())
}
