//! listings and their pages
use crate::c01::two_pools;
use cosmwasm_std::{Addr, Binary};
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::interface::{ApprovedForAllResponse, PoolWithPoolKey, TokensResponse};
use oraiswap_v3::liquidity::Liquidity;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::{Pool, PoolKey, Position, PositionTick};

fn sizes(n: usize) -> Vec<Option<u32>> {
    let mut v: Vec<u32> = vec![0, 1, 2, 3, 99, 100, 101, u32::MAX - 1, u32::MAX];
    let m = n as u32;
    v.extend([m.saturating_sub(1), m, m + 1]);
    v.sort();
    v.dedup();
    let mut o: Vec<Option<u32>> = v.into_iter().map(Some).collect();
    o.push(None);
    o
}
fn starts(n: usize) -> Vec<u32> {
    let m = n as u32;
    let mut v = vec![0, 1, 2, m / 2, m.saturating_sub(1), m, m + 1, 99, 100, 101, u32::MAX - 1, u32::MAX];
    v.sort();
    v.dedup();
    v
}
/// is `page` the piece of `all` that starts at `from`?
fn piece<T: PartialEq + std::fmt::Debug>(what: &str, all: &[T], from: usize, size: Option<u32>, page: &[T]) -> Result<(), String> {
    let rest = &all[from.min(all.len())..];
    let ok_len = match size {
        // pages of more than a hundred entries may be cut
        Some(n) if n <= 100 => page.len() == rest.len().min(n as usize),
        Some(n) => page.len() >= rest.len().min(100) && page.len() <= rest.len().min(n as usize),
        None => page.len() >= rest.len().min(1) && page.len() <= rest.len(),
    };
    if !ok_len || page != &rest[..page.len().min(rest.len())] {
        return Err(format!(
            "{what} from {from} with page size {size:?}: {} entries of the {} left, or others than expected",
            page.len(),
            rest.len()
        ));
    }
    Ok(())
}
fn until_empty<T: Clone>(what: &str, size: u32, mut next: impl FnMut(Option<T>) -> Result<Vec<T>, String>) -> Result<Vec<T>, String> {
    let mut all: Vec<T> = vec![];
    loop {
        let p = next(all.last().cloned())?;
        if p.is_empty() {
            return Ok(all);
        }
        if p.len() > size as usize {
            return Err(format!("{what}: a page of {} entries, asked for {size}", p.len()));
        }
        all.extend(p);
        if all.len() > 2000 {
            return Err(format!("{what}: the pages do not end"));
        }
    }
}
fn same_set<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], want: &[T]) -> Result<(), String> {
    if got.len() != want.len() || want.iter().any(|w| got.iter().filter(|g| *g == w).count() != 1) {
        return Err(format!("{what}: {} entries, {} expected, or some missing or repeated", got.len(), want.len()));
    }
    Ok(())
}
pub struct Pages {
    pub big: bool,
}
/// listings that continue after a given entry
fn chained<T: Clone + PartialEq + std::fmt::Debug>(
    what: &str,
    want: &[T],
    in_order: bool,
    t: &mut Tally,
    ask: impl Fn(Option<T>, Option<u32>) -> Result<Vec<T>, String>,
) -> Result<(), String> {
    let full = until_empty(what, 100, |a| ask(a, Some(100)))?;
    same_set(what, &full, want)?;
    if in_order && full != want {
        return Err(format!("{what}: not in order"));
    }
    for size in [1u32, 2, 3, 7, 50, 99, 100] {
        if size > 3 && size as usize > want.len() * 2 {
            continue;
        }
        let got = until_empty(what, size, |a| ask(a, Some(size)))?;
        if got != full {
            return Err(format!("{what}: pages of {size} give another list ({} of {} entries)", got.len(), full.len()));
        }
        t.add("paged lists", 1);
    }
    for size in sizes(full.len()) {
        piece(what, &full, 0, size, &ask(None, size)?)?;
        for at in starts(full.len()) {
            if (at as usize) < full.len() {
                piece(what, &full, at as usize + 1, size, &ask(Some(full[at as usize].clone()), size)?)?;
                t.add("pages", 1);
            }
        }
    }
    Ok(())
}
fn positions_of(w: &World, a: usize, n: usize, t: &mut Tally) -> Result<(), String> {
    let all: Vec<Position> =
        (0..n).map(|i| w.query(QueryMsg::Position { owner_id: addr(a), index: i as u32 })).collect::<Result<_, _>>()?;
    let ids: Vec<Binary> = (0..n).map(|i| nft_id(a, i as u32)).collect();
    for size in sizes(n) {
        for from in starts(n) {
            for off in [Some(from), None] {
                if off.is_none() && from != 0 {
                    continue;
                }
                let p = w.query::<Vec<Position>>(QueryMsg::Positions { owner_id: addr(a), limit: size, offset: off });
                let k = w.query::<TokensResponse>(QueryMsg::Tokens { owner: addr(a), start_after: off, limit: size });
                let past = from as usize > n;
                // past the end: empty or a clean error, never an abort
                let lax = |e: &String| past && !e.starts_with("panic");
                match p {
                    Ok(p) => piece("positions", &all, from as usize, size, &p)?,
                    Err(e) if lax(&e) => {}
                    Err(e) => return Err(format!("positions of {} from {from}, size {size:?}: {e}", ACCTS[a])),
                }
                match k {
                    Ok(k) => piece("tokens", &ids, from as usize, size, &k.tokens)?,
                    Err(e) if lax(&e) => {}
                    Err(e) => return Err(format!("tokens of {} from {from}, size {size:?}: {e}", ACCTS[a])),
                }
                t.add("pages", 2);
            }
        }
    }
    // ticks of the positions
    let mut ticks: Vec<PositionTick> = vec![];
    for p in &all {
        for i in [p.lower_tick_index, p.upper_tick_index] {
            let k = observe::tick(w, &p.pool_key, i)?;
            ticks.push(PositionTick {
                index: k.index,
                fee_growth_outside_x: k.fee_growth_outside_x,
                fee_growth_outside_y: k.fee_growth_outside_y,
                seconds_outside: k.seconds_outside,
            });
        }
    }
    for from in starts(n) {
        let r = w.query::<Vec<PositionTick>>(QueryMsg::PositionTicks { owner: addr(a), offset: from });
        t.add("pages", 1);
        match r {
            Ok(v) => {
                let rest = &ticks[(2 * from as usize).min(ticks.len())..];
                if v.len() % 2 != 0 || v.len() < rest.len().min(370) || v.len() > rest.len() || v[..] != rest[..v.len()] {
                    return Err(format!("position ticks of {} from {from}: {} of {} or others than expected", ACCTS[a], v.len(), rest.len()));
                }
            }
            Err(e) if from as usize > n && !e.starts_with("panic") => {}
            Err(e) => return Err(format!("position ticks of {} from {from}: {e}", ACCTS[a])),
        }
    }
    Ok(())
}
fn pools_of(w: &World, keys: &[PoolKey], t: &mut Tally) -> Result<(), String> {
    chained("pools", keys, false, t, |a, size| {
        let v: Vec<PoolWithPoolKey> = w.query(QueryMsg::Pools { limit: size, start_after: a })?;
        for p in &v {
            let q: Pool = w.query(QueryMsg::Pool { token_0: p.pool_key.token_x.clone(), token_1: p.pool_key.token_y.clone(), fee_tier: p.pool_key.fee_tier })?;
            if q != p.pool {
                return Err(format!("pools: {:?} is listed as {:?}, on its own it is {q:?}", p.pool_key, p.pool));
            }
        }
        Ok(v.into_iter().map(|p| p.pool_key).collect())
    })
}
fn operators_of(w: &World, a: usize, want: &[(Addr, Exp)], inc: Option<bool>, t: &mut Tally) -> Result<(), String> {
    chained("operators", want, false, t, |x: Option<(Addr, Exp)>, size| {
        let v: ApprovedForAllResponse =
            w.query(QueryMsg::ApprovedForAll { owner: addr(a), include_expired: inc, start_after: x.map(|x| x.0), limit: size })?;
        Ok(v.operators.into_iter().map(|o| (o.spender.clone(), exp_of(&o.expires))).collect())
    })
}
fn all_tokens(w: &World, want: &[Binary], t: &mut Tally) -> Result<(), String> {
    chained("all tokens", want, false, t, |a, size| {
        let v: TokensResponse = w.query(QueryMsg::AllTokens { start_after: a, limit: size })?;
        Ok(v.tokens)
    })
}
impl Check for Pages {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for a in [ALICE, BOB, CAROL] {
            positions_of(&s.w, a, s.m.pos[a].len(), t)?;
            for inc in [None, Some(true), Some(false)] {
                let want: Vec<(Addr, Exp)> = s
                    .m
                    .oper
                    .iter()
                    .filter(|((o, _), e)| *o == a && (inc == Some(true) || !e.expired(s.w.now, s.w.height)))
                    .map(|((_, w), e)| (addr(*w), *e))
                    .collect();
                operators_of(&s.w, a, &want, inc, t)?;
            }
        }
        let ids: Vec<Binary> = s.m.all_pos().map(|(a, i, _)| nft_id(a, i as u32)).collect();
        all_tokens(&s.w, &ids, t)?;
        let keys: Vec<PoolKey> = s.m.pools.iter().map(|p| p.key()).collect();
        pools_of(&s.w, &keys, t)?;
        for a in 0..NT {
            for b in 0..NT {
                if a == b {
                    continue;
                }
                let got: Vec<PoolWithPoolKey> = s.w.query(QueryMsg::PoolsForPair { token_0: TOKENS[a].into(), token_1: TOKENS[b].into() })?;
                let got: Vec<PoolKey> = got.into_iter().map(|p| p.pool_key).collect();
                let want: Vec<PoolKey> = s
                    .m
                    .pools
                    .iter()
                    .filter(|p| (p.tx, p.ty) == (a.min(b), a.max(b)) && s.m.tiers.contains(&(p.fee, p.s as u16)))
                    .map(|p| p.key())
                    .collect();
                same_set("pools of a pair", &got, &want)?;
            }
        }
        Ok(())
    }
}
/// lists longer than the largest page
fn long(th: bool) -> Result<(u64, Tally), String> {
    let mut t = Tally::default();
    let mut n = 0;
    let mut w = World::new(SHARE);
    let must = |o: TxOut, what: &str| if o.ok { Ok(()) } else { Err(format!("{what}: {}", o.err)) };
    must(w.exec(ADMIN, &ExecuteMsg::AddFeeTier { fee_tier: tier(TIER_A.0, TIER_A.1) }, &[]), "tier")?;
    must(w.exec(ADMIN, &ExecuteMsg::AddFeeTier { fee_tier: tier(TIER_B.0, TIER_B.1) }, &[]), "tier")?;
    let mut keys = vec![];
    let mk = |w: &mut World, a: String, b: String, s: u16| -> Result<PoolKey, String> {
        let f = if s == 10 { TIER_A } else { TIER_B };
        let fee_tier = tier(f.0, f.1);
        must(
            w.exec(BOB, &ExecuteMsg::CreatePool { token_0: a.clone(), token_1: b.clone(), fee_tier, init_sqrt_price: SqrtPrice::new(price_at(0)), init_tick: 0 }, &[]),
            "pool",
        )?;
        let (x, y) = if a < b { (a, b) } else { (b, a) };
        Ok(PoolKey { token_x: x, token_y: y, fee_tier })
    };
    let main = mk(&mut w, TOKENS[T_A].into(), TOKENS[T_B].into(), 10)?;
    keys.push(main.clone());
    for i in 0..(if th { 210 } else { 106 }) {
        keys.push(mk(&mut w, format!("coin{}", i * 37 % 211), format!("base{}", i % 3), if i % 2 == 0 { 10 } else { 1 })?);
    }
    pools_of(&w, &keys, &mut t)?;
    // a pair with a pool on every one of many tiers
    let mut many: Vec<PoolKey> = vec![];
    for i in 0..(if th { 130 } else { 40 }) {
        let fee_tier = tier(1_000_000 * (97 * i as u64 % 131), 1 + i as u16 % 100);
        must(w.exec(ADMIN, &ExecuteMsg::AddFeeTier { fee_tier }, &[]), "tier")?;
        if i % 7 == 6 {
            continue;
        }
        let m = ExecuteMsg::CreatePool { token_0: "pairb".into(), token_1: "paira".into(), fee_tier, init_sqrt_price: SqrtPrice::new(price_at(0)), init_tick: 0 };
        must(w.exec(BOB, &m, &[]), "pool")?;
        many.push(PoolKey { token_x: "paira".into(), token_y: "pairb".into(), fee_tier });
        n += 1;
        for (a, b) in [("paira", "pairb"), ("pairb", "paira")] {
            let got: Vec<PoolWithPoolKey> = w.query(QueryMsg::PoolsForPair { token_0: a.into(), token_1: b.into() })?;
            let got: Vec<PoolKey> = got.into_iter().map(|p| p.pool_key).collect();
            same_set("pools of a pair on many tiers", &got, &many)?;
            t.add("pools of a pair", 1);
        }
    }
    keys.extend(many);
    pools_of(&w, &keys, &mut t)?;
    let mut ops = vec![];
    for i in 0..(if th { 230 } else { 108 }) {
        let op = Addr::unchecked(format!("orai1op{}", i * 53 % 241));
        must(w.exec(ALICE, &ExecuteMsg::ApproveAll { operator: op.clone(), expires: None }, &[]), "operator")?;
        ops.push((op, Exp::Never));
    }
    // a neighbour in the same table
    must(w.exec(BOB, &ExecuteMsg::ApproveAll { operator: addr(ALICE), expires: None }, &[]), "operator")?;
    for inc in [None, Some(true)] {
        operators_of(&w, ALICE, &ops, inc, &mut t)?;
    }
    // a page that continues after an entry that is gone in the meantime
    let page = |w: &World, x: &Addr, size: u32| -> Result<Vec<Addr>, String> {
        let v: ApprovedForAllResponse =
            w.query(QueryMsg::ApprovedForAll { owner: addr(ALICE), include_expired: None, start_after: Some(x.clone()), limit: Some(size) })?;
        Ok(v.operators.into_iter().map(|o| o.spender).collect())
    };
    for (x, _) in ops.iter().step_by(13) {
        let before = page(&w, x, 50)?;
        let mut v = w.clone();
        must(v.exec(ALICE, &ExecuteMsg::RevokeAll { operator: x.clone() }, &[]), "revoke")?;
        if page(&v, x, 50)? != before {
            return Err(format!("operators: the page after {x} changes when {x} is gone"));
        }
        t.add("pages after a gap", 1);
    }
    let mut ids = vec![];
    for a in [ALICE, BOB] {
        let many = if a == ALICE { if th { 600 } else { 262 } } else { 3 };
        for i in 0..many {
            let lo = -10 * (1 + i % 40);
            must(
                w.exec(
                    a,
                    &ExecuteMsg::CreatePosition {
                        pool_key: main.clone(),
                        lower_tick: lo,
                        upper_tick: 10 * (1 + i / 40),
                        liquidity_delta: Liquidity::new(1_000_000 * E6 + i as u128),
                        slippage_limit_lower: SqrtPrice::new(0),
                        slippage_limit_upper: SqrtPrice::new(u128::MAX),
                    },
                    &[],
                ),
                "position",
            )?;
            ids.push(nft_id(a, i as u32));
            n += 1;
            if [1, 2, 3, 99, 100, 101, 102, 186, 187, 199, 200, 201, 202, 254, 255, 256, 257, 511, 512].contains(&i) {
                positions_of(&w, a, i as usize + 1, &mut t)?;
            }
        }
        positions_of(&w, a, many as usize, &mut t)?;
    }
    all_tokens(&w, &ids, &mut t)?;
    Ok((n + keys.len() as u64 + ops.len() as u64, t))
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    match long(th) {
        Err(e) => return r.fail(format!("[long lists] {e}")),
        Ok((n, t)) => {
            r.states += n;
            r.transitions += n;
            r.traces += n;
            r.details.insert("long lists".into(), serde_json::json!({"registrations": n, "checks": t.n.iter().map(|(k, v)| (k.to_string(), *v)).collect::<std::collections::BTreeMap<_, _>>()}));
        }
    }
    let l = 1_000_000 * E6;
    let mut init = two_pools();
    init.push(new_pool(T_B, T_A, TIER_B, 4));
    r.run(
        Scenario {
            name: "lists".into(),
            share: SHARE,
            init,
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(move |s, _| {
                let mut v = vec![
                    open(ALICE, 0, -10, 10, 3 * l),
                    open(ALICE, 2, -1, 10, l),
                    open(BOB, 0, -20, 20, l),
                    new_pool(T_ATOM, T_Z, TIER_A, 0),
                    Op::DelTier { who: ADMIN, fee: TIER_B.0, s: TIER_B.1 },
                    Op::Wait { ms: 1000, blocks: 1 },
                    swap(DAVE, 0, true, 900, true),
                    Op::Give { who: ALICE, idx: 0, to: BOB },
                    Op::Close { who: ALICE, idx: 0 },
                    Op::Close { who: BOB, idx: 0 },
                    Op::RevokeAll { who: ALICE, op: CAROL },
                    Op::ApproveAll { who: ALICE, op: CAROL, exp: Some(Exp::Height(s.w.height + 1)) },
                ];
                for op in [ADMIN, BOB, VAULT] {
                    v.push(Op::ApproveAll { who: ALICE, op, exp: None });
                }
                v.push(Op::ApproveAll { who: BOB, op: ALICE, exp: None });
                v
            }),
        },
        &Pages { big: false },
    );
}
