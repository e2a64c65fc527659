//! quotes against executions from the same state
use crate::c01::{native_pools, two_pools};
use crate::c04::layouts;
use crate::gen::*;
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::interface::{QuoteResult, SwapHop};
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::token_amount::TokenAmount;

pub struct Quotes {
    pub around: bool,
    pub reach: usize,
    pub routes: Vec<Vec<(usize, bool)>>,
}
/// a swap or route is executed with whatever native coins it could ever need
pub fn exec_rich(s: &mut State, op: &Op) -> (TxOut, [[i128; NT]; NA]) {
    let (who, msg) = message(&s.m, op).unwrap();
    let mut f = vec![];
    for t in 0..NT {
        if is_native(t) {
            f.push((t, START_BALANCE / 4));
        }
    }
    let before = s.w.ledger;
    let r = s.w.exec(who, &msg, &f);
    let mut d = [[0i128; NT]; NA];
    for a in 0..NA {
        for t in 0..NT {
            d[a][t] = s.w.ledger[a][t] as i128 - before[a][t] as i128;
        }
    }
    (r, d)
}
fn one(s: &State, pool: usize, x2y: bool, amt: u128, exact_in: bool, limit: u128, t: &mut Tally) -> Result<(), String> {
    let req = || format!("pool {pool} x_to_y {x2y} amount {amt} by_amount_in {exact_in} limit {limit}");
    let before = s.w.kv.clone();
    let q: Result<QuoteResult, String> = s.w.query(quote_msg(&s.m, pool, x2y, amt, exact_in, limit));
    if s.w.kv != before {
        return Err(format!("{}: the quote changed the contract's state", req()));
    }
    let mut e = s.clone();
    let (r, d) = exec_rich(&mut e, &swap_lim(CAROL, pool, x2y, amt, exact_in, limit));
    t.add("quotes", 1);
    let q = match (q, r.ok) {
        (Err(_), false) => {
            t.add("refused by both", 1);
            return Ok(());
        }
        (Ok(_), false) => return Err(format!("{}: quoted, but the execution fails: {}", req(), r.err)),
        (Err(x), true) => return Err(format!("{}: executed, but the quote fails: {x}", req())),
        (Ok(q), true) => q,
    };
    let pl = &s.m.pools[pool];
    let (ti, to) = if x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
    let (i, o) = (-d[CAROL][ti], d[CAROL][to]);
    if (q.amount_in.get() as i128, q.amount_out.get() as i128) != (i, o) {
        return Err(format!("{}: quoted {} -> {}, executed {i} -> {o}", req(), q.amount_in.get(), q.amount_out.get()));
    }
    let after = observe::pool(&e.w, pl)?;
    if q.target_sqrt_price != after.sqrt_price {
        return Err(format!("{}: quoted price {:?}, executed {:?}", req(), q.target_sqrt_price, after.sqrt_price));
    }
    let mut seen = vec![];
    for k in &q.ticks {
        let x = observe::tick(&e.w, &pl.key(), k.index)?;
        if x != *k {
            return Err(format!("{}: quoted tick {k:?}, after the execution {x:?}", req()));
        }
        seen.push(k.index);
    }
    let mut uniq = seen.clone();
    uniq.sort();
    uniq.dedup();
    if uniq.len() != seen.len() {
        return Err(format!("{}: ticks quoted twice: {seen:?}", req()));
    }
    // what lies between the old and the new tick was crossed
    let (a, b) = (observe::pool(&s.w, pl)?.current_tick_index, after.current_tick_index);
    let crossed: Vec<i32> = s.m.ticks(pool).keys().cloned().filter(|k| if x2y { *k <= a && *k > b } else { *k > a && *k <= b }).collect();
    if uniq != crossed {
        return Err(format!("{}: quoted ticks {uniq:?}, crossed {crossed:?}", req()));
    }
    t.add("agreed", 1);
    t.add("with ticks", !uniq.is_empty() as u64);
    Ok(())
}
impl Check for Quotes {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for pool in 0..s.m.pools.len() {
            for x2y in [true, false] {
                for exact_in in [true, false] {
                    let mut am = amounts_around(&s.m, pool, x2y, exact_in, self.reach, self.around);
                    am.extend([0, 1]);
                    if exact_in && (x2y || s.m.pools[pool].s > 1) {
                        // beyond all liquidity
                        one(s, pool, x2y, 1 << 80, true, limit_of(x2y), t)?;
                    }
                    for limit in limits(&s.m, pool, x2y, if self.around { 2 } else { 1 }) {
                        for a in &am {
                            one(s, pool, x2y, *a, exact_in, limit, t)?;
                        }
                    }
                    let p = s.m.pools[pool].price;
                    for limit in [p, p - 1, p + 1, limit_of(!x2y)] {
                        one(s, pool, x2y, 7, exact_in, limit, t)?;
                    }
                }
            }
        }
        for hops in &self.routes {
            for amt in [0, 1, 2, 10, 100, 399, 400, 900] {
                let swaps = hops.iter().map(|(p, d)| SwapHop { pool_key: s.key(*p), x_to_y: *d }).collect();
                let q: Result<TokenAmount, String> = s.w.query(QueryMsg::QuoteRoute { amount_in: TokenAmount::new(amt), swaps });
                let mut e = s.clone();
                let (r, _) = exec_rich(&mut e, &Op::Route { who: CAROL, amt, expect: 0, slip: 0, hops: hops.clone(), funds: Funds::Exact });
                t.add("route quotes", 1);
                match (q, r.ok) {
                    (Err(_), false) => {}
                    (Ok(q), true) if r.attr("amount_out") == Some(&q.get().to_string()) => t.add("routes agreed", 1),
                    (q, _) => {
                        return Err(format!(
                            "route {hops:?} of {amt}: quoted {:?}, executed {} {:?}",
                            q.map(|q| q.get()),
                            r.err,
                            r.attr("amount_out")
                        ))
                    }
                }
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::gen::comb(SHARE, if th { 2 } else { 1 }), &Quotes { around: false, reach: 45, routes: vec![] });
    for y in layouts() {
        let mut m = MIX;
        m.claims = false;
        r.run(life(&y, SHARE, if th { 4 } else { 3 }, m), &Quotes { around: true, reach: 2, routes: vec![] });
    }
    let two = |name: &str, init: Vec<Op>, depth: usize| Scenario {
        name: name.into(),
        share: SHARE,
        init,
        depth,
        alphabet: Box::new(|s, _| {
            let l = 1_000_000 * E6;
            let mut v = vec![open(BOB, 0, 0, 10, 3 * l), open(BOB, 1, 3, 4, l), Op::Share { who: ADMIN, v: 0 }, Op::Wait { ms: 1000, blocks: 1 }];
            for p in 0..2 {
                v.extend(crate::c04::swaps(s, p, CAROL, 1, false, 0));
            }
            v.extend(closes(s, &[ALICE, BOB]));
            v
        }),
    };
    let q = Quotes {
        around: false,
        reach: 1,
        routes: vec![vec![(0, true)], vec![(1, false)], vec![(0, true), (1, true)], vec![(1, false), (0, false)], vec![(0, false), (1, false)], vec![(1, true), (0, true)]],
    };
    r.run(two("routes", two_pools(), if th { 4 } else { 3 }), &q);
    r.run(two("native coins", native_pools(), if th { 3 } else { 2 }), &q);
}
