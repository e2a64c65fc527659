//! what messages report about themselves
use crate::c01::{native_alphabet, native_pools, two_pools};
use crate::c04::{layouts, setup, swaps};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::{price_at, Exp};
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;

pub struct Reports;
/// `s` is the decimal number `raw` / 10^`scale`, however many zeros it is written with
fn is_number(s: &str, raw: u128, scale: usize) -> bool {
    let (int, frac) = s.split_once('.').unwrap_or((s, ""));
    if int.is_empty() || !int.chars().chain(frac.chars()).all(|c| c.is_ascii_digit()) {
        return false;
    }
    let mut f = frac.trim_end_matches('0').to_string();
    if f.len() > scale {
        return false;
    }
    f += &"0".repeat(scale - f.len());
    (int.to_string() + &f).parse::<u128>() == Ok(raw)
}
enum Want {
    Text(String),
    Number(u128, usize),
}
use Want::*;
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    if !d.real.ok || !d.pred.ok || matches!(c.op, Op::Wait { .. }) {
        return Ok(());
    }
    let m = &c.before.m;
    let name = |a: usize| Text(ACCTS[a].into());
    let position = |owner: usize, pool: usize, lo: i32, hi: i32, l: u128| -> Result<Vec<(&'static str, Want)>, String> {
        let p = observe::pool(&c.after.w, &c.after.m.pools[pool])?;
        Ok(vec![
            ("address", name(owner)),
            ("liquidity", Number(l, 6)),
            ("lower_tick", Text(lo.to_string())),
            ("upper_tick", Text(hi.to_string())),
            ("current_sqrt_price", Number(observe::pool_values(&p).0, 24)),
        ])
    };
    let (action, want) = match c.op {
        Op::Open { who, pool, lo, hi, l, .. } => ("create_position", position(*who, *pool, *lo, *hi, *l)?),
        Op::Close { who, .. } | Op::NftBurn { owner: who, .. } => {
            let Some(p) = &d.pred.pos else { return Err("no such position".into()) };
            ("remove_position", position(*who, p.pool, p.lo, p.hi, p.l)?)
        }
        Op::Swap { who, pool, x2y, .. } => {
            let pl = &m.pools[*pool];
            let (ti, to) = if *x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
            ("swap", vec![("amount_in", Number(-d.delta[*who][ti] as u128, 0)), ("amount_out", Number(d.delta[*who][to] as u128, 0))])
        }
        Op::Route { .. } => ("swap_route", vec![("amount_out", Number(d.pred.hops.last().map_or(0, |h| h.3), 0))]),
        Op::Claim { who, idx } => {
            let pl = &m.pools[m.pos[*who][*idx as usize].pool];
            ("claim_fee", vec![("amount_x", Number(d.delta[*who][pl.tx] as u128, 0)), ("amount_y", Number(d.delta[*who][pl.ty] as u128, 0))])
        }
        Op::Give { .. } => ("transfer_position", vec![]),
        Op::Withdraw { .. } => ("withdraw_protocol_fee", vec![]),
        Op::Share { .. } => ("change_protocol_fee", vec![]),
        Op::Receiver { .. } => ("change_fee_receiver", vec![]),
        Op::Admin { to, .. } => ("change_admin", vec![("new_admin", name(*to))]),
        Op::AddTier { .. } => ("add_fee_tier", vec![]),
        Op::DelTier { .. } => ("remove_fee_tier", vec![]),
        Op::NewPool { .. } => ("create_pool", vec![]),
        Op::NftTransfer { who, to, .. } => ("transfer_nft", vec![("sender", name(*who)), ("recipient", name(*to))]),
        Op::NftSend { who, to, .. } => ("send_nft", vec![("sender", name(*who)), ("recipient", name(*to))]),
        Op::Approve { who, spender, .. } => ("approve", vec![("sender", name(*who)), ("spender", name(*spender))]),
        Op::Revoke { who, spender, .. } => ("revoke", vec![("sender", name(*who)), ("spender", name(*spender))]),
        Op::ApproveAll { who, op, .. } => ("approve_all", vec![("sender", name(*who)), ("operator", name(*op))]),
        Op::RevokeAll { who, op } => ("revoke_all", vec![("sender", name(*who)), ("operator", name(*op))]),
        Op::Wait { .. } => return Ok(()),
    };
    for (k, w) in want.into_iter().chain([("action", Text(action.into()))]) {
        let got: Vec<&str> = d.real.attrs.iter().filter(|(a, _)| a == k).map(|(_, v)| v.as_str()).collect();
        let right = |s: &&str| match &w {
            Text(x) => x == s,
            Number(raw, scale) => is_number(s, *raw, *scale),
        };
        if got.is_empty() || !got.iter().all(right) {
            let x = match &w {
                Text(x) => x.clone(),
                Number(raw, 0) => raw.to_string(),
                Number(raw, scale) => format!("{raw}/10^{scale}"),
            };
            return Err(format!("{k} is reported as {got:?}, it is {x} (all reports {:?})", d.real.attrs));
        }
        t.add("figures compared", 1);
    }
    t.add("messages judged", 1);
    Ok(())
}
impl Check for Reports {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    r.run(crate::mixed::mixed(if th { 6 } else { 5 }), &Reports);
    for y in layouts() {
        let extra = y.extra.clone();
        r.run(
            Scenario {
                name: y.name.into(),
                share: SHARE,
                init: setup(&y),
                depth: if th { 5 } else { 4 },
                alphabet: Box::new(move |s, _| {
                    let mut v = vec![];
                    for (lo, hi, l) in &extra {
                        v.push(open(BOB, 0, *lo, *hi, *l));
                    }
                    v.push(open(BOB, 0, extra[0].0, extra[0].1, 1));
                    v.extend(closes(s, &[ALICE, BOB]));
                    v.extend(claims(s, &[ALICE, BOB]));
                    v.extend(swaps(s, 0, CAROL, 2, false, 1));
                    v
                }),
            },
            &Reports,
        );
    }
    r.run(
        Scenario { name: "native coins".into(), share: SHARE, init: native_pools(), depth: if th { 4 } else { 3 }, alphabet: Box::new(native_alphabet) },
        &Reports,
    );
    // figures with every number of zeros in front of and behind their digits
    for k in 0..=19u32 {
        for price in [price_at(0) + 10u128.pow(k), price_at(0) + 10u128.pow(k + 1) - 1, price_at(0) + 10u128.pow(k) + 1] {
            r.run(
                Scenario {
                    name: format!("a price of {price}"),
                    share: SHARE,
                    init: one_pool(TIER_A, 0, price),
                    depth: 2,
                    alphabet: Box::new(move |s, _| {
                        let mut v = closes(s, &[ALICE, BOB]);
                        for e in 0..=20u32 {
                            let q = 10u128.pow(e);
                            v.push(open(if e % 2 == 0 { ALICE } else { BOB }, 0, -10, 20, q));
                            v.push(open(ALICE, 0, 10, 20, q + 1));
                            v.push(open(BOB, 0, -20, 0, 10 * q - 1));
                        }
                        v
                    }),
                },
                &Reports,
            );
        }
    }
    let mut init = two_pools();
    init.push(open(ALICE, 1, 0, 7, l + 1));
    init.push(swap(CAROL, 0, true, 300, true));
    init.push(swap(CAROL, 1, false, 300, true));
    r.run(
        Scenario {
            name: "tokens, grants and settings".into(),
            share: SHARE,
            init,
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(move |s, _| {
                let a = s.m.admin;
                let mut v = vec![
                    Op::Wait { ms: 5000, blocks: 1 },
                    Op::Admin { who: a, to: CAROL },
                    Op::Share { who: a, v: 123 },
                    Op::Receiver { who: a, pool: 1, to: CAROL },
                    Op::AddTier { who: a, fee: TIER_H.0, s: TIER_H.1 },
                    Op::DelTier { who: a, fee: TIER_A.0, s: TIER_A.1 },
                    new_pool(T_A, T_C, TIER_A, 0),
                    Op::Withdraw { who: ADMIN, pool: 0 },
                    swap(DAVE, 0, true, 100, true),
                ];
                for who in [ALICE, BOB, DAVE] {
                    v.push(Op::ApproveAll { who, op: CAROL, exp: None });
                    v.push(Op::ApproveAll { who, op: BOB, exp: Some(Exp::Height(H0 + 3)) });
                    v.push(Op::RevokeAll { who, op: CAROL });
                    for owner in [ALICE, BOB] {
                        for idx in 0..s.m.pos[owner].len() as u32 {
                            v.push(Op::Approve { who, owner, idx, spender: DAVE, exp: None });
                            v.push(Op::Revoke { who, owner, idx, spender: DAVE });
                            for to in [ALICE, BOB, CAROL] {
                                v.push(Op::NftTransfer { who, owner, idx, to });
                            }
                            v.push(Op::NftSend { who, owner, idx, to: VAULT });
                            v.push(Op::NftBurn { who, owner, idx });
                        }
                    }
                }
                v
            }),
        },
        &Reports,
    );
}
