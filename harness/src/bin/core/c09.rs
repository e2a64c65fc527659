//! governance: only the admin, exactly as asked, nothing else
use crate::c01::two_pools;
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::percentage::Percentage;

/// differs from TIER_A in the fee only
const NEAR: (u64, u16) = (TIER_A.0 + 1, TIER_A.1);
pub struct Govern;
fn settings(s: &State) -> Result<(), String> {
    let a: cosmwasm_std::Addr = s.w.query(QueryMsg::Admin {})?;
    if a != addr(s.m.admin) {
        return Err(format!("the admin is {a} instead of {}", ACCTS[s.m.admin]));
    }
    let f: Percentage = s.w.query(QueryMsg::ProtocolFee {})?;
    if f.get() != s.m.share {
        return Err(format!("the protocol fee is {} instead of {}", f.get(), s.m.share));
    }
    let t: Vec<oraiswap_v3::FeeTier> = s.w.query(QueryMsg::FeeTiers {})?;
    let mut t: Vec<(u64, u16)> = t.iter().map(|t| (t.fee.get(), t.tick_spacing)).collect();
    let mut e = s.m.tiers.clone();
    t.sort();
    e.sort();
    if t != e {
        return Err(format!("the fee tiers are {t:?} instead of {e:?}"));
    }
    for (i, p) in s.m.pools.iter().enumerate() {
        let r = observe::pool(&s.w, p)?;
        if r.fee_receiver != ACCTS[p.receiver] {
            return Err(format!("pool {i}: receiver {} instead of {}", r.fee_receiver, ACCTS[p.receiver]));
        }
    }
    Ok(())
}
pub fn governs(op: &Op) -> bool {
    matches!(op, Op::Admin { .. } | Op::Share { .. } | Op::Receiver { .. } | Op::AddTier { .. } | Op::DelTier { .. })
}
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    if !governs(c.op) {
        return Ok(());
    }
    if d.real.ok != d.pred.ok {
        return Err(if d.real.ok {
            format!("accepted although it should be refused ({})", d.pred.why)
        } else {
            format!("refused: {}", d.real.err)
        });
    }
    if d.delta != <[[i128; NT]; NA]>::default() {
        return Err(format!("moves tokens: {}", show_delta(&d.delta)));
    }
    t.add(if d.real.ok { "governance accepted" } else { "governance refused" }, 1);
    if d.real.ok {
        settings(c.after)?;
        let mut b = observe::snapshot(c.before);
        let mut a = observe::snapshot(c.after);
        let own: String = match c.op {
            Op::Admin { .. } => "admin".into(),
            Op::Share { .. } => "share".into(),
            Op::AddTier { .. } | Op::DelTier { .. } => "tiers".into(),
            Op::Receiver { pool, .. } => {
                let k = format!("pool {pool} pool");
                let strip = |s: &State, m: &mut std::collections::BTreeMap<String, String>| -> Result<(), String> {
                    let mut q = observe::pool(&s.w, &s.m.pools[*pool])?;
                    q.fee_receiver = String::new();
                    m.insert(k.clone(), format!("{q:?}"));
                    Ok(())
                };
                strip(c.before, &mut b)?;
                strip(c.after, &mut a)?;
                "-".into()
            }
            _ => unreachable!(),
        };
        let x: Vec<String> = observe::diff(&b, &a).into_iter().filter(|k| *k != own).collect();
        if !x.is_empty() {
            return Err(format!("also changes {x:?}"));
        }
    }
    Ok(())
}
impl Check for Govern {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        settings(s)?;
        t.add("settings compared", 1);
        let mut q = s.clone();
        q.w.migrate().map_err(|e| format!("the migration fails: {e}"))?;
        let x = observe::diff(&observe::snapshot(s), &observe::snapshot(&q));
        if !x.is_empty() {
            return Err(format!("the migration changes {x:?}"));
        }
        t.add("migrations", 1);
        for who in [ADMIN, ALICE, BOB, CAROL, VAULT] {
            for op in [
                Op::Admin { who, to: who },
                Op::Share { who, v: 77 },
                Op::Share { who, v: 0 },
                Op::Share { who, v: E12 as u64 },
                Op::Share { who, v: E12 as u64 - 1 },
                Op::Receiver { who, pool: 0, to: who },
                Op::Receiver { who, pool: 1, to: ALICE },
                Op::AddTier { who, fee: 3_000_000_000, s: 7 },
                Op::AddTier { who, fee: TIER_A.0, s: TIER_A.1 },
                Op::AddTier { who, fee: TIER_A.0, s: 101 },
                Op::DelTier { who, fee: TIER_A.0, s: TIER_A.1 },
                Op::DelTier { who, fee: 1, s: 1 },
                Op::DelTier { who, fee: TIER_A.0, s: TIER_B.1 },
                Op::DelTier { who, fee: NEAR.0, s: NEAR.1 },
                Op::AddTier { who, fee: NEAR.0, s: TIER_B.1 },
            ] {
                let mut q = s.clone();
                let done = step(&mut q, &op);
                t.add("probes", 1);
                judge(&Ctx { before: s, op: &op, done: &done, after: &q }, t).map_err(|e| format!("probe {op:?}: {e}"))?;
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    r.run(
        Scenario {
            name: "hand-overs and settings".into(),
            share: SHARE,
            init: two_pools(),
            depth: if th { 7 } else { 6 },
            alphabet: Box::new(|s, _| {
                let a = s.m.admin;
                let mut v = vec![
                    Op::Share { who: a, v: 0 },
                    Op::Share { who: a, v: 123 },
                    Op::Share { who: a, v: E12 as u64 },
                    Op::Receiver { who: a, pool: 0, to: BOB },
                    Op::AddTier { who: a, fee: TIER_H.0, s: TIER_H.1 },
                    Op::AddTier { who: a, fee: NEAR.0, s: NEAR.1 },
                    Op::AddTier { who: a, fee: TIER_A.0, s: TIER_B.1 },
                    Op::DelTier { who: a, fee: NEAR.0, s: NEAR.1 },
                    Op::DelTier { who: a, fee: TIER_A.0, s: TIER_A.1 },
                    Op::DelTier { who: a, fee: TIER_B.0, s: TIER_B.1 },
                    swap(CAROL, 0, true, 500, true),
                ];
                for to in [ADMIN, ALICE, BOB] {
                    v.push(Op::Admin { who: a, to });
                    v.push(Op::Admin { who: (a % 3) + 1, to });
                }
                v
            }),
        },
        &Govern,
    );
    r.run(
        Scenario {
            name: "users act".into(),
            share: SHARE,
            init: two_pools(),
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(move |s, _| {
                let a = s.m.admin;
                let mut v = vec![
                    Op::Admin { who: a, to: BOB },
                    Op::Share { who: a, v: 123 },
                    Op::Receiver { who: a, pool: 1, to: CAROL },
                    open(BOB, 0, 0, 10, 3 * l),
                    open(ADMIN, 1, 0, 10, 3 * l),
                    new_pool(T_A, T_C, TIER_A, 0),
                    swap(CAROL, 0, true, 700, true),
                    swap(BOB, 0, false, 90, false),
                    swap(ADMIN, 1, true, 2000, true),
                    Op::Route { who: CAROL, amt: 100, expect: 1, slip: 0, hops: vec![(0, true), (1, true)], funds: Funds::Exact },
                    Op::Withdraw { who: ADMIN, pool: 0 },
                    Op::Withdraw { who: CAROL, pool: 1 },
                    Op::Give { who: ALICE, idx: 0, to: BOB },
                    Op::NftTransfer { who: ALICE, owner: ALICE, idx: 0, to: ADMIN },
                    Op::NftSend { who: ALICE, owner: ALICE, idx: 0, to: VAULT },
                    Op::NftBurn { who: BOB, owner: BOB, idx: 0 },
                    Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: BOB, exp: None },
                    Op::Revoke { who: ALICE, owner: ALICE, idx: 0, spender: BOB },
                    Op::ApproveAll { who: ALICE, op: BOB, exp: None },
                    Op::ApproveAll { who: ADMIN, op: BOB, exp: None },
                    Op::RevokeAll { who: ADMIN, op: BOB },
                    Op::Wait { ms: 1000, blocks: 1 },
                ];
                v.extend(closes(s, &[ALICE, BOB, ADMIN]));
                v.extend(claims(s, &[ALICE, BOB]));
                v
            }),
        },
        &Govern,
    );
}
