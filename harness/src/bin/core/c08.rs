//! protocol fees: accrual, withdrawal, receiver
use crate::c01::two_pools;
use crate::c04::{layouts, swaps};
use crate::gen::*;
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;

pub struct Protocol;
impl Check for Protocol {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        if let Op::Withdraw { who, pool } = c.op {
            let d = &c.done;
            if d.real.ok != d.pred.ok {
                return Err(if d.real.ok {
                    format!("{} withdraws although the receiver is {}", ACCTS[*who], ACCTS[c.before.m.pools[*pool].receiver])
                } else {
                    format!("the receiver cannot withdraw {:?}: {}", d.pred.xy, d.real.err)
                });
            }
            if d.delta != d.pred.delta {
                return Err(format!("the withdrawal moved {} instead of {}", show_delta(&d.delta), show_delta(&d.pred.delta)));
            }
            t.add(if d.real.ok { "withdrawals" } else { "withdrawals refused" }, 1);
            t.add("withdrawals of something", (d.real.ok && d.pred.xy != (0, 0)) as u64);
        }
        Ok(())
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for (i, p) in s.m.pools.iter().enumerate() {
            let r = observe::pool(&s.w, p)?;
            let pf = [r.fee_protocol_token_x.get(), r.fee_protocol_token_y.get()];
            if pf != p.pf {
                return Err(format!("pool {i}: protocol fees {pf:?}, the share of the fees since the last withdrawal is {:?}", p.pf));
            }
            if r.fee_receiver != ACCTS[p.receiver] {
                return Err(format!("pool {i}: receiver {} instead of {}", r.fee_receiver, ACCTS[p.receiver]));
            }
            t.add("pools compared", 1);
            t.add("with fees of both tokens", (pf[0] > 0 && pf[1] > 0) as u64);
            // every account tries to withdraw, the receiver twice
            for who in [ADMIN, ALICE, BOB, CAROL, VAULT] {
                let mut q = s.clone();
                for _ in 0..2 {
                    let op = Op::Withdraw { who, pool: i };
                    let before = q.clone();
                    let done = step(&mut q, &op);
                    self.on_step(&Ctx { before: &before, op: &op, done: &done, after: &q }, &mut Ghost::default(), t)
                        .map_err(|e| format!("probe {op:?}: {e}"))?;
                }
            }
        }
        Ok(())
    }
}

pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::gen::comb(333_333_333_333, if th { 3 } else { 2 }), &Protocol);
    for share in [SHARE, 0, E12 as u64, 1, 333_333_333_333] {
        r.run(
            Scenario {
                name: format!("two pools, share {share}"),
                share,
                init: two_pools(),
                depth: if th { 5 } else { 4 },
                alphabet: Box::new(|s, _| {
                    let l = 1_000_000 * E6;
                    let mut v = vec![
                        open(BOB, 0, 0, 10, 3 * l),
                        Op::Admin { who: ADMIN, to: ALICE },
                        Op::Receiver { who: ADMIN, pool: 0, to: VAULT },
                        Op::Receiver { who: ALICE, pool: 1, to: BOB },
                        Op::Give { who: ALICE, idx: 0, to: CAROL },
                        new_pool(T_A, T_C, TIER_A, 0),
                    ];
                    for v2 in [0, 1, 250_000_000_000, E12 as u64] {
                        v.push(Op::Share { who: s.m.admin, v: v2 });
                    }
                    for p in 0..2 {
                        for who in [ADMIN, BOB, VAULT] {
                            v.push(Op::Withdraw { who, pool: p });
                        }
                        v.extend(swaps(s, p, CAROL, 1, false, 0));
                    }
                    for (amt, hops) in [(400, vec![(0, true), (1, true)]), (333, vec![(1, false), (0, false)])] {
                        v.push(Op::Route { who: CAROL, amt, expect: 1, slip: 0, hops, funds: Funds::Exact });
                    }
                    v.extend(closes(s, &[ALICE, BOB]));
                    v.extend(claims(s, &[ALICE, BOB]));
                    v
                }),
            },
            &Protocol,
        );
    }
    for y in layouts() {
        for share in [250_000_000_000, 7] {
            let mut sc = life(&y, share, 4 + th as usize, Mix { withdraw: true, opens: 3, limits: 1, ..MIX });
            sc.name = format!("{} share {share}", y.name);
            r.run(sc, &Protocol);
        }
    }
}
