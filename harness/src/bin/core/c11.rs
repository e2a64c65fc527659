//! the list of positions of every account
use crate::c01::two_pools;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::interface::TokensResponse;
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use oraiswap_v3::Position;

pub struct Lists;
impl Check for Lists {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, _t: &mut Tally) -> Result<(), String> {
        let d = &c.done;
        let idx = match c.op {
            Op::Close { .. } | Op::Claim { .. } | Op::Give { .. } | Op::NftTransfer { .. } | Op::NftSend { .. } | Op::NftBurn { .. } => true,
            _ => false,
        };
        if idx && d.real.ok != d.pred.ok {
            return Err(format!("{} ({}{})", if d.real.ok { "accepted" } else { "refused" }, d.real.err, d.pred.why));
        }
        Ok(())
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        observe::registry(s)?;
        let mut all = vec![];
        for a in 0..NA {
            let n = s.m.pos[a].len();
            let tk: TokensResponse = s.w.query(QueryMsg::Tokens { owner: addr(a), start_after: None, limit: None })?;
            let want: Vec<_> = (0..n).map(|i| nft_id(a, i as u32)).collect();
            if tk.tokens != want {
                return Err(format!("tokens of {}: {:?} instead of {n} in order", ACCTS[a], tk.tokens));
            }
            all.extend(want);
            for i in 0..n {
                let p: Position = s.w.query(QueryMsg::Position { owner_id: addr(a), index: i as u32 })?;
                observe::pos_eq(&p, &s.m.pos[a][i], &s.m.pools).map_err(|e| format!("position {i} of {}: {e}", ACCTS[a]))?;
                t.add("positions compared", 1);
                // fees and capital still belong to it
                for op in [Op::Claim { who: a, idx: i as u32 }, Op::Close { who: a, idx: i as u32 }] {
                    let mut q = s.clone();
                    let d = step(&mut q, &op);
                    if !d.real.ok || d.delta != d.pred.delta {
                        return Err(format!(
                            "probe {op:?}: {}, moved {} instead of {}",
                            d.real.err,
                            show_delta(&d.delta),
                            show_delta(&d.pred.delta)
                        ));
                    }
                    observe::registry(&q).map_err(|e| format!("after probe {op:?}: {e}"))?;
                }
            }
            if a == CONTRACT {
                continue;
            }
            // a position handed to something that is not an address would be lost
            for (i, to) in (0..n).flat_map(|i| ["", "nobody", "ORAI1BOB", "orai"].map(|x| (i, x))) {
                let mut q = s.w.clone();
                let msg = ExecuteMsg::TransferPosition { index: i as u32, receiver: to.into() };
                if q.exec(a, &msg, &[]).ok || q.kv != s.w.kv {
                    return Err(format!("position {i} of {} can be handed to {to:?}, which is not an address", ACCTS[a]));
                }
                t.add("invalid receivers", 1);
            }
            for idx in [n as u32, n as u32 + 1, 255, 256, u32::MAX] {
                if (idx as usize) < n {
                    continue;
                }
                if s.w.query::<Position>(QueryMsg::Position { owner_id: addr(a), index: idx }).is_ok() {
                    return Err(format!("position {idx} of {} is reported although there are {n}", ACCTS[a]));
                }
                for op in [
                    Op::Close { who: a, idx },
                    Op::Claim { who: a, idx },
                    Op::Give { who: a, idx, to: DAVE },
                    Op::NftTransfer { who: a, owner: a, idx, to: DAVE },
                    Op::NftBurn { who: a, owner: a, idx },
                    Op::Approve { who: a, owner: a, idx, spender: DAVE, exp: None },
                ] {
                    let mut q = s.clone();
                    let d = step(&mut q, &op);
                    if d.real.ok {
                        return Err(format!("probe {op:?} is accepted although {} has {n} positions", ACCTS[a]));
                    }
                    t.add("missing indices refused", 1);
                }
            }
        }
        let tk: TokensResponse = s.w.query(QueryMsg::AllTokens { start_after: None, limit: None })?;
        all.sort();
        let mut got = tk.tokens.clone();
        got.sort();
        if got != all {
            return Err(format!("all tokens: {} listed, {} exist", got.len(), all.len()));
        }
        Ok(())
    }
}
/// lists far longer than a page, indices beyond one byte
pub struct Far;
impl Check for Far {
    fn on_step(&self, c: &Ctx, g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        if let Op::Open { .. } = c.op {
            if !c.done.real.ok {
                return Err(format!("refused: {}", c.done.real.err));
            }
        }
        Lists.on_step(c, g, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for a in [ALICE, BOB] {
            let m = &s.m.pos[a];
            let n: u32 = s.w.query(QueryMsg::UserPositionAmount { owner: addr(a) })?;
            if n as usize != m.len() {
                return Err(format!("{} has {} positions, the count says {n}", ACCTS[a], m.len()));
            }
            for (i, y) in m.iter().enumerate() {
                let p: Position = s.w.query(QueryMsg::Position { owner_id: addr(a), index: i as u32 })?;
                observe::pos_eq(&p, y, &s.m.pools).map_err(|e| format!("position {i} of {}: {e}", ACCTS[a]))?;
                let ap = observe::appr_of(&p.approvals)?;
                if ap.len() != y.appr.len() || y.appr.iter().any(|(w, _)| !ap.contains_key(ACCTS[*w])) {
                    return Err(format!("position {i} of {}: approvals {ap:?} instead of {:?}", ACCTS[a], y.appr));
                }
                t.add("positions compared", 1);
            }
            for idx in [n, n + 1, n + 256] {
                if s.w.query::<Position>(QueryMsg::Position { owner_id: addr(a), index: idx }).is_ok() {
                    return Err(format!("position {idx} of {} is reported although there are {n}", ACCTS[a]));
                }
            }
        }
        Ok(())
    }
}
fn far(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    let mut init = two_pools();
    for i in 1..300u32 {
        init.push(open(ALICE, i as usize % 2, -10 * (1 + i as i32 % 30), 10, l + i as u128));
    }
    for i in [0, 255, 256, 299] {
        for spender in [CAROL, DAVE, ADMIN] {
            init.push(Op::Approve { who: ALICE, owner: ALICE, idx: i, spender, exp: None });
        }
    }
    init.push(swap(CAROL, 0, true, 300, true));
    r.run(
        Scenario {
            name: "hundreds of positions".into(),
            share: SHARE,
            init,
            depth: if th { 3 } else { 2 },
            alphabet: Box::new(move |s, _| {
                let n = s.m.pos[ALICE].len() as u32;
                let mut v = vec![open(ALICE, 0, -10, 10, 5 * l), swap(DAVE, 0, true, 100, true)];
                for i in [0, 1, 127, 255, 256, 257, n - 1] {
                    v.push(Op::Close { who: ALICE, idx: i });
                    v.push(Op::Claim { who: ALICE, idx: i });
                    v.push(Op::Give { who: ALICE, idx: i, to: BOB });
                    v.push(Op::NftTransfer { who: CAROL, owner: ALICE, idx: i, to: BOB });
                    v.push(Op::NftBurn { who: ALICE, owner: ALICE, idx: i });
                }
                v.push(Op::Give { who: BOB, idx: 0, to: ALICE });
                v
            }),
        },
        &Far,
    );
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    far(r);
    r.run(crate::mixed::mixed(if th { 5 } else { 4 }), &Lists);
    for (name, n) in [("two accounts", 2usize), ("a long list", 4)] {
        let mut init = two_pools();
        for i in 1..n {
            init.push(open(ALICE, i % 2, -10 * i as i32, 10, l + i as u128));
        }
        init.push(Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: CAROL, exp: None });
        for spender in [VAULT, ADMIN, BOB, CAROL] {
            init.push(Op::Approve { who: ALICE, owner: ALICE, idx: n as u32 - 1, spender, exp: None });
        }
        init.push(swap(CAROL, 0, true, 300, true));
        init.push(swap(CAROL, 1, false, 300, true));
        r.run(
            Scenario {
                name: name.into(),
                share: SHARE,
                init,
                depth: if th { 5 } else { 4 } - (n > 3) as usize,
                alphabet: Box::new(move |s, _| {
                    let mut v = vec![
                        open(BOB, 0, -10, 10, 5 * l),
                        Op::Open { who: ALICE, pool: 1, lo: 0, hi: 3, l: 7, slip: ANY_SLIP, funds: Funds::Exact, mint: true },
                        swap(DAVE, 0, true, 100, true),
                        Op::ApproveAll { who: ALICE, op: BOB, exp: None },
                        Op::Wait { ms: 5000, blocks: 1 },
                    ];
                    for a in [ALICE, BOB] {
                        for i in 0..s.m.pos[a].len() as u32 {
                            v.push(Op::Close { who: a, idx: i });
                            for to in [ALICE, BOB, CAROL] {
                                v.push(Op::Give { who: a, idx: i, to });
                            }
                            v.push(Op::NftTransfer { who: BOB, owner: a, idx: i, to: ALICE });
                            v.push(Op::NftTransfer { who: a, owner: a, idx: i, to: BOB });
                            v.push(Op::NftSend { who: a, owner: a, idx: i, to: VAULT });
                            v.push(Op::NftBurn { who: BOB, owner: a, idx: i });
                            v.push(Op::Approve { who: a, owner: a, idx: i, spender: DAVE, exp: None });
                            v.push(Op::Claim { who: a, idx: i });
                        }
                    }
                    v.extend(closes(s, &[CAROL]));
                    v
                }),
            },
            &Lists,
        );
    }
}
