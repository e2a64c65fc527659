//! rights over position tokens
use crate::c01::two_pools;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::report::Report;
use oraiswap_v3::interface::{AllNftInfoResponse, ApprovedForAllResponse, NftInfoResponse, OwnerOfResponse};
use oraiswap_v3::msg::{ExecuteMsg, QueryMsg};
use std::collections::BTreeMap;

pub struct Rights {
    /// users whose attempts are probed in every state
    pub who: Vec<usize>,
    /// of a long list, the positions that are tried
    pub some: Option<Vec<u32>>,
}
fn of_token(op: &Op) -> bool {
    matches!(
        op,
        Op::NftTransfer { .. }
            | Op::NftSend { .. }
            | Op::NftBurn { .. }
            | Op::Approve { .. }
            | Op::Revoke { .. }
            | Op::ApproveAll { .. }
            | Op::RevokeAll { .. }
    )
}
fn judge(c: &Ctx, t: &mut Tally) -> Result<(), String> {
    let d = &c.done;
    if !of_token(c.op) {
        return Ok(());
    }
    if d.real.ok != d.pred.ok {
        return Err(if d.real.ok {
            format!("accepted although the caller has no right to it ({})", d.pred.why)
        } else {
            format!("refused although the caller may: {}", d.real.err)
        });
    }
    t.add(if d.real.ok { "accepted" } else { "refused" }, 1);
    if d.real.ok {
        if d.delta != d.pred.delta {
            return Err(format!("moved {} instead of {}", show_delta(&d.delta), show_delta(&d.pred.delta)));
        }
        if let Op::NftSend { who, owner, idx, to } = c.op {
            if d.real.calls.len() != 1 || d.real.calls[0].0 != ACCTS[*to] {
                return Err(format!("the receiving contract is not notified once: {:?}", d.real.calls));
            }
            let v: serde_json::Value = serde_json::from_slice(&d.real.calls[0].1).map_err(|e| e.to_string())?;
            let r = &v["receive_nft"];
            let id = serde_json::to_value(nft_id(*owner, *idx)).unwrap();
            if r["sender"] != ACCTS[*who] || r["token_id"] != id || r["msg"] != "aGk=" {
                return Err(format!("the receiving contract is told {v}"));
            }
        } else if !d.real.calls.is_empty() {
            return Err(format!("unexpected message {:?}", d.real.calls));
        }
        observe::registry(c.after)?;
    }
    Ok(())
}
fn access(s: &State, t: &mut Tally) -> Result<(), String> {
    let (now, h) = (s.w.now, s.w.height);
    let e = |ctx: &str, r: String, m: String| Err(format!("{ctx}: the query reports {r}, in force are {m}"));
    for (a, i, p) in s.m.all_pos() {
        let id = nft_id(a, i as u32);
        for inc in [None, Some(false), Some(true)] {
            let want: BTreeMap<String, Exp> = p
                .appr
                .iter()
                .filter(|(_, x)| inc == Some(true) || !x.expired(now, h))
                .map(|(w, x)| (ACCTS[*w].to_string(), *x))
                .collect();
            let o: OwnerOfResponse = s.w.query(QueryMsg::OwnerOf { token_id: id.clone(), include_expired: inc })?;
            let all: AllNftInfoResponse = s.w.query(QueryMsg::AllNftInfo { token_id: id.clone(), include_expired: inc })?;
            for (k, r) in [("owner", &o), ("all info", &all.access)] {
                if r.owner != addr(a) {
                    return e(k, r.owner.to_string(), ACCTS[a].into());
                }
                let got = observe::appr_of(&r.approvals)?;
                if got != want {
                    return e(&format!("{k} of position {i} of {}, include_expired {inc:?}", ACCTS[a]), format!("{got:?}"), format!("{want:?}"));
                }
            }
            observe::pos_eq(&all.info.extension, p, &s.m.pools)?;
            t.add("access queries", 2);
        }
        let n: NftInfoResponse = s.w.query(QueryMsg::NftInfo { token_id: id })?;
        observe::pos_eq(&n.extension, p, &s.m.pools)?;
    }
    for a in 1..NA {
        for inc in [None, Some(false), Some(true)] {
            let want: BTreeMap<String, Exp> = s
                .m
                .oper
                .iter()
                .filter(|((o, _), x)| *o == a && (inc == Some(true) || !x.expired(now, h)))
                .map(|((_, w), x)| (ACCTS[*w].to_string(), *x))
                .collect();
            let r: ApprovedForAllResponse = s.w.query(QueryMsg::ApprovedForAll {
                owner: addr(a),
                include_expired: inc,
                start_after: None,
                limit: None,
            })?;
            let got = observe::appr_of(&r.operators)?;
            if got != want {
                return e(&format!("operators of {}, include_expired {inc:?}", ACCTS[a]), format!("{got:?}"), format!("{want:?}"));
            }
            t.add("operator queries", 1);
        }
    }
    Ok(())
}
impl Check for Rights {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        judge(c, t)
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        access(s, t)?;
        let mut ops = vec![];
        for owner in [ALICE, BOB, CAROL] {
            let n = s.m.pos[owner].len() as u32;
            for idx in 0..=n {
                if idx == n && owner != ALICE || self.some.as_ref().map_or(false, |v| !v.contains(&idx)) {
                    continue;
                }
                for who in &self.who {
                    let who = *who;
                    ops.push(Op::NftTransfer { who, owner, idx, to: VAULT });
                    ops.push(Op::NftSend { who, owner, idx, to: VAULT });
                    ops.push(Op::NftBurn { who, owner, idx });
                    ops.push(Op::Approve { who, owner, idx, spender: VAULT, exp: None });
                    ops.push(Op::Revoke { who, owner, idx, spender: CAROL });
                }
            }
        }
        for op in ops {
            let mut q = s.clone();
            let done = step(&mut q, &op);
            t.add("probes", 1);
            judge(&Ctx { before: s, op: &op, done: &done, after: &q }, t).map_err(|e| format!("probe {op:?}: {e}"))?;
        }
        Ok(())
    }
}
fn exps(s: &State) -> Vec<Option<Exp>> {
    // valid for one more block / second, about to be expired, and for good
    vec![None, Some(Exp::Height(s.w.height + 1)), Some(Exp::Time(s.w.now + 1000))]
}
/// approvals of one position to n accounts, revoked in another order
fn spenders(n: usize) -> Result<u64, String> {
    let mut s = State { w: World::new(SHARE), m: Model::new(SHARE) };
    for op in [add_tier(TIER_A), new_pool(T_A, T_B, TIER_A, 0), open(ALICE, 0, -20, 20, 1_000_000 * E6)] {
        let d = step(&mut s, &op);
        if !d.real.ok {
            return Err(format!("{op:?}: {}", d.real.err));
        }
    }
    let id = nft_id(ALICE, 0);
    let name = |i: usize| cosmwasm_std::Addr::unchecked(format!("orai1sp{}", i * 53 % 307));
    let mut have: Vec<cosmwasm_std::Addr> = vec![];
    let mut w = s.w;
    let check = |w: &World, have: &[cosmwasm_std::Addr]| -> Result<(), String> {
        let o: OwnerOfResponse = w.query(QueryMsg::OwnerOf { token_id: id.clone(), include_expired: None })?;
        let mut got: Vec<_> = o.approvals.into_iter().map(|a| a.spender).collect();
        let mut want = have.to_vec();
        got.sort();
        want.sort();
        if got != want {
            return Err(format!("approved are {want:?}, reported are {got:?}"));
        }
        Ok(())
    };
    for i in 0..n {
        let spender = name(i);
        let m = ExecuteMsg::Approve { spender: spender.clone(), token_id: id.clone(), expires: None };
        let o = w.exec(ALICE, &m, &[]);
        if !o.ok {
            return Err(format!("the approval of {spender} is refused: {}", o.err));
        }
        have.push(spender);
        check(&w, &have)?;
    }
    for i in 0..n {
        let spender = name(i * 11 % n);
        let m = ExecuteMsg::Revoke { spender: spender.clone(), token_id: id.clone() };
        let o = w.exec(ALICE, &m, &[]);
        if !o.ok {
            return Err(format!("the revocation of {spender} is refused: {}", o.err));
        }
        have.retain(|x| *x != spender);
        check(&w, &have)?;
    }
    Ok(2 * n as u64)
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    let mut init = two_pools();
    init.push(open(ALICE, 1, 0, 5, 2 * l));
    init.push(swap(DAVE, 0, true, 500, true));
    let i2 = init.clone();
    r.run(
        Scenario {
            name: "grants of one owner".into(),
            share: SHARE,
            init,
            depth: if th { 6 } else { 5 },
            alphabet: Box::new(|s, _| {
                let mut v = vec![
                    Op::Wait { ms: 1000, blocks: 1 },
                    Op::Wait { ms: 999, blocks: 0 },
                    Op::Give { who: ALICE, idx: 0, to: CAROL },
                    Op::Give { who: ALICE, idx: 0, to: ALICE },
                    Op::Close { who: ALICE, idx: 0 },
                    Op::NftTransfer { who: CAROL, owner: ALICE, idx: 0, to: BOB },
                    Op::NftTransfer { who: DAVE, owner: ALICE, idx: 1, to: ALICE },
                    Op::NftSend { who: ALICE, owner: ALICE, idx: 1, to: CAROL },
                    Op::NftBurn { who: CAROL, owner: ALICE, idx: 0 },
                    Op::NftBurn { who: BOB, owner: BOB, idx: 0 },
                    Op::Revoke { who: ALICE, owner: ALICE, idx: 0, spender: CAROL },
                    Op::Revoke { who: DAVE, owner: ALICE, idx: 1, spender: CAROL },
                    Op::Revoke { who: CAROL, owner: ALICE, idx: 0, spender: CAROL },
                    Op::RevokeAll { who: ALICE, op: DAVE },
                    Op::RevokeAll { who: DAVE, op: DAVE },
                    Op::ApproveAll { who: DAVE, op: ALICE, exp: None },
                    Op::ApproveAll { who: ALICE, op: DAVE, exp: Some(Exp::Height(s.w.height)) },
                    Op::ApproveAll { who: ALICE, op: DAVE, exp: Some(Exp::Time(s.w.now)) },
                    Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: CAROL, exp: Some(Exp::Height(s.w.height)) },
                    Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: CAROL, exp: Some(Exp::Time(s.w.now)) },
                    Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: DAVE, exp: None },
                    Op::Approve { who: BOB, owner: ALICE, idx: 0, spender: BOB, exp: None },
                    Op::Approve { who: DAVE, owner: ALICE, idx: 1, spender: DAVE, exp: None },
                    Op::Approve { who: CAROL, owner: ALICE, idx: 0, spender: BOB, exp: None },
                ];
                for exp in exps(s) {
                    v.push(Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: CAROL, exp });
                    v.push(Op::Approve { who: DAVE, owner: ALICE, idx: 1, spender: CAROL, exp });
                    v.push(Op::ApproveAll { who: ALICE, op: DAVE, exp });
                }
                v
            }),
        },
        &Rights { who: vec![ALICE, BOB, CAROL, DAVE], some: None },
    );
    r.run(
        Scenario {
            name: "both kinds of grants to one account".into(),
            share: SHARE,
            init: i2.clone(),
            depth: if th { 6 } else { 5 },
            alphabet: Box::new(|s, _| {
                let mut v = vec![
                    Op::Wait { ms: 1000, blocks: 1 },
                    Op::Wait { ms: 5000, blocks: 0 },
                    Op::Wait { ms: 0, blocks: 3 },
                    Op::Revoke { who: ALICE, owner: ALICE, idx: 0, spender: CAROL },
                    Op::RevokeAll { who: ALICE, op: CAROL },
                    Op::NftTransfer { who: CAROL, owner: ALICE, idx: 0, to: BOB },
                    Op::NftTransfer { who: CAROL, owner: ALICE, idx: 0, to: ALICE },
                ];
                for exp in exps(s) {
                    v.push(Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: CAROL, exp });
                    v.push(Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: DAVE, exp });
                    v.push(Op::ApproveAll { who: ALICE, op: CAROL, exp });
                }
                v
            }),
        },
        &Rights { who: vec![ALICE, BOB, CAROL, DAVE], some: None },
    );
    r.run(
        Scenario {
            name: "grants that follow and must not follow".into(),
            share: SHARE,
            init: i2,
            depth: if th { 8 } else { 7 },
            alphabet: Box::new(move |s, _| {
                let mut v = vec![
                    open(BOB, 0, 0, 10, l),
                    Op::Approve { who: ALICE, owner: ALICE, idx: 1, spender: CAROL, exp: None },
                    Op::Approve { who: BOB, owner: BOB, idx: 0, spender: CAROL, exp: None },
                    Op::ApproveAll { who: ALICE, op: CAROL, exp: None },
                    Op::ApproveAll { who: BOB, op: DAVE, exp: None },
                    Op::RevokeAll { who: ALICE, op: CAROL },
                ];
                for (a, o) in [(ALICE, BOB), (BOB, ALICE)] {
                    for i in 0..s.m.pos[a].len() as u32 {
                        v.push(Op::NftTransfer { who: a, owner: a, idx: i, to: o });
                        v.push(Op::NftTransfer { who: CAROL, owner: a, idx: i, to: a });
                        v.push(Op::Give { who: a, idx: i, to: o });
                        v.push(Op::Give { who: a, idx: i, to: a });
                    }
                    v.push(Op::Close { who: a, idx: 0 });
                }
                v
            }),
        },
        &Rights { who: vec![ALICE, BOB, CAROL, DAVE], some: None },
    );
    // grants to everybody at once
    r.run(
        Scenario {
            name: "many grants".into(),
            share: SHARE,
            init: vec![
                add_tier(TIER_A),
                new_pool(T_A, T_B, TIER_A, 0),
                open(ALICE, 0, -20, 20, l),
                open(ALICE, 0, -10, 10, 2 * l),
            ],
            depth: if th { 10 } else { 8 },
            alphabet: Box::new(|_, _| {
                let mut v = vec![Op::NftTransfer { who: VAULT, owner: ALICE, idx: 0, to: ALICE }, Op::Wait { ms: 4000, blocks: 4 }];
                for (i, who) in [ADMIN, BOB, CAROL, DAVE, VAULT].into_iter().enumerate() {
                    let exp = if i == 1 { Some(Exp::Height(H0 + 3)) } else { None };
                    v.push(Op::Approve { who: ALICE, owner: ALICE, idx: 0, spender: who, exp });
                    v.push(Op::Revoke { who: ALICE, owner: ALICE, idx: 0, spender: who });
                    if i < 2 {
                        v.push(Op::ApproveAll { who: ALICE, op: who, exp: None });
                    }
                }
                v
            }),
        },
        &Rights { who: vec![ADMIN, BOB, CAROL, DAVE, VAULT], some: None },
    );
    match spenders(if th { 300 } else { 70 }) {
        Err(e) => return r.fail(format!("[dozens of approvals] {e}")),
        Ok(n) => {
            r.states += n;
            r.transitions += n;
            r.traces += 1;
            r.details.insert("dozens of approvals".into(), serde_json::json!({ "approvals": n }));
        }
    }
    // a list longer than one byte counts
    let mut init = two_pools();
    for i in 1..300u32 {
        init.push(open(ALICE, i as usize % 2, -10 * (1 + i as i32 % 30), 10, l + i as u128));
    }
    init.push(swap(DAVE, 0, true, 500, true));
    r.run(
        Scenario {
            name: "hundreds of positions".into(),
            share: SHARE,
            init,
            depth: if th { 2 } else { 1 },
            alphabet: Box::new(|s, _| {
                let mut v = vec![Op::ApproveAll { who: ALICE, op: CAROL, exp: None }];
                for idx in [1, 255, 256, 257, s.m.pos[ALICE].len() as u32 - 1] {
                    v.push(Op::Approve { who: ALICE, owner: ALICE, idx, spender: CAROL, exp: None });
                    v.push(Op::NftTransfer { who: CAROL, owner: ALICE, idx, to: BOB });
                }
                v
            }),
        },
        &Rights { who: vec![ALICE, CAROL], some: Some(vec![0, 1, 2, 254, 255, 256, 257, 258, 298, 299, 300]) },
    );
}
