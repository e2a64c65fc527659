//! token movements: reported = moved = predicted, change comes back once
use crate::c01::{native_alphabet, native_pools, two_pools};
use crate::c04::{layouts, setup, swaps};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::num::*;
use mc::ops::*;
use mc::report::Report;

pub struct Moves;
impl Check for Moves {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let d = &c.done;
        if funds_of(c.op).is_some() && d.real.ok && !d.pred.ok && d.pred.why.starts_with("not enough") {
            return Err(format!("accepted although too few coins are attached ({:?})", d.attached));
        }
        if !d.real.ok {
            if d.delta != <[[i128; NT]; NA]>::default() {
                return Err("a failed operation moved tokens".into());
            }
            if d.pred.ok {
                return Err(format!("refused although everything needed is there: {}", d.real.err));
            }
            return Ok(());
        }
        if !d.pred.ok {
            return Ok(()); // another property
        }
        if d.delta != d.pred.delta {
            return Err(format!("moved {} instead of {} (attached {:?})", show_delta(&d.delta), show_delta(&d.pred.delta), d.attached));
        }
        t.add("movements agreed", 1);
        t.add("with change", d.attached.iter().any(|(tk, a)| *a > d.pred.need[*tk]) as u64);
        // what the operation reports
        let attr = |k: &str| d.real.attr(k).and_then(|v| v.parse::<u128>().ok());
        let m = &c.before.m;
        match c.op {
            Op::Swap { who, pool, x2y, .. } => {
                let pl = &m.pools[*pool];
                let (ti, to) = if *x2y { (pl.tx, pl.ty) } else { (pl.ty, pl.tx) };
                let moved = (-d.delta[*who][ti] as u128, d.delta[*who][to] as u128);
                if (attr("amount_in"), attr("amount_out")) != (Some(moved.0), Some(moved.1)) {
                    return Err(format!("reported {:?}, moved {:?}", d.real.attrs, moved));
                }
            }
            Op::Route { .. } => {
                let out = d.pred.hops.last().map_or(0, |h| h.3);
                if attr("amount_out") != Some(out) {
                    return Err(format!("reported {:?}, the last hop paid {out}", d.real.attrs));
                }
            }
            Op::Claim { who, idx } => {
                let pl = &m.pools[m.pos[*who][*idx as usize].pool];
                let moved = (d.delta[*who][pl.tx] as u128, d.delta[*who][pl.ty] as u128);
                if (attr("amount_x"), attr("amount_y")) != (Some(moved.0), Some(moved.1)) {
                    return Err(format!("reported {:?}, moved {:?}", d.real.attrs, moved));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(
        Scenario {
            name: "native coins".into(),
            share: SHARE,
            init: native_pools(),
            depth: if th { 4 } else { 3 },
            alphabet: Box::new(|s, d| {
                let mut v = native_alphabet(s, d);
                v.push(Op::NftBurn { who: BOB, owner: BOB, idx: 0 });
                v.push(Op::Give { who: BOB, idx: 0, to: DAVE });
                v.push(Op::Withdraw { who: BOB, pool: 0 });
                v
            }),
        },
        &Moves,
    );
    r.run(
        Scenario {
            name: "contract tokens".into(),
            share: 250_000_000_000,
            init: two_pools(),
            depth: if th { 5 } else { 4 },
            alphabet: Box::new(|s, _| {
                let l = 1_000_000 * E6;
                let mut v = vec![
                    open(BOB, 0, 0, 10, 3 * l),
                    open(ALICE, 1, 3, 4, l),
                    open(DAVE, 1, 5, 6, 1),
                    Op::Withdraw { who: ADMIN, pool: 0 },
                    Op::Withdraw { who: BOB, pool: 1 },
                    Op::Share { who: ADMIN, v: 0 },
                    Op::Give { who: ALICE, idx: 0, to: CAROL },
                    Op::NftTransfer { who: BOB, owner: BOB, idx: 0, to: CAROL },
                    Op::NftBurn { who: BOB, owner: BOB, idx: 0 },
                    Op::ApproveAll { who: ALICE, op: DAVE, exp: None },
                    Op::NftBurn { who: DAVE, owner: ALICE, idx: 0 },
                    // coins that a pool of contract tokens has no use for
                    Op::Open { who: BOB, pool: 0, lo: -10, hi: 10, l, slip: ANY_SLIP, funds: Funds::Every(9), mint: true },
                    Op::Swap { who: CAROL, pool: 0, x2y: true, amt: 300, exact_in: true, limit: limit_of(true), funds: Funds::Every(7) },
                    Op::Swap { who: CAROL, pool: 1, x2y: false, amt: 200, exact_in: false, limit: limit_of(false), funds: Funds::Every(7) },
                    Op::Route { who: CAROL, amt: 300, expect: 1, slip: 0, hops: vec![(0, true), (1, true)], funds: Funds::Every(5) },
                ];
                v.extend(closes(s, &[ALICE, BOB]));
                v.extend(claims(s, &[ALICE, BOB, CAROL]));
                for pool in 0..2 {
                    v.extend(swaps(s, pool, CAROL, 1, false, 0));
                }
                for (amt, hops) in [(400, vec![(0, true), (1, true)]), (333, vec![(1, false), (0, false)]), (1, vec![(0, true), (1, true)])] {
                    v.push(Op::Route { who: CAROL, amt, expect: 1, slip: 0, hops, funds: Funds::Exact });
                }
                v
            }),
        },
        &Moves,
    );
    // who is paid when others hold grants
    for (name, init) in [("grants, native coins", native_pools()), ("grants, contract tokens", two_pools())] {
        let mut init = init;
        init.push(swap(CAROL, 0, true, 300, true));
        r.run(
            Scenario {
                name: name.into(),
                share: SHARE,
                init,
                depth: if th { 6 } else { 5 },
                alphabet: Box::new(|s, _| {
                    let mut v = vec![
                        Op::ApproveAll { who: ALICE, op: DAVE, exp: None },
                        Op::ApproveAll { who: BOB, op: DAVE, exp: None },
                        swap(CAROL, 0, false, 200, true),
                    ];
                    for a in [ALICE, BOB] {
                        for idx in 0..s.m.pos[a].len().min(2) as u32 {
                            v.push(Op::Approve { who: a, owner: a, idx, spender: CAROL, exp: None });
                            v.push(Op::Approve { who: a, owner: a, idx, spender: VAULT, exp: None });
                            v.push(Op::NftTransfer { who: CAROL, owner: a, idx, to: BOB });
                            for who in [CAROL, DAVE, VAULT] {
                                v.push(Op::NftBurn { who, owner: a, idx });
                            }
                        }
                        v.push(Op::Claim { who: a, idx: 0 });
                    }
                    v
                }),
            },
            &Moves,
        );
    }
    for y in layouts().into_iter().filter(|y| ["nested", "thin-thick", "half", "top", "bottom", "full"].contains(&y.name)) {
        for coins in [false, true] {
            if coins && !["half", "full"].contains(&y.name) {
                continue;
            }
            let depth = if th { 5 } else { 4 };
            let extra = y.extra.clone();
            let mut init = setup(&y);
            for op in &mut init {
                if let (Op::NewPool { t0, t1, .. }, true) = (op, coins) {
                    (*t0, *t1) = (T_ATOM, T_USDT);
                }
            }
            r.run(
                Scenario {
                    name: format!("amounts{}, {}", if coins { " of coins" } else { "" }, y.name),
                    share: SHARE,
                    init,
                    depth,
                    alphabet: Box::new(move |s, _| {
                        let mut v: Vec<Op> = extra.iter().map(|(lo, hi, l)| open(BOB, 0, *lo, *hi, *l)).collect();
                        v.extend(closes(s, &[ALICE, BOB]));
                        v.extend(claims(s, &[ALICE, BOB]));
                        v.push(Op::Withdraw { who: ADMIN, pool: 0 });
                        v.extend(swaps(s, 0, CAROL, 2, false, 0));
                        v
                    }),
                },
                &Moves,
            );
        }
    }
}
