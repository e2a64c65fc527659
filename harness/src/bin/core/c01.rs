//! solvency: everybody leaves, in every order, from every reachable state
use crate::c04::{layouts, setup, swaps};
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;
use mc::report::Report;

pub struct Solvent {
    pub dust: i128,
}
/// which pool an operation's token flow belongs to
pub fn flows(c: &Ctx) -> Vec<(usize, [i128; 2])> {
    let one = |pool: usize, m: &Model, d: &[[i128; NT]; NA]| {
        let pl = &m.pools[pool];
        vec![(pool, [d[CONTRACT][pl.tx], d[CONTRACT][pl.ty]])]
    };
    let m = &c.before.m;
    let d = &c.done.delta;
    match c.op {
        Op::Open { pool, .. } | Op::Swap { pool, .. } | Op::Withdraw { pool, .. } => one(*pool, m, d),
        Op::Close { .. } | Op::Claim { .. } | Op::NftBurn { .. } => match &c.done.pred.pos {
            Some(p) => one(p.pool, m, d),
            None => vec![],
        },
        Op::Route { .. } => c
            .done
            .pred
            .hops
            .iter()
            .map(|(p, x2y, i, o)| (*p, if *x2y { [*i as i128, -(*o as i128)] } else { [-(*o as i128), *i as i128] }))
            .collect(),
        _ => vec![],
    }
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in perms(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 3 {
        perms(n)
    } else {
        // all rotations, both ways
        let mut v = vec![];
        for r in 0..n {
            v.push((0..n).map(|i| (i + r) % n).collect());
            v.push((0..n).rev().map(|i| (i + r) % n).collect());
        }
        v
    }
}
impl Check for Solvent {
    fn ghost(&self, s: &State) -> Ghost {
        // everything the setup left in the contract, attributed by pool through a replay of flows:
        // setups here use one position owner per pool, so the pool's balance is read off the model
        let mut v = vec![0i128; 2 * s.m.pools.len()];
        if let [p] = &s.m.pools[..] {
            v = vec![s.w.ledger[CONTRACT][p.tx] as i128, s.w.ledger[CONTRACT][p.ty] as i128];
        } else {
            for i in 0..s.m.pools.len() {
                for p in s.m.pool_pos(i) {
                    if let Some((x, y)) = p.fresh {
                        v[2 * i] += x as i128;
                        v[2 * i + 1] += y as i128;
                    }
                }
            }
        }
        Ghost { v, ..Default::default() }
    }
    fn hash_ledger(&self, w: &World, h: &mut dyn FnMut(u128)) {
        for v in w.ledger[CONTRACT] {
            h(v)
        }
    }
    fn on_step(&self, c: &Ctx, g: &mut Ghost, _t: &mut Tally) -> Result<(), String> {
        if !c.done.real.ok {
            return Ok(());
        }
        for (p, d) in flows(c) {
            g.v[2 * p] += d[0];
            g.v[2 * p + 1] += d[1];
            if g.v[2 * p] < 0 || g.v[2 * p + 1] < 0 {
                return Err(format!("pool {p} has paid out more than its users brought in: {:?}", &g.v[2 * p..2 * p + 2]));
            }
        }
        Ok(())
    }
    fn on_state(&self, s: &State, g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let all: Vec<(usize, usize)> = s.m.all_pos().map(|(a, i, _)| (a, i)).collect();
        for (k, order) in orders(all.len()).into_iter().enumerate() {
            let mut q = s.clone();
            let mut res = g.v.clone();
            let mut ids = all.clone();
            let mut exit = |q: &mut State, op: Op| -> Result<(), String> {
                let before = q.clone();
                let done = step(q, &op);
                if !done.real.ok {
                    return Err(format!("{op:?} fails while leaving in order {order:?}: {}", done.real.err));
                }
                let c = Ctx { before: &before, op: &op, done: &done, after: q };
                for (p, d) in flows(&c) {
                    for j in 0..2 {
                        res[2 * p + j] += d[j];
                        if res[2 * p + j] < 0 {
                            return Err(format!(
                                "leaving in order {order:?}, {op:?}: pool {p} needs tokens of another pool ({:?})",
                                &res[2 * p..2 * p + 2]
                            ));
                        }
                    }
                }
                Ok(())
            };
            let withdraw = |q: &mut State, exit: &mut dyn FnMut(&mut State, Op) -> Result<(), String>| {
                for p in 0..q.m.pools.len() {
                    let who = q.m.pools[p].receiver;
                    exit(q, Op::Withdraw { who, pool: p })?;
                }
                Ok::<(), String>(())
            };
            if k % 2 == 0 {
                withdraw(&mut q, &mut exit)?;
            }
            for o in &order {
                let (a, i) = ids[*o];
                // the last one of this account moves into the freed place
                let last = q.m.pos[a].len() - 1;
                exit(&mut q, Op::Close { who: a, idx: i as u32 })?;
                for id in ids.iter_mut() {
                    if *id == (a, last) {
                        *id = (a, i);
                    }
                }
                t.add("exits", 1);
            }
            if k % 2 == 1 {
                withdraw(&mut q, &mut exit)?;
            }
            let left: Vec<u128> = q.w.ledger[CONTRACT].to_vec();
            if left.iter().any(|l| *l as i128 > self.dust) {
                return Err(format!("after everybody left in order {order:?} the contract still holds {left:?}, more than dust ({})", self.dust));
            }
            t.add("exit orders", 1);
        }
        Ok(())
    }
}

/// two pools sharing a token, with liquidity
pub fn two_pools() -> Vec<Op> {
    let l = 1_000_000 * E6;
    vec![
        add_tier(TIER_A),
        add_tier(TIER_B),
        new_pool(T_A, T_B, TIER_A, 0),
        new_pool(T_B, T_C, TIER_B, 3),
        open(ALICE, 0, -20, 20, l),
        open(BOB, 1, -10, 10, 7 * l),
        Op::Wait { ms: 1357, blocks: 1 },
    ]
}

pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::mixed::mixed(if th { 5 } else { 4 }), &Solvent { dust: 100 });
    r.run(crate::gen::comb(SHARE, if th { 2 } else { 1 }), &Solvent { dust: 400 });
    for y in layouts() {
        let depth = if th { 5 } else { 4 };
        let extra: Vec<_> = y.extra.iter().take(if th { 4 } else { 3 }).cloned().collect();
        r.run(
            Scenario {
                name: format!("one pool, {}", y.name),
                share: SHARE,
                init: setup(&y),
                depth,
                alphabet: Box::new(move |s, _| {
                    let mut v = vec![];
                    if s.m.all_pos().count() < 4 {
                        for (lo, hi, l) in &extra {
                            v.push(open(BOB, 0, *lo, *hi, *l));
                        }
                    }
                    v.extend(closes(s, &[ALICE, BOB]));
                    v.extend(claims(s, &[ALICE, BOB]));
                    v.push(Op::Withdraw { who: ADMIN, pool: 0 });
                    v.extend(swaps(s, 0, CAROL, 2, false, 1));
                    v
                }),
            },
            // a fee counter that goes all the way around takes 2^128 / 10^34 tokens per unit with it
            &Solvent { dust: match y.name {
                "wrap" => 100 + 34_029 * 8,
                // one unit of the price is worth this much
                "full" => 100 + 3_836 * 8,
                _ => 100,
            } },
        );
    }
    let depth = if th { 5 } else { 4 };
    r.run(
        Scenario {
            name: "two pools, routes".into(),
            share: 250_000_000_000,
            init: two_pools(),
            depth,
            alphabet: Box::new(move |s, _| {
                let l = 1_000_000 * E6;
                let mut v = vec![];
                if s.m.all_pos().count() < 4 {
                    v.push(open(BOB, 0, 0, 10, 3 * l));
                    v.push(open(ALICE, 1, 3, 4, l));
                }
                v.extend(closes(s, &[ALICE, BOB]));
                v.extend(claims(s, &[ALICE]));
                for pool in 0..2 {
                    for x2y in [true, false] {
                        v.push(swap(CAROL, pool, x2y, 300, true));
                        v.push(swap(CAROL, pool, x2y, 550, false));
                    }
                }
                for (amt, hops) in [
                    (400, vec![(0, true), (1, true)]),
                    (333, vec![(1, false), (0, false)]),
                    (500, vec![(0, true), (0, false)]),
                ] {
                    v.push(Op::Route { who: CAROL, amt, expect: 1, slip: 0, hops, funds: Funds::Exact });
                }
                v
            }),
        },
        &Solvent { dust: 100 },
    );
    // native coins with change: the second pool of the route takes the same coin again
    r.run(
        Scenario {
            name: "native coins".into(),
            share: SHARE,
            init: native_pools(),
            depth: if th { 4 } else { 3 },
            alphabet: Box::new(native_alphabet),
        },
        &Solvent { dust: 100 },
    );
}
/// atom/usdt, atom/tka and usdt/zcoin; liquidity by ALICE
pub fn native_pools() -> Vec<Op> {
    let l = 1_000_000 * E6;
    vec![
        add_tier(TIER_A),
        new_pool(T_ATOM, T_USDT, TIER_A, 0),
        new_pool(T_ATOM, T_A, TIER_A, 0),
        new_pool(T_USDT, T_Z, TIER_A, 0),
        open(ALICE, 0, -20, 20, l),
        open(ALICE, 1, -20, 20, 2 * l),
        open(ALICE, 2, -20, 20, 3 * l),
    ]
}
pub fn native_alphabet(s: &State, _d: usize) -> Vec<Op> {
    let l = 1_000_000 * E6;
    let mut v = vec![];
    for funds in [Funds::Exact, Funds::Extra(1), Funds::Extra(777), Funds::Every(55), Funds::Short, Funds::Missing] {
        for (pool, lo, hi) in [(0, -10, 10), (0, 10, 20), (0, -20, -10), (1, 0, 10), (1, -30, -20), (1, 20, 30)] {
            if s.m.pos[BOB].len() < 2 {
                v.push(Op::Open { who: BOB, pool, lo, hi, l, slip: ANY_SLIP, funds, mint: pool == 1 });
            }
        }
        for pool in 0..2 {
            for x2y in [true, false] {
                v.push(Op::Swap { who: CAROL, pool, x2y, amt: 300, exact_in: true, limit: limit_of(x2y), funds });
                v.push(Op::Swap { who: CAROL, pool, x2y, amt: 211, exact_in: false, limit: limit_of(x2y), funds });
            }
        }
        for hops in [
            vec![(0, true), (2, true)],
            vec![(1, false), (0, true)],
            vec![(0, true), (0, false), (1, true)],
            vec![(1, true), (1, false), (0, true)],
            vec![(0, false), (1, true), (1, false), (0, true)],
        ] {
            v.push(Op::Route { who: CAROL, amt: 400, expect: 1, slip: 0, hops, funds });
        }
    }
    v.extend(closes(s, &[BOB]));
    v.extend(claims(s, &[ALICE]));
    v.push(Op::Withdraw { who: ADMIN, pool: 0 });
    v
}
