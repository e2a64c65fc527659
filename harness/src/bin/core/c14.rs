//! routes against their hops, one by one
use crate::c01::{native_pools, two_pools};
use crate::c13::exec_rich;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::ops::*;
use mc::report::Report;

pub struct Routes {
    pub hops: Vec<Vec<(usize, bool)>>,
    pub amounts: Vec<u128>,
}
/// smallest e with ceil(e * (1 - slip)) >= out, and the largest with the same minimum
fn expects(out: u128, slip: u64) -> Vec<u128> {
    let keep = E12 - slip as u128;
    if keep == 0 {
        return vec![0, out, out + 1, u128::MAX / (1 << 40), u128::MAX];
    }
    // largest e whose minimum is still out: e <= out / keep
    let e = small(b(out) * b(E12) / b(keep)).unwrap();
    vec![0, e - 1, e, e + 1, e + 2, out, e * 3, u128::MAX]
}
impl Check for Routes {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, _t: &mut Tally) -> Result<(), String> {
        let d = &c.done;
        if let Op::Route { .. } = c.op {
            if !d.real.ok && c.before.w != c.after.w {
                return Err("a failed route changes something".into());
            }
        }
        Ok(())
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        for hops in &self.hops {
            for amt in &self.amounts {
                // one by one
                let mut one = s.clone();
                let mut a = *amt;
                let mut fail = None;
                for (p, x2y) in hops {
                    let (r, _) = exec_rich(&mut one, &swap(CAROL, *p, *x2y, a, true));
                    if !r.ok {
                        fail = Some(r.err);
                        break;
                    }
                    a = r.attr("amount_out").and_then(|v| v.parse().ok()).ok_or("no amount_out")?;
                }
                let req = |e: u128, slip: u64| format!("route {hops:?} of {amt} expecting {e} with slippage {slip}");
                let mut go = |e: u128, slip: u64| -> Result<(), String> {
                    let mut q = s.clone();
                    let (r, _) = exec_rich(&mut q, &Op::Route { who: CAROL, amt: *amt, expect: e, slip, hops: hops.clone(), funds: Funds::Exact });
                    t.add("routes", 1);
                    let min = pct(e, E12 as u64 - slip, true);
                    let want = fail.is_none() && a >= min;
                    if r.ok != want {
                        return Err(if want {
                            format!("{}: refused ({}) although its hops pay {a}, at least {min}", req(e, slip), r.err)
                        } else if let Some(f) = &fail {
                            format!("{}: accepted although a hop fails ({f})", req(e, slip))
                        } else {
                            format!("{}: accepted although it pays {a}, less than {min}", req(e, slip))
                        });
                    }
                    if !r.ok {
                        if q.w != s.w {
                            return Err(format!("{}: refused, but something changed", req(e, slip)));
                        }
                        t.add("refused", 1);
                        return Ok(());
                    }
                    t.add("accepted", 1);
                    if q.w.kv != one.w.kv {
                        return Err(format!("{}: pools differ from swapping hop by hop", req(e, slip)));
                    }
                    if q.w.ledger != one.w.ledger {
                        return Err(format!("{}: balances differ from swapping hop by hop", req(e, slip)));
                    }
                    Ok(())
                };
                if fail.is_some() {
                    go(0, 0)?;
                    continue;
                }
                for slip in [0, 1, 10_000_000_000, 333_333_333_333, 500_000_000_000, 999_999_999_999, E12 as u64] {
                    let mut v = expects(a, slip);
                    v.sort();
                    v.dedup();
                    for e in v {
                        go(e, slip)?;
                    }
                }
            }
        }
        Ok(())
    }
}
/// about the liquidity that all ticks of a spacing of 1 can hold together
const CAP: u128 = u128::MAX / 443_637;
fn triangle() -> Vec<Op> {
    let l = 1_000_000 * E6;
    let mut v = two_pools();
    v.push(new_pool(T_A, T_C, TIER_A, 10));
    v.push(new_pool(T_A, T_B, TIER_B, 1));
    v.push(open(ALICE, 2, -20, 30, 2 * l));
    v.push(open(ALICE, 3, -20, 30, l / 5));
    v
}
/// all chains of hops through the pools' tokens up to a length
fn chains(init: &[Op], share: u64, n: usize) -> Vec<Vec<(usize, bool)>> {
    let mut s = State::new(share);
    for op in init {
        step(&mut s, op);
    }
    let ends = |h: &(usize, bool)| {
        let p = &s.m.pools[h.0];
        if h.1 { (p.tx, p.ty) } else { (p.ty, p.tx) }
    };
    let all: Vec<(usize, bool)> = (0..s.m.pools.len()).flat_map(|p| [(p, true), (p, false)]).collect();
    let mut out: Vec<Vec<(usize, bool)>> = all.iter().map(|h| vec![*h]).collect();
    let mut last = out.clone();
    for _ in 1..n {
        let mut next = vec![];
        for c in &last {
            for h in &all {
                if ends(c.last().unwrap()).1 == ends(h).0 {
                    let mut d = c.clone();
                    d.push(*h);
                    next.push(d);
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    let l = 1_000_000 * E6;
    let c3 = chains(&triangle(), SHARE, 3);
    let c2 = chains(&triangle(), SHARE, 2);
    let sc = |name: &str, init: Vec<Op>, depth: usize| Scenario {
        name: name.into(),
        share: SHARE,
        init,
        depth,
        alphabet: Box::new(move |s, _| {
            let mut v = vec![open(BOB, 0, 0, 10, 3 * l), open(BOB, 1, 3, 4, l), Op::Wait { ms: 1000, blocks: 1 }];
            for p in 0..s.m.pools.len() {
                v.push(swap(CAROL, p, true, 300, true));
                v.push(swap(CAROL, p, false, 200, false));
            }
            for hops in [vec![(0, true), (1, true)], vec![(1, false), (0, false)]] {
                v.push(Op::Route { who: CAROL, amt: 250, expect: 1, slip: 0, hops: hops.clone(), funds: Funds::Exact });
                v.push(Op::Route { who: CAROL, amt: 250, expect: 300, slip: 0, hops, funds: Funds::Exact });
            }
            v.extend(closes(s, &[ALICE, BOB]));
            v
        }),
    };
    r.run(sc("three hops", triangle(), if th { 2 } else { 1 }), &Routes { hops: c3, amounts: vec![1, 3, 50, 333, 1500] });
    r.run(sc("two hops", triangle(), if th { 3 } else { 2 }), &Routes { hops: c2.clone(), amounts: vec![2, 100, 700, 0] });
    // hops whose tokens do not follow each other are swaps all the same, by the amount the one before paid
    let any: Vec<(usize, bool)> = (0..4).flat_map(|p| [(p, true), (p, false)]).collect();
    let mut loose: Vec<Vec<(usize, bool)>> = any.iter().flat_map(|a| any.iter().map(move |b| vec![*a, *b])).filter(|h| !c2.contains(h)).collect();
    loose.extend(any.iter().map(|a| vec![*a; 3]));
    r.run(sc("loose hops", triangle(), if th { 2 } else { 1 }), &Routes { hops: loose, amounts: vec![60, 700] });
    // amounts beyond 64 bits, and not whole numbers of liquidity
    let mut deep = triangle();
    for (p, lo, hi, cap) in [(0, -20, 20, CAP / 30), (1, -9, 8, CAP / 700), (2, -10, 20, CAP / 41), (3, -8, 9, CAP / 900)] {
        deep.push(open(ALICE, p, lo, hi, cap));
    }
    r.run(sc("large amounts", deep, if th { 2 } else { 1 }), &Routes { hops: c2, amounts: vec![7, (1 << 64) + 12_345, 1 << 66, 1 << 71] });
    // around the triangle and back and forth, longer and longer
    let mut long = vec![];
    for ring in [vec![(0, true), (1, true), (2, false)], vec![(2, true), (1, false), (0, false)], vec![(0, true), (3, false)]] {
        for n in 4..=if th { 24 } else { 12 } {
            long.push((0..n).map(|i| ring[i % ring.len()]).collect());
        }
    }
    r.run(sc("many hops", triangle(), 1), &Routes { hops: long, amounts: vec![40, 600] });
    let n2 = chains(&native_pools(), SHARE, 3);
    r.run(sc("native coins", native_pools(), if th { 2 } else { 1 }), &Routes { hops: n2, amounts: vec![1, 5, 100, 700] });
}
