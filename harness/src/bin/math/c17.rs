//! C17: the tick map. Slot mapping of every tick at every spacing; the search from every phase
//! of a chunk over all single ticks around the horizon and all small sets of ticks on the
//! boundaries; the tick queries of the contract in every state reachable by opening and closing
//! positions on chunk and range boundaries.
use decimal::Decimal;
use mc::alpha::*;
use mc::chain::*;
use mc::engine::*;
use mc::model::*;
use mc::num::*;
use mc::observe;
use mc::ops::*;
use mc::par::*;
use mc::report::Report;
use oraiswap_v3::msg::QueryMsg;
use oraiswap_v3::sqrt_price::SqrtPrice;
use oraiswap_v3::state;
use oraiswap_v3::{position_to_tick, tick_to_position, LiquidityTick, PoolKey};
use serde_json::json;
use std::collections::BTreeSet;

const SPACINGS: [u16; 12] = [1, 2, 3, 5, 7, 10, 33, 60, 63, 64, 65, 100];

pub fn run(r: &mut Report) {
    if let Err(e) = go(r) {
        r.fail(e);
    }
    if r.violation.is_none() {
        queries(r);
    }
}

fn key(s: u16) -> PoolKey {
    MPool { tx: T_A, ty: T_B, fee: 1_000_000_000, s: s as i32, price: 0, tick: 0, pf: [0; 2], receiver: 0, start: 0 }.key()
}
/// a tick map with these ticks
fn map(set: &[i32], s: u16, k: &PoolKey) -> Result<Kv, String> {
    let mut kv = Kv::default();
    for t in set {
        match tried(|| state::flip_bitmap(&mut kv, true, *t, s, k)) {
            Some(()) => (),
            None => return Err(format!("tick {t} (spacing {s}) cannot be marked in {set:?}")),
        }
    }
    Ok(kv)
}
/// both searches from `from` against the set
fn search(kv: &Kv, set: &[i32], from: i32, s: u16, k: &PoolKey, far: bool) -> Result<u64, String> {
    let m = max_tick(s as i32);
    let span = HORIZON * s as i32;
    let down = set.iter().cloned().filter(|t| *t <= from && *t >= from - span).max();
    let up = set.iter().cloned().filter(|t| *t > from && *t <= from + span).min();
    let got = tried_plain(|| state::prev_initialized(kv, from, s, k));
    if got != Some(down) {
        return Err(format!("spacing {s}, ticks {set:?}: search down from {from} finds {got:?}, should find {down:?}"));
    }
    let got = tried_plain(|| state::next_initialized(kv, from, s, k));
    if got != Some(up) {
        return Err(format!("spacing {s}, ticks {set:?}: search up from {from} finds {got:?}, should find {up:?}"));
    }
    let mut n = 2;
    if far {
        // the step of a swap: to the tick found or the horizon, cut at the limit
        for (x2y, found) in [(true, down), (false, up)] {
            let (stop, init) = match found {
                Some(t) => (t, true),
                None => (if x2y { (from - span).max(-m) } else { (from + span).min(m) }, false),
            };
            let p = price_at(stop);
            for lim in [p - 1, p, p + 1, limit_of(x2y)] {
                let want = if found.is_none() && stop == from {
                    None
                } else if (x2y && p > lim) || (!x2y && p <= lim) {
                    Some((p, Some((stop, init))))
                } else {
                    Some((lim, None))
                };
                let got = tried(|| state::get_closer_limit(kv, SqrtPrice::new(lim), x2y, from, s, k)).map(|(p, t)| (p.get(), t));
                n += 1;
                // a limit exactly on an uninitialized horizon or met downwards stops there either way
                let same = match (&got, &want) {
                    (Some(a), Some(b)) => a.0 == b.0 && (a.1 == b.1 || (p == lim && !init)),
                    (a, b) => a.is_none() && b.is_none(),
                };
                if !same {
                    return Err(format!("spacing {s}, ticks {set:?}: step from {from} (down {x2y}) with limit {lim} goes to {got:?}, should go to {want:?}"));
                }
            }
        }
    }
    Ok(n)
}

fn go(r: &mut Report) -> Result<(), String> {
    // 1. slots
    let n = sweep(100, |i| {
        let s = i as u16 + 1;
        let m = max_tick(s as i32);
        let mut last: Option<i32> = None;
        let mut n = 0;
        for t in (-m..=m).step_by(s as usize) {
            let Some((c, bit)) = tried_plain(|| tick_to_position(t, s)) else {
                return Err(format!("tick {t} at spacing {s} has no slot"));
            };
            let slot = c as i32 * 64 + bit as i32;
            if bit > 63 || last.map(|l| slot <= l).unwrap_or(false) {
                return Err(format!("tick {t} at spacing {s} is in slot {c}/{bit}, the tick below in {last:?}"));
            }
            last = Some(slot);
            let back = tried_plain(|| position_to_tick(c, bit, s));
            if back != Some(t) {
                return Err(format!("slot {c}/{bit} of tick {t} at spacing {s} maps back to {back:?}"));
            }
            n += 2;
        }
        for t in [MAX_TICK + 1, -MAX_TICK - 1, m + s as i32, -m - s as i32] {
            if t.abs() > MAX_TICK && tried_plain(|| tick_to_position(t, s)).is_some() {
                return Err(format!("tick {t} is out of bounds and has a slot at spacing {s}"));
            }
        }
        if s > 1 {
            for t in [1, -1, m - 1, -m + 1, s as i32 + 1] {
                if tried_plain(|| tick_to_position(t, s)).is_some() {
                    return Err(format!("tick {t} is not aligned and has a slot at spacing {s}"));
                }
            }
        }
        Ok(n)
    })?;
    r.states += n / 2;
    r.transitions += n;
    r.details.insert("slots".into(), json!({"ticks_of_all_spacings": n / 2}));
    // 2. search: every phase of the chunk x every single tick around the horizon
    let spac: Vec<u16> = if r.thorough() { (1..=100).collect() } else { SPACINGS.to_vec() };
    let th = r.thorough();
    let n = sweep(spac.len() * 64, |j| {
        let s = spac[j / 64];
        let si = s as i32;
        let k = key(s);
        let from = (j % 64) as i32 * si;
        let mut n = search(&Kv::default(), &[], from, s, &k, true)?;
        for d in -260..=260 {
            let set = [from + d * si];
            if set[0].abs() > max_tick(si) {
                continue;
            }
            let kv = map(&set, s, &k)?;
            n += search(&kv, &set, from, s, &k, d.abs() > 250 || d.abs() < 3)?;
        }
        // pairs and triples on the boundaries of bit, chunk and horizon, negative start as well
        let b: Vec<i32> = vec![-257, -256, -255, -129, -128, -65, -64, -63, -1, 0, 1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257];
        for from in [from, from - 64 * si, from - 640 * si] {
            for (i, x) in b.iter().enumerate() {
                for (i2, y) in b.iter().enumerate().skip(i + 1) {
                    let mut set = vec![from + x * si, from + y * si];
                    if set.iter().any(|t| t.abs() > max_tick(si)) {
                        continue;
                    }
                    let kv = map(&set, s, &k)?;
                    n += search(&kv, &set, from, s, &k, false)?;
                    if th || j % 64 % 9 == 0 {
                        for z in b.iter().skip(i2 + 1) {
                            set.push(from + z * si);
                            if set[2].abs() <= max_tick(si) {
                                let kv = map(&set, s, &k)?;
                                n += search(&kv, &set, from, s, &k, false)?;
                            }
                            set.pop();
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += n / 2;
    r.transitions += n;
    r.details.insert("search".into(), json!({"spacings": spac.len(), "phases": 64, "searches": n}));
    // 3. search at the ends of the range
    let n = sweep(100, |i| {
        let s = i as u16 + 1;
        let si = s as i32;
        let m = max_tick(si);
        let k = key(s);
        let near = [0, 1, 2, 62, 63, 64, 65, 255, 256, 257, 258];
        let mut n = 0;
        for side in [-1, 1] {
            for f in near {
                let from = side * (m - f * si);
                for (a, x) in near.iter().enumerate() {
                    for y in near.iter().skip(a) {
                        let set: Vec<i32> = BTreeSet::from([side * (m - x * si), side * (m - y * si)]).into_iter().collect();
                        let kv = map(&set, s, &k)?;
                        n += search(&kv, &set, from, s, &k, x == y)?;
                    }
                }
                n += search(&Kv::default(), &[], from, s, &k, true)?;
            }
        }
        Ok(n)
    })?;
    r.states += n / 2;
    r.transitions += n;
    r.details.insert("search at the ends".into(), json!({"spacings": 100, "searches": n}));
    // 4. marking and unmarking: a tick can be marked once, unmarked once
    let n = sweep(SPACINGS.len(), |i| {
        let s = SPACINGS[i];
        let k = key(s);
        let b: Vec<i32> = [0, 1, 63, 64, -1, -64].iter().map(|x| x * s as i32).collect();
        let mut n = 0;
        for mask in 0..64u32 {
            let set: Vec<i32> = (0..6).filter(|q| mask >> q & 1 == 1).map(|q| b[q]).collect();
            let kv = map(&set, s, &k)?;
            for (q, t) in b.iter().enumerate() {
                let on = mask >> q & 1 == 1;
                n += 3;
                if tried_plain(|| state::get_bitmap(&kv, *t, s, &k)) != Some(on) {
                    return Err(format!("spacing {s}: tick {t} reported wrongly in {set:?}"));
                }
                for v in [true, false] {
                    let mut kv2 = kv.clone();
                    let ok = tried(|| state::flip_bitmap(&mut kv2, v, *t, s, &k)).is_some();
                    if ok != (v != on) {
                        return Err(format!("spacing {s}: setting tick {t} to {v} in {set:?}: ok {ok}"));
                    }
                    if ok {
                        for (q2, t2) in b.iter().enumerate() {
                            let want = if q2 == q { v } else { mask >> q2 & 1 == 1 };
                            if state::get_bitmap(&kv2, *t2, s, &k) != want {
                                return Err(format!("spacing {s}: setting tick {t} to {v} in {set:?} changes tick {t2}"));
                            }
                        }
                    }
                }
            }
        }
        Ok(n)
    })?;
    r.states += 64 * SPACINGS.len() as u64;
    r.transitions += n;
    Ok(())
}

struct Queries {
    ends: Vec<i32>,
}
impl Check for Queries {
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let pl = &s.m.pools[0];
        let key = pl.key();
        let sp = pl.s;
        let m = max_tick(sp);
        let ticks = s.m.ticks(0);
        for e in &self.ends {
            let init: bool = s.w.query(QueryMsg::IsTickInitialized { key: key.clone(), index: *e })?;
            if init != ticks.contains_key(e) {
                return Err(format!("tick {e}: reported initialized {init}, positions give {:?}", ticks.keys()));
            }
        }
        for (i, lo) in self.ends.iter().enumerate() {
            for hi in self.ends.iter().skip(i) {
                let wide = (hi - lo) / sp > 20_000;
                let n = self.ends.len();
                if wide && !(i == 0 && *hi == self.ends[n - 1] || i == 1 && *hi == self.ends[n - 2]) {
                    continue; // of the very long ranges only the longest two
                }
                let inside: Vec<i32> = ticks.keys().cloned().filter(|t| lo <= t && t <= hi).collect();
                let n: u32 = s
                    .w
                    .query(QueryMsg::LiquidityTicksAmount { pool_key: key.clone(), lower_tick: *lo, upper_tick: *hi })
                    .map_err(|e| format!("count of ticks from {lo} to {hi}: {e}"))?;
                if n as usize != inside.len() {
                    return Err(format!("count of ticks from {lo} to {hi}: {n}, there are {inside:?}"));
                }
                for down in [false, true] {
                    let chunks: Vec<(u16, u64)> = s
                        .w
                        .query(QueryMsg::TickMap { pool_key: key.clone(), lower_tick_index: *lo, upper_tick_index: *hi, x_to_y: down })
                        .map_err(|e| format!("tick map from {lo} to {hi}: {e}"))?;
                    let mut got = vec![];
                    for (c, bits) in &chunks {
                        for b in 0..64 {
                            if bits >> b & 1 == 1 {
                                got.push(observe::slot_tick(*c, b, sp));
                            }
                        }
                    }
                    let order: Vec<u16> = chunks.iter().map(|c| c.0).collect();
                    let mut sorted = order.clone();
                    sorted.sort();
                    sorted.dedup();
                    if down {
                        sorted.reverse();
                    }
                    if order != sorted {
                        return Err(format!("tick map from {lo} to {hi}, downwards {down}: chunks in order {order:?}"));
                    }
                    got.sort();
                    // whole chunks: everything in range, nothing that is not initialized
                    if inside.iter().any(|t| !got.contains(t)) || got.iter().any(|t| !ticks.contains_key(t)) {
                        return Err(format!("tick map from {lo} to {hi}: {got:?}, initialized in the range are {inside:?}"));
                    }
                    // nothing from beyond the chunks the range touches
                    let slot = |t: i32| (t / sp + MAX_TICK / sp) / 64;
                    if order.iter().any(|c| (*c as i32) < slot(*lo) || (*c as i32) > slot(*hi)) {
                        return Err(format!("tick map from {lo} to {hi}: chunks {order:?}"));
                    }
                    t.add("ranges compared", 1);
                }
                // listing of the ticks in the range, in the order asked for
                for rev in [false, true] {
                    let mut ask = inside.clone();
                    if rev {
                        ask.reverse();
                    }
                    let l: Vec<LiquidityTick> = s
                        .w
                        .query(QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: ask.clone() })
                        .map_err(|e| format!("listing of {ask:?}: {e}"))?;
                    let got: Vec<(i32, i128)> =
                        l.iter().map(|x| (x.index, x.liquidity_change.get() as i128 * if x.sign { 1 } else { -1 })).collect();
                    let want: Vec<(i32, i128)> = ask.iter().map(|t| (*t, ticks[t].0)).collect();
                    if got != want {
                        return Err(format!("listing of {ask:?}: {got:?}, should be {want:?}"));
                    }
                }
            }
        }
        // a tick that is not initialized makes the listing fail, as do ranges that make no sense
        for e in &self.ends {
            if !ticks.contains_key(e) {
                let l: Result<Vec<LiquidityTick>, _> = s.w.query(QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: vec![*e] });
                if l.is_ok() {
                    return Err(format!("tick {e} is listed without being initialized"));
                }
            }
        }
        let mut bad = vec![(m, -m), (sp, 0), (-m - sp, 0), (0, m + sp), (i32::MIN, 0), (0, i32::MAX)];
        if sp > 1 {
            bad.extend([(1, sp), (0, 1), (-1, sp), (-m + 1, m)]);
        }
        for (lo, hi) in bad {
            let n: Result<u32, _> = s.w.query(QueryMsg::LiquidityTicksAmount { pool_key: key.clone(), lower_tick: lo, upper_tick: hi });
            if let Ok(n) = n {
                return Err(format!("count of ticks from {lo} to {hi} at spacing {sp} gives {n} instead of an error"));
            }
            t.add("refused ranges", 1);
        }
        Ok(())
    }
}

fn queries(r: &mut Report) {
    let th = r.thorough();
    for (tier, ends) in [
        (TIER_B, vec![-221_818, -221_817, -221_755, -221_754, -106, -1, 0, 1, 21, 22, 85, 86, 149, 150, 221_754, 221_817, 221_818]),
        (TIER_A, vec![-221_810, -221_800, -221_180, -221_170, -10, 0, 10, 250, 260, 890, 900, 221_800, 221_810]),
        (TIER_H, vec![-221_800, -221_700, -215_500, -215_400, 0, 100, 215_400, 221_700, 221_800]),
    ] {
        let s = tier.1 as i32;
        let e2 = ends.clone();
        r.run(
            Scenario {
                name: format!("queries at spacing {s}"),
                share: 0,
                init: one_pool(tier, 0, price_at(0)),
                depth: if th { 4 } else { 3 },
                alphabet: Box::new(move |st, _| {
                    let l = 1_000_000 * E6;
                    let mut v = closes(st, &[ALICE]);
                    for (i, e) in e2.iter().enumerate() {
                        if i + 1 < e2.len() {
                            v.push(open(ALICE, 0, *e, e2[i + 1], l));
                        }
                        if th && i + 4 < e2.len() {
                            v.push(open(ALICE, 0, *e, e2[i + 4], 3 * l));
                        }
                    }
                    v
                }),
            },
            &Queries { ends },
        );
    }
    if r.violation.is_none() {
        if let Err(e) = pages(r) {
            r.fail(e);
        }
    }
}

/// more chunks than one answer holds, and more ticks than one listing accepts
fn pages(r: &mut Report) -> Result<(), String> {
    let mut st = State::new(0);
    for op in one_pool(TIER_B, 0, price_at(0)) {
        step(&mut st, &op);
    }
    let n = 1700;
    let mut want = vec![];
    for i in 0..n {
        let lo = i * 64 + 10 - 64 * n / 2;
        let o = step(&mut st, &open(ALICE, 0, lo, lo + 1, E6 * 1000));
        if !o.real.ok {
            return Err(format!("opening {lo}: {}", o.real.err));
        }
        want.extend([lo, lo + 1]);
    }
    let key = st.key(0);
    let m = MAX_TICK;
    for down in [false, true] {
        let (mut lo, mut hi) = (-m, m);
        let mut got: Vec<i32> = vec![];
        for round in 0.. {
            if round > 20 {
                return Err("paging through the tick map does not come to an end".into());
            }
            let chunks: Vec<(u16, u64)> =
                st.w.query(QueryMsg::TickMap { pool_key: key.clone(), lower_tick_index: lo, upper_tick_index: hi, x_to_y: down })?;
            r.transitions += 1;
            for (c, bits) in &chunks {
                got.extend((0..64).filter(|b| bits >> b & 1 == 1).map(|b| observe::slot_tick(*c, b, 1)));
            }
            let Some((c, _)) = chunks.last() else { break };
            // continue after the last chunk of the answer
            if down {
                hi = observe::slot_tick(*c, 0, 1) - 1;
                if hi < -m {
                    break;
                }
            } else {
                lo = observe::slot_tick(*c, 63, 1) + 1;
                if lo > m {
                    break;
                }
            }
        }
        got.sort();
        if got != want {
            return Err(format!("paging through the tick map, downwards {down}: {} ticks instead of {}", got.len(), want.len()));
        }
    }
    let c: u32 = st.w.query(QueryMsg::LiquidityTicksAmount { pool_key: key.clone(), lower_tick: -m, upper_tick: m })?;
    if c as usize != want.len() {
        return Err(format!("count {c} instead of {}", want.len()));
    }
    // listings up to the limit return everything, in order
    for k in [1usize, 100, 779, 780] {
        let l: Vec<LiquidityTick> = st.w.query(QueryMsg::LiquidityTicks { pool_key: key.clone(), tick_indexes: want[..k].to_vec() })?;
        if l.iter().map(|x| x.index).collect::<Vec<_>>() != want[..k] {
            return Err(format!("listing of {k} ticks"));
        }
    }
    r.traces += 1;
    r.states += n as u64;
    r.details.insert("pages".into(), json!({"chunks": n, "ticks": want.len()}));
    Ok(())
}
