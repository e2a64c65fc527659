//! fees of positions against shares accumulated segment by segment
use crate::c04::layouts;
use crate::gen::*;
use mc::chain::*;
use mc::engine::*;
use mc::ops::*;
use mc::report::Report;

pub struct Fees;
impl Check for Fees {
    fn on_step(&self, c: &Ctx, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let d = &c.done;
        match c.op {
            Op::Claim { .. } => {
                if d.pred.ok && !d.real.ok {
                    return Err(format!("an open position cannot claim: {}", d.real.err));
                }
                if d.real.ok && d.pred.ok && d.delta != d.pred.delta {
                    return Err(format!("the claim paid {} instead of {}", show_delta(&d.delta), show_delta(&d.pred.delta)));
                }
                t.add("claims", 1);
            }
            Op::Close { .. } | Op::NftBurn { .. } if d.pred.ok => {
                if !d.real.ok {
                    return Err(format!("the closing fails and pays nothing: {}", d.real.err));
                }
                if d.delta != d.pred.delta {
                    return Err(format!(
                        "the closing moved {} instead of {} (of which fees {:?})",
                        show_delta(&d.delta),
                        show_delta(&d.pred.delta),
                        d.pred.owed
                    ));
                }
                t.add("closings", 1);
            }
            _ => {}
        }
        Ok(())
    }
    fn on_state(&self, s: &State, _g: &mut Ghost, t: &mut Tally) -> Result<(), String> {
        let ids: Vec<(usize, usize)> = s.m.all_pos().map(|(a, i, _)| (a, i)).collect();
        for (a, i) in ids {
            let mut q = s.clone();
            for second in [false, true] {
                let d = step(&mut q, &Op::Claim { who: a, idx: i as u32 });
                if !d.real.ok {
                    return Err(format!("probe: position {i} of {} cannot claim: {}", ACCTS[a], d.real.err));
                }
                if d.delta != d.pred.delta {
                    return Err(format!(
                        "probe: {}claiming position {i} of {} ({:?}) moved {}, its shares of the fees are {:?}",
                        if second { "again " } else { "" },
                        ACCTS[a],
                        s.m.pos[a][i],
                        show_delta(&d.delta),
                        d.pred.xy
                    ));
                }
                t.add("claim probes", 1);
                t.add("of which paid something", (d.pred.xy != (0, 0)) as u64);
            }
        }
        Ok(())
    }
}
pub fn run(r: &mut Report) {
    let th = r.thorough();
    r.run(crate::mixed::mixed(if th { 6 } else { 5 }), &Fees);
    r.run(crate::gen::comb(250_000_000_000, if th { 3 } else { 2 }), &Fees);
    for y in layouts() {
        let wide = ["thin-thick", "gap", "fine"].contains(&y.name);
        let d = if th { 5 } else { 4 };
        let _ = wide;
        let m = Mix { opens: 3, max_pos: 4, ..MIX };
        r.run(life(&y, 250_000_000_000, d, m), &Fees);
    }
    for (share, name) in [(0, "no protocol share"), (1_000_000_000_000, "all to the protocol"), (1, "tiny share")] {
        for y in layouts().into_iter().filter(|y| ["nested", "half"].contains(&y.name)) {
            let mut sc = life(&y, share, if th { 5 } else { 4 }, Mix { gives: true, limits: 1, ..MIX });
            sc.name = format!("{name}, {}", y.name);
            r.run(sc, &Fees);
        }
    }
}
