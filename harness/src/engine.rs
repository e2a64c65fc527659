//! Level-synchronous breadth-first exploration of all operation sequences up to a depth.
use crate::chain::World;
use crate::ops::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// auxiliary history variables of a property
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct Ghost {
    pub v: Vec<i128>,
    pub m: BTreeMap<(usize, i32, i32), i128>,
}

pub type Alphabet = Box<dyn Fn(&State, usize) -> Vec<Op> + Sync + Send>;

pub struct Scenario {
    pub name: String,
    pub share: u64,
    /// operations that lead to the initial state; each must succeed as predicted
    pub init: Vec<Op>,
    pub alphabet: Alphabet,
    pub depth: usize,
}

pub struct Ctx<'a> {
    pub before: &'a State,
    pub op: &'a Op,
    pub done: &'a Done,
    pub after: &'a State,
}
#[derive(Default, Clone)]
pub struct Tally {
    pub n: BTreeMap<&'static str, u64>,
}
impl Tally {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
    pub fn merge(&mut self, o: &Tally) {
        for (k, v) in &o.n {
            *self.n.entry(k).or_default() += v;
        }
    }
}

pub trait Check: Sync {
    fn ghost(&self, _s: &State) -> Ghost {
        Ghost::default()
    }
    /// every explored transition
    fn on_step(&self, _c: &Ctx, _g: &mut Ghost, _t: &mut Tally) -> Result<(), String> {
        Ok(())
    }
    /// every distinct state
    fn on_state(&self, _s: &State, _g: &mut Ghost, _t: &mut Tally) -> Result<(), String> {
        Ok(())
    }
    /// which part of the ledger distinguishes states
    fn hash_ledger(&self, _w: &World, _h: &mut dyn FnMut(u128)) {}
}

pub struct Violation {
    pub scenario: String,
    pub what: String,
    pub path: Vec<String>,
}
#[derive(Default)]
pub struct Explored {
    /// histories that were replayed to their end: states without unexplored successors
    pub leaves: u64,
    pub states: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub depth: usize,
    pub levels: Vec<u64>,
    pub tally: Tally,
    pub outcomes: BTreeMap<&'static str, [u64; 2]>,
    pub violation: Option<Violation>,
    pub sample: Vec<String>,
}

fn h128(c: &dyn Check, s: &State, g: &Ghost) -> u128 {
    let mut a = DefaultHasher::new();
    let mut bb = DefaultHasher::new();
    0x9e3779b97f4a7c15u64.hash(&mut bb);
    let mut both = |x: &dyn Fn(&mut DefaultHasher)| {
        x(&mut a);
        x(&mut bb);
    };
    both(&|h| {
        s.w.kv.hash(h);
        s.w.now.hash(h);
        s.w.height.hash(h);
        s.m.hash(h);
        g.hash(h);
    });
    c.hash_ledger(&s.w, &mut |v| both(&|h| v.hash(h)));
    ((a.finish() as u128) << 64) | bb.finish() as u128
}

pub fn op_kind(op: &Op) -> &'static str {
    match op {
        Op::Open { .. } => "open",
        Op::Close { .. } => "close",
        Op::Claim { .. } => "claim",
        Op::Give { .. } => "give",
        Op::Swap { .. } => "swap",
        Op::Route { .. } => "route",
        Op::Withdraw { .. } => "withdraw",
        Op::Share { .. } => "share",
        Op::Receiver { .. } => "receiver",
        Op::Admin { .. } => "admin",
        Op::AddTier { .. } => "addtier",
        Op::DelTier { .. } => "deltier",
        Op::NewPool { .. } => "newpool",
        Op::NftTransfer { .. } => "nfttransfer",
        Op::NftSend { .. } => "nftsend",
        Op::NftBurn { .. } => "burn",
        Op::Approve { .. } => "approve",
        Op::Revoke { .. } => "revoke",
        Op::ApproveAll { .. } => "approveall",
        Op::RevokeAll { .. } => "revokeall",
        Op::Wait { .. } => "wait",
    }
}

struct Node {
    s: State,
    g: Ghost,
    trail: usize,
}
struct Trails(Mutex<Vec<(usize, Op)>>);
const ROOT: usize = usize::MAX;

fn path_of(sc: &Scenario, trails: &Trails, trail: usize, last: Option<&Op>) -> Vec<String> {
    let mut ops: Vec<Op> = vec![];
    {
        let t = trails.0.lock().unwrap();
        let mut i = trail;
        while i != ROOT {
            ops.push(t[i].1.clone());
            i = t[i].0;
        }
    }
    ops.reverse();
    ops.extend(last.cloned());
    // re-executed so that every message is shown with the pool keys of its moment
    let mut s = State::new(sc.share);
    let mut v = vec![];
    for (i, op) in sc.init.iter().chain(ops.iter()).enumerate() {
        let d = describe(&s.m, op);
        let r = step(&mut s, op);
        v.push(format!(
            "{} {:?}\n     {}\n     -> {}; moved: {}",
            if i < sc.init.len() { "setup" } else { "step " },
            op,
            d,
            if r.real.ok { "ok".to_string() } else { format!("failed: {}", r.real.err) },
            show_delta(&r.delta)
        ));
    }
    v
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}
pub const HANG: Duration = Duration::from_secs(60);

pub fn explore(sc: &Scenario, check: &dyn Check) -> Explored {
    let mut ex = Explored::default();
    let trails = Trails(Mutex::new(vec![]));
    let mut s = State::new(sc.share);
    for op in &sc.init {
        let r = step(&mut s, op);
        assert!(r.real.ok || r.pred.ok, "setup operation {op:?} of {} is not possible: {} {}", sc.name, r.real.err, r.pred.why);
        if !r.real.ok || !r.pred.ok {
            ex.violation = Some(Violation {
                scenario: sc.name.clone(),
                what: format!(
                    "setup operation {op:?}: contract {}, model {}",
                    if r.real.ok { "accepts".into() } else { format!("refuses ({})", r.real.err) },
                    if r.pred.ok { "accepts".to_string() } else { format!("refuses ({} {:?})", r.pred.why, r.pred.fail) }
                ),
                path: path_of(sc, &trails, ROOT, None),
            });
            return ex;
        }
    }
    let mut g = check.ghost(&s);
    let mut tally = Tally::default();
    if let Err(what) = check.on_state(&s, &mut g, &mut tally) {
        ex.violation = Some(Violation { scenario: sc.name.clone(), what, path: path_of(sc, &trails, ROOT, None) });
        return ex;
    }
    let seen: Vec<Mutex<HashSet<u128>>> = (0..64).map(|_| Mutex::new(HashSet::new())).collect();
    seen[0].lock().unwrap().insert(0);
    let h = h128(check, &s, &g);
    seen[(h % 64) as usize].lock().unwrap().insert(h);
    ex.states = 1;
    ex.levels.push(1);
    let mut frontier = vec![Node { s, g, trail: ROOT }];
    let found: Mutex<Option<(usize, Option<Op>, String)>> = Mutex::new(None);
    for depth in 0..sc.depth {
        let stop = AtomicBool::new(false);
        let next_i = AtomicUsize::new(0);
        let results: Mutex<(Vec<Node>, Explored)> = Mutex::new((vec![], Explored::default()));
        let last = depth + 1 == sc.depth;
        let n = threads();
        let clocks: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(0)).collect();
        let doing: Vec<Mutex<Option<(usize, Op)>>> = (0..n).map(|_| Mutex::new(None)).collect();
        let live = AtomicUsize::new(n);
        let t0 = Instant::now();
        std::thread::scope(|sp| {
            for w in 0..n {
                let (stop, next_i, results, found, seen, trails, frontier, live) =
                    (&stop, &next_i, &results, &found, &seen, &trails, &frontier, &live);
                let (clock, doing) = (&clocks[w], &doing[w]);
                sp.spawn(move || {
                    crate::chain::thread_is_watched();
                    let mut out: Vec<Node> = vec![];
                    let mut st = Explored::default();
                    let fail = |trail: usize, op: Option<Op>, what: String| {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some((trail, op, what));
                        }
                        stop.store(true, SeqCst);
                    };
                    'work: loop {
                        let i = next_i.fetch_add(1, Relaxed);
                        if i >= frontier.len() || stop.load(Relaxed) {
                            break;
                        }
                        let node = &frontier[i];
                        let mut children = 0u64;
                        for op in (sc.alphabet)(&node.s, depth) {
                            if stop.load(Relaxed) {
                                break 'work;
                            }
                            *doing.lock().unwrap() = Some((node.trail, op.clone()));
                            clock.store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                            let mut s = node.s.clone();
                            let done = step(&mut s, &op);
                            st.transitions += 1;
                            st.outcomes.entry(op_kind(&op)).or_default()[!done.real.ok as usize] += 1;
                            let mut g = node.g.clone();
                            let c = Ctx { before: &node.s, op: &op, done: &done, after: &s };
                            if let Err(what) = check.on_step(&c, &mut g, &mut st.tally) {
                                fail(node.trail, Some(op), what);
                                break 'work;
                            }
                            if done.real.ok != done.pred.ok {
                                st.pruned += 1;
                                if std::env::var_os("MC_DEBUG").is_some() {
                                    eprintln!("pruned: {:?} real {} {} pred {} {:?}", op, done.real.ok, done.real.err, done.pred.why, done.pred.fail);
                                }
                                continue;
                            }
                            if !done.real.ok {
                                continue; // nothing changed
                            }
                            let h = h128(check, &s, &g);
                            if !seen[(h % 64) as usize].lock().unwrap().insert(h) {
                                continue;
                            }
                            st.states += 1;
                            children += 1;
                            if last {
                                st.leaves += 1;
                            }
                            if let Err(what) = check.on_state(&s, &mut g, &mut st.tally) {
                                fail(node.trail, Some(op), what);
                                break 'work;
                            }
                            if !last {
                                let trail = {
                                    let mut t = trails.0.lock().unwrap();
                                    t.push((node.trail, op.clone()));
                                    t.len() - 1
                                };
                                out.push(Node { s, g, trail });
                            }
                        }
                        if children == 0 {
                            st.leaves += 1;
                        }
                        clock.store(0, SeqCst);
                    }
                    clock.store(0, SeqCst);
                    let mut r = results.lock().unwrap();
                    r.0.append(&mut out);
                    r.1.states += st.states;
                    r.1.transitions += st.transitions;
                    r.1.leaves += st.leaves;
                    r.1.pruned += st.pruned;
                    r.1.tally.merge(&st.tally);
                    for (k, v) in st.outcomes {
                        let e = r.1.outcomes.entry(k).or_default();
                        e[0] += v[0];
                        e[1] += v[1];
                    }
                    live.fetch_sub(1, SeqCst);
                });
            }
            // watchdog: an operation that does not come back is reported, the process then ends
            let (clocks, doing, live, trails) = (&clocks, &doing, &live, &trails);
            sp.spawn(move || {
                while live.load(SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = t0.elapsed().as_millis() as u64;
                    for i in 0..n {
                        let c = clocks[i].load(SeqCst);
                        if c != 0 && now.saturating_sub(c) > HANG.as_millis() as u64 {
                            let d = doing[i].lock().unwrap().clone();
                            if let Some((trail, op)) = d {
                                let mut path = path_of(sc, trails, trail, None);
                                path.push(format!("step  {op:?}\n     -> does not return"));
                                crate::report::hang(&sc.name, path);
                            }
                        }
                    }
                }
            });
        });
        let (next, e) = results.into_inner().unwrap();
        ex.states += e.states;
        ex.transitions += e.transitions;
        ex.leaves += e.leaves;
        ex.pruned += e.pruned;
        ex.tally.merge(&e.tally);
        for (k, v) in e.outcomes {
            let x = ex.outcomes.entry(k).or_default();
            x[0] += v[0];
            x[1] += v[1];
        }
        ex.levels.push(e.states);
        ex.depth = depth + 1;
        if let Some((trail, op, what)) = found.lock().unwrap().take() {
            ex.violation =
                Some(Violation { scenario: sc.name.clone(), what, path: path_of(sc, &trails, trail, op.as_ref()) });
            return ex;
        }
        frontier = next;
        if frontier.is_empty() {
            break;
        }
    }
    ex.tally.merge(&tally);
    let t = trails.0.lock().unwrap().len();
    if t > 0 {
        ex.sample = path_of(sc, &trails, t / 2, None);
    }
    ex
}
