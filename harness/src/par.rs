//! Exhaustive sweeps over a numbered space of cases, in parallel.
use crate::chain::guarded;
use crate::engine::threads;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// runs f on every job number below n; f returns the number of comparisons it made; the first
/// disagreement ends the sweep
pub fn sweep(n: usize, f: impl Fn(usize) -> Result<u64, String> + Sync) -> Result<u64, String> {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let total = AtomicU64::new(0);
    let err: Mutex<Option<(usize, String)>> = Mutex::new(None);
    std::thread::scope(|sp| {
        for _ in 0..threads() {
            sp.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= n || stop.load(Relaxed) {
                    break;
                }
                match f(i) {
                    Ok(k) => {
                        total.fetch_add(k, Relaxed);
                    }
                    Err(e) => {
                        let mut g = err.lock().unwrap();
                        if g.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                            *g = Some((i, e));
                        }
                        stop.store(true, SeqCst);
                    }
                }
            });
        }
    });
    match err.into_inner().unwrap() {
        Some((_, e)) => Err(e),
        None => Ok(total.into_inner()),
    }
}

/// result of code under test: None when it reports an error or aborts
pub fn tried<T, E>(f: impl FnOnce() -> Result<T, E>) -> Option<T> {
    match guarded(f) {
        Ok(Ok(v)) => Some(v),
        _ => None,
    }
}
pub fn tried_plain<T>(f: impl FnOnce() -> T) -> Option<T> {
    guarded(f).ok()
}
