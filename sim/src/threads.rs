//! Simulated client threads, and the schedule policy of a run.
use crate::engine::*;
use crate::rt;

/// Draws how the run's threads are interleaved: how long a thread runs before another one may get
/// its turn (0: until it blocks), and whether plain memory accesses are scheduling points, too.
pub fn policy() { policy_of(&[0, 3, 6, 12, 25, 50, 120, 400, 2000]) }
/// The same for threads that do very little.
pub fn short_policy() { policy_of(&[0, 1, 1, 2, 2, 3, 4, 6, 12]) }
/// The same for very long runs: only where threads synchronise, and rarely.
pub fn coarse_policy() { unsafe { rt::rt_policy(pick(&[0, 400, 2000]), 0) } }
fn policy_of(lens: &[u32]) {
    let maxlen = pick(lens);
    let plain = chance(1, 3);
    let maxlen = if plain && maxlen > 0 { maxlen * 6 } else { maxlen };
    unsafe { rt::rt_policy(maxlen, plain as i32) }
}

/// Runs `f(0)..f(n-1)` on simulated threads and waits for all of them.
pub fn run<R: Send + 'static>(n: usize, f: impl Fn(usize) -> R + Send + Sync + 'static) -> Vec<R> {
    let f = std::sync::Arc::new(f);
    let hs: Vec<_> = (0..n).map(|i| {
        let f = f.clone();
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || f(i)).unwrap()
    }).collect();
    hs.into_iter().map(|h| h.join().unwrap()).collect()
}
