//! The simulator's thread runtime (rt/rt.c) as seen from Rust.
use crate::engine;
use std::alloc::{GlobalAlloc, Layout, System};

extern "C" {
    pub fn rt_begin(seed: u64, cap: u64);
    pub fn rt_policy(maxlen: u32, plain: i32);
    fn rt_long_run(cap: u64);
    pub fn rt_register() -> i32;
    pub fn rt_enter(s: i32);
    pub fn rt_exit();
    pub fn rt_run(s: i32);
    fn rt_sleep(ns: u64);
    fn rt_overshoot(ns: u64);
    fn rt_wall(ns: i64);
    fn rt_child_act(v: i32);
    fn rt_now() -> u64;
    fn rt_spun() -> u64;
    fn rt_counts(o: *mut u64);
    fn rt_act(v: i32) -> i32;
    fn rt_self() -> i32;
    fn rt_yield();
    pub fn rt_rec(v: u32);
    fn rt_rec_open(cap: u32) -> *mut u32;
    fn rt_shared(len: u64) -> *mut u8;
    fn rt_fork() -> i32;
    fn rt_wait(pid: *mut i32, block: i32) -> i32;
    fn rt_limits(bytes: u64, cpu_s: u32, wall_s: u32);
    fn _exit(code: i32) -> !;
    fn mem_add(n: i64);
    fn rt_mem_live() -> i64;
    fn rt_mem_peak() -> i64;
    fn rt_mem_reset();
    fn rt_mem_pause(v: i32) -> i32;
    fn rt_heap_start();
    fn rt_fixed_layout();
    fn heap_alloc(n: u64, align: u64, sys: *mut i32, fresh: *mut i32) -> *mut u8;
    fn heap_dealloc(p: *mut u8, n: u64, align: u64);
    fn heap_owns(p: *mut u8) -> i32;
    fn heap_usable(n: u64, align: u64) -> u64;
}

pub fn sleep(ns: u64) { unsafe { rt_sleep(ns) } }
pub fn overshoot(ns: u64) { unsafe { rt_overshoot(ns) } }
/// The wall clock is stepped.
pub fn wall(ns: i64) { unsafe { rt_wall(ns) } }
/// A run with much to do: threads run until they block, and may take more steps.
pub fn long_run() { unsafe { rt_long_run(40_000_000) } }
pub fn child_act(v: bool) { unsafe { rt_child_act(v as i32) } }
pub fn now() -> u64 { unsafe { rt_now() } }
/// By how many ns the clock moved because it was read again and again.
pub fn spun() -> u64 { unsafe { rt_spun() } }
/// What happens within this time of each other counts as simultaneous.
pub fn tie() -> u64 { if spun() > 0 { 1_000_000 } else { 0 } }
/// switches, preemptions, clock jumps, scheduling points
pub fn counts() -> [u64; 4] { let mut o = [0; 4]; unsafe { rt_counts(o.as_mut_ptr()) }; o }
/// The simulated thread that runs, -1 outside of runs.
pub fn me() -> i32 { unsafe { rt_self() } }
/// A scheduling point.
pub fn yield_() { unsafe { rt_yield() } }
pub fn quit(code: i32) -> ! { unsafe { _exit(code) } }
pub fn rec_open(cap: u32) -> *mut u32 { unsafe { rt_rec_open(cap) } }
pub fn shared(len: usize) -> *mut u8 { unsafe { rt_shared(len as u64) } }
/// How a child ended.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End { Code(i32), Signal(i32) }
/// Runs `f` in a child process, which ends with it. Returns the child's pid.
pub fn fork(f: impl FnOnce() -> i32) -> i32 {
    let p = unsafe { rt_fork() };
    assert!(p >= 0, "cannot fork");
    if p == 0 { let c = f(); quit(c) }
    p
}
/// Waits for a child (-1: any); None if it is still running and `block` is false.
pub fn wait(mut pid: i32, block: bool) -> Option<(i32, End)> {
    let r = unsafe { rt_wait(&mut pid, block as i32) };
    if r == 0 { return None; }
    Some((pid, if r >> 16 != 0 { End::Signal(r >> 16) } else { End::Code(r >> 8 & 255) }))
}
pub fn limits(bytes: u64, cpu_s: u32, wall_s: u32) { unsafe { rt_limits(bytes, cpu_s, wall_s) } }

/// The allocator, which counts the bytes in use.
pub struct Meter;
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        mem_add(l.size() as i64);
        let (mut sys, mut fresh) = (0, 0);
        let p = heap_alloc(l.size() as u64, l.align() as u64, &mut sys, &mut fresh);
        if sys != 0 { System.alloc(l) } else { p }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        mem_add(l.size() as i64);
        let (mut sys, mut fresh) = (0, 0);
        let p = heap_alloc(l.size() as u64, l.align() as u64, &mut sys, &mut fresh);
        if sys != 0 { return System.alloc_zeroed(l); }
        if fresh == 0 && !p.is_null() { std::ptr::write_bytes(p, 0, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        mem_add(-(l.size() as i64));
        if heap_owns(p) != 0 { heap_dealloc(p, l.size() as u64, l.align() as u64) } else { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if heap_owns(p) == 0 { mem_add(n as i64 - l.size() as i64); return System.realloc(p, l, n); }
        let a = l.align() as u64;
        if heap_usable(l.size() as u64, a) == heap_usable(n as u64, a) { mem_add(n as i64 - l.size() as i64); return p; }
        let m = Layout::from_size_align_unchecked(n, l.align());
        let q = { let (mut sys, mut fresh) = (0, 0); let q = heap_alloc(n as u64, a, &mut sys, &mut fresh); if sys != 0 { System.alloc(m) } else { q } };
        if q.is_null() { return q; }
        mem_add(n as i64 - l.size() as i64);
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        heap_dealloc(p, l.size() as u64, a);
        q
    }
}
#[global_allocator]
static METER: Meter = Meter;
/// From here on what this process allocates lies at addresses that only depend on the order of its
/// allocations.
pub fn heap_start() { unsafe { rt_heap_start() } }
/// Stacks and code at the same addresses every time, as far as the system lets us choose.
pub fn fixed_layout() { unsafe { rt_fixed_layout() } }
/// Bytes in use.
pub fn live() -> i64 { unsafe { rt_mem_live() } }
/// What `f` returns, and how many bytes more than at its start were in use during it.
pub fn metered<R>(f: impl FnOnce() -> R) -> (R, i64) {
    let before = unsafe { rt_mem_reset(); rt_mem_live() };
    let r = f();
    (r, unsafe { rt_mem_peak() } - before)
}
/// Does not count what `f` allocates and releases.
pub fn unmetered<R>(f: impl FnOnce() -> R) -> R {
    let o = unsafe { rt_mem_pause(1) };
    let r = f();
    unsafe { rt_mem_pause(o); }
    r
}

struct Act(i32);
impl Drop for Act { fn drop(&mut self) { unsafe { rt_act(self.0); } } }
/// Runs code under test: its atomic operations and memory accesses are scheduling points, its
/// panics violations.
pub fn cut<R>(f: impl FnOnce() -> R) -> R { let _a = Act(unsafe { rt_act(1) }); f() }
/// Runs harness code called from the code under test.
pub fn harness<R>(f: impl FnOnce() -> R) -> R { let _a = Act(unsafe { rt_act(0) }); f() }
/// Whether the current thread runs code under test.
pub fn in_cut() -> bool { unsafe { let v = rt_act(0); rt_act(v); v > 0 } }

#[no_mangle]
extern "C" fn bsim_choose(n: u32) -> u32 { engine::choose(n) }
#[no_mangle]
extern "C" fn bsim_switched(from: u32, to: u32, step: u64) { engine::switched(from, to, step) }
#[no_mangle]
extern "C" fn bsim_fatal(kind: i32) -> ! {
    match kind {
        1 => engine::violate("deadlock", "every thread waits and no timer is left: the system cannot make progress".into()),
        _ => engine::violate("no-progress", "the run did not finish within its bound of steps".into()),
    }
}
