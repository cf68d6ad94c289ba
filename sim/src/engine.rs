//! Choices, events and verdicts of simulated runs. Every decision of a run - workload, schedule,
//! faults - is drawn with `choose`, from a generator that is seeded with (seed, property, run) or
//! from a recorded list of choices; so either of them determines the whole execution. The value 0
//! always stands for the plainest alternative (no preemption, no fault, shortest input).
use crate::rt;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub struct Eng {
    s: [u64; 2],
    replay: Option<Vec<u32>>,
    pos: usize,
    pub count: u64,
    pub hash: u64,
    pub verbose: bool,
    pub trace: Vec<String>,
    pub run_faults: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub seen: u64,
    /// Too much happens in this run to write it out.
    pub quiet: bool,
    pub sink: Option<fn(&str)>,
    pub run: u64,
    pub clock: u64,
    pub ts: u64,
    tolerate: bool,
}
struct Cell(UnsafeCell<Eng>);
// Only the simulated thread that holds the token (or, between runs, the controller) gets here.
unsafe impl Sync for Cell {}
static ENG: Cell = Cell(UnsafeCell::new(Eng {
    s: [1, 2], replay: None, pos: 0, count: 0, hash: 0, verbose: false, trace: Vec::new(), run_faults: 0,
    faults: BTreeMap::new(), probes: BTreeMap::new(), seen: 0, quiet: false, sink: None, run: 0, clock: 0, ts: 0, tolerate: false,
}));
#[allow(clippy::mut_from_ref)]
pub fn eng() -> &'static mut Eng { unsafe { &mut *ENG.0.get() } }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Starts a run; `replay` overrides the generator, and zeros follow when it is used up.
pub fn begin(seed: u64, prop: &str, run: u64, replay: Option<Vec<u32>>) {
    let e = eng();
    let mut k = mix(seed);
    for b in prop.bytes() { k = mix(k ^ b as u64); }
    k = mix(k ^ run);
    e.s = [mix(k ^ 0xA5A5), mix(k ^ 0x5A5A5A) | 1];
    e.replay = replay;
    e.pos = 0;
    e.count = 0;
    e.hash = 0xcbf29ce484222325;
    e.trace.clear();
    e.run_faults = 0;
    e.run = run;
    e.clock = 0;
    e.quiet = false;
    e.ts = 0;
    e.seen = 0xcbf29ce484222325;
}

fn next(e: &mut Eng) -> u64 {
    // xoroshiro128+
    let (a, mut b) = (e.s[0], e.s[1]);
    let r = a.wrapping_add(b);
    b ^= a;
    e.s[0] = a.rotate_left(24) ^ b ^ (b << 16);
    e.s[1] = b.rotate_left(37);
    mix(r)
}

pub fn h(v: u64) {
    let e = eng();
    e.hash = (e.hash ^ v).wrapping_mul(0x100000001b3).rotate_left(23);
}

pub fn choose(n: u32) -> u32 {
    if n < 2 { return 0; }
    let e = eng();
    let v = match &e.replay {
        Some(l) => { let v = l.get(e.pos).copied().unwrap_or(0); e.pos += 1; v.min(n - 1) }
        None => ((next(e) >> 32).wrapping_mul(n as u64) >> 32) as u32,
    };
    e.count += 1;
    unsafe { rt::rt_rec(v) };
    h(v as u64 ^ ((n as u64) << 32));
    v
}
pub fn below(n: usize) -> usize { choose(n as u32) as usize }
/// True with probability num/den; choice 0 means false.
pub fn chance(num: u32, den: u32) -> bool { choose(den) >= den - num.min(den) }
pub fn pick<T: Copy>(l: &[T]) -> T { l[below(l.len())] }
pub fn wide() -> u64 { ((choose(u32::MAX) as u64) << 32) | choose(u32::MAX) as u64 }

pub fn switched(from: u32, to: u32, step: u64) {
    h(((from as u64) << 8 | to as u64) ^ (step << 16));
    let e = eng();
    if e.verbose && (!e.quiet || e.trace.len() < 2000) {
        rt::unmetered(|| e.trace.push(format!("{:>12} ns  step {:<6} switch T{} -> T{}", rt::now().saturating_sub(START), step, from, to)));
    }
}
/// Logical time: orders the calls and returns of a history.
pub fn tick() -> u64 { let e = eng(); e.ts += 1; e.ts }
/// When the simulated clock starts.
pub const START: u64 = 1_000_000_000_000;

/// Something happened: goes into the run's hash, and in words into its trace.
pub fn event(code: u64, f: impl FnOnce() -> String) {
    h(code);
    let e = eng();
    e.seen = (e.seen ^ mix(code ^ (rt::me() as u64) << 56)).wrapping_mul(0x100000001b3).rotate_left(23);
    if e.verbose && (!e.quiet || e.trace.len() < 2000) {
        rt::unmetered(|| {
            let me = rt::me();
            let mut t = String::new();
            let _ = write!(t, "{:>12} ns  T{} {}", if me < 0 { e.clock } else { rt::now().saturating_sub(START) + e.clock }, me.max(0), f());
            e.trace.push(t);
        });
    }
}
pub fn fault(kind: &'static str) {
    let e = eng();
    e.run_faults += 1;
    rt::unmetered(|| *e.faults.entry(kind).or_insert(0) += 1);
    event(0xFA, || format!("fault: {}", kind));
}
/// Counts how often an interesting situation was reached.
pub fn probe(kind: &'static str) { rt::unmetered(|| *eng().probes.entry(kind).or_insert(0) += 1) }

#[macro_export]
macro_rules! ev { ($code:expr, $($a:tt)*) => { $crate::engine::event($code as u64, || format!($($a)*)) } }

/// The property (or one of the guarantees behind every property) is broken: ends this process.
pub fn violate(class: &str, msg: String) -> ! {
    let e = eng();
    let msg: String = msg.chars().map(|c| if c.is_control() { ' ' } else { c }).take(2000).collect();
    let text = format!("{}\n{}\n{:016x}\n{}", class, msg, e.hash, e.trace.join("\n"));
    match e.sink { Some(f) => f(&text), None => println!("{}", text) }
    rt::quit(3)
}

/// Whether a constructor accepts its arguments: refusing them (by its documented panic) is fine.
pub fn accepts<R>(f: impl FnOnce() -> R) -> bool {
    eng().tolerate = true;
    let r = rt::harness(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok());
    eng().tolerate = false;
    r
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if eng().tolerate { return; }
        let cut = rt::in_cut();
        rt::harness(|| {
            let what = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            let at = info.location().map(|l| {
                // Independent of where the sources lie and of line numbers.
                let f = l.file();
                let f = f.rsplit_once("/src/").map(|x| x.1).unwrap_or(f);
                format!("{}:{}", f, l.line())
            }).unwrap_or_default();
            if cut { violate("panic", format!("the code under test panicked: {} ({})", what, at)); }
            eprintln!("harness error: {} ({:?})", what, info.location().map(|l| (l.file(), l.line())));
            rt::quit(4)
        })
    }));
}
