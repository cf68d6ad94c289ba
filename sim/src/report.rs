//! Searching, minimising, replaying and reporting. The process that does this never runs a scenario
//! itself: each run happens in a child forked from it, so that every run - the thousandth of a search
//! as well as a replay - starts from the same pristine state.
use crate::engine::*;
use crate::{execute, rt, ALL};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

const WORKERS: u64 = 8;
const REC: u32 = 4 << 20;
const TEXT: usize = 4 << 20;
const MEMORY: u64 = 4 << 30;
/// Wall-clock limits of one run: these exist for code that loops or blocks out of the simulator's
/// sight. Ordinary runs take milliseconds.
const RUN_CPU: u32 = 50;
const RUN_WALL: u32 = 140;

// ---- what children report ------------------------------------------------------------------------

/// Shared with the child: a length and a text.
static mut SINK: *mut u8 = std::ptr::null_mut();
static mut CHOICES: *mut u32 = std::ptr::null_mut();
fn sink(t: &str) {
    unsafe {
        let n = t.len().min(TEXT - 8);
        std::ptr::copy_nonoverlapping(t.as_ptr(), SINK.add(8), n);
        *(SINK as *mut u64) = n as u64;
    }
}
fn open() {
    unsafe { SINK = rt::shared(TEXT); CHOICES = rt::rec_open(REC); }
    eng().sink = Some(sink);
}
fn told() -> String { unsafe { let n = *(SINK as *const u64) as usize; String::from_utf8_lossy(std::slice::from_raw_parts(SINK.add(8), n)).into_owned() } }
fn choices() -> Vec<u32> { unsafe { let n = (*CHOICES).min(REC) as usize; std::slice::from_raw_parts(CHOICES.add(1), n).to_vec() } }

#[derive(Clone, Default, Debug)]
struct Stats { runs: u64, counts: [u64; 4], sim_ns: u64, max_choices: u64, max_steps: u64, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64> }
impl Stats {
    fn add(&mut self, o: &Stats) {
        self.runs += o.runs;
        for i in 0..4 { self.counts[i] += o.counts[i]; }
        self.sim_ns = self.sim_ns.saturating_add(o.sim_ns);
        self.max_choices = self.max_choices.max(o.max_choices);
        self.max_steps = self.max_steps.max(o.max_steps);
        for (k, v) in &o.faults { *self.faults.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.probes { *self.probes.entry(k.clone()).or_default() += v; }
    }
    fn text(&self) -> String {
        let mut t = format!("{} {} {} {} {} {} {} {}\n", self.runs, self.counts[0], self.counts[1], self.counts[2], self.counts[3], self.sim_ns, self.max_choices, self.max_steps);
        for (k, v) in &self.faults { let _ = writeln!(t, "F {} {}", v, k); }
        for (k, v) in &self.probes { let _ = writeln!(t, "P {} {}", v, k); }
        t
    }
    fn parse(t: &str) -> Option<Stats> {
        let mut l = t.lines();
        let n: Vec<u64> = l.next()?.split(' ').map(|x| x.parse().ok()).collect::<Option<_>>()?;
        if n.len() != 8 { return None; }
        let mut s = Stats { runs: n[0], counts: [n[1], n[2], n[3], n[4]], sim_ns: n[5], max_choices: n[6], max_steps: n[7], ..Stats::default() };
        for x in l {
            let mut p = x.splitn(3, ' ');
            let (k, v, name) = (p.next()?, p.next()?.parse().ok()?, p.next()?.to_string());
            if k == "F" { s.faults.insert(name, v); } else { s.probes.insert(name, v); }
        }
        Some(s)
    }
}

#[derive(Clone, Debug)]
struct Good { hash: u64, seen: u64, eventful: bool, stats: Stats, trace: Vec<String> }
#[derive(Clone, Debug)]
struct Bad { class: String, msg: String, hash: u64, trace: Vec<String>, choices: Vec<u32> }
#[derive(Clone, Debug)]
enum Outcome { Good(Good), Bad(Bad), Broken(String) }

/// Executes one run in a child.
fn attempt(prop: &'static str, seed: u64, run: u64, replay: Option<Vec<u32>>, verbose: bool) -> Outcome {
    unsafe { *(SINK as *mut u64) = 0; *CHOICES = 0; }
    let pid = rt::fork(|| {
        rt::limits(MEMORY, RUN_CPU, RUN_WALL);
        eng().verbose = verbose;
        rt::heap_start();
        execute(prop, seed, run, replay);
        let e = eng();
        let c = rt::counts();
        if rt::spun() > 0 { probe("runs in which something waits by reading the clock again and again"); }
        let s = Stats {
            runs: 1, counts: c, sim_ns: (rt::now() - START).saturating_add(e.clock), max_choices: e.count, max_steps: c[3],
            faults: e.faults.iter().map(|(k, v)| (k.to_string(), *v)).collect(), probes: e.probes.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        };
        let eventful = e.run_faults > 0 || c[1] > 0;
        let mut t = format!("{:016x} {:016x} {}\n{}", e.hash, e.seen, eventful as u8, s.text());
        if verbose { t += "--\n"; t += &e.trace.join("\n"); }
        sink(&t);
        0
    });
    let end = rt::wait(pid, true).map(|x| x.1);
    let t = told();
    let bad = |class: &str, msg: String| Outcome::Bad(Bad { class: class.into(), msg, hash: 0, trace: vec![], choices: choices() });
    match end {
        Some(rt::End::Code(0)) => {
            let (head, trace) = t.split_once("\n--\n").unwrap_or((&t, ""));
            let parse = || {
                let (a, b) = head.split_once('\n')?;
                let w: Vec<&str> = a.split(' ').collect();
                Some(Good { hash: u64::from_str_radix(w[0], 16).ok()?, seen: u64::from_str_radix(w[1], 16).ok()?, eventful: w[2] == "1", stats: Stats::parse(b)?, trace: trace.lines().map(String::from).collect() })
            };
            parse().map_or_else(|| Outcome::Broken(format!("unreadable result of run {}", run)), Outcome::Good)
        }
        Some(rt::End::Code(3)) => {
            let mut l = t.split('\n');
            let mut next = || l.next().unwrap_or("").to_string();
            let (class, msg, hash) = (next(), next(), next());
            Outcome::Bad(Bad { class, msg, hash: u64::from_str_radix(&hash, 16).unwrap_or(0), trace: l.filter(|s| !s.is_empty()).map(String::from).collect(), choices: choices() })
        }
        Some(rt::End::Code(c)) => Outcome::Broken(format!("run {} of {} ended with code {}", run, prop, c)),
        Some(rt::End::Signal(14)) | Some(rt::End::Signal(24)) => bad("hang", "the code under test neither finished nor reached a scheduling point for minutes".into()),
        Some(rt::End::Signal(9)) => Outcome::Broken(format!("run {} of {} was killed", run, prop)),
        Some(rt::End::Signal(s)) => bad("crash", format!("the process was killed by signal {} ({})", s, match s { 6 => "aborted: double panic, refused unwinding, or failed allocation", 11 => "stack overflow or invalid memory access", _ => "invalid operation" })),
        None => Outcome::Broken("cannot wait for a child".into()),
    }
}

// ---- the search ----------------------------------------------------------------------------------

struct Search { runs: u64, eventful: u64, distinct: u64, distinct_all: u64, stats: Stats, first_bad: Option<u64>, broken: Vec<String>, wall: f64, samples: Vec<u64> }

fn search(prop: &'static str, seed: u64, n: u64, cap_s: f64) -> Search {
    let t0 = Instant::now();
    // Per run: hash of the observable history, the lowest bit says whether it was eventful; 0: not run.
    let table = rt::shared((n as usize + 1) * 8) as *mut u64;
    let stop = unsafe { &*(rt::shared(64) as *const AtomicU64) }; // runs from this one on (minus 1) are of no interest
    let area: Vec<*mut u8> = (0..WORKERS).map(|_| rt::shared(1 << 18)).collect();
    let pids: Vec<i32> = (0..WORKERS).map(|w| {
        let area = area[w as usize];
        rt::fork(|| {
            open();
            let mut sum = Stats::default();
            let mut note = String::new();
            let mut i = w;
            while i < n {
                let s = stop.load(Ordering::Relaxed);
                if (s > 0 && i >= s - 1) || t0.elapsed().as_secs_f64() > cap_s { break; }
                // A child that something outside ended gets another chance.
                let o = match attempt(prop, seed, i, None, false) { Outcome::Broken(_) => attempt(prop, seed, i, None, false), o => o };
                match o {
                    Outcome::Good(g) => { sum.add(&g.stats); unsafe { *table.add(i as usize) = g.seen << 1 | g.eventful as u64 | (1 << 63); } }
                    Outcome::Bad(_) => { let mut s = stop.load(Ordering::Relaxed); while (s == 0 || i + 1 < s) && stop.compare_exchange(s, i + 1, Ordering::Relaxed, Ordering::Relaxed).is_err() { s = stop.load(Ordering::Relaxed); } break; }
                    Outcome::Broken(m) => { note = m; break; }
                }
                i += WORKERS;
            }
            let t = format!("{}\u{0}{}", note, sum.text());
            unsafe { let n = t.len().min((1 << 18) - 8); std::ptr::copy_nonoverlapping(t.as_ptr(), area.add(8), n); *(area as *mut u64) = n as u64; }
            0
        })
    }).collect();
    let mut stats = Stats::default();
    let mut broken = Vec::new();
    for (w, pid) in pids.iter().enumerate() {
        let end = rt::wait(*pid, true);
        let t = unsafe { let n = *(area[w] as *const u64) as usize; String::from_utf8_lossy(std::slice::from_raw_parts(area[w].add(8), n)).into_owned() };
        match (end, t.split_once('\u{0}')) {
            (Some((_, rt::End::Code(0))), Some((note, s))) => {
                if !note.is_empty() { broken.push(note.to_string()); }
                if let Some(s) = Stats::parse(s) { stats.add(&s); }
            }
            (e, _) => broken.push(format!("worker {} ended with {:?}", w, e)),
        }
    }
    let list: Vec<u64> = (0..n as usize).map(|i| unsafe { *table.add(i) }).collect();
    let mut ev = HashSet::new();
    let mut all = HashSet::new();
    let mut samples = Vec::new();
    for (i, h) in list.iter().enumerate().filter(|x| *x.1 != 0) {
        all.insert(h >> 1);
        if h & 1 == 1 && ev.insert(h >> 1) && samples.len() < 40 { samples.push(i as u64); }
    }
    let s = stop.load(Ordering::Relaxed);
    Search { runs: list.iter().filter(|h| **h != 0).count() as u64 + (s > 0) as u64, eventful: list.iter().filter(|h| **h & 1 == 1).count() as u64, distinct: ev.len() as u64, distinct_all: all.len() as u64, stats, first_bad: if s > 0 { Some(s - 1) } else { None }, broken, wall: t0.elapsed().as_secs_f64(), samples }
}

fn minimise(prop: &'static str, seed: u64, run: u64, bad: &Bad, budget_s: f64) -> (Bad, u64) {
    let t0 = Instant::now();
    let mut best = bad.clone();
    let mut tries = 0;
    let mut attempt_ = |l: Vec<u32>, best: &mut Bad| -> bool {
        if t0.elapsed().as_secs_f64() > budget_s { return false; }
        tries += 1;
        match attempt(prop, seed, run, Some(l), false) { Outcome::Bad(mut b) if b.class == best.class => { while b.choices.last() == Some(&0) { b.choices.pop(); } if (b.choices.len(), b.choices.iter().map(|x| *x as u64).sum::<u64>()) < (best.choices.len(), best.choices.iter().map(|x| *x as u64).sum::<u64>()) { *best = b; true } else { false } } _ => false }
    };
    loop {
        let before = best.choices.clone();
        // Cut the end off, leave parts out, and make choices plainer, in smaller and smaller steps.
        let mut cut = best.choices.len() / 2;
        while cut > 0 { let n = best.choices.len(); if n <= cut || !attempt_(best.choices[..n - cut].to_vec(), &mut best) { cut /= 2; } }
        let mut size = (best.choices.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.choices.len() {
                let end = (at + size).min(best.choices.len());
                let mut l = best.choices.clone();
                l.drain(at..end);
                if attempt_(l, &mut best) { continue; }
                if best.choices[at..end].iter().any(|v| *v != 0) {
                    let mut l = best.choices.clone();
                    l[at..end].fill(0);
                    attempt_(l, &mut best);
                }
                at += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        let mut i = 0;
        while i < best.choices.len() {
            for f in [|v: u32| v / 2, |v: u32| v - 1] {
                while i < best.choices.len() && best.choices[i] > 0 {
                    let mut l = best.choices.clone();
                    l[i] = f(l[i]);
                    if !attempt_(l, &mut best) { break; }
                }
            }
            i += 1;
        }
        if best.choices == before || t0.elapsed().as_secs_f64() > budget_s { break; }
    }
    (best, tries)
}

// ---- reports -------------------------------------------------------------------------------------

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}
fn list(l: &[String]) -> String { format!("[{}]", l.iter().map(|s| quote(s)).collect::<Vec<_>>().join(", ")) }
fn table(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", quote(k), v)).collect::<Vec<_>>().join(", ")) }

/// Number of runs and limit in seconds per tier. The numbers fit a machine with eight cores; the limit
/// only matters on slow ones.
fn effort(prop: &str, tier: &str) -> (u64, f64) {
    let quick = match prop {
        "C05" | "C06" | "C11" | "C15" | "C20" => 180_000,
        "C01" | "C02" | "C03" | "C04" => 120_000,
        "C08" | "C12" | "C13" | "C27" => 100_000,
        "C18" | "C09" | "C14" | "C30" => 60_000,
        _ => 80_000,
    };
    if tier == "thorough" { (quick * 40, 700.0) } else { (quick, 200.0) }
}

fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let sched = "thread scheduler, futexes and clock: simulated (sim/rt/rt.c)";
    match prop {
        "C01" | "C02" | "C03" | "C04" => (vec!["binate connection::StreamIdProvider", "dashmap 4.0.2 and its locks", "std and core atomics, instrumented"], vec![sched]),
        "C05" | "C06" => (vec!["binate connection::RequestCounter", "core atomics, instrumented"], vec![sched]),
        "C07" | "C08" | "C09" => (vec!["binate RSocketMachine, fire_and_forget, PayloadChunks, frame codec", "binate BytesMut list and Payload reassembly (C09)", "tokio 1.8 current-thread runtime", "dashmap 4.0.2"], vec![sched, "transport: DuplexConnection stand-in that records frames and refuses them on demand; C09: a length-prefixed byte stream that may break off"]),
        "C14" => (vec!["binate receive buffer (list of Bytes) and its Buf implementation", "bytes 1.0 Buf adapters (Take, Chain, Reader)"], vec!["network: segments of arbitrary sizes, arriving between reads"]),
        "C16" | "C17" | "C18" | "C27" | "C29" | "C30" => (vec!["binate RSocketMachine with its keepalive monitor and status watcher", "tokio 1.8 runtime (current thread, or a pool of two workers) with its timers, uninstrumented std beneath", "tokio-stream, tracing"], vec![sched, "transport: DuplexConnection stand-in that delivers frames and status changes when the scenario says so", "wall clock and timers: simulated, jumps included", "tracing subscriber: records error events"]),
        "C19" => (vec!["binate RSocketMachine, metadata_push, frame codec", "tokio 1.8 runtime"], vec![sched, "transport: DuplexConnection stand-in that completes sends late, out of order, with failures"]),
        "C28" => (vec!["binate frame codec, receive buffer and reassembly", "bytes 1.0", "binate RSocketMachine with its tasks", "tokio 1.8 current-thread runtime with its timers"], vec![sched, "allocator: the system's, with a count of the bytes in use", "transport: DuplexConnection stand-in that keeps no record", "network: frames built by the real encoders, damaged"]),
        _ => (vec!["binate frame codec: encoders, decoders, accessors", "binate receive buffer", "bytes 1.0"], vec!["links and relays: discrete-event simulation of loss, duplication, delay, reordering, segmentation and damage"]),
    }
}

pub fn check(prop: &'static str, tier: &str, seed: u64, runs: Option<u64>, out: &str) -> i32 {
    let t0 = Instant::now();
    let (n, cap) = effort(prop, tier);
    let n = runs.unwrap_or(n);
    let mut s = search(prop, seed, n, cap);
    open();
    // Runs repeat exactly; one that does not was disturbed from outside (a machine so slow that a run took
    // minutes, say), which is no verdict. Look again.
    let mut again = None;
    if let Some(run) = s.first_bad {
        again = (0..3).map(|_| attempt(prop, seed, run, None, false)).find(|o| matches!(o, Outcome::Bad(_)));
        if again.is_none() {
            eprintln!("run {} of {} failed in the search, but not when repeated; searching again", run, prop);
            s = search(prop, seed, n, cap);
            again = s.first_bad.map(|run| attempt(prop, seed, run, None, false));
        }
    }
    let mut violations = 0;
    let mut code = 0;
    if !s.broken.is_empty() { for b in &s.broken { eprintln!("harness error: {}", b); } code = 2; }
    let mut replay_note = String::from("none");
    let (mut rechecked, mut differing) = (0, 0);
    let mut samples = Vec::new();
    if let Some(run) = s.first_bad {
        match again.unwrap() {
            Outcome::Bad(b) => {
                let (m, tries) = if b.class == "hang" { (b.clone(), 0) } else { minimise(prop, seed, run, &b, if tier == "thorough" { 120.0 } else { 40.0 }) };
                let fin = if m.class == "hang" { m.clone() } else { match attempt(prop, seed, run, Some(m.choices.clone()), true) { Outcome::Bad(mut f) if f.class == b.class => { f.choices = m.choices.clone(); f } _ => b.clone() } };
                let dir = format!("{}/replays", out);
                std::fs::create_dir_all(&dir).unwrap();
                let path = format!("{}/{}-seed{}-run{}.txt", dir, prop, seed, run);
                std::fs::write(&path, replay_file(prop, seed, run, &fin, b.choices.len(), tries)).unwrap();
                let path = std::fs::canonicalize(&path).unwrap();
                println!("{}: {}", fin.class, fin.msg);
                for l in fin.trace.iter().take(60) { println!("    {}", l); }
                println!("seed {}, run {}: {} choices, {} after minimising ({} attempts)", seed, run, b.choices.len(), fin.choices.len(), tries);
                println!("VIOLATION property={} replay={}", prop, path.display());
                replay_note = path.display().to_string();
                violations = 1;
                code = 1;
            }
            _ => { eprintln!("harness error: run {} of {} failed in the search, but not when repeated", run, prop); code = 2; }
        }
    }
    // Some of the runs again, written out; they must come out the same.
    for run in s.samples.iter().take(12) {
        if let Outcome::Good(g) = attempt(prop, seed, *run, None, true) {
            rechecked += 1;
            // Writing a run out must not change it, nor repeating it.
            match attempt(prop, seed, *run, None, false) { Outcome::Good(h) if h.hash == g.hash => (), _ => differing += 1 }
            if samples.len() < 3 && g.trace.len() > 2 {
                samples.push(format!("run {} (hash {:016x}): {}{}", run, g.hash, g.trace.iter().take(30).map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" | "), if g.trace.len() > 30 { format!(" | ... {} more lines", g.trace.len() - 30) } else { String::new() }));
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let (real, stub) = components(prop);
    let o = |l: Vec<&str>| list(&l.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let hour = 3600.0 / s.wall.max(0.001);
    let ev = format!(r#"{{
 "property": {}, "tier": {}, "seed": {}, "level": "exploration",
 "coverage": {{
  "evaluations": {}, "distinct_nontrivial": {},
  "rule": "one evaluation is one simulated run: workload, schedule and faults are all drawn from a generator seeded with (seed, property, run number), and one child process executes exactly that run. A run is non-trivial if at least one fault was injected or one thread was preempted; runs are told apart by a hash over their observable history (which thread saw which call, result, frame or event, in which order)",
  "samples": {},
  "runs_planned": {}, "runs_with_faults_or_preemptions": {}, "distinct_histories_of_all_runs": {},
  "search_wall_s": {:.2}, "simulated_runs_per_hour": {:.0}, "seeds_per_hour": {:.0},
  "simulated_seconds": {:.3},
  "faults_injected": {},
  "situations_reached": {},
  "schedule": {{"switches": {}, "preemptions": {}, "clock_jumps": {}, "scheduling_points": {}, "most_choices_in_a_run": {}, "most_scheduling_points_in_a_run": {}}},
  "determinism": {{"runs_repeated": {}, "repetitions_that_differed": {}}},
  "components_real": {}, "components_stubbed": {},
  "replay": {}
 }},
 "assumptions": {},
 "wall_s": {:.2}, "violations": {}
}}
"#,
        quote(prop), quote(tier), seed, s.runs, s.distinct, list(&samples), n, s.eventful, s.distinct_all, s.wall, s.runs as f64 * hour, s.runs as f64 * hour, s.stats.sim_ns as f64 / 1e9,
        table(&s.stats.faults), table(&s.stats.probes), s.stats.counts[0], s.stats.counts[1], s.stats.counts[2], s.stats.counts[3], s.stats.max_choices, s.stats.max_steps, rechecked, differing, o(real), o(stub), quote(&replay_note),
        o(assumptions(prop)), wall, violations);
    let dir = format!("{}/evidence", out);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(format!("{}/{}.json", dir, prop), ev).unwrap();
    println!("{} {}: {} runs, {} distinct eventful histories, {} faults, {} preemptions, {:.1} s", prop, tier, s.runs, s.distinct, s.stats.faults.values().sum::<u64>(), s.stats.counts[1], wall);
    code
}

fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut a = vec!["a search of seeded runs: what it did not reach is not decided"];
    match prop {
        "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C20" | "C28" => (),
        _ => a.push("threads interleave sequentially consistently: effects of weaker memory orderings than the code asks for are not simulated"),
    }
    a
}

fn replay_file(prop: &str, seed: u64, run: u64, b: &Bad, before: usize, tries: u64) -> String {
    format!("binate-sim replay 1\nproperty {}\nseed {}\nrun {}\nclass {}\nmessage {}\nhash {:016x}\nminimised from {} choices in {} attempts\nchoices {}\n\ntrace\n{}\n", prop, seed, run, b.class, b.msg, b.hash, before, tries, b.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "), b.trace.join("\n"))
}

pub fn replay(file: &str) -> i32 {
    let t = std::fs::read_to_string(file).unwrap_or_else(|e| { eprintln!("{}: {}", file, e); std::process::exit(2) });
    let field = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let prop = *ALL.iter().find(|p| **p == field("property ")).expect("property");
    let list: Vec<u32> = field("choices").split_whitespace().map(|c| c.parse().unwrap()).collect();
    open();
    match attempt(prop, field("seed ").parse().unwrap(), field("run ").parse().unwrap(), Some(list), true) {
        Outcome::Bad(b) => {
            for l in &b.trace { println!("{}", l); }
            println!("{}: {}", b.class, b.msg);
            let same = b.class == field("class ") && format!("{:016x}", b.hash) == field("hash ") && b.msg == field("message ");
            println!("{}", if same { "REPRODUCED exactly" } else { "a violation, but not exactly the recorded one" });
            println!("VIOLATION property={} replay={}", prop, file);
            1
        }
        Outcome::Good(g) => { for l in &g.trace { println!("{}", l); } println!("NOT REPRODUCED: the property holds in this run"); 0 }
        Outcome::Broken(m) => { eprintln!("harness error: {}", m); 2 }
    }
}

pub fn show(prop: &'static str, seed: u64, run: u64) -> i32 {
    open();
    match attempt(prop, seed, run, None, true) {
        Outcome::Good(g) => { for l in &g.trace { println!("{}", l); } println!("held; hash {:016x}; {:?}", g.hash, g.stats); 0 }
        Outcome::Bad(b) => { for l in &b.trace { println!("{}", l); } println!("{}: {}\nhash {:016x}, {} choices", b.class, b.msg, b.hash, b.choices.len()); 1 }
        Outcome::Broken(m) => { eprintln!("harness error: {}", m); 2 }
    }
}

/// One seed is one execution: every run twice, written out and not, from its seed and from its choices.
pub fn selftest(prop: Option<&'static str>, seed: u64, n: u64) -> i32 {
    open();
    let mut wrong = 0;
    for p in ALL.iter().copied().filter(|p| prop.map_or(true, |q| q == *p)) {
        let (mut ok, mut bad) = (0, 0);
        for run in 0..n {
            let key = |o: &Outcome| match o { Outcome::Good(g) => format!("good {:016x} {:016x} {:?}", g.hash, g.seen, g.stats.counts), Outcome::Bad(b) => format!("bad {:016x} {} {}", b.hash, b.class, b.msg), Outcome::Broken(m) => m.clone() };
            let a = attempt(p, seed, run, None, false);
            let l = choices();
            let b = attempt(p, seed, run, None, true);
            let c = attempt(p, seed, run, Some(l), false);
            let (a, b, c) = (key(&a), key(&b), key(&c));
            if a == b && b == c && a.starts_with("good") { ok += 1 } else { bad += 1; if bad < 4 { println!("{} run {}: {} / {} / {}", p, run, a, b, c); } }
        }
        println!("{}: {} runs came out the same three times, {} did not", p, ok, bad);
        wrong += bad;
    }
    (wrong > 0) as i32
}
