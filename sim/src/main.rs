//! Deterministic simulation of binate with fault injection. See ../../DESIGN.md.
mod buf;
mod conn;
mod ctr;
mod engine;
mod fnf;
mod ids;
mod link;
mod mem;
mod model;
mod multi;
mod pace;
mod push;
mod report;
mod rt;
mod session;
mod threads;

use engine::*;

pub const ALL: [&str; 24] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C27", "C28", "C29", "C30"];

/// Bounds of a run, beyond which it counts as making no progress.
const STEPS: u64 = 12_000_000;

/// One simulated run, from beginning to end.
pub fn execute(prop: &'static str, seed: u64, run: u64, replay: Option<Vec<u32>>) {
    begin(seed, prop, run, replay);
    unsafe { rt::rt_begin(choose(u32::MAX) as u64, STEPS) };
    let slot = unsafe { rt::rt_register() };
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        unsafe { rt::rt_enter(slot) };
        match prop {
            "C01" | "C02" | "C04" if chance(1, 12) => fnf::scenario(prop),
            "C01" | "C02" | "C03" | "C04" => ids::scenario(prop),
            "C05" | "C06" => ctr::scenario(prop),
            "C07" | "C08" | "C09" => fnf::scenario(prop),
            "C14" => buf::scenario(),
            "C16" | "C17" | "C18" | "C27" => session::scenario(prop),
            "C19" => push::scenario(),
            "C28" => mem::scenario(),
            "C29" => multi::scenario(),
            "C30" => pace::scenario(),
            _ => link::scenario(prop),
        }
        unsafe { rt::rt_exit() };
    }).unwrap();
    unsafe { rt::rt_run(slot) };
    t.join().unwrap();
}

fn main() {
    rt::fixed_layout();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| opt(k).map_or(d, |v| v.parse().unwrap_or_else(|_| panic!("{} needs a number", k)));
    let prop = |s: &str| *ALL.iter().find(|p| **p == s).unwrap_or_else(|| { eprintln!("no check for property {}", s); std::process::exit(2) });
    install_panic_hook();
    session::record_events();
    let usage = || -> ! {
        eprintln!("usage: binate-sim check ID [--tier quick|thorough] [--seed N] [--runs N] [--out DIR] | run ID --run N [--seed N] | replay FILE | selftest [ID] [--runs N]");
        std::process::exit(2)
    };
    let code = match (args.first().map(|s| s.as_str()), args.get(1)) {
        (Some("check"), Some(p)) => {
            let p = prop(p);
            let tier = opt("--tier").unwrap_or("quick".into());
            report::check(p, &tier, num("--seed", 1), opt("--runs").map(|r| r.parse().unwrap()), &opt("--out").unwrap_or(".".into()))
        }
        (Some("run"), Some(p)) => report::show(prop(p), num("--seed", 1), num("--run", 0)),
        (Some("replay"), Some(f)) => report::replay(f),
        (Some("selftest"), p) => report::selftest(p.filter(|p| !p.starts_with("--")).map(|p| prop(p)), num("--seed", 1), num("--runs", 300)),
        _ => usage(),
    };
    std::process::exit(code);
}
