#![allow(dead_code)]
#[macro_use]
mod plan;
mod compute;
mod ctx;
mod digests;
mod driver;
mod el;
mod fam;
mod fam_app;
mod fam_ipa;
mod gen;
mod props;
mod reg;
mod rng;
mod simrt;
mod table;
mod toy;
mod world;

#[global_allocator]
static ALLOC: simrt::Alloc = simrt::Alloc;

/// Fixed addresses: nothing may depend on address-space randomisation.
fn fix_addresses() {
    if std::env::var("RIPP_SIM_FIXED").is_ok() {
        return;
    }
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p < 0 || p as u64 & 0x0040000 != 0 || libc::personality(p as u64 | 0x0040000) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(exe) = std::env::current_exe() {
        let _ = std::process::Command::new(exe).args(std::env::args_os().skip(1)).env("RIPP_SIM_FIXED", "1").exec();
    }
}

fn main() {
    fix_addresses();
    sim_atomics::hook(simrt::atomic_point);
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    let code = match s(0) {
        "check" => driver::check(s(1), s(2) == "thorough", n(3, 1)),
        "replay" => driver::replay(s(1)),
        "determinism" => driver::determinism(s(1), n(2, 1), n(3, 100)),
        "compare" => driver::compare(s(1), n(2, 1), n(3, 0)),
        "sequential" => props::sequential_main(),
        "plan" => {
            print!("{}", gen::plan(s(1), s(2) == "thorough", n(3, 1), n(4, 0)).to_text());
            0
        }
        _ => {
            eprintln!("usage: ripp-sim check <property> <quick|thorough> <seed> | replay <file> | plan <property> <tier> <seed> <index> | determinism <property> <seed> <n>");
            2
        }
    };
    std::process::exit(code);
}
