//! Deterministic simulation of zune-jpeg: see /verif/DESIGN.md.
#![allow(static_mut_refs, unknown_lints, invalid_runtime_symbol_definitions)]
mod cpu;
mod damage;
mod disk;
mod exec;
mod heap;
mod jpeg;
mod judge;
mod model;
mod plan;
mod props;
mod report;
mod rng;
mod sched;
mod shrink;

use plan::Plan;
use std::process::exit;

fn env(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

/// Same addresses in every process, where the system allows it.
fn fixed_addresses() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_REEXEC").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as u64) >= 0 {
                std::env::set_var("SIM_REEXEC", "1");
                let args: Vec<std::ffi::CString> =
                    std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(core::ptr::null());
                libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr());
            }
        }
    }
}

fn init() {
    fixed_addresses();
    unsafe {
        libc::mallopt(libc::M_ARENA_MAX, 1);
        libc::mallopt(libc::M_MMAP_THRESHOLD, 256 << 10);
        judge::AREA = judge::map_shared(judge::ARENA);
        judge::EDGES = judge::map_shared(sched::MAXGUARD);
    }
    sched::reserve_stacks();
    exec::install();
    cpu::install();
    if sched::guards() < 500 {
        eprintln!("harness error: the decoder is not instrumented");
        exit(3);
    }
    unsafe { core::ptr::write_bytes(judge::EDGES, 0, sched::MAXGUARD) };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map_or("", String::as_str);
    init();
    match cmd {
        "check" => exit(report::check(&a[2])),
        "replay" => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let p = Plan::parse(&t).expect("not a replay file");
            let v = props::judge(&p);
            println!("steps {} switches {} interleaving {:016x}", v.sum.steps, v.sum.switches, v.sum.hash);
            match v.bad {
                Some((k, m)) => {
                    println!("{k}: {m}");
                    println!("VIOLATION property={} replay={}", p.prop, a[2]);
                    exit(1);
                }
                None => println!("no violation{}", v.inconclusive.map_or(String::new(), |m| format!(" (inconclusive: {m})"))),
            }
        }
        "run" => {
            let p = props::generate(&a[2], rng::derive(env("VERIF_SEED", 1), a[3].parse().unwrap(), 7));
            print!("{}", p.to_text());
            let v = props::judge(&p);
            for c in &v.sum.calls {
                println!("# {} {} {} threads={} steps={} mem={} late={} {}", c.caller, c.step, c.class as u8 as char, c.peak_threads, c.steps, c.mem, c.late, c.msg);
            }
            println!("# {:?} {:?} {:?}", v.bad, v.inconclusive, v.sum.panics);
        }
        "emit" => {
            // a file for a demonstration: emit OUT "spec line" [op ...]
            let spec = jpeg::ImgSpec::from_line(&a[3]).expect("spec");
            let ops: Vec<damage::Op> = a[4..].iter().map(|o| damage::Op::parse(o).expect("op")).collect();
            std::fs::write(&a[2], plan::Img { spec, ops }.bytes()).unwrap();
        }
        "twice" => {
            let (lo, hi): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            for i in lo..hi {
                let p = props::generate(&a[2], rng::derive(env("VERIF_SEED", 1), i, 7));
                let v = props::judge(&p);
                for _ in 0..env("N", 3) {
                    let w = props::judge(&p);
                    if report::signature(&v.sum) != report::signature(&w.sum) {
                        println!("{i}: {:?}\n   {:?}", report::signature(&v.sum), report::signature(&w.sum));
                        break;
                    }
                }
            }
        }
        "dump" => {
            // the files of the first N runs: dump PROP DIR
            for i in 0..env("N", 1000) {
                let p = props::generate(&a[2], rng::derive(env("VERIF_SEED", 1), i, 7));
                for (k, m) in p.imgs.iter().enumerate() {
                    std::fs::write(format!("{}/{}-{i}-{k}.jpg", a[3], a[2]), m.bytes()).unwrap();
                }
            }
        }
        "show" => print!("{}", props::generate(&a[2], a[3].parse().unwrap()).to_text()),
        "one" => {
            let p = props::generate(&a[2], a[3].parse().unwrap());
            let v = props::judge(&p);
            for c in &v.sum.calls {
                println!("{} {} {} threads={} steps={} mem={} late={} {}", c.caller, c.step, c.class as u8 as char, c.peak_threads, c.steps, c.mem, c.late, c.msg);
            }
            println!("{:?} {:?} {:?}", v.bad, v.inconclusive, v.sum.panics);
        }
        "selftest" => exit(report::selftest(env("N", 200))),
        "hunt" => std::process::exit(report::hunt(env("N", 100))),
        "survey" => report::survey(&a[2], env("N", 2000)),
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | show PROP SEED | one PROP SEED | selftest | survey PROP");
            exit(2);
        }
    }
}
