#![recursion_limit = "512"]
mod check;
mod coord;
mod gen;
mod min;
mod model;
mod oracle;
mod profiles;
mod runner;
mod server;
mod worker;
use polosim_exec::sys;

/// base plans of the quick check
pub fn jobs(prop: &str) -> u64 {
    match prop {
        "C01" | "C02" => 600, "C09" => 450, "C03" => 1800, "C04" => 2000, "C05" | "C06" => 1400, "C07" => 1200, "C08" => 1000, "C10" => 2000, "C11" => 2500, "C12" => 1200, "C13" => 1400, "C14" => 2000, "C15" => 3500, "C16" => 3500, "C18" => 3500, "C17" => 2000, "C19" => 3500, "C20" => 2000, _ => 700,
    }
}
pub fn components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    let mut real = vec!["polodb_core built from /repo (all of it)", "the RocksDB library that polodb_core links, with its background threads", "Rust standard library, glibc above the system calls"];
    if ["C16", "C17", "C18", "C19", "C20"].contains(&prop) { real.push("the polodb server program built from /repo with its runtime"); }
    (real, vec!["kernel: threads' scheduling, futexes, clocks, sleeping, randomness, files and directories, sockets (libpolosim.so)", "RocksDB's option setters are called with small buffers in some plans"])
}
pub fn assumptions(_prop: &str) -> Vec<&'static str> {
    vec!["code between scheduling points runs atomically: preemption happens at C library calls, storage-engine calls and basic blocks of Rust code, on sequentially consistent memory",
        "the simulated disk keeps data and names that were synced and any subset (at 512-byte granularity for torn blocks) of what was not",
        "the reference model states the intended sequential behaviour"]
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "worker" => worker::main(),
        "check" => {
            unsafe { if sys::ps_ctl_size() != std::mem::size_of::<sys::Ctl>() { println!("layout of the control block differs: {} {}", sys::ps_ctl_size(), std::mem::size_of::<sys::Ctl>()); std::process::exit(2); } }
            coord::check(s(2), if s(3).is_empty() { "quick" } else { s(3) })
        }
        "min" => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(s(2)).unwrap()).unwrap();
            let plan: polosim_exec::plan::Plan = serde_json::from_value(j["plan"].clone()).unwrap();
            let mut w = worker::Worker::spawn(-1);
            let out = w.run(&plan, false, false);
            println!("{}", min::report(j["property"].as_str().unwrap(), &coord::Found { job: 0, sub: 0, plan, out }, &mut w, 60));
            0
        }
        "replay" => min::replay(s(2)),
        "gen" => { let (p, v, n) = gen::generate(s(2), s(3).parse().unwrap(), 1); println!("{}", serde_json::json!({"plan": p, "var": format!("{v:?}"), "n": n, "property": s(2)})); 0 }
        _ => { println!("polosim check PROPERTY [quick|thorough] | replay FILE | gen PROPERTY JOB"); 2 }
    };
    std::process::exit(code);
}
