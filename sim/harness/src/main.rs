mod client;
mod cluster;
mod life;
mod members;
mod driver;
mod gen;
mod hostile;
mod lin;
mod model;
mod plan;
mod plans;
mod resp;
mod scenario;
mod snap;
mod wire;
mod world;
use simrt::*;
#[cfg(not(feature = "bin"))]
#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;
/// bin/server.rs as it is; its allocator is the simulator's.
#[cfg(feature = "bin")]
#[allow(clippy::all)]
mod server_bin {
    include!(concat!(env!("RUDIS_REPO"), "/bin/server.rs"));
    /// Exits with 0?
    pub fn call() -> bool {
        let code = std::process::Termination::report(main());
        format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS)
    }
}

fn usage() -> ! {
    eprintln!(
        "usage: sim check --property ID [--tier quick|thorough] [--seed N] [--secs S] [--runs N] [-v]\n       sim replay FILE [-t]\n       sim run ID SEED [-t]\n       sim determinism [ID...]\n       sim plan ID SEED"
    );
    std::process::exit(2)
}
fn main() {
    simrt::interpose::find_exit_guard();
    // nothing of the surroundings may reach the code under test
    for (k, _) in std::env::vars() {
        if k.starts_with("RUDIS_") && k != "RUDIS_SIM_HOME" || k == "RUST_LOG" {
            std::env::remove_var(k);
        }
    }
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let flag = |n: &str| a.iter().any(|x| x == n);
    let env = |n: &str| std::env::var(n).ok();
    match a.first().map(String::as_str) {
        Some("check") => {
            let prop = opt("--property").unwrap_or_else(|| usage());
            let tier = opt("--tier").or(env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
            let seed = opt("--seed").or(env("VERIF_SEED")).and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "quick" { 40.0 } else { 600.0 });
            let runs = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            std::process::exit(driver::check(&prop, &tier, seed, secs, runs, flag("-v")));
        }
        Some("replay") => std::process::exit(driver::replay(a.get(1).unwrap_or_else(|| usage()), flag("-t"))),
        Some("run") => {
            let p = plans::make(&a[1], a[2].parse().unwrap(), "quick");
            let o = driver::run_one(&p, flag("-t"), true);
            for l in &o.trace {
                println!("{l}");
            }
            if flag("-h") {
                for l in &o.history {
                    println!("{l}");
                }
            }
            for v in &o.viols {
                println!("VIOL {:?} {}", v.0, v.1);
            }
            println!("{} steps {} sim {} ms hist {} acked {} hash {:x} {:?} {:?}", o.end, o.steps, o.sim_ns / 1_000_000, o.hist, o.acked, o.hash, o.fired, o.probes);
        }
        Some("plan") => {
            let p = plans::make(&a[1], a[2].parse().unwrap(), "quick");
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
        }
        Some("determinism") => {
            let mut props: Vec<String> = a[1..].iter().filter(|x| x.starts_with('C')).cloned().collect();
            if props.is_empty() {
                props = plans::ALL.iter().map(|s| (*s).to_string()).collect();
            }
            let n = opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(10);
            std::process::exit(driver::determinism(&props, n, 1));
        }
        _ => usage(),
    }
}
