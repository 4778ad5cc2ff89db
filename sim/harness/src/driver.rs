//! Seeded search: run many plans in forked processes, minimise failures, write replay and evidence files.
use crate::{plan::*, plans, scenario, world, world::Viol};
use serde::{Deserialize, Serialize};
use simrt::{interpose::real_fork, sys};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{Read, Write},
    os::fd::AsRawFd,
    time::{Duration, Instant},
};

#[derive(Serialize, Deserialize, Default, Clone, Debug)]
pub struct Outcome {
    pub end: String,
    pub steps: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub hist: u64,
    pub acked: u64,
    pub viols: Vec<(Vec<String>, String)>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub stats: BTreeMap<String, u64>,
    pub history: Vec<String>,
    pub trace: Vec<String>,
    pub state: u64,
}
extern "C" {
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn poll(fds: *mut [i32; 2], n: u64, timeout: i32) -> i32;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn getppid() -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}
/// Run a plan inside this (forked) process.
struct MapSeeds(std::sync::atomic::AtomicUsize);

impl ahash::random_state::RandomSource for MapSeeds {
    fn gen_hasher_seed(&self) -> usize {
        self.0.fetch_add(0x9e37_79b9_7f4a_7c15, std::sync::atomic::Ordering::Relaxed)
    }
}

pub fn run_here(p: Plan, scratch: &str, trace: bool, full: bool) -> Outcome {
    let cfg = p.sched.cfg(p.seed, trace);
    let seed = p.seed;
    simrt::init(cfg);
    // ahash otherwise derives per-map seeds from the address of a static (ASLR)
    let _ = ahash::random_state::set_random_source(MapSeeds(std::sync::atomic::AtomicUsize::new(seed as usize | 1)));
    world::install(p, scratch.to_string());
    simrt::spawn_on(0, "ctl", Box::new(scenario::run_plan));
    let e = simrt::run();
    let w = world::w();
    if e != simrt::End::Stopped {
        let what = match e {
            simrt::End::Deadlock => "nothing can ever run again",
            _ => "scheduler step limit reached: the system never becomes idle",
        };
        let mut busy: Vec<(u64, String)> = simrt::sim().coro_list().into_iter().map(|(n, s, st)| (st, format!("{n} ({s}) {st} steps"))).collect();
        busy.sort_by(|a, b| b.0.cmp(&a.0));
        let top: Vec<String> = busy.into_iter().take(4).map(|x| x.1).collect();
        world::viol(&["C15"], format!("{what} at {} ms; busiest: {}", simrt::sim().now / 1_000_000, top.join(", ")));
        // which part got stuck is up to the scenario
        scenario::stuck(&format!("{what}; busiest: {}", top.join(", ")));
    }
    let s = simrt::sim();
    let st = &s.stats;
    let mut stats = BTreeMap::new();
    for (k, v) in [
        ("preemptions", st.preemptions),
        ("task stalls", st.stalls),
        ("short reads", st.short_reads),
        ("short writes", st.short_writes),
        ("delay spikes", st.spikes),
        ("connection resets", st.resets),
        ("connection cuts", st.cuts),
        ("partitions", st.partitions),
        ("heals", st.heals),
        ("segments held by partitions", st.held_segments),
        ("accept errors", st.accept_errors),
        ("refused connects", st.refused),
        ("crashes", st.crashes),
        ("restarts", st.restarts),
        ("process stalls", st.node_stalls),
        ("clock steps", st.clock_steps),
        ("snapshot forks", st.forks),
        ("fork errors", st.fork_errors),
        ("segments", st.segments),
        ("blocked writes", st.would_block),
        ("connects", st.connects),
    ] {
        if v > 0 {
            stats.insert(k.to_string(), v);
        }
    }
    let failing = !w.viols.is_empty();
    Outcome {
        end: format!("{e:?}"),
        steps: s.steps,
        sim_ns: s.now,
        hash: s.hash,
        hist: w.hist.len() as u64 + w.more.0,
        acked: w.hist.iter().filter(|h| h.reply.is_some()).count() as u64 + w.more.1,
        viols: w.viols.iter().map(|v: &Viol| (v.props.clone(), v.msg.clone())).collect(),
        fired: w.fired.clone(),
        probes: w.probes.clone(),
        stats,
        history: if failing && full { crate::lin::dump_all() } else { vec![] },
        trace: if full { s.trace.clone() } else { vec![] },
        state: scenario::state_hash(),
    }
}
pub struct Proc {
    pid: i32,
    pipe: std::io::PipeReader,
    buf: Vec<u8>,
    pub tag: u64,
    started: Instant,
}
pub fn scratch_dir() -> String {
    let d = format!("/tmp/rudis-sim.{}", std::process::id());
    std::fs::create_dir_all(&d).expect("scratch dir");
    d
}
pub fn start(mk: &dyn Fn() -> Plan, scratch: &str, slot: usize, trace: bool, full: bool, tag: u64) -> Proc {
    let (r, mut wr) = std::io::pipe().expect("pipe");
    let dir = format!("{scratch}/{slot}");
    let _ = std::fs::create_dir_all(&dir);
    let pid = real_fork();
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        drop(r);
        unsafe {
            prctl(1, 9, 0, 0, 0);
            if getppid() == 1 {
                sys::raw_exit(3);
            }
            // virtual time: independent of machine load
            let secs = 40;
            setitimer(1, &[0, 0, secs, 0], std::ptr::null_mut());
            let lim = [12u64 << 30, 12u64 << 30];
            setrlimit(9, &lim);
            setrlimit(4, &[0, 0]);
        }
        let o = run_here(mk(), &dir, trace, full);
        let s = serde_json::to_vec(&o).unwrap_or_default();
        let _ = wr.write_all(&s);
        drop(wr);
        sys::raw_exit(0);
    }
    drop(wr);
    Proc { pid, pipe: r, buf: vec![], tag, started: Instant::now() }
}
fn reap(p: &mut Proc) -> Outcome {
    let (_, st) = sys::raw_waitpid(p.pid);
    if let Ok(o) = serde_json::from_slice::<Outcome>(&p.buf) {
        return o;
    }
    let sig = st & 0x7f;
    let what = match sig {
        26 => "a server never stops computing (40 s of processor time without an end)".to_string(),
        11 | 7 => "the server process is killed by a memory fault (stack overflow or invalid access)".to_string(),
        6 => "the server process aborts".to_string(),
        // a mistake of the simulator itself (101: panic) or a process ended from outside
        0 | 9 => {
            let end = format!("harness error: a run ended with status {:#x}", st);
            return Outcome { end, ..Outcome::default() };
        }
        s => format!("the server process is killed by signal {s}"),
    };
    let all: Vec<String> = (1..=17).map(|i| format!("C{i:02}")).collect();
    Outcome { end: format!("signal {sig}"), viols: vec![(all, what)], ..Outcome::default() }
}
/// Wait until one of the processes finished.
fn next_done(ps: &mut Vec<Proc>) -> (u64, Outcome) {
    loop {
        let mut fds: Vec<[i32; 2]> = ps.iter().map(|p| [p.pipe.as_raw_fd(), 1]).collect();
        unsafe { poll(fds.as_mut_ptr(), fds.len() as u64, 1000) };
        for i in 0..ps.len() {
            if fds[i][1] >> 16 != 0 {
                let mut b = [0u8; 65536];
                match ps[i].pipe.read(&mut b) {
                    Ok(0) | Err(_) => {
                        let mut p = ps.swap_remove(i);
                        let o = reap(&mut p);
                        return (p.tag, o);
                    }
                    Ok(n) => ps[i].buf.extend_from_slice(&b[..n]),
                }
            }
        }
        for p in ps.iter() {
            // real time backstop for something blocked outside the simulation
            if p.started.elapsed() > Duration::from_secs(240) {
                unsafe { sys::sc(sys::SYS_KILL, i64::from(p.pid), 9, 0, 0, 0, 0) };
            }
        }
    }
}
pub fn run_one(p: &Plan, trace: bool, full: bool) -> Outcome {
    let sc = scratch_dir();
    let q = p.clone();
    let mut ps = vec![start(&move || q.clone(), &sc, 0, trace, full, 0)];
    let r = next_done(&mut ps).1;
    let _ = std::fs::remove_dir_all(&sc);
    r
}
/// First violation of this property, if any.
pub fn hit<'a>(o: &'a Outcome, prop: &str) -> Option<&'a str> {
    o.viols.iter().find(|v| v.0.iter().any(|p| p == prop)).map(|v| v.1.as_str())
}
/// What kind of violation it is, for the minimiser: the message without numbers and quoted content.
pub fn class(m: &str) -> String {
    m.chars().take(28).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect()
}

// -------------------------------------------------------------------- minimiser
fn variants(p: &Plan, round: u32) -> Vec<Plan> {
    let mut v = Vec::new();
    // drop whole clients
    for i in 0..p.clients.len() {
        if p.clients[i].steps.is_empty() {
            continue;
        }
        let mut q = p.clone();
        q.clients[i].steps.clear();
        v.push(q);
    }
    // drop faults: halves, then singles
    let nf = p.faults.len();
    if nf > 0 {
        let mut q = p.clone();
        q.faults.clear();
        v.push(q);
        if nf > 3 {
            for h in 0..2 {
                let mut q = p.clone();
                q.faults = if h == 0 { p.faults[nf / 2..].to_vec() } else { p.faults[..nf / 2].to_vec() };
                v.push(q);
            }
        }
        for i in 0..nf {
            let mut q = p.clone();
            q.faults.remove(i);
            v.push(q);
        }
    }
    // drop steps in chunks
    for i in 0..p.clients.len() {
        let n = p.clients[i].steps.len();
        let mut chunk = n / 2;
        while chunk >= 1 {
            let mut a = 0;
            while a < n {
                let e = (a + chunk).min(n);
                let mut q = p.clone();
                q.clients[i].steps.drain(a..e);
                v.push(q);
                a = e;
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        for (j, s) in p.clients[i].steps.iter().enumerate() {
            if let Step::Pipe { cmds, .. } | Step::Burst { cmds, .. } | Step::Hold { cmds, .. } = s {
                let n = cmds.len();
                let mut chunk = n / 2;
                while chunk >= 1 && n > 1 {
                    let mut a = 0;
                    while a < n {
                        let e = (a + chunk).min(n);
                        let mut q = p.clone();
                        if let Step::Pipe { cmds, .. } | Step::Burst { cmds, .. } | Step::Hold { cmds, .. } = &mut q.clients[i].steps[j] {
                            cmds.drain(a..e);
                        }
                        v.push(q);
                        a = e;
                    }
                    chunk /= 2;
                }
            }
        }
    }
    // simpler environment
    let base = Sched::base();
    let mut env: Vec<Box<dyn Fn(&mut Sched)>> = vec![
        Box::new(|s| s.preempt_ppm = 0),
        Box::new(|s| s.stall_ppm = 0),
        Box::new(|s| s.spike_ppm = 0),
        Box::new(|s| {
            s.short_read_ppm = 0;
            s.short_write_ppm = 0;
        }),
        Box::new(|s| s.policy = 2),
        Box::new(|s| s.policy = 0),
        Box::new(|s| s.workers = 1),
    ];
    let (cap, mss, lo, hi) = (base.sock_cap, base.mss, base.lat_min_us, base.lat_max_us);
    env.push(Box::new(move |s| s.sock_cap = cap));
    env.push(Box::new(move |s| s.mss = mss));
    env.push(Box::new(move |s| {
        s.lat_min_us = lo;
        s.lat_max_us = hi;
    }));
    for f in env {
        let mut q = p.clone();
        f(&mut q.sched);
        if q.sched != p.sched {
            v.push(q);
        }
    }
    let _ = round;
    v
}
pub fn minimise(p: &Plan, prop: &str, msg: &str, budget: Duration, jobs: usize) -> Plan {
    let t0 = Instant::now();
    let sc = scratch_dir();
    let want = class(msg);
    let mut best = p.clone();
    let mut round = 0;
    'outer: loop {
        round += 1;
        let vs = variants(&best, round);
        let mut i = 0;
        let mut progressed = false;
        while i < vs.len() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            let mut ps = Vec::new();
            let batch: Vec<Plan> = vs[i..(i + jobs).min(vs.len())].to_vec();
            for (k, q) in batch.iter().enumerate() {
                let q2 = q.clone();
                ps.push(start(&move || q2.clone(), &sc, k, false, false, k as u64));
            }
            let mut good: Vec<usize> = Vec::new();
            while !ps.is_empty() {
                let (k, o) = next_done(&mut ps);
                if let Some(m) = hit(&o, prop) {
                    if class(m) == want {
                        good.push(k as usize);
                    }
                }
            }
            if let Some(k) = good.into_iter().min() {
                best = batch[k].clone();
                progressed = true;
                continue 'outer;
            }
            i += jobs;
        }
        if !progressed {
            break;
        }
    }
    let with_empty = best.clone();
    best.clients.retain(|c| !c.steps.is_empty() || !c.role.is_empty());
    // removing empty clients renumbers them; keep only if it still fails
    let o = {
        let q = best.clone();
        let mut ps = vec![start(&move || q.clone(), &sc, 0, false, false, 0)];
        next_done(&mut ps).1
    };
    if hit(&o, prop).map(class) != Some(want) {
        best = with_empty;
    }
    let _ = std::fs::remove_dir_all(&sc);
    best
}

// -------------------------------------------------------------------- checks
#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub id: String,
    pub what: String,
    /// replay file, relative to /verif
    pub plan: String,
    /// text that identifies the violation
    pub matches: String,
}
fn verif() -> String {
    std::env::var("RUDIS_SIM_HOME").unwrap_or_else(|_| "/verif".into())
}
pub fn load_plan(path: &str) -> Plan {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path}: {e}");
        std::process::exit(2)
    });
    serde_json::from_str(&s).unwrap_or_else(|e| {
        eprintln!("cannot parse {path}: {e}");
        std::process::exit(2)
    })
}
fn knowns(prop: &str) -> Vec<Known> {
    let f = format!("{}/known_findings.json", verif());
    let Ok(s) = std::fs::read_to_string(&f) else { return vec![] };
    #[derive(Deserialize)]
    struct File {
        findings: Vec<Known>,
    }
    match serde_json::from_str::<File>(&s) {
        Ok(x) => x.findings.into_iter().filter(|k| k.property == prop).collect(),
        Err(e) => {
            eprintln!("{f}: {e}");
            std::process::exit(2);
        }
    }
}
pub fn jobs() -> usize {
    std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16)
}
fn add(to: &mut BTreeMap<String, u64>, from: &BTreeMap<String, u64>) {
    for (k, v) in from {
        *to.entry(k.clone()).or_insert(0) += v;
    }
}
pub fn check(prop: &str, tier: &str, seed0: u64, secs: f64, max_runs: u64, verbose: bool) -> i32 {
    let t0 = Instant::now();
    let sc = scratch_dir();
    let out = format!("{}/out", verif());
    let _ = std::fs::create_dir_all(&out);
    let nj = jobs();
    // recorded findings: reproduce, report, go on
    let mut known_hit = 0;
    for k in knowns(prop) {
        let p = load_plan(&format!("{}/{}", verif(), k.plan));
        let o = run_one(&p, false, false);
        match hit(&o, prop) {
            Some(m) if m.contains(&k.matches) => {
                println!("KNOWN-FINDING: property={prop} {} ({})", k.what, k.id);
                known_hit += 1;
            }
            Some(m) => {
                // the recorded input now fails in another way
                let path = format!("{out}/{prop}-known-{}.json", k.id);
                let mut q = p.clone();
                q.expect = m.to_string();
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&q).unwrap());
                println!("{m}");
                println!("VIOLATION property={prop} replay={path}");
                return 1;
            }
            None => println!("note: recorded finding {} no longer fails", k.id),
        }
    }
    let sc_end = Duration::from_secs_f64(secs);
    let mut ps: Vec<Proc> = Vec::new();
    let mut slots: BTreeMap<u64, usize> = BTreeMap::new();
    let mut free: BTreeSet<usize> = (0..nj).collect();
    let mut broken = 0u64;
    let (mut runs, mut nontrivial, mut steps, mut sim_ns, mut ops, mut acked) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let (mut fired, mut stats, mut probes) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut i = 0u64;
    let mut first_hit: Option<(u64, String)> = None;
    let mut last_new = 0u64;
    loop {
        while first_hit.is_none() && ps.len() < nj && i < max_runs && t0.elapsed() < sc_end {
            let slot = *free.iter().next().unwrap();
            free.remove(&slot);
            slots.insert(i, slot);
            let s = run_seed(seed0, i);
            let (pr, ti) = (prop.to_string(), tier.to_string());
            ps.push(start(&move || plans::make(&pr, s, &ti), &sc, slot, false, false, i));
            i += 1;
        }
        if ps.is_empty() {
            break;
        }
        let (tag, o) = next_done(&mut ps);
        free.insert(slots.remove(&tag).unwrap());
        runs += 1;
        if o.end.starts_with("harness error") {
            broken += 1;
            eprintln!("seed {}: {}", run_seed(seed0, tag), o.end);
        }
        steps += o.steps;
        sim_ns += o.sim_ns;
        ops += o.hist;
        acked += o.acked;
        add(&mut fired, &o.fired);
        add(&mut stats, &o.stats);
        add(&mut probes, &o.probes);
        if hashes.insert(o.hash) && o.acked > 0 {
            nontrivial += 1;
        }
        if states.insert(o.state) {
            last_new = runs;
        }
        if verbose {
            for v in &o.viols {
                println!("seed {} ({tag}) {:?} {}", run_seed(seed0, tag), v.0, v.1);
            }
        }
        match hit(&o, prop) {
            Some(m) => {
                let better = first_hit.as_ref().map_or(true, |f| tag < f.0);
                if better && !verbose {
                    first_hit = Some((tag, m.to_string()));
                }
                *other.entry(format!("{prop}: {}", class(m))).or_insert(0) += 1;
            }
            None => {
                for v in &o.viols {
                    *other.entry(format!("{}: {}", v.0.join("+"), class(&v.1))).or_insert(0) += 1;
                }
            }
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut replay = String::new();
    if let Some((tag, m)) = &first_hit {
        let s = run_seed(seed0, *tag);
        let p = plans::make(prop, s, tier);
        println!("run {tag} (seed {s}): {m}");
        let q = minimise(&p, prop, m, Duration::from_secs(45), nj);
        replay = write_replay(&q, prop, &format!("{out}/{prop}-{s}.json"));
        println!("minimised from {} to {} steps and faults", p.size(), q.size());
        println!("VIOLATION property={prop} replay={replay}");
        code = 1;
    }
    let _ = std::fs::remove_dir_all(&sc);
    if !other.is_empty() {
        for (k, v) in other.iter().take(12) {
            println!("note: {v} run(s) showed {k}");
        }
    }
    let sample: Vec<serde_json::Value> = (0..2.min(runs))
        .map(|k| {
            let p = plans::make(prop, run_seed(seed0, k), tier);
            sample_of(&p)
        })
        .collect();
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed0,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": nontrivial,
            "rule": plans::rule(prop),
            "samples": sample,
            "runs_per_hour": (runs as f64 / explore_s * 3600.0) as u64,
            "seeds_per_hour": (runs as f64 / explore_s * 3600.0) as u64,
            "simulated_seconds": sim_ns as f64 / 1e9,
            "simulated_seconds_per_wall_second": sim_ns as f64 / 1e9 / explore_s,
            "scheduler_steps": steps,
            "requests_issued": ops,
            "replies_received": acked,
            "distinct_interleavings": hashes.len(),
            "interleaving_measure": "64-bit hash over the sequence of scheduled coroutines, preemption points and network resets of the run",
            "distinct_outcomes": states.len(),
            "outcome_measure": "hash of the recorded replies and of the final state",
            "runs_since_last_new_outcome": runs - last_new,
            "faults_injected": fired,
            "environment_events": stats,
            "situations_reached": probes,
            "known_findings_reproduced": known_hit,
            "real_components": plans::real(prop),
            "stub_components": plans::stub(),
            "replay": replay,
        },
        "assumptions": plans::assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(code == 1),
    });
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{prop} {tier}: {runs} runs in {explore_s:.1} s ({:.0}/h), {:.0} simulated s, {} distinct interleavings, {} violations",
        runs as f64 / explore_s * 3600.0,
        sim_ns as f64 / 1e9,
        hashes.len(),
        i32::from(code == 1)
    );
    if broken > 0 {
        println!("{broken} run(s) ended without a result: a fault of the simulator, not of the code under test");
        if code == 0 && broken * 500 > runs {
            code = 2;
        }
    }
    code
}
pub fn run_seed(seed0: u64, i: u64) -> u64 {
    seed0.wrapping_mul(1_000_000).wrapping_add(i)
}
fn sample_of(p: &Plan) -> serde_json::Value {
    let mut q = p.clone();
    for c in &mut q.clients {
        c.steps.truncate(6);
    }
    q.clients.truncate(3);
    q.faults.truncate(6);
    serde_json::to_value(&q).unwrap()
}
pub fn write_replay(p: &Plan, prop: &str, path: &str) -> String {
    let mut q = p.clone();
    q.property = prop.into();
    let o = run_one(&q, true, true);
    let m = hit(&o, prop).unwrap_or("").to_string();
    q.expect = format!("{:016x} {m}", o.hash);
    let _ = std::fs::write(path, serde_json::to_string_pretty(&q).unwrap());
    let mut log = String::new();
    for l in &o.history {
        log.push_str(l);
        log.push('\n');
    }
    log.push_str("---- schedule and fault trace\n");
    for l in o.trace.iter().take(20_000) {
        log.push_str(l);
        log.push('\n');
    }
    let _ = std::fs::write(format!("{path}.log"), log);
    println!("minimised: {m}");
    path.to_string()
}
pub fn replay(path: &str, trace: bool) -> i32 {
    let p = load_plan(path);
    let o = run_one(&p, trace, true);
    if trace {
        for l in &o.trace {
            println!("{l}");
        }
    }
    for l in &o.history {
        println!("{l}");
    }
    for v in &o.viols {
        println!("{}: {}", v.0.join(","), v.1);
    }
    println!("end {} steps {} simulated {} ms hash {:016x}", o.end, o.steps, o.sim_ns / 1_000_000, o.hash);
    if let Some(h) = p.expect.split(' ').next() {
        if !h.is_empty() {
            println!("{}", if h == format!("{:016x}", o.hash) { "the recorded execution was reproduced exactly" } else { "the execution differs from the recorded one" });
        }
    }
    match hit(&o, &p.property) {
        Some(_) => {
            println!("VIOLATION property={} replay={path}", p.property);
            1
        }
        None => 0,
    }
}
/// Same seed, two processes: the executions must be identical.
pub fn determinism(props: &[String], n: u64, seed0: u64) -> i32 {
    let mut bad = 0;
    for pr in props {
        let mut diff = 0;
        for i in 0..n {
            let p = plans::make(pr, run_seed(seed0, i), "quick");
            let a = run_one(&p, true, true);
            let b2 = run_one(&p, true, true);
            if a.hash != b2.hash || a.trace != b2.trace || a.state != b2.state {
                diff += 1;
                println!("{pr} seed {} differs: {:x} {:x}", run_seed(seed0, i), a.hash, b2.hash);
                if let Some(k) = (0..a.trace.len().min(b2.trace.len())).find(|k| a.trace[*k] != b2.trace[*k]) {
                    println!("  first difference:\n  {}\n  {}", a.trace[k], b2.trace[k]);
                }
            }
        }
        println!("{pr}: {n} seeds run twice, {diff} differ");
        bad += diff;
    }
    i32::from(bad > 0)
}
