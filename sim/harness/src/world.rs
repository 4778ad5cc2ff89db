//! Everything shared by one simulated run: history, violations, machines, fault execution.
use crate::{plan::*, resp::Resp};
use simrt::*;
use std::collections::BTreeMap;

pub const PORT: u16 = 6379;
pub const FWD_PORT: u16 = 6400;
pub const PD_PORT: u16 = 6666;
/// logical machine number of the placement driver
pub const PD: u32 = 100;
pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;
pub const PENDING: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub struct OpRec {
    pub client: usize,
    /// index into World::conns
    pub conn: usize,
    pub target: u32,
    pub cmd: Cmd,
    pub inv: u64,
    pub inv_ns: u64,
    /// PENDING if no reply was seen
    pub ret: u64,
    pub ret_ns: u64,
    pub reply: Option<Resp>,
    pub fail: String,
    /// the client handed all bytes to its socket
    pub sent: bool,
    /// sent before anything could have reached the server (connect failed)
    pub never: bool,
    pub tag: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CEnd {
    Open,
    Closed,
    Eof,
    Reset(i32),
    Malformed(String),
    Timeout,
    Refused(i32),
}
#[derive(Clone, Debug)]
pub struct ConnRec {
    pub client: usize,
    pub target: u32,
    pub fd: i32,
    pub opened_ns: u64,
    pub closed_ns: u64,
    pub end: CEnd,
    /// a fault (or the client's own behaviour) explains that this connection may end
    pub tainted: bool,
    /// bytes of any kind were sent: its replies are nobody's
    pub raw: bool,
    /// simulated connection number, once established
    pub net: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<String>,
    pub msg: String,
}
#[derive(Clone, Debug, Default)]
pub struct Machine {
    pub node: u32,
    pub up: bool,
    pub incarnation: u32,
    pub from_pd: bool,
    pub max_connections: u32,
    /// the process left `run` (or `main`)
    pub returned: Option<u64>,
    pub booted_ns: u64,
    /// instants (ns) at which an incarnation died / booted
    pub deaths: Vec<u64>,
    pub boots: Vec<u64>,
}
pub struct World {
    pub plan: Plan,
    pub hist: Vec<OpRec>,
    pub conns: Vec<ConnRec>,
    pub viols: Vec<Viol>,
    pub machines: BTreeMap<u32, Machine>,
    /// (machine, ns, new offset) whenever a clock stepped
    pub steps: Vec<(u32, u64, i64)>,
    pub barrier: BTreeMap<u32, (u32, Vec<CoroId>)>,
    pub cur_conn: Vec<Option<usize>>,
    pub clients_left: usize,
    pub faults_left: usize,
    pub ctl: Option<CoroId>,
    pub fired: BTreeMap<String, u64>,
    pub scratch: String,
    pub known: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub snaps: Vec<crate::snap::Snap>,
    /// requests issued and answered outside the history, and a hash of the answers
    pub more: (u64, u64, u64),
}
static mut WORLD: Option<World> = None;
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}
pub fn install(plan: Plan, scratch: String) {
    let n = plan.clients.len();
    unsafe {
        WORLD = Some(World {
            hist: Vec::new(),
            conns: Vec::new(),
            viols: Vec::new(),
            machines: BTreeMap::new(),
            steps: Vec::new(),
            barrier: BTreeMap::new(),
            cur_conn: vec![None; n],
            clients_left: n,
            faults_left: 0,
            ctl: None,
            fired: BTreeMap::new(),
            plan,
            scratch,
            known: BTreeMap::new(),
            probes: BTreeMap::new(),
            snaps: Vec::new(),
            more: (0, 0, 0),
        });
    }
}
pub fn viol(props: &[&str], msg: impl Into<String>) {
    let m = msg.into();
    simrt::trace!("VIOLATION {:?} {}", props, m);
    if w().viols.len() < 50 {
        w().viols.push(Viol { props: props.iter().map(|s| (*s).to_string()).collect(), msg: m });
    }
}
/// Count that something interesting happened in this run (reported as coverage).
pub fn probe(k: &str) {
    *w().probes.entry(k.to_string()).or_insert(0) += 1;
}
pub fn probe_n(k: &str, n: u64) {
    *w().probes.entry(k.to_string()).or_insert(0) += n;
}
pub fn now() -> u64 {
    sim().now
}
pub fn ip(machine: u32) -> u32 {
    0x0a00_0000 + machine
}
pub fn ip_str(machine: u32) -> String {
    format!("10.0.0.{machine}")
}
pub fn node_of(machine: u32) -> u32 {
    w().machines.get(&machine).map_or(0, |m| m.node)
}
pub fn alive(machine: u32) -> bool {
    w().machines.get(&machine).map_or(false, |m| m.up && node(m.node).alive)
}

/// Wall clock bounds (ms) of machine `m` over [a, b] (simulated ns), and whether it ever steps.
pub fn wall_window(m: u32, a: u64, b: u64) -> (u64, u64, bool) {
    let base = (w().plan.sched.wall_base_ms as i128) * 1_000_000;
    let mut off = 0i64;
    let (mut lo, mut hi) = (i128::MAX, i128::MIN);
    let mut jump = false;
    let mut from = a;
    let mut upd = |t: u64, off: i64| {
        let x = base + i128::from(t) + i128::from(off);
        lo = lo.min(x);
        hi = hi.max(x);
    };
    for (mm, at, o) in &w().steps {
        if *mm != m {
            continue;
        }
        jump = true;
        if *at > a && *at <= b {
            upd(from, off);
            upd(*at, off);
            from = *at;
        }
        if *at <= b {
            off = *o;
        }
    }
    upd(from, off);
    upd(b, off);
    let f = |x: i128| (x.max(0) / 1_000_000) as u64;
    (f(lo), f(hi), jump)
}

// ------------------------------------------------------------------ machines
pub fn scratch_file(name: &str, content: &str) -> String {
    let p = format!("{}/{}", w().scratch, name);
    let _k = Kernel::enter();
    std::fs::write(&p, content).expect("scratch");
    p
}
pub fn boot_server(machine: u32) {
    let _k = Kernel::enter();
    let p = &w().plan;
    let workers = p.sched.workers.max(1) as usize;
    let m = w().machines.entry(machine).or_default();
    m.incarnation += 1;
    let name = format!("s{machine}.{}", m.incarnation);
    let mut conf = format!("server_addr = \"{}:{PORT}\"\nforward_addr = \"{}:{}\"\n", ip_str(machine), ip_str(machine), if m.from_pd { FWD_PORT } else { 0 });
    if m.max_connections > 0 {
        conf.push_str(&format!("max_connections = {}\n", m.max_connections));
    }
    if m.from_pd {
        conf.push_str(&format!("[from_pd]\naddr = \"{}:{PD_PORT}\"\ngroup_id = 1\n", ip_str(PD)));
    }
    let file = scratch_file(&format!("m{machine}.toml"), &conf);
    let id = add_node(&name, ip(machine), workers);
    if id as usize >= simrt::alloc::MAX_NODES - 1 {
        panic!("too many simulated processes");
    }
    net::power_on(ip(machine));
    let off = w().steps.iter().rev().find(|x| x.0 == machine).map_or(0, |x| x.2);
    node(id).wall_off = off;
    node(id).env.insert("RUDIS_CONFIG".into(), format!("{file}\0").into_bytes());
    m.node = id;
    m.up = true;
    m.returned = None;
    m.booted_ns = sim().now;
    m.boots.push(sim().now);
    let addr = format!("{}:{PORT}", ip_str(machine));
    spawn_on(
        id,
        "main",
        Box::new(move || {
            #[cfg(feature = "bin")]
            {
                let ok = crate::server_bin::call();
                {
                    let _k = Kernel::enter();
                    w().machines.get_mut(&machine).unwrap().returned = Some(sim().now);
                    probe("run_returned");
                }
                node_exit(if ok { 0 } else { 1 });
            }
            // what bin/server.rs does, with the address from the same configuration
            #[cfg(not(feature = "bin"))]
            {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(4).enable_all().build().unwrap();
            rt.block_on(async {
                let l = tokio::net::TcpListener::bind(addr.as_str()).await.unwrap();
                server::run(l, tokio::signal::ctrl_c()).await;
            });
            {
                let _k = Kernel::enter();
                w().machines.get_mut(&machine).unwrap().returned = Some(sim().now);
                probe("run_returned");
            }
            drop(rt);
            node_exit(0);
            }
        }),
    );
}
/// When `run` of the current incarnation returned.
pub fn returned(machine: u32) -> Option<u64> {
    let m = &w().machines[&machine];
    tokio::task::sim_closing(m.node).or(m.returned)
}
pub fn boot_pd() {
    let _k = Kernel::enter();
    let m = w().machines.entry(PD).or_default();
    m.incarnation += 1;
    let id = add_node(&format!("pd.{}", m.incarnation), ip(PD), 1);
    m.node = id;
    m.up = true;
    m.returned = None;
    m.booted_ns = sim().now;
    m.boots.push(sim().now);
    net::power_on(ip(PD));
    let addr = format!("{}:{PD_PORT}", ip_str(PD));
    spawn_on(
        id,
        "pd-main",
        Box::new(move || {
            let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
            let _ = rt.block_on(async {
                let l = tokio::net::TcpListener::bind(addr.as_str()).await.unwrap();
                pd::run(l).await
            });
            {
                let _k = Kernel::enter();
                w().machines.get_mut(&PD).unwrap().returned = Some(sim().now);
            }
            node_exit(0);
        }),
    );
}
pub fn crash(machine: u32, silent: bool) {
    crate::cluster::keep_health(machine);
    if let Some(m) = w().machines.get_mut(&machine) {
        if m.up {
            m.up = false;
            m.deaths.push(sim().now);
            sim().stats.crashes += 1;
            kill_node(m.node, None, silent);
        }
    }
}

// ------------------------------------------------------------------ faults
fn fired(k: &str) {
    *w().fired.entry(k.to_string()).or_insert(0) += 1;
}
fn taint(f: impl Fn(&ConnRec) -> bool) {
    for c in &mut w().conns {
        if c.end == CEnd::Open && f(c) {
            c.tainted = true;
        }
    }
}
fn client_conn(cl: u32) -> Option<u32> {
    let c = (*w().cur_conn.get(cl as usize)?)?;
    w().conns[c].tainted = true;
    net::conn_of(w().conns[c].fd).map(|x| x.0)
}
pub fn apply_fault(k: &FaultKind) {
    let _k = Kernel::enter();
    simrt::trace!("FAULT {:?}", k);
    if let FaultKind::AcceptErr { node, .. } | FaultKind::ConnectErr { node, .. } | FaultKind::ForkErr { node, .. } | FaultKind::Stall { node, .. } | FaultKind::ClockStep { node, .. } | FaultKind::Sigint { node } = k {
        if !alive(*node) {
            return;
        }
    }
    match k {
        FaultKind::Reset { client } => {
            if let Some(c) = client_conn(*client) {
                net::kill_conn(c);
                fired("client connection reset");
            }
        }
        FaultKind::Cut { client, side, bytes } => {
            if let Some(c) = client_conn(*client) {
                let at = sim().net.conns[c as usize].pipe[*side as usize].delivered + bytes;
                net::cut_after(c, *side, at);
                fired("client connection cut mid-stream");
            }
        }
        FaultKind::ResetLink { a, b } => {
            taint(|c| c.target == *a || c.target == *b);
            for c in net::conns_between(ip(*a), ip(*b)) {
                net::kill_conn(c);
                fired("inter-node connection reset");
            }
        }
        FaultKind::CutLink { a, b, side, bytes } => {
            for c in net::conns_between(ip(*a), ip(*b)) {
                let at = sim().net.conns[c as usize].pipe[*side as usize].delivered + bytes;
                net::cut_after(c, *side, at);
                fired("inter-node connection cut mid-stream");
            }
        }
        FaultKind::Partition { a, b, both } => {
            net::partition(ip(*a), ip(*b), *both);
            fired(if *both { "partition" } else { "one-way partition" });
        }
        FaultKind::Heal => {
            net::heal_all();
            fired("heal");
        }
        FaultKind::AcceptErr { node, port, n, errno } => {
            sim().net.accept_errs.push((node_of(*node), *port, *n, *errno));
            fired("accept error");
            // wake the acceptor even if nobody connects: the error needs no connection
        }
        FaultKind::ConnectErr { node, port, n, errno } => {
            sim().net.connect_errs.push((node_of(*node), *port, *n, *errno));
            fired("connect error");
        }
        FaultKind::Crash { node, silent } => {
            taint(|c| c.target == *node);
            crash(*node, *silent);
            fired(if *silent { "power loss" } else { "process crash" });
        }
        FaultKind::Restart { node } => {
            if !alive(*node) {
                sim().stats.restarts += 1;
                if *node == PD {
                    boot_pd();
                } else {
                    // it gave up just now, and the supervisor has not seen it yet
                    if w().machines.get(node).map_or(false, |m| m.up && m.node != 0) {
                        crate::cluster::keep_health(*node);
                        w().machines.get_mut(node).unwrap().deaths.push(sim().now);
                    }
                    boot_server(*node);
                }
                fired("restart");
            }
        }
        FaultKind::Stall { node, us } => {
            stall_node(node_of(*node), us * US);
            fired("process stall");
        }
        FaultKind::ClockStep { node, ms } => {
            let n = node_of(*node);
            step_clock(n, ms * 1_000_000);
            w().steps.push((*node, sim().now, simrt::node(n).wall_off));
            fired(if *ms < 0 { "clock step back" } else { "clock step forward" });
        }
        FaultKind::Sigint { node } => {
            taint(|c| c.target == *node);
            send_sigint(node_of(*node));
            fired("shutdown signal");
        }
        FaultKind::ForkErr { node, n, errno } => {
            simrt::node(node_of(*node)).fork_errs = (*n, *errno);
            fired("fork error");
        }
        FaultKind::Slow { a, b, us } => {
            sim().net.slow.insert((ip(*a), ip(*b)), us * US);
            fired("slow link");
        }
    }
}
pub fn until(ns: u64) {
    while sim().now < ns {
        sleep_ns(ns - sim().now);
    }
}
pub fn start_faults() {
    let mut f = w().plan.faults.clone();
    f.sort_by_key(|x| x.at_us);
    w().faults_left = f.len();
    if f.is_empty() {
        return;
    }
    spawn_on(
        0,
        "faults",
        Box::new(move || {
            for x in f {
                until(x.at_us * US);
                apply_fault(&x.kind);
                w().faults_left -= 1;
            }
            if let Some(c) = w().ctl {
                unpark(c);
            }
        }),
    );
}
