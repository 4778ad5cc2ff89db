//! A plan is everything that determines one simulated run: workload, faults, scheduler and network
//! parameters and the seed. Plans are generated from a seed, minimised, and written as replay files.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use simrt::{rng::Rng, Cfg, Policy};
use std::collections::BTreeMap;

/// A command argument: bulk string, simple string or integer frame.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Arg {
    B(Vec<u8>),
    S(Vec<u8>),
    I(i64),
}
pub fn esc(b: &[u8]) -> String {
    // long runs of the pattern filler are stored as a formula
    if b.len() > 200 {
        let p = filler(b.len(), b[0]);
        if p == b {
            return format!("\\F{}:{}", b.len(), b[0]);
        }
    }
    let mut s = String::with_capacity(b.len());
    for &c in b {
        if (32..127).contains(&c) && c != b'\\' {
            s.push(c as char);
        } else {
            s.push_str(&format!("\\x{c:02x}"));
        }
    }
    s
}
pub fn unesc(s: &str) -> Result<Vec<u8>, String> {
    if let Some(r) = s.strip_prefix("\\F") {
        let (n, t) = r.split_once(':').ok_or("bad filler")?;
        return Ok(filler(n.parse().map_err(|_| "bad filler")?, t.parse().map_err(|_| "bad filler")?));
    }
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 3 >= b.len() || b[i + 1] != b'x' {
                return Err("bad escape".into());
            }
            let h = std::str::from_utf8(&b[i + 2..i + 4]).map_err(|e| e.to_string())?;
            o.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
            i += 4;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    Ok(o)
}
/// Deterministic content for large values: starts with `tag`, covers every byte value.
pub fn filler(n: usize, tag: u8) -> Vec<u8> {
    let mut x = 0x9e37_79b9u32 ^ (u32::from(tag) << 8) ^ (n as u32);
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        if i == 0 {
            v.push(tag);
            continue;
        }
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        v.push((x >> 11) as u8);
    }
    v
}
impl Serialize for Arg {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t = match self {
            Arg::B(b) => format!("${}", esc(b)),
            Arg::S(b) => format!("+{}", esc(b)),
            Arg::I(i) => format!(":{i}"),
        };
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for Arg {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        use serde::de::Error;
        let s = String::deserialize(d)?;
        match s.as_bytes().first() {
            Some(b'$') => Ok(Arg::B(unesc(&s[1..]).map_err(D::Error::custom)?)),
            Some(b'+') => Ok(Arg::S(unesc(&s[1..]).map_err(D::Error::custom)?)),
            Some(b':') => Ok(Arg::I(s[1..].parse().map_err(D::Error::custom)?)),
            _ => Err(D::Error::custom("bad argument")),
        }
    }
}
impl std::fmt::Debug for Arg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Arg::B(b) => write!(f, "{}", crate::resp::show(b)),
            Arg::S(b) => write!(f, "+{}", crate::resp::show(b)),
            Arg::I(i) => write!(f, ":{i}"),
        }
    }
}
impl Arg {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Arg::B(b) | Arg::S(b) => b.clone(),
            Arg::I(i) => i.to_string().into_bytes(),
        }
    }
}
pub type Cmd = Vec<Arg>;
pub fn b(x: impl AsRef<[u8]>) -> Arg {
    Arg::B(x.as_ref().to_vec())
}
#[macro_export]
macro_rules! cmd {
    ($($x:expr),* $(,)?) => { vec![$($crate::plan::Arg::B($x.to_string().into_bytes())),*] };
}
pub fn cmd_str(c: &Cmd) -> String {
    c.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ")
}
pub fn cmd_name(c: &Cmd) -> String {
    c.first().map(|a| String::from_utf8_lossy(&a.bytes()).to_ascii_uppercase()).unwrap_or_default()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Raw(#[serde(with = "rawser")] pub Vec<u8>);
mod rawser {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(b: &[u8], s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&super::esc(b))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        super::unesc(&s).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum How {
    Fin,
    Rst,
    /// shut down the sending side, keep reading until the server closes
    Half,
    /// forget the socket without telling anybody (host lost power): stays open
    Leak,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// send one command and wait for its reply
    Do(Cmd),
    /// send several commands without waiting; the byte stream is written in pieces of `cuts` sizes
    /// (cycled; empty = one write) `gap_us` apart, replies are read `read_after_us` later in pieces of
    /// at most `read_chunk` bytes, `read_gap_us` apart
    Pipe { cmds: Vec<Cmd>, cuts: Vec<u32>, gap_us: u64, read_after_us: u64, read_chunk: u32, read_gap_us: u64 },
    /// like Pipe, but once everything was handed to the socket the client waits `after_us` (reading
    /// replies) and then ends the connection: close, reset, half-close (then reads on) or silence
    Burst { cmds: Vec<Cmd>, cuts: Vec<u32>, gap_us: u64, end: How, after_us: u64 },
    /// like Pipe, but the last `hold` bytes of the last command follow only after all others are answered
    Hold { cmds: Vec<Cmd>, cuts: Vec<u32>, gap_us: u64, hold: u32 },
    /// send bytes; replies (if any) are collected for `wait_us` but not interpreted
    Raw { bytes: Raw, wait_us: u64 },
    Sleep(u64),
    /// sleep until this many microseconds after the start of the run
    Until(u64),
    Close(How),
    /// connect now (otherwise the first command connects)
    Open,
    /// switch to another server
    Target(u32),
    /// wait until every client whose plan has this barrier got there
    Barrier(u32),
    /// scenario-specific step
    Special(String, Vec<i64>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Client {
    pub name: String,
    pub target: u32,
    pub start_us: u64,
    pub steps: Vec<Step>,
    #[serde(default)]
    pub role: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum FaultKind {
    /// reset the client's current connection
    Reset { client: u32 },
    /// lose the client's current connection once this many more bytes were delivered towards the server (side 1) or the client (side 0)
    Cut { client: u32, side: u8, bytes: u64 },
    /// reset every connection between two machines
    ResetLink { a: u32, b: u32 },
    CutLink { a: u32, b: u32, side: u8, bytes: u64 },
    Partition { a: u32, b: u32, both: bool },
    Heal,
    AcceptErr { node: u32, port: u16, n: u32, errno: i32 },
    ConnectErr { node: u32, port: u16, n: u32, errno: i32 },
    Crash { node: u32, silent: bool },
    Restart { node: u32 },
    Stall { node: u32, us: u64 },
    ClockStep { node: u32, ms: i64 },
    Sigint { node: u32 },
    ForkErr { node: u32, n: u32, errno: i32 },
    Slow { a: u32, b: u32, us: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub at_us: u64,
    pub kind: FaultKind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub policy: u8,
    pub preempt_ppm: u32,
    pub stall_ppm: u32,
    pub stall_max_us: u64,
    pub step_cost_ns: u64,
    pub prio_change: u64,
    pub lat_min_us: u64,
    pub lat_max_us: u64,
    pub spike_ppm: u32,
    pub spike_max_us: u64,
    pub sock_cap: u32,
    pub short_read_ppm: u32,
    pub short_write_ppm: u32,
    pub mss: u32,
    pub max_steps: u64,
    pub wall_base_ms: u64,
    pub workers: u32,
}
impl Sched {
    pub fn base() -> Self {
        Sched {
            policy: 0,
            preempt_ppm: 50_000,
            stall_ppm: 0,
            stall_max_us: 2_000,
            step_cost_ns: 2_000,
            prio_change: 8,
            lat_min_us: 30,
            lat_max_us: 150,
            spike_ppm: 0,
            spike_max_us: 20_000,
            sock_cap: 65_536,
            short_read_ppm: 0,
            short_write_ppm: 0,
            mss: 16_384,
            max_steps: 3_000_000,
            wall_base_ms: 1_790_000_000_000,
            workers: 4,
        }
    }
    /// A swarm-style random configuration: each run stresses a different mix.
    pub fn random(r: &mut Rng) -> Self {
        let mut s = Self::base();
        s.policy = *r.pick(&[0, 0, 1, 1, 1, 2, 3]);
        s.preempt_ppm = *r.pick(&[0, 2_000, 10_000, 50_000, 150_000, 400_000, 1_000_000]);
        if r.chance(1, 3) {
            s.stall_ppm = *r.pick(&[2_000, 20_000, 100_000]);
            s.stall_max_us = r.log_range(50, 20_000);
            // FLUSHALL passes some 65 000 such points: not more than ten seconds of stalls in all
            let per_point = u64::from(s.preempt_ppm.max(1)) * u64::from(s.stall_ppm) / 1_000_000;
            s.stall_max_us = s.stall_max_us.min(300_000_000 / per_point.max(1));
        }
        s.step_cost_ns = *r.pick(&[500, 2_000, 10_000]);
        s.prio_change = *r.pick(&[2, 8, 40]);
        s.lat_min_us = r.log_range(5, 100);
        s.lat_max_us = s.lat_min_us + r.log_range(5, 1_000);
        if r.chance(1, 3) {
            s.spike_ppm = *r.pick(&[5_000, 50_000]);
            s.spike_max_us = r.log_range(500, 30_000);
        }
        if r.chance(1, 3) {
            s.short_read_ppm = *r.pick(&[50_000, 300_000]);
        }
        if r.chance(1, 3) {
            s.short_write_ppm = *r.pick(&[50_000, 300_000]);
        }
        if r.chance(1, 4) {
            s.sock_cap = *r.pick(&[512, 2_048, 8_192]);
        }
        if r.chance(1, 4) {
            s.mss = *r.pick(&[1, 3, 17, 536]);
        }
        s.workers = *r.pick(&[1, 2, 4, 4, 8]);
        s
    }
    pub fn cfg(&self, seed: u64, trace: bool) -> Cfg {
        Cfg {
            seed,
            policy: match self.policy {
                0 => Policy::Random,
                1 => Policy::Priority,
                2 => Policy::Fifo,
                _ => Policy::Lifo,
            },
            preempt_ppm: self.preempt_ppm,
            stall_ppm: self.stall_ppm,
            stall_max: self.stall_max_us.max(11) * 1000,
            step_cost: self.step_cost_ns,
            prio_change: self.prio_change,
            lat_min: self.lat_min_us * 1000,
            lat_max: self.lat_max_us * 1000,
            spike_ppm: self.spike_ppm,
            lat_spike: self.spike_max_us.max(101) * 1000,
            sock_cap: self.sock_cap as usize,
            short_read_ppm: self.short_read_ppm,
            short_write_ppm: self.short_write_ppm,
            mss: self.mss as usize,
            max_steps: self.max_steps,
            wall_base_ms: self.wall_base_ms,
            trace,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub scenario: String,
    pub seed: u64,
    pub sched: Sched,
    #[serde(default)]
    pub p: BTreeMap<String, i64>,
    pub clients: Vec<Client>,
    pub faults: Vec<Fault>,
    /// filled in replay files: what the run showed
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub expect: String,
}
impl Plan {
    pub fn new(property: &str, scenario: &str, seed: u64, sched: Sched) -> Self {
        Plan {
            property: property.into(),
            scenario: scenario.into(),
            seed,
            sched,
            p: BTreeMap::new(),
            clients: vec![],
            faults: vec![],
            expect: String::new(),
        }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.p.insert(k.into(), v);
    }
    pub fn size(&self) -> usize {
        self.faults.len()
            + self
                .clients
                .iter()
                .map(|c| {
                    1 + c
                        .steps
                        .iter()
                        .map(|s| match s {
                            Step::Pipe { cmds, .. } | Step::Burst { cmds, .. } | Step::Hold { cmds, .. } => 1 + cmds.len(),
                            _ => 1,
                        })
                        .sum::<usize>()
                })
                .sum::<usize>()
    }
}
