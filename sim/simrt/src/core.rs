//! Coroutines, the seeded scheduler, virtual time, simulated processes (nodes).
use crate::{net::Net, rng::Rng};
use std::{
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap, VecDeque},
};

pub type CoroId = u32;
pub type NodeId = u32;

// ---------------------------------------------------------------- context switch
std::arch::global_asm!(
    ".global simrt_switch",
    "simrt_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global simrt_tramp",
    "simrt_tramp:",
    "call r12",
    "ud2",
);
extern "C" {
    fn simrt_switch(save: *mut *mut u8, to: *mut u8);
    fn simrt_tramp();
}

pub const STACK_SIZE: usize = 2 * 1024 * 1024;

pub struct Stack {
    base: *mut u8,
}
impl Stack {
    fn new() -> Self {
        unsafe {
            let p = crate::sys::raw_mmap(STACK_SIZE + 4096);
            crate::sys::raw_mprotect_none(p, 4096);
            Stack { base: p }
        }
    }
    fn top(&self) -> *mut u8 {
        unsafe { self.base.add(STACK_SIZE + 4096) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
    Runnable,
    Blocked,
    Done,
    Dead,
}

pub struct Coro {
    pub id: CoroId,
    pub node: NodeId,
    pub name: String,
    pub state: State,
    pub reason: &'static str,
    stack: Option<Stack>,
    sp: *mut u8,
    entry: Option<Box<dyn FnOnce()>>,
    token: bool,
    wait_seq: u64,
    prio: u64,
    pub steps: u64,
    pub holds_worker: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Random,
    Priority,
    Fifo,
    Lifo,
}

/// Everything the scheduler and the network need to know for one run.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub policy: Policy,
    /// probability (ppm) that a synchronisation point preempts
    pub preempt_ppm: u32,
    /// probability (ppm) that a preempted coroutine stalls
    pub stall_ppm: u32,
    pub stall_max: u64,
    pub step_cost: u64,
    /// 1/n chance of a priority change at a preemption
    pub prio_change: u64,
    pub lat_min: u64,
    pub lat_max: u64,
    /// ppm of segments that get an extra delay up to `lat_spike`
    pub spike_ppm: u32,
    pub lat_spike: u64,
    /// socket buffer capacity per direction, bytes
    pub sock_cap: usize,
    /// ppm of reads / writes that are cut short
    pub short_read_ppm: u32,
    pub short_write_ppm: u32,
    /// max segment size on the wire (small = heavy fragmentation)
    pub mss: usize,
    pub max_steps: u64,
    pub wall_base_ms: u64,
    pub trace: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            seed: 1,
            policy: Policy::Random,
            preempt_ppm: 100_000,
            stall_ppm: 0,
            stall_max: 5_000_000,
            step_cost: 2_000,
            prio_change: 8,
            lat_min: 50_000,
            lat_max: 200_000,
            spike_ppm: 0,
            lat_spike: 50_000_000,
            sock_cap: 64 * 1024,
            short_read_ppm: 0,
            short_write_ppm: 0,
            mss: 16 * 1024,
            max_steps: 3_000_000,
            wall_base_ms: 1_790_000_000_000,
            trace: false,
        }
    }
}

pub enum Action {
    Wake(CoroId, u64),
    Requeue(CoroId),
    TimerSlot(u64),
    Deliver(u32, u8),
    Call(Box<dyn FnOnce()>),
}
struct TimerEntry {
    at: u64,
    seq: u64,
    act: Action,
}
impl PartialEq for TimerEntry {
    fn eq(&self, o: &Self) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for TimerEntry {}
impl PartialOrd for TimerEntry {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TimerEntry {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.at, self.seq).cmp(&(o.at, o.seq))
    }
}

pub struct Child {
    pub pid: i32,
    pub exited: Option<i32>,
}

pub struct Node {
    pub id: NodeId,
    pub name: String,
    pub ip: u32,
    pub alive: bool,
    /// wall clock = base + now + wall_off (ns); monotone clock is never stepped
    pub wall_off: i64,
    pub workers: usize,
    pub busy: usize,
    pub worker_q: VecDeque<CoroId>,
    pub stalled_until: u64,
    pub exit_code: Option<i32>,
    pub panics: Vec<String>,
    pub children: Vec<Child>,
    /// fork fails this many times with this error
    pub fork_errs: (u32, i32),
    pub child_waiters: Vec<CoroId>,
    pub env: BTreeMap<String, Vec<u8>>,
    /// set by the scenario: SIGINT arrived
    pub sigint: bool,
    pub sigint_installed: bool,
    pub sigint_wakers: Vec<std::task::Waker>,
    pub steps: u64,
    pub task_deaths: Vec<String>,
}

pub struct Panic {
    pub node: NodeId,
    pub coro: CoroId,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub preemptions: u64,
    pub stalls: u64,
    pub short_reads: u64,
    pub short_writes: u64,
    pub spikes: u64,
    pub resets: u64,
    pub cuts: u64,
    pub fins: u64,
    pub partitions: u64,
    pub heals: u64,
    pub held_segments: u64,
    pub accept_errors: u64,
    pub refused: u64,
    pub crashes: u64,
    pub restarts: u64,
    pub node_stalls: u64,
    pub clock_steps: u64,
    pub forks: u64,
    pub fork_errors: u64,
    pub segments: u64,
    pub would_block: u64,
    pub connects: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Stopped,
    Deadlock,
    StepLimit,
}

pub struct Sim {
    pub cfg: Cfg,
    pub sched_rng: Rng,
    pub net_rng: Rng,
    pub entropy: Rng,
    pub now: u64,
    pub steps: u64,
    pub event_seq: u64,
    coros: Vec<Coro>,
    runnable: VecDeque<CoroId>,
    timers: BinaryHeap<Reverse<TimerEntry>>,
    timer_seq: u64,
    pub slots: BTreeMap<u64, std::task::Waker>,
    slot_seq: u64,
    pub nodes: Vec<Node>,
    pub net: Net,
    pub current: Option<CoroId>,
    main_sp: *mut u8,
    free_stacks: Vec<Stack>,
    countdown: u64,
    pub stop: bool,
    pub hash: u64,
    pub stats: Stats,
    pub panics: Vec<Panic>,
    pub next_pid: i32,
    pub trace: Vec<String>,
    pub in_child: bool,
    pub notes: BTreeMap<String, u64>,
    pub preempt_off: u32,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
pub static mut CUR_NODE: u32 = 0;

#[inline]
pub fn active() -> bool {
    unsafe { !SIM.is_null() }
}
/// The simulator. Never keep the reference across a context switch.
#[inline]
#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe {
        debug_assert!(!SIM.is_null());
        &mut *SIM
    }
}
#[inline]
pub fn in_coro() -> bool {
    active() && sim().current.is_some()
}
#[inline]
pub fn current() -> CoroId {
    sim().current.expect("not in a coroutine")
}
/// Key of the simulated process the caller runs in; 0 outside.
#[inline]
pub fn node_key() -> u64 {
    if !active() {
        return 0;
    }
    unsafe { u64::from(CUR_NODE) }
}

pub fn init(cfg: Cfg) {
    crate::interpose::find_exit_guard();
    unsafe {
        assert!(SIM.is_null());
        let mut root = Rng::new(cfg.seed);
        let s = Sim {
            sched_rng: root.fork(),
            net_rng: root.fork(),
            entropy: root.fork(),
            cfg,
            now: 0,
            steps: 0,
            event_seq: 0,
            coros: Vec::new(),
            runnable: VecDeque::new(),
            timers: BinaryHeap::new(),
            timer_seq: 0,
            slots: BTreeMap::new(),
            slot_seq: 0,
            nodes: Vec::new(),
            net: Net::default(),
            current: None,
            main_sp: std::ptr::null_mut(),
            free_stacks: Vec::new(),
            countdown: 1,
            stop: false,
            hash: 0xcbf2_9ce4_8422_2325,
            stats: Stats::default(),
            panics: Vec::new(),
            next_pid: 1000,
            trace: Vec::new(),
            in_child: false,
            notes: BTreeMap::new(),
            preempt_off: 0,
        };
        SIM = Box::into_raw(Box::new(s));
        add_node("harness", 0x0a00_00fe, 0);
        reset_countdown();
    }
    std::panic::set_hook(Box::new(|info| {
        if !active() {
            eprintln!("{info}");
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        let s = sim();
        let node = unsafe { CUR_NODE };
        let coro = s.current.unwrap_or(u32::MAX);
        let m = format!("{msg}{loc}");
        if node == 0 || s.cfg.trace {
            eprintln!("[sim] panic on node {node} coro {coro}: {m}");
        }
        s.panics.push(Panic { node, coro, msg: m.clone() });
        if let Some(n) = s.nodes.get_mut(node as usize) {
            n.panics.push(m);
        }
    }));
}

pub fn add_node(name: &str, ip: u32, workers: usize) -> NodeId {
    let s = sim();
    let id = s.nodes.len() as NodeId;
    s.nodes.push(Node {
        id,
        name: name.to_string(),
        ip,
        alive: true,
        wall_off: 0,
        workers,
        busy: 0,
        worker_q: VecDeque::new(),
        stalled_until: 0,
        exit_code: None,
        panics: Vec::new(),
        children: Vec::new(),
        fork_errs: (0, 0),
        child_waiters: Vec::new(),
        env: BTreeMap::new(),
        sigint: false,
        sigint_installed: false,
        sigint_wakers: Vec::new(),
        steps: 0,
        task_deaths: Vec::new(),
    });
    id
}
pub fn node(id: NodeId) -> &'static mut Node {
    &mut sim().nodes[id as usize]
}

#[inline]
pub fn mix(v: u64) {
    let s = sim();
    s.hash = (s.hash ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(5);
}
pub fn note(k: &str) {
    if active() {
        *sim().notes.entry(k.to_string()).or_insert(0) += 1;
    }
}
#[inline]
pub fn tracing() -> bool {
    active() && sim().cfg.trace
}
#[macro_export]
macro_rules! trace {
    ($($a:tt)*) => {
        if $crate::tracing() { $crate::trace_line(format!($($a)*)); }
    };
}
pub fn trace_line(l: String) {
    let _k = Kernel::enter();
    let s = sim();
    if s.trace.len() < 200_000 {
        let who = s.current.map_or("main".to_string(), |c| {
            let c = &s.coros[c as usize];
            format!("{}/{}#{}", s.nodes[c.node as usize].name, c.name, c.id)
        });
        s.trace.push(format!("{:>12.6} {:>7} {} {}", s.now as f64 / 1e9, s.steps, who, l));
    }
}
/// A fresh global event sequence number.
pub fn event() -> u64 {
    let s = sim();
    s.event_seq += 1;
    s.event_seq
}

/// Uniform below n, from the stream that feeds the code under test.
pub fn entropy_below(n: u64) -> u64 {
    sim().entropy.below(n)
}
/// While alive, allocations are charged to the kernel (node 0).
pub struct Kernel(u32);
impl Kernel {
    pub fn enter() -> Self {
        unsafe {
            let k = Kernel(CUR_NODE);
            CUR_NODE = 0;
            k
        }
    }
}
impl Drop for Kernel {
    fn drop(&mut self) {
        unsafe { CUR_NODE = self.0 }
    }
}

fn reset_countdown() {
    let s = sim();
    let p = u64::from(s.cfg.preempt_ppm);
    s.countdown = if p == 0 {
        u64::MAX
    } else {
        // geometric with mean 1/p, cheaply approximated by a uniform on 1..=2/p
        let m = 2_000_000 / p;
        if m <= 1 { 1 } else { s.sched_rng.range(1, m) }
    };
}

// ---------------------------------------------------------------- coroutines
unsafe extern "C" fn coro_main() -> ! {
    {
        let s = sim();
        let id = s.current.unwrap();
        let f = s.coros[id as usize].entry.take().unwrap();
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
            let s = sim();
            let name = s.coros[id as usize].name.clone();
            let n = s.coros[id as usize].node as usize;
            s.nodes[n].task_deaths.push(name);
        }
    }
    if sim().in_child {
        crate::sys::raw_exit(101);
    }
    finish_current()
}
fn finish_current() -> ! {
    let s = sim();
    let id = s.current.unwrap();
    s.coros[id as usize].state = State::Done;
    let mut dummy: *mut u8 = std::ptr::null_mut();
    unsafe { simrt_switch(&mut dummy, s.main_sp) };
    unreachable!()
}

pub fn spawn_on(node: NodeId, name: &str, f: Box<dyn FnOnce()>) -> CoroId {
    let _k = Kernel::enter();
    let s = sim();
    let stack = s.free_stacks.pop().unwrap_or_else(Stack::new);
    let id = s.coros.len() as CoroId;
    let sp = unsafe {
        let top = stack.top().cast::<u64>();
        // layout popped by simrt_switch: r15 r14 r13 r12 rbx rbp ret
        let p = top.sub(9);
        p.write(0); // r15
        p.add(1).write(0); // r14
        p.add(2).write(0); // r13
        p.add(3).write(coro_main as *const () as usize as u64); // r12
        p.add(4).write(0); // rbx
        p.add(5).write(0); // rbp
        p.add(6).write(simrt_tramp as *const () as usize as u64); // ret
        p.add(7).write(0);
        p.add(8).write(0);
        p.cast::<u8>()
    };
    let prio = s.sched_rng.next() | (1 << 63);
    s.coros.push(Coro {
        id,
        node,
        name: name.to_string(),
        state: State::Runnable,
        reason: "new",
        stack: Some(stack),
        sp,
        entry: Some(f),
        token: false,
        wait_seq: 0,
        prio,
        steps: 0,
        holds_worker: false,
    });
    s.runnable.push_back(id);
    id
}
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> CoroId {
    spawn_on(unsafe { CUR_NODE }, name, Box::new(f))
}
pub fn coro_node(id: CoroId) -> NodeId {
    sim().coros[id as usize].node
}
pub fn coro_done(id: CoroId) -> bool {
    matches!(sim().coros[id as usize].state, State::Done | State::Dead)
}
pub fn coro_steps(id: CoroId) -> u64 {
    sim().coros[id as usize].steps
}

fn switch_out() {
    let s = sim();
    let id = s.current.unwrap() as usize;
    let save: *mut *mut u8 = &mut s.coros[id].sp;
    let to = s.main_sp;
    unsafe { simrt_switch(save, to) };
}

/// Give up the processor but stay runnable.
pub fn yield_now() {
    if !in_coro() {
        return;
    }
    let s = sim();
    if s.in_child {
        return;
    }
    let id = s.current.unwrap();
    s.coros[id as usize].reason = "yield";
    {
        let _k = Kernel::enter();
        s.runnable.push_back(id);
    }
    switch_out();
}

/// A synchronisation point: the scheduler may preempt here.
#[inline]
pub fn yield_point(tag: u32) {
    if !active() {
        return;
    }
    let s = sim();
    s.countdown -= 1;
    if s.countdown == 0 {
        preempt(tag);
    }
}
#[cold]
fn preempt(tag: u32) {
    reset_countdown();
    let s = sim();
    if s.current.is_none() || s.in_child || s.preempt_off > 0 || std::thread::panicking() {
        return;
    }
    let id = s.current.unwrap() as usize;
    if s.coros[id].node == 0 {
        return;
    }
    s.stats.preemptions += 1;
    mix(u64::from(tag) << 32 | id as u64);
    if s.cfg.policy == Policy::Priority && s.sched_rng.below(s.cfg.prio_change.max(1)) == 0 {
        s.coros[id].prio = s.sched_rng.next() >> 1;
    }
    if s.sched_rng.ppm(s.cfg.stall_ppm) {
        s.stats.stalls += 1;
        let max = s.cfg.stall_max;
        let d = s.sched_rng.log_range(10_000, max);
        trace!("stall {}us at tag {}", d / 1000, tag);
        let until = sim().now + d;
        let s = sim();
        // stays Runnable but out of the queue: only its requeue event resumes it
        s.coros[id].reason = "stalled";
        add_timer(until, Action::Requeue(id as CoroId));
        switch_out();
        return;
    }
    yield_now();
}

/// Block until `unpark`. May return spuriously.
pub fn park(reason: &'static str) {
    park_inner(reason, None);
}
/// Block until `unpark` or the deadline; true if the deadline passed.
pub fn park_until(reason: &'static str, deadline: u64) -> bool {
    park_inner(reason, Some(deadline));
    sim().now >= deadline
}
fn park_inner(reason: &'static str, deadline: Option<u64>) {
    let s = sim();
    if s.in_child {
        crate::child::child_blocked(reason);
    }
    let id = s.current.expect("park outside a coroutine");
    let c = &mut s.coros[id as usize];
    if c.token {
        c.token = false;
        return;
    }
    c.reason = reason;
    c.wait_seq += 1;
    c.state = State::Blocked;
    let seq = c.wait_seq;
    if let Some(d) = deadline {
        add_timer(d.max(s.now), Action::Wake(id, seq));
    }
    switch_out();
    let s = sim();
    let c = &mut s.coros[id as usize];
    c.token = false;
    c.wait_seq += 1;
}
pub fn unpark(id: CoroId) {
    if !active() {
        return;
    }
    let _k = Kernel::enter();
    let s = sim();
    let c = &mut s.coros[id as usize];
    match c.state {
        State::Blocked => {
            c.state = State::Runnable;
            s.runnable.push_back(id);
        }
        State::Runnable => c.token = true,
        _ => {}
    }
}
pub fn sleep_ns(d: u64) {
    let until = sim().now + d;
    loop {
        if sim().now >= until {
            break;
        }
        park_until("sleep", until);
    }
}
pub fn add_timer(at: u64, act: Action) {
    let _k = Kernel::enter();
    let s = sim();
    s.timer_seq += 1;
    s.timers.push(Reverse(TimerEntry { at, seq: s.timer_seq, act }));
}
pub fn call_at(at: u64, f: impl FnOnce() + 'static) {
    add_timer(at, Action::Call(Box::new(f)));
}
/// Register a waker timer; returns its key.
pub fn add_waker_timer(at: u64, w: std::task::Waker) -> u64 {
    let _k = Kernel::enter();
    let s = sim();
    s.slot_seq += 1;
    let k = s.slot_seq;
    s.slots.insert(k, w);
    add_timer(at, Action::TimerSlot(k));
    k
}

// ---------------------------------------------------------------- runtime workers
pub fn worker_acquire() {
    loop {
        let s = sim();
        let id = s.current.unwrap();
        let n = s.coros[id as usize].node as usize;
        let nd = &mut s.nodes[n];
        if nd.workers == 0 {
            return;
        }
        if nd.busy < nd.workers {
            nd.busy += 1;
            nd.worker_q.retain(|c| *c != id);
            s.coros[id as usize].holds_worker = true;
            return;
        }
        if !nd.worker_q.contains(&id) {
            nd.worker_q.push_back(id);
        }
        park("no free worker thread");
    }
}
pub fn worker_release() {
    let s = sim();
    let id = s.current.unwrap();
    let c = &mut s.coros[id as usize];
    if !c.holds_worker {
        return;
    }
    c.holds_worker = false;
    let n = c.node as usize;
    s.nodes[n].busy -= 1;
    if !s.nodes[n].worker_q.is_empty() {
        let i = s.sched_rng.usize(s.nodes[n].worker_q.len());
        let w = s.nodes[n].worker_q.remove(i).unwrap();
        unpark(w);
    }
}

// ---------------------------------------------------------------- scheduler loop
fn pick() -> CoroId {
    let s = sim();
    let n = s.runnable.len();
    let i = if n == 1 {
        0
    } else {
        match s.cfg.policy {
            Policy::Random => s.sched_rng.usize(n),
            Policy::Fifo => 0,
            Policy::Lifo => {
                if s.sched_rng.below(16) == 0 {
                    s.sched_rng.usize(n)
                } else {
                    n - 1
                }
            }
            Policy::Priority => {
                if s.sched_rng.below(64) == 0 {
                    s.sched_rng.usize(n)
                } else {
                    let mut b = 0;
                    for i in 1..n {
                        if s.coros[s.runnable[i] as usize].prio > s.coros[s.runnable[b] as usize].prio {
                            b = i;
                        }
                    }
                    b
                }
            }
        }
    };
    s.runnable.remove(i).unwrap()
}

fn fire(act: Action) {
    match act {
        Action::Wake(id, seq) => {
            let c = &sim().coros[id as usize];
            if c.state == State::Blocked && c.wait_seq == seq {
                unpark(id);
            }
        }
        Action::Requeue(id) => {
            let s = sim();
            if s.coros[id as usize].state == State::Runnable {
                s.runnable.push_back(id);
            }
        }
        Action::TimerSlot(k) => {
            let w = sim().slots.remove(&k);
            if let Some(w) = w {
                w.wake();
            }
        }
        Action::Deliver(c, d) => crate::net::deliver(c, d),
        Action::Call(f) => f(),
    }
}

/// Run until `stop` is set, nothing can ever run again, or the step limit is hit.
pub fn run() -> End {
    loop {
        let s = sim();
        if s.stop {
            return End::Stopped;
        }
        // due timers
        while let Some(Reverse(t)) = s.timers.peek() {
            if t.at > s.now {
                break;
            }
            let Reverse(t) = s.timers.pop().unwrap();
            fire(t.act);
        }
        let s = sim();
        if s.stop {
            return End::Stopped;
        }
        if s.runnable.is_empty() {
            match s.timers.peek() {
                Some(Reverse(t)) => {
                    s.now = s.now.max(t.at);
                    continue;
                }
                None => return End::Deadlock,
            }
        }
        if s.steps >= s.cfg.max_steps {
            return End::StepLimit;
        }
        let id = pick();
        let s = sim();
        if s.coros[id as usize].state != State::Runnable {
            continue;
        }
        let node = s.coros[id as usize].node;
        let st = s.nodes[node as usize].stalled_until;
        if st > s.now {
            add_timer(st, Action::Requeue(id));
            continue;
        }
        s.steps += 1;
        s.coros[id as usize].steps += 1;
        s.nodes[node as usize].steps += 1;
        if node != 0 {
            s.now += s.sched_rng.range(1, s.cfg.step_cost.max(1) * 2);
        } else {
            s.now += 1;
        }
        mix(u64::from(id) ^ 0x55);
        s.current = Some(id);
        let to = s.coros[id as usize].sp;
        unsafe {
            CUR_NODE = node;
            simrt_switch(&mut sim().main_sp, to);
            CUR_NODE = 0;
        }
        let s = sim();
        s.current = None;
        if s.coros[id as usize].state == State::Done {
            if let Some(st) = s.coros[id as usize].stack.take() {
                s.free_stacks.push(st);
            }
        }
    }
}

impl Sim {
    /// (name, reason, steps) of every coroutine.
    pub fn coro_list(&self) -> Vec<(String, &'static str, u64)> {
        self.coros.iter().map(|c| (format!("{}/{}", self.nodes[c.node as usize].name, c.name), c.reason, c.steps)).collect()
    }
}
pub fn blocked_report(node: Option<NodeId>) -> String {
    let s = sim();
    let mut out = String::new();
    for c in &s.coros {
        if matches!(c.state, State::Blocked | State::Runnable) && node.map_or(true, |n| n == c.node) {
            out.push_str(&format!("{}/{}#{}: {:?} {}; ", s.nodes[c.node as usize].name, c.name, c.id, c.state, c.reason));
        }
    }
    out
}

// ---------------------------------------------------------------- simulated processes
/// The process dies: nothing of it ever runs again. `silent`: the machine lost power, peers are not told.
pub fn kill_node(n: NodeId, code: Option<i32>, silent: bool) {
    let s = sim();
    if !s.nodes[n as usize].alive {
        return;
    }
    s.nodes[n as usize].alive = false;
    s.nodes[n as usize].exit_code = code;
    for c in &mut s.coros {
        if c.node == n && !matches!(c.state, State::Done) {
            c.state = State::Dead;
        }
    }
    s.runnable.retain(|c| s.coros[*c as usize].state == State::Runnable);
    mix(0xdead_0000 + u64::from(n));
    trace!("node {} dies code={:?} silent={}", n, code, silent);
    crate::net::close_node(n, silent);
}
/// Called by `exit()` on a simulated node.
pub fn node_exit(code: i32) -> ! {
    let s = sim();
    let id = s.current.unwrap();
    let n = s.coros[id as usize].node;
    kill_node(n, Some(code), false);
    let s = sim();
    let mut dummy: *mut u8 = std::ptr::null_mut();
    unsafe { simrt_switch(&mut dummy, s.main_sp) };
    unreachable!()
}
pub fn stall_node(n: NodeId, d: u64) {
    let s = sim();
    s.stats.node_stalls += 1;
    s.nodes[n as usize].stalled_until = s.now + d;
    trace!("node {} stalls for {}us", n, d / 1000);
}
pub fn step_clock(n: NodeId, delta_ns: i64) {
    let s = sim();
    s.stats.clock_steps += 1;
    s.nodes[n as usize].wall_off += delta_ns;
    trace!("node {} clock steps by {}ms", n, delta_ns / 1_000_000);
}
pub fn wall_ns_of(n: NodeId) -> u64 {
    let s = sim();
    let w = (s.cfg.wall_base_ms as i128) * 1_000_000 + s.now as i128 + s.nodes[n as usize].wall_off as i128;
    w.max(0) as u64
}
pub fn wall_ms_of(n: NodeId) -> u64 {
    wall_ns_of(n) / 1_000_000
}
pub fn send_sigint(n: NodeId) {
    let nd = node(n);
    if !nd.sigint_installed {
        // the default action of the signal
        nd.exit_code = Some(130);
        crate::trace!("node {} is terminated by the signal", n);
        kill_node(n, Some(130), false);
        return;
    }
    nd.sigint = true;
    let ws = std::mem::take(&mut nd.sigint_wakers);
    for w in ws {
        w.wake();
    }
}

pub fn coro_in_child() -> bool {
    active() && sim().in_child
}
pub fn child_exit(code: i32) -> ! {
    crate::sys::raw_exit(code)
}
/// A task of the code under test ended by a panic.
pub fn task_died(name: &str) {
    let n = unsafe { CUR_NODE } as usize;
    let _k = Kernel::enter();
    sim().nodes[n].task_deaths.push(name.to_string());
}
