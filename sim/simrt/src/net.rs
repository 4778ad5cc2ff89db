//! Simulated TCP/IP: hosts, listeners, byte streams with latency, segmentation, flow control and faults.
use crate::core::*;
use std::{
    collections::{BTreeMap, BTreeSet, VecDeque},
    task::Waker,
};

pub const FD_BASE: i32 = 1_000_000;
pub type Fd = i32;
pub type Addr = (u32, u16);

pub const EINTR: i32 = 4;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EINVAL: i32 = 22;
pub const EMFILE: i32 = 24;
pub const EPIPE: i32 = 32;
pub const ENOTSOCK: i32 = 88;
pub const EOPNOTSUPP: i32 = 95;
pub const EAFNOSUPPORT: i32 = 97;
pub const EADDRINUSE: i32 = 98;
pub const ECONNABORTED: i32 = 103;
pub const ECONNRESET: i32 = 104;
pub const ENOTCONN: i32 = 107;
pub const ETIMEDOUT: i32 = 110;
pub const ECONNREFUSED: i32 = 111;
pub const EINPROGRESS: i32 = 115;

pub enum Waiter {
    Coro(CoroId),
    Waker(Waker),
}
fn wake_all(v: &mut Vec<Waiter>) {
    for w in std::mem::take(v) {
        match w {
            Waiter::Coro(c) => unpark(c),
            Waiter::Waker(w) => w.wake(),
        }
    }
}
fn add_waiter(v: &mut Vec<Waiter>, w: Waiter) {
    match &w {
        Waiter::Coro(c) => {
            if v.iter().any(|x| matches!(x, Waiter::Coro(d) if d == c)) {
                return;
            }
        }
        Waiter::Waker(k) => {
            if v.iter().any(|x| matches!(x, Waiter::Waker(d) if d.will_wake(k))) {
                return;
            }
        }
    }
    v.push(w);
}

pub enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}
#[derive(Default)]
pub struct Pipe {
    inflight: VecDeque<(u64, Seg)>,
    inflight_bytes: usize,
    rcv: VecDeque<u8>,
    fin: bool,
    fin_sent: bool,
    pub delivered: u64,
    pub sent: u64,
    last_at: u64,
    rd: Vec<Waiter>,
    wr: Vec<Waiter>,
    held: bool,
    cut: Option<u64>,
    /// bytes were sent while the receiving host was down
    lost: bool,
}
pub struct Conn {
    pub addr: [Addr; 2],
    pub node: [NodeId; 2],
    /// pipe[s] carries the bytes received by side s
    pub pipe: [Pipe; 2],
    closed: [bool; 2],
    reset: [bool; 2],
    reset_seen: [bool; 2],
    pub accepted_at: Option<u64>,
    /// event number and instant at which each side closed its socket
    pub closed_ev: [u64; 2],
    pub closed_at: [u64; 2],
    /// a forked process holds the socket, too
    pub shared: bool,
}
pub enum Kind {
    Fresh { bound: Option<Addr> },
    Connecting { res: Option<Result<u32, i32>>, waiters: Vec<Waiter>, local: Addr, to: Addr },
    Listener { addr: Addr, backlog: VecDeque<u32>, waiters: Vec<Waiter> },
    Stream { conn: u32, side: u8 },
    Closed,
}
pub struct Sock {
    pub kind: Kind,
    pub node: NodeId,
    pub refs: u32,
    pub nonblock: bool,
    /// known to the epoll instance of the process
    pub registered: bool,
    pub rcv_timeout: u64,
    pub snd_timeout: u64,
}
#[derive(Default)]
pub struct Net {
    pub socks: Vec<Sock>,
    pub conns: Vec<Conn>,
    /// listening sockets
    listeners: Vec<(NodeId, Addr, Fd)>,
    next_port: BTreeMap<u32, u16>,
    /// directed blocked links (src ip, dst ip)
    blocked: BTreeSet<(u32, u32)>,
    held: Vec<(u32, u8)>,
    /// injected accept failures: (node, port, remaining, errno)
    pub accept_errs: Vec<(NodeId, u16, u32, i32)>,
    /// per-destination-ip extra one way delay
    pub slow: BTreeMap<(u32, u32), u64>,
    /// injected: next n connects from node to port fail with errno
    pub connect_errs: Vec<(NodeId, u16, u32, i32)>,
    pub powered_off: BTreeSet<u32>,
}

fn net() -> &'static mut Net {
    &mut sim().net
}
pub fn is_sim_fd(fd: Fd) -> bool {
    active() && fd >= FD_BASE && ((fd - FD_BASE) as usize) < net().socks.len()
}
pub fn sock(fd: Fd) -> &'static mut Sock {
    &mut net().socks[(fd - FD_BASE) as usize]
}
pub fn new_sock(node: NodeId) -> Fd {
    let _k = Kernel::enter();
    let n = net();
    n.socks.push(Sock {
        kind: Kind::Fresh { bound: None },
        node,
        refs: 1,
        nonblock: false,
        registered: false,
        rcv_timeout: 0,
        snd_timeout: 0,
    });
    FD_BASE + n.socks.len() as i32 - 1
}
pub fn cur_node() -> NodeId {
    unsafe { CUR_NODE }
}
fn ephemeral(ip: u32) -> u16 {
    let e = net().next_port.entry(ip).or_insert(40_000);
    *e = if *e >= 65_000 { 40_001 } else { *e + 1 };
    *e
}
fn ip_of(node: NodeId) -> u32 {
    sim().nodes[node as usize].ip
}
fn node_by_ip(ip: u32) -> Option<NodeId> {
    // the latest incarnation of a host owns its address
    sim().nodes.iter().rev().find(|n| n.ip == ip).map(|n| n.id)
}
const LOOPBACK: u32 = 0x7f00_0001;

pub fn bind_listen(fd: Fd, addr: Addr) -> Result<Addr, i32> {
    let _k = Kernel::enter();
    let node = sock(fd).node;
    let port = if addr.1 == 0 { ephemeral(ip_of(node)) } else { addr.1 };
    let a = (addr.0, port);
    if net().listeners.iter().any(|(n, l, _)| ip_of(*n) == ip_of(node) && l.1 == port && (l.0 == a.0 || l.0 == 0 || a.0 == 0)) {
        return Err(EADDRINUSE);
    }
    net().listeners.push((node, a, fd));
    sock(fd).kind = Kind::Listener { addr: a, backlog: VecDeque::new(), waiters: Vec::new() };
    crate::trace!("listen {:x}:{}", a.0, a.1);
    Ok(a)
}
fn find_listener(node: NodeId, ip: u32, port: u16) -> Option<Fd> {
    net()
        .listeners
        .iter()
        .find(|(n, l, _)| *n == node && l.1 == port && (l.0 == 0 || l.0 == ip))
        .map(|x| x.2)
}
fn latency(src: u32, dst: u32) -> u64 {
    let s = sim();
    if src == dst {
        return s.net_rng.range(5_000, 20_000);
    }
    let mut l = s.net_rng.range(s.cfg.lat_min, s.cfg.lat_max);
    if s.net_rng.ppm(s.cfg.spike_ppm) {
        s.stats.spikes += 1;
        let m = s.cfg.lat_spike;
        l += s.net_rng.log_range(100_000, m);
    }
    l + s.net.slow.get(&(src, dst)).copied().unwrap_or(0)
}
fn link_blocked(src: u32, dst: u32) -> bool {
    src != dst && net().blocked.contains(&(src, dst))
}

/// Start connecting; completion is reported through the socket state.
pub fn begin_connect(fd: Fd, to: Addr) -> Result<(), i32> {
    let _k = Kernel::enter();
    let node = sock(fd).node;
    if !matches!(sock(fd).kind, Kind::Fresh { .. }) {
        return Err(EINVAL);
    }
    let myip = ip_of(node);
    let dst = if to.0 == LOOPBACK || to.0 == 0 { myip } else { to.0 };
    let local = (myip, ephemeral(myip));
    sim().stats.connects += 1;
    sock(fd).kind = Kind::Connecting { res: None, waiters: Vec::new(), local, to: (dst, to.1) };
    crate::trace!("connect {:x}:{} -> {:x}:{}", local.0, local.1, dst, to.1);
    if let Some(e) = net().connect_errs.iter_mut().find(|e| e.0 == node && (e.1 == 0 || e.1 == to.1) && e.2 > 0) {
        e.2 -= 1;
        let err = e.3;
        let at = sim().now + latency(myip, dst);
        call_at(at, move || finish_connect(fd, Err(err)));
        return Ok(());
    }
    let at = sim().now + latency(myip, dst);
    call_at(at, move || syn_arrives(fd, 0));
    Ok(())
}
fn finish_connect(fd: Fd, r: Result<u32, i32>) {
    let mut ws = Vec::new();
    if let Kind::Connecting { res, waiters, .. } = &mut sock(fd).kind {
        *res = Some(r);
        ws = std::mem::take(waiters);
    } else if let Ok(c) = r {
        // socket was closed meanwhile
        send_seg(c, 1, Seg::Rst);
    }
    wake_all(&mut ws);
}
fn syn_arrives(fd: Fd, tries: u32) {
    let _k = Kernel::enter();
    let (local, to) = match &sock(fd).kind {
        Kind::Connecting { local, to, res: None, .. } => (*local, *to),
        _ => return,
    };
    let now = sim().now;
    let dstnode = node_by_ip(to.0);
    let off = net().powered_off.contains(&to.0) || dstnode.is_none();
    if off || link_blocked(local.0, to.0) || link_blocked(to.0, local.0) {
        if tries >= 6 {
            finish_connect(fd, Err(ETIMEDOUT));
        } else {
            call_at(now + (1_000_000_000u64 << tries), move || syn_arrives(fd, tries + 1));
        }
        return;
    }
    let back = latency(to.0, local.0);
    let l = dstnode.and_then(|n| if sim().nodes[n as usize].alive { find_listener(n, to.0, to.1).map(|f| (n, f)) } else { None });
    match l {
        None => {
            sim().stats.refused += 1;
            call_at(now + back, move || finish_connect(fd, Err(ECONNREFUSED)));
        }
        Some((n, lfd)) => {
            let cnode = sock(fd).node;
            let mut c = Conn {
                addr: [local, to],
                node: [cnode, n],
                pipe: [Pipe::default(), Pipe::default()],
                closed: [false; 2],
                reset: [false; 2],
                reset_seen: [false; 2],
                accepted_at: None,
                closed_ev: [u64::MAX; 2],
                closed_at: [u64::MAX; 2],
                shared: false,
            };
            c.pipe[0].last_at = now + back;
            net().conns.push(c);
            let id = net().conns.len() as u32 - 1;
            let mut ws = Vec::new();
            if let Kind::Listener { backlog, waiters, .. } = &mut sock(lfd).kind {
                backlog.push_back(id);
                ws = std::mem::take(waiters);
            }
            wake_all(&mut ws);
            call_at(now + back, move || finish_connect(fd, Ok(id)));
        }
    }
}
/// Err(EAGAIN) while pending.
pub fn poll_connect(fd: Fd, w: Option<Waiter>) -> Result<(), i32> {
    let _k = Kernel::enter();
    let k = &mut sock(fd).kind;
    match k {
        Kind::Connecting { res, waiters, .. } => match res {
            None => {
                if let Some(w) = w {
                    add_waiter(waiters, w);
                }
                Err(EAGAIN)
            }
            Some(Ok(c)) => {
                let c = *c;
                *k = Kind::Stream { conn: c, side: 0 };
                Ok(())
            }
            Some(Err(e)) => {
                let e = *e;
                *k = Kind::Fresh { bound: None };
                Err(e)
            }
        },
        Kind::Stream { .. } => Ok(()),
        _ => Err(ENOTCONN),
    }
}
pub fn connect_blocking(fd: Fd, to: Addr) -> Result<(), i32> {
    begin_connect(fd, to)?;
    let dl = sock(fd).snd_timeout;
    let dl = if dl > 0 { Some(sim().now + dl) } else { None };
    loop {
        match poll_connect(fd, Some(Waiter::Coro(current()))) {
            Err(EAGAIN) => {
                if let Some(d) = dl {
                    if park_until("connect", d) {
                        return Err(EINPROGRESS);
                    }
                } else {
                    park("connect");
                }
            }
            r => return r,
        }
    }
}

pub fn try_accept(fd: Fd, w: Option<Waiter>) -> Result<(Fd, Addr), i32> {
    let _k = Kernel::enter();
    let (node, port) = match &sock(fd).kind {
        Kind::Listener { addr, backlog, .. } => {
            let x = (sock(fd).node, addr.1);
            if backlog.is_empty() {
                if let Kind::Listener { waiters, .. } = &mut sock(fd).kind {
                    if let Some(w) = w {
                        add_waiter(waiters, w);
                    }
                }
                return Err(EAGAIN);
            }
            x
        }
        _ => return Err(EINVAL),
    };
    if let Some(e) = net().accept_errs.iter_mut().find(|e| e.0 == node && (e.1 == 0 || e.1 == port) && e.2 > 0) {
        e.2 -= 1;
        let er = e.3;
        sim().stats.accept_errors += 1;
        crate::trace!("accept fails with {}", er);
        return Err(er);
    }
    let c = match &mut sock(fd).kind {
        Kind::Listener { backlog, .. } => backlog.pop_front().unwrap(),
        _ => unreachable!(),
    };
    let now = sim().now;
    net().conns[c as usize].accepted_at = Some(now);
    let peer = net().conns[c as usize].addr[0];
    let nfd = new_sock(node);
    sock(nfd).kind = Kind::Stream { conn: c, side: 1 };
    crate::trace!("accept conn {} from {:x}:{}", c, peer.0, peer.1);
    Ok((nfd, peer))
}

fn send_seg(c: u32, to_side: u8, seg: Seg) {
    let conn = &net().conns[c as usize];
    let src = conn.addr[1 - to_side as usize].0;
    let dst = conn.addr[to_side as usize].0;
    let at0 = sim().now + latency(src, dst);
    let p = &mut net().conns[c as usize].pipe[to_side as usize];
    let at = at0.max(p.last_at);
    p.last_at = at;
    if let Seg::Data(d) = &seg {
        p.inflight_bytes += d.len();
    }
    p.inflight.push_back((at, seg));
    sim().stats.segments += 1;
    add_timer(at, Action::Deliver(c, to_side));
}

pub fn deliver(c: u32, side: u8) {
    let _k = Kernel::enter();
    let now = sim().now;
    let s = side as usize;
    loop {
        let conn = &mut net().conns[c as usize];
        let src = conn.addr[1 - s].0;
        let dst = conn.addr[s].0;
        match conn.pipe[s].inflight.front() {
            Some((at, _)) if *at <= now => {}
            _ => break,
        }
        if link_blocked(src, dst) {
            let n = net();
            let p = &mut n.conns[c as usize].pipe[s];
            if !p.held {
                p.held = true;
                n.held.push((c, side));
            }
            sim().stats.held_segments += 1;
            return;
        }
        if net().powered_off.contains(&dst) {
            // nobody there: bytes vanish, the sender keeps waiting
            let p = &mut net().conns[c as usize].pipe[s];
            p.inflight.pop_front();
            p.lost = true;
            continue;
        }
        let conn = &mut net().conns[c as usize];
        let (_, seg) = conn.pipe[s].inflight.pop_front().unwrap();
        match seg {
            Seg::Data(mut d) => {
                conn.pipe[s].inflight_bytes -= d.len();
                if conn.closed[s] {
                    if !conn.closed[1 - s] && !conn.reset[1 - s] {
                        send_seg(c, 1 - side, Seg::Rst);
                    }
                    wake_all(&mut net().conns[c as usize].pipe[s].wr);
                    continue;
                }
                if conn.reset[s] {
                    continue;
                }
                let p = &mut conn.pipe[s];
                if let Some(n) = p.cut {
                    if p.delivered + d.len() as u64 > n {
                        d.truncate((n - p.delivered.min(n)) as usize);
                        p.delivered += d.len() as u64;
                        p.rcv.extend(d);
                        p.cut = None;
                        sim().stats.cuts += 1;
                        kill_conn(c);
                        return;
                    }
                }
                p.delivered += d.len() as u64;
                p.rcv.extend(d);
                wake_all(&mut p.rd);
            }
            Seg::Fin => {
                conn.pipe[s].fin = true;
                wake_all(&mut conn.pipe[s].rd);
            }
            Seg::Rst => {
                conn.reset[s] = true;
                wake_all(&mut conn.pipe[s].rd);
                wake_all(&mut conn.pipe[1 - s].wr);
                wake_all(&mut conn.pipe[s].wr);
            }
        }
    }
}
/// Both ends see a connection reset at once; undelivered bytes are lost.
pub fn kill_conn(c: u32) {
    let _k = Kernel::enter();
    sim().stats.resets += 1;
    crate::trace!("conn {} reset", c);
    mix(0xc07_0000 + u64::from(c));
    let conn = &mut net().conns[c as usize];
    for s in 0..2 {
        conn.reset[s] = true;
        conn.pipe[s].inflight.clear();
        conn.pipe[s].inflight_bytes = 0;
        wake_all(&mut conn.pipe[s].rd);
        wake_all(&mut conn.pipe[s].wr);
    }
}
pub fn no_cuts() {
    for c in &mut net().conns {
        for p in &mut c.pipe {
            p.cut = None;
        }
    }
}
/// Lose the connection once `n` more bytes... `n` bytes in total were delivered to `side`.
pub fn cut_after(c: u32, side: u8, n: u64) {
    net().conns[c as usize].pipe[side as usize].cut = Some(n);
}

pub fn try_read(fd: Fd, buf: &mut [u8], peek: bool, w: Option<Waiter>) -> Result<usize, i32> {
    let _k = Kernel::enter();
    let (c, side) = match sock(fd).kind {
        Kind::Stream { conn, side } => (conn, side as usize),
        _ => return Err(ENOTCONN),
    };
    let conn = &mut net().conns[c as usize];
    let p = &mut conn.pipe[side];
    if !p.rcv.is_empty() {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = p.rcv.len().min(buf.len());
        let s = sim();
        if n > 1 && s.net_rng.ppm(s.cfg.short_read_ppm) {
            n = s.net_rng.range(1, n as u64 - 1) as usize;
            s.stats.short_reads += 1;
        }
        let p = &mut net().conns[c as usize].pipe[side];
        {
            let (a, b) = p.rcv.as_slices();
            let k = a.len().min(n);
            buf[..k].copy_from_slice(&a[..k]);
            if n > k {
                buf[k..n].copy_from_slice(&b[..n - k]);
            }
        }
        if !peek {
            p.rcv.drain(..n);
            if p.rcv.is_empty() && p.rcv.capacity() > 1 << 16 {
                p.rcv = VecDeque::new();
            }
            wake_all(&mut p.wr);
        }
        return Ok(n);
    }
    if conn.reset[side] {
        if conn.reset_seen[side] {
            return Ok(0);
        }
        conn.reset_seen[side] = true;
        return Err(ECONNRESET);
    }
    if p.fin {
        return Ok(0);
    }
    if let Some(w) = w {
        add_waiter(&mut p.rd, w);
    }
    Err(EAGAIN)
}

fn room(c: u32, to: usize) -> usize {
    let cap = sim().cfg.sock_cap;
    let p = &net().conns[c as usize].pipe[to];
    cap.saturating_sub(p.inflight_bytes + p.rcv.len())
}
pub fn try_write(fd: Fd, buf: &[u8], w: Option<Waiter>) -> Result<usize, i32> {
    let _k = Kernel::enter();
    let (c, side) = match sock(fd).kind {
        Kind::Stream { conn, side } => (conn, side as usize),
        _ => return Err(ENOTCONN),
    };
    let to = 1 - side;
    let conn = &mut net().conns[c as usize];
    if conn.closed[side] || conn.pipe[to].fin_sent {
        return Err(EPIPE);
    }
    if conn.reset[side] {
        let e = if conn.reset_seen[side] { EPIPE } else { ECONNRESET };
        conn.reset_seen[side] = true;
        return Err(e);
    }
    if buf.is_empty() {
        return Ok(0);
    }
    let r = room(c, to);
    if r == 0 {
        sim().stats.would_block += 1;
        if let Some(w) = w {
            add_waiter(&mut net().conns[c as usize].pipe[to].wr, w);
        }
        return Err(EAGAIN);
    }
    let mut n = r.min(buf.len());
    let s = sim();
    if n > 1 && s.net_rng.ppm(s.cfg.short_write_ppm) {
        n = s.net_rng.range(1, n as u64 - 1) as usize;
        s.stats.short_writes += 1;
    }
    let mss = s.cfg.mss.max(1);
    let mut off = 0;
    while off < n {
        let m = if mss >= 1400 { mss } else { sim().net_rng.range(1, mss as u64) as usize };
        let e = (off + m).min(n);
        send_seg(c, to as u8, Seg::Data(buf[off..e].to_vec()));
        off = e;
    }
    net().conns[c as usize].pipe[to].sent += n as u64;
    Ok(n)
}
pub fn writable(fd: Fd, w: Option<Waiter>) -> bool {
    let (c, side) = match sock(fd).kind {
        Kind::Stream { conn, side } => (conn, side as usize),
        _ => return true,
    };
    let conn = &mut net().conns[c as usize];
    if conn.closed[side] || conn.reset[side] || room(c, 1 - side) > 0 {
        return true;
    }
    if let Some(w) = w {
        add_waiter(&mut net().conns[c as usize].pipe[1 - side].wr, w);
    }
    false
}
pub fn readable(fd: Fd, w: Option<Waiter>) -> bool {
    match &mut sock(fd).kind {
        Kind::Stream { conn, side } => {
            let conn = &mut net().conns[*conn as usize];
            let s = *side as usize;
            if !conn.pipe[s].rcv.is_empty() || conn.pipe[s].fin || conn.reset[s] {
                return true;
            }
            if let Some(w) = w {
                add_waiter(&mut conn.pipe[s].rd, w);
            }
            false
        }
        Kind::Listener { backlog, waiters, .. } => {
            if !backlog.is_empty() {
                return true;
            }
            if let Some(w) = w {
                add_waiter(waiters, w);
            }
            false
        }
        _ => true,
    }
}
pub fn read_blocking(fd: Fd, buf: &mut [u8], peek: bool) -> Result<usize, i32> {
    let to = sock(fd).rcv_timeout;
    let dl = if to > 0 { Some(sim().now + to) } else { None };
    loop {
        yield_point(60);
        match try_read(fd, buf, peek, Some(Waiter::Coro(current()))) {
            Err(EAGAIN) => {
                if sock(fd).nonblock {
                    return Err(EAGAIN);
                }
                if let Some(d) = dl {
                    if park_until("read", d) {
                        return Err(EAGAIN);
                    }
                } else {
                    park("read");
                }
            }
            r => return r,
        }
    }
}
pub fn write_blocking(fd: Fd, buf: &[u8]) -> Result<usize, i32> {
    let to = sock(fd).snd_timeout;
    let dl = if to > 0 { Some(sim().now + to) } else { None };
    loop {
        yield_point(61);
        match try_write(fd, buf, Some(Waiter::Coro(current()))) {
            Err(EAGAIN) => {
                if sock(fd).nonblock {
                    return Err(EAGAIN);
                }
                if let Some(d) = dl {
                    if park_until("write", d) {
                        return Err(EAGAIN);
                    }
                } else {
                    park("write");
                }
            }
            r => return r,
        }
    }
}
pub fn accept_blocking(fd: Fd) -> Result<(Fd, Addr), i32> {
    loop {
        match try_accept(fd, Some(Waiter::Coro(current()))) {
            Err(EAGAIN) => {
                if sock(fd).nonblock {
                    return Err(EAGAIN);
                }
                park("accept");
            }
            r => return r,
        }
    }
}
pub fn shutdown(fd: Fd, how: i32) -> Result<(), i32> {
    let _k = Kernel::enter();
    let (c, side) = match sock(fd).kind {
        Kind::Stream { conn, side } => (conn, side as usize),
        _ => return Err(ENOTCONN),
    };
    if how == 1 || how == 2 {
        let p = &mut net().conns[c as usize].pipe[1 - side];
        if !p.fin_sent {
            p.fin_sent = true;
            send_seg(c, (1 - side) as u8, Seg::Fin);
        }
    }
    if how == 0 || how == 2 {
        let p = &mut net().conns[c as usize].pipe[side];
        p.fin = true;
        wake_all(&mut p.rd);
    }
    Ok(())
}
/// Close one reference to the socket.
pub fn close(fd: Fd) {
    close_how(fd, false);
}
/// Close with RST (SO_LINGER 0).
pub fn abort(fd: Fd) {
    close_how(fd, true);
}
fn close_how(fd: Fd, rst: bool) {
    let _k = Kernel::enter();
    let s = sock(fd);
    if s.refs == 0 {
        return;
    }
    s.refs -= 1;
    if s.refs > 0 {
        return;
    }
    match std::mem::replace(&mut s.kind, Kind::Closed) {
        Kind::Stream { conn: c, side } => {
            let side = side as usize;
            let conn = &mut net().conns[c as usize];
            conn.closed[side] = true;
            conn.closed_ev[side] = event();
            conn.closed_at[side] = sim().now;
            let unread = !conn.pipe[side].rcv.is_empty();
            conn.pipe[side].rcv = VecDeque::new();
            wake_all(&mut conn.pipe[side].wr);
            if conn.reset[side] {
                return;
            }
            if unread || rst {
                send_seg(c, (1 - side) as u8, Seg::Rst);
            } else if !conn.pipe[1 - side].fin_sent {
                conn.pipe[1 - side].fin_sent = true;
                sim().stats.fins += 1;
                send_seg(c, (1 - side) as u8, Seg::Fin);
            }
        }
        Kind::Listener { backlog, .. } => {
            net().listeners.retain(|l| l.2 != fd);
            for c in backlog {
                net().conns[c as usize].closed[1] = true;
                send_seg(c, 0, Seg::Rst);
            }
        }
        Kind::Connecting { res: Some(Ok(c)), .. } => {
            net().conns[c as usize].closed[0] = true;
            send_seg(c, 1, Seg::Fin);
        }
        _ => {}
    }
}
pub fn close_node(n: NodeId, silent: bool) {
    let _k = Kernel::enter();
    let ip = ip_of(n);
    if silent {
        net().powered_off.insert(ip);
    }
    for i in 0..net().socks.len() {
        if net().socks[i].node == n && net().socks[i].refs > 0 {
            if silent {
                net().socks[i].refs = 0;
                let k = std::mem::replace(&mut net().socks[i].kind, Kind::Closed);
                match k {
                    Kind::Stream { conn, side } => {
                        net().conns[conn as usize].closed[side as usize] = true;
                        net().conns[conn as usize].closed_ev[side as usize] = event();
                        net().conns[conn as usize].closed_at[side as usize] = sim().now;
                        net().conns[conn as usize].pipe[side as usize].rcv = VecDeque::new();
                        net().conns[conn as usize].pipe[side as usize].inflight.clear();
                    }
                    Kind::Listener { backlog, .. } => {
                        for c in backlog {
                            net().conns[c as usize].closed[1] = true;
                        }
                    }
                    _ => {}
                }
            } else {
                let fd = FD_BASE + i as i32;
                // children may keep references alive; they are killed with the node here
                net().socks[i].refs = 1;
                close(fd);
            }
        }
    }
    net().listeners.retain(|l| l.0 != n);
}
/// The host is reachable again (a new incarnation booted).
pub fn power_on(ip: u32) {
    let _k = Kernel::enter();
    if !net().powered_off.remove(&ip) {
        return;
    }
    // retransmissions of what was lost meanwhile are answered with a reset
    for c in 0..net().conns.len() {
        for s in 0..2 {
            let conn = &net().conns[c];
            if conn.addr[s].0 == ip && conn.closed[s] && conn.pipe[s].lost && !conn.closed[1 - s] && !conn.reset[1 - s] {
                let at = sim().now + sim().net_rng.range(1_000_000, 2_000_000_000);
                call_at(at, move || {
                    let _k = Kernel::enter();
                    send_seg(c as u32, 1 - s as u8, Seg::Rst);
                });
            }
        }
    }
}
pub fn partition(a: u32, b: u32, both: bool) {
    let _k = Kernel::enter();
    sim().stats.partitions += 1;
    crate::trace!("partition {:x} {:x} both={}", a, b, both);
    net().blocked.insert((a, b));
    if both {
        net().blocked.insert((b, a));
    }
}
pub fn heal_all() {
    let _k = Kernel::enter();
    let n = net();
    if !n.blocked.is_empty() {
        sim().stats.heals += 1;
    }
    crate::trace!("heal");
    n.blocked.clear();
    release_held();
}
pub fn heal(a: u32, b: u32) {
    let _k = Kernel::enter();
    sim().stats.heals += 1;
    net().blocked.remove(&(a, b));
    net().blocked.remove(&(b, a));
    release_held();
}
fn release_held() {
    let held = std::mem::take(&mut net().held);
    for (c, s) in held {
        net().conns[c as usize].pipe[s as usize].held = false;
        let at = sim().now + sim().net_rng.range(1_000_000, 200_000_000);
        let p = &mut net().conns[c as usize].pipe[s as usize];
        // retransmission: what was due earlier arrives together
        for x in p.inflight.iter_mut() {
            if x.0 < at {
                x.0 = at;
            }
        }
        p.last_at = p.last_at.max(at);
        add_timer(at, Action::Deliver(c, s));
    }
}
/// Established connections between two ips (either direction) that are still open on both sides.
pub fn conns_between(a: u32, b: u32) -> Vec<u32> {
    let mut v = Vec::new();
    for (i, c) in net().conns.iter().enumerate() {
        let (x, y) = (c.addr[0].0, c.addr[1].0);
        if ((x, y) == (a, b) || (x, y) == (b, a)) && !c.closed[0] && !c.closed[1] && !c.reset[0] && !c.reset[1] {
            v.push(i as u32);
        }
    }
    v
}
pub fn conn_of(fd: Fd) -> Option<(u32, u8)> {
    match sock(fd).kind {
        Kind::Stream { conn, side } => Some((conn, side)),
        _ => None,
    }
}
pub fn local_addr(fd: Fd) -> Option<Addr> {
    match &sock(fd).kind {
        Kind::Stream { conn, side } => Some(net().conns[*conn as usize].addr[*side as usize]),
        Kind::Listener { addr, .. } => Some(*addr),
        Kind::Fresh { bound } => *bound,
        Kind::Connecting { local, .. } => Some(*local),
        Kind::Closed => None,
    }
}
pub fn peer_addr(fd: Fd) -> Option<Addr> {
    match &sock(fd).kind {
        Kind::Stream { conn, side } => Some(net().conns[*conn as usize].addr[1 - *side as usize]),
        _ => None,
    }
}
/// Bytes the fd could take right now without blocking.
pub fn free_room(fd: Fd) -> usize {
    match sock(fd).kind {
        Kind::Stream { conn, side } => room(conn, 1 - side as usize),
        _ => 0,
    }
}
/// Take / drop an extra reference on every open socket of a node (fork).
pub fn dup_all(n: NodeId) -> Vec<Fd> {
    let mut v = Vec::new();
    let mut shared = Vec::new();
    for (i, s) in net().socks.iter_mut().enumerate() {
        if s.node == n && s.refs > 0 && !matches!(s.kind, Kind::Closed) {
            s.refs += 1;
            v.push(FD_BASE + i as i32);
            if let Kind::Stream { conn, .. } = s.kind {
                shared.push(conn);
            }
        }
    }
    for c in shared {
        net().conns[c as usize].shared = true;
    }
    v
}

/// Event number at which `side` closed its socket of connection `c` (u64::MAX: still open).
pub fn closed_ev(c: u32, side: usize) -> u64 {
    net().conns.get(c as usize).map_or(u64::MAX, |x| x.closed_ev[side])
}
