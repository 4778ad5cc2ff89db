//! fork(): the child really is a forked copy (so it sees exactly the memory of that instant). What it
//! writes to simulated sockets is captured in shared memory; a simulated child process then sends it
//! through the simulated network at the speed the peer accepts, keeping the inherited sockets open.
use crate::{core::*, interpose::set_errno, net, sys::*};

const CAP: usize = 512 << 20;
static mut BUF: *mut u8 = std::ptr::null_mut();
/// remaining room per fd for non-blocking writes inside the child
static mut ROOM: Vec<(i32, usize)> = Vec::new();

// layout: u64 used, u64 flags, u64 question (fd), u64 answer, then records: i32 fd, u32 len, bytes
const HEAD: usize = 32;
#[allow(static_mut_refs)]
pub fn child_write(fd: i32, b: &[u8]) -> Result<usize, i32> {
    unsafe {
        let mut n = b.len().min(1 << 20);
        if net::sock(fd).nonblock {
            let free = match ROOM.iter().find(|x| x.0 == fd) {
                Some(x) => x.1,
                None => {
                    let f = net::free_room(fd);
                    ROOM.push((fd, f));
                    f
                }
            };
            if free == 0 {
                return Err(net::EAGAIN);
            }
            n = n.min(free);
            for x in ROOM.iter_mut() {
                if x.0 == fd {
                    x.1 -= n;
                }
            }
        }
        let used = BUF.cast::<u64>().read() as usize;
        if used + n + 64 > CAP {
            return Err(28);
        }
        let p = BUF.add(HEAD + used);
        p.cast::<i32>().write_unaligned(fd);
        p.add(4).cast::<u32>().write_unaligned(n as u32);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(8), n);
        BUF.cast::<u64>().write((used + 8 + n) as u64);
        Ok(n)
    }
}
/// The forked child would block for ever: its other threads do not exist.
pub fn child_blocked(reason: &'static str) -> ! {
    unsafe {
        if !BUF.is_null() {
            BUF.cast::<u64>().add(1).write(1);
        }
    }
    eprintln!("[sim] forked child blocks on {reason}");
    raw_exit(99)
}

pub fn sim_fork() -> i32 {
    let s = sim();
    s.stats.forks += 1;
    let node = unsafe { CUR_NODE };
    let fe = &mut s.nodes[node as usize].fork_errs;
    if fe.0 > 0 {
        fe.0 -= 1;
        s.stats.fork_errors += 1;
        set_errno(fe.1);
        crate::trace!("fork fails with {}", fe.1);
        return -1;
    }
    yield_point(70);
    let buf = raw_mmap_shared(CAP);
    unsafe {
        BUF = buf;
    }
    // how long it takes until the child gets to run
    let delay = match s.entropy.below(3) {
        0 => 0,
        1 => s.entropy.below(200_000),
        _ => s.entropy.below(3_000_000),
    };
    let pid = crate::interpose::real_fork();
    if pid == 0 {
        raw_die_with_parent();
        sim().in_child = true;
        return 0;
    }
    if pid < 0 {
        return -1;
    }
    unsafe {
        BUF = std::ptr::null_mut();
    }
    // up to its end, or to the point where it depends on what the parent does meanwhile
    let (_, st) = raw_waitpid_stopped(pid);
    let s = sim();
    let simpid = s.next_pid;
    s.next_pid += 1;
    let saved = unsafe { CUR_NODE };
    unsafe { CUR_NODE = 0 };
    s.nodes[node as usize].children.push(Child { pid: simpid, exited: None });
    let fds = net::dup_all(node);
    crate::trace!("fork -> child {}", simpid);
    // the child's own threads are not limited by the parent's runtime
    spawn_on(
        node,
        "forked-child",
        Box::new(move || {
            if delay > 0 {
                sleep_ns(delay);
            }
            let (code, out) = collect(node, simpid, pid, buf, st);
            'all: for (fd, data) in out {
                let mut off = 0;
                while off < data.len() {
                    match net::try_write(fd, &data[off..], Some(net::Waiter::Coro(current()))) {
                        Ok(n) => off += n,
                        Err(net::EAGAIN) => park("child write"),
                        Err(_) => break 'all,
                    }
                }
            }
            for fd in fds {
                net::close(fd);
            }
            let n = crate::core::node(node);
            for c in &mut n.children {
                if c.pid == simpid {
                    c.exited = Some(code);
                }
            }
            let w = std::mem::take(&mut n.child_waiters);
            for c in w {
                unpark(c);
            }
        }),
    );
    unsafe { CUR_NODE = saved };
    simpid
}

/// The forked child and its parent share one epoll instance: it can only be deregistered once.
/// Asks the parent's side of the simulation at the moment the child gets there.
pub fn child_deregister(fd: i32) -> Result<(), i32> {
    if !net::sock(fd).registered {
        return Err(2);
    }
    unsafe {
        BUF.cast::<u64>().add(2).write(fd as u64);
        raw_kill(raw_getpid(), 19);
        match BUF.cast::<u64>().add(3).read_volatile() {
            0 => Ok(()),
            e => Err(e as i32),
        }
    }
}

/// Runs the child to its end; its exit code and what it wrote.
fn collect(node: NodeId, simpid: i32, pid: i32, buf: *mut u8, mut st: i32) -> (i32, Vec<(i32, Vec<u8>)>) {
    let _k = Kernel::enter();
    while st & 0xff == 0x7f {
        unsafe {
            let fd = buf.cast::<u64>().add(2).read() as i32;
            let s = net::sock(fd);
            let answer = if s.registered { 0 } else { 2 };
            s.registered = false;
            crate::trace!("child {} deregisters {}: {}", simpid, fd, answer);
            buf.cast::<u64>().add(3).write(answer);
        }
        raw_kill(pid, 18);
        st = raw_waitpid_stopped(pid).1;
    }
    let (used, blocked) = unsafe { (buf.cast::<u64>().read() as usize, buf.cast::<u64>().add(1).read()) };
    let mut out: Vec<(i32, Vec<u8>)> = Vec::new();
    let mut total = 0u64;
    let mut o = 0;
    while o < used {
        unsafe {
            let p = buf.add(HEAD + o);
            let fd = p.cast::<i32>().read_unaligned();
            let n = p.add(4).cast::<u32>().read_unaligned() as usize;
            let d = std::slice::from_raw_parts(p.add(8), n);
            total += n as u64;
            match out.last_mut() {
                Some((f, v)) if *f == fd => v.extend_from_slice(d),
                _ => out.push((fd, d.to_vec())),
            }
            o += 8 + n;
        }
    }
    raw_munmap(buf, CAP);
    let s = sim();
    crate::trace!("child {} writes {} bytes status {:x}", simpid, total, st);
    let msg = if blocked == 1 {
        s.nodes[node as usize].panics.push("forked child deadlocks".to_string());
        "forked child deadlocks on a lock held by another thread".into()
    } else if st & 0x7f != 0 {
        format!("forked child killed by signal {}", st & 0x7f)
    } else if (st >> 8) & 0xff == 101 {
        "forked child panicked".into()
    } else {
        return ((st >> 8) & 0xff, out);
    };
    s.panics.push(Panic { node, coro: current(), msg });
    ((st >> 8) & 0xff, out)
}

pub unsafe fn sim_waitpid(pid: i32, st: *mut i32, opt: i32) -> i32 {
    loop {
        let n = node(CUR_NODE);
        let mine: Vec<usize> = (0..n.children.len()).filter(|i| pid <= 0 || n.children[*i].pid == pid).collect();
        if mine.is_empty() {
            set_errno(10);
            return -1;
        }
        if let Some(i) = mine.iter().find(|i| n.children[**i].exited.is_some()) {
            let c = n.children.remove(*i);
            if !st.is_null() {
                *st = c.exited.unwrap() << 8;
            }
            return c.pid;
        }
        if opt & 1 != 0 {
            return 0;
        }
        n.child_waiters.push(current());
        park("waitpid");
    }
}
pub unsafe fn sim_kill(pid: i32, _sig: i32) -> i32 {
    let n = node(CUR_NODE);
    if n.children.iter().any(|c| c.pid == pid) {
        return 0;
    }
    set_errno(3);
    -1
}
