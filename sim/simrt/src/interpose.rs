//! libc symbols that std, nix and getrandom call. Inside a simulation they act on simulated time,
//! sockets, processes and entropy; otherwise they go straight to the kernel.
use crate::{core::*, net, sys::*};
use std::ffi::{c_char, c_int, c_long, c_void};

extern "C" {
    fn __errno_location() -> *mut c_int;
    static environ: *const *const c_char;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}
pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
fn res(r: Result<usize, i32>) -> isize {
    match r {
        Ok(n) => n as isize,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
fn res0(r: Result<(), i32>) -> c_int {
    match r {
        Ok(()) => 0,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut Timespec) -> c_int {
    if !active() {
        return ret(sc(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int;
    }
    if CUR_NODE != 0 {
        yield_point(80);
    }
    let ns = match clk {
        0 | 5 | 11 => wall_ns_of(CUR_NODE),
        2 | 3 => return ret(sc(SYS_CLOCK_GETTIME, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int,
        _ => sim().now + 1_000_000_000_000,
    };
    (*ts).sec = (ns / 1_000_000_000) as i64;
    (*ts).nsec = (ns % 1_000_000_000) as i64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut Timespec, _tz: *mut c_void) -> c_int {
    let mut t = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut t);
    (*tv).sec = t.sec;
    (*tv).nsec = t.nsec / 1000;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    clock_gettime(0, &mut ts);
    if !t.is_null() {
        *t = ts.sec;
    }
    ts.sec
}
unsafe fn sim_sleep(ts: *const Timespec) {
    let d = (*ts).sec as u64 * 1_000_000_000 + (*ts).nsec as u64;
    if sim().in_child {
        return;
    }
    sleep_ns(d);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const Timespec, rem: *mut Timespec) -> c_int {
    if in_coro() {
        sim_sleep(ts);
        return 0;
    }
    ret(sc(SYS_NANOSLEEP, ts as i64, rem as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, ts: *const Timespec, rem: *mut Timespec) -> c_int {
    if in_coro() {
        if flags & 1 != 0 {
            let mut n = Timespec { sec: 0, nsec: 0 };
            clock_gettime(clk, &mut n);
            let want = (*ts).sec as i128 * 1_000_000_000 + (*ts).nsec as i128;
            let have = n.sec as i128 * 1_000_000_000 + n.nsec as i128;
            if want > have {
                sleep_ns((want - have) as u64);
            }
        } else {
            sim_sleep(ts);
        }
        return 0;
    }
    -(sc(SYS_CLOCK_NANOSLEEP, clk as i64, flags as i64, ts as i64, rem as i64, 0, 0)) as c_int
}
fn entropy(p: *mut u8, n: usize) {
    let s = sim();
    let mut i = 0;
    while i < n {
        let v = s.entropy.next().to_le_bytes();
        for b in v {
            if i < n {
                unsafe { *p.add(i) = b };
                i += 1;
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if active() {
        entropy(p, n);
        return n as isize;
    }
    // deterministic also outside a run: per-process hash seeds must not differ between workers
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(37).wrapping_add(11);
    }
    let _ = flags;
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if in_coro() {
        yield_now();
    }
    0
}

// futex waiters of simulated threads, keyed by address
static mut FUTEX: Vec<(usize, CoroId)> = Vec::new();
#[allow(static_mut_refs)]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as c_long;
    }
    if n == SYS_FUTEX && in_coro() {
        let addr = a as usize;
        match b & 0x7f {
            0 | 9 => {
                // WAIT, WAIT_BITSET (absolute timeout, monotonic unless FUTEX_CLOCK_REALTIME)
                if *(addr as *const u32) != c as u32 {
                    set_errno(net::EAGAIN);
                    return -1;
                }
                let me = current();
                FUTEX.push((addr, me));
                let ts = d as *const Timespec;
                let timed = if ts.is_null() {
                    park("futex");
                    false
                } else {
                    let t = (*ts).sec as u64 * 1_000_000_000 + (*ts).nsec as u64;
                    let dl = if b & 0x7f == 0 {
                        sim().now + t
                    } else {
                        t.saturating_sub(1_000_000_000_000)
                    };
                    park_until("futex", dl)
                };
                FUTEX.retain(|x| x.1 != me);
                if timed {
                    set_errno(net::ETIMEDOUT);
                    return -1;
                }
                return 0;
            }
            1 | 10 => {
                let mut k = 0;
                while k < c {
                    let Some(i) = FUTEX.iter().position(|x| x.0 == addr) else { break };
                    let (_, id) = FUTEX.remove(i);
                    unpark(id);
                    k += 1;
                }
                return k;
            }
            _ => {}
        }
    }
    ret(sc(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let want = std::ffi::CStr::from_ptr(name).to_bytes();
    if active() && CUR_NODE != 0 {
        if let Ok(k) = std::str::from_utf8(want) {
            if let Some(v) = node(CUR_NODE).env.get(k) {
                return v.as_ptr() as *mut c_char; // stored NUL terminated
            }
        }
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let kv = std::ffi::CStr::from_ptr(*p).to_bytes();
        if kv.len() > want.len() && kv[want.len()] == b'=' && &kv[..want.len()] == want {
            return (*p).add(want.len() + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}

// ---------------------------------------------------------------- sockets
#[repr(C)]
struct SockaddrIn {
    family: u16,
    port: u16,
    addr: u32,
    zero: [u8; 8],
}
unsafe fn parse_addr(p: *const c_void, len: u32) -> Result<net::Addr, i32> {
    if len < 8 {
        return Err(net::EINVAL);
    }
    let a = &*(p.cast::<SockaddrIn>());
    if a.family != 2 {
        return Err(net::EAFNOSUPPORT);
    }
    Ok((u32::from_be(a.addr), u16::from_be(a.port)))
}
unsafe fn put_addr(a: net::Addr, p: *mut c_void, len: *mut u32) {
    if p.is_null() {
        return;
    }
    let s = SockaddrIn { family: 2, port: a.1.to_be(), addr: a.0.to_be(), zero: [0; 8] };
    let n = (*len as usize).min(16);
    std::ptr::copy_nonoverlapping((&s as *const SockaddrIn).cast::<u8>(), p.cast::<u8>(), n);
    *len = 16;
}
#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if active() {
        if dom != 2 {
            set_errno(net::EAFNOSUPPORT);
            return -1;
        }
        let fd = net::new_sock(CUR_NODE);
        net::sock(fd).nonblock = ty & 0o4000 != 0;
        return fd;
    }
    ret(sc(SYS_SOCKET, dom as i64, ty as i64, proto as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const c_void, len: u32) -> c_int {
    if net::is_sim_fd(fd) {
        let to = match parse_addr(a, len) {
            Ok(t) => t,
            Err(e) => return res0(Err(e)),
        };
        if net::sock(fd).nonblock {
            return match net::begin_connect(fd, to) {
                Ok(()) => res0(Err(net::EINPROGRESS)),
                Err(e) => res0(Err(e)),
            };
        }
        return res0(net::connect_blocking(fd, to));
    }
    ret(sc(SYS_CONNECT, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const c_void, len: u32) -> c_int {
    if net::is_sim_fd(fd) {
        return match parse_addr(a, len) {
            Ok(t) => {
                net::sock(fd).kind = net::Kind::Fresh { bound: Some(t) };
                0
            }
            Err(e) => res0(Err(e)),
        };
    }
    ret(sc(SYS_BIND, fd as i64, a as i64, len as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
    if net::is_sim_fd(fd) {
        let b = match &net::sock(fd).kind {
            net::Kind::Fresh { bound } => bound.unwrap_or((0, 0)),
            _ => return res0(Err(net::EINVAL)),
        };
        return res0(net::bind_listen(fd, b).map(|_| ()));
    }
    ret(sc(SYS_LISTEN, fd as i64, n as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: c_int, a: *mut c_void, len: *mut u32, fl: c_int) -> c_int {
    if net::is_sim_fd(fd) {
        return match net::accept_blocking(fd) {
            Ok((n, addr)) => {
                net::sock(n).nonblock = fl & 0o4000 != 0;
                put_addr(addr, a, len);
                n
            }
            Err(e) => res0(Err(e)),
        };
    }
    ret(sc(SYS_ACCEPT4, fd as i64, a as i64, len as i64, fl as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn accept(fd: c_int, a: *mut c_void, len: *mut u32) -> c_int {
    accept4(fd, a, len, 0)
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, p: *const u8, n: usize, fl: c_int) -> isize {
    if net::is_sim_fd(fd) {
        let b = std::slice::from_raw_parts(p, n);
        if sim().in_child {
            return res(crate::child::child_write(fd, b));
        }
        return res(net::write_blocking(fd, b));
    }
    ret(sc(SYS_SENDTO, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, p: *const u8, n: usize, fl: c_int, a: *const c_void, l: u32) -> isize {
    if net::is_sim_fd(fd) {
        return send(fd, p, n, fl);
    }
    ret(sc(SYS_SENDTO, fd as i64, p as i64, n as i64, fl as i64, a as i64, l as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, p: *mut u8, n: usize, fl: c_int) -> isize {
    if net::is_sim_fd(fd) {
        if sim().in_child {
            return res(Err(5));
        }
        let b = std::slice::from_raw_parts_mut(p, n);
        if fl & 0x40 != 0 {
            return res(net::try_read(fd, b, fl & 2 != 0, None));
        }
        return res(net::read_blocking(fd, b, fl & 2 != 0));
    }
    ret(sc(SYS_RECVFROM, fd as i64, p as i64, n as i64, fl as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, p: *mut u8, n: usize, fl: c_int, a: *mut c_void, l: *mut u32) -> isize {
    if net::is_sim_fd(fd) {
        return recv(fd, p, n, fl);
    }
    ret(sc(SYS_RECVFROM, fd as i64, p as i64, n as i64, fl as i64, a as i64, l as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut u8, n: usize) -> isize {
    if net::is_sim_fd(fd) {
        return recv(fd, p, n, 0);
    }
    ret(sc(SYS_READ, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const u8, n: usize) -> isize {
    if net::is_sim_fd(fd) {
        return send(fd, p, n, 0);
    }
    ret(sc(SYS_WRITE, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}
#[repr(C)]
pub struct Iovec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const Iovec, n: c_int) -> isize {
    if net::is_sim_fd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.len > 0 {
                return recv(fd, x.base, x.len, 0);
            }
        }
        return 0;
    }
    ret(sc(SYS_READV, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const Iovec, n: c_int) -> isize {
    if net::is_sim_fd(fd) {
        for i in 0..n as usize {
            let x = &*v.add(i);
            if x.len > 0 {
                return send(fd, x.base, x.len, 0);
            }
        }
        return 0;
    }
    ret(sc(SYS_WRITEV, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if net::is_sim_fd(fd) {
        if !sim().in_child {
            yield_point(62);
            net::close(fd);
        }
        return 0;
    }
    ret(sc(SYS_CLOSE, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if net::is_sim_fd(fd) {
        return res0(net::shutdown(fd, how));
    }
    ret(sc(SYS_SHUTDOWN, fd as i64, how as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut c_void, l: *mut u32) -> c_int {
    if net::is_sim_fd(fd) {
        return match net::local_addr(fd) {
            Some(x) => {
                put_addr(x, a, l);
                0
            }
            None => res0(Err(net::ENOTCONN)),
        };
    }
    ret(sc(SYS_GETSOCKNAME, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut c_void, l: *mut u32) -> c_int {
    if net::is_sim_fd(fd) {
        return match net::peer_addr(fd) {
            Some(x) => {
                put_addr(x, a, l);
                0
            }
            None => res0(Err(net::ENOTCONN)),
        };
    }
    ret(sc(SYS_GETPEERNAME, fd as i64, a as i64, l as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, v: *const c_void, l: u32) -> c_int {
    if net::is_sim_fd(fd) {
        if lvl == 1 && (name == 20 || name == 21) {
            let t = v.cast::<i64>();
            let ns = (*t) as u64 * 1_000_000_000 + (*t.add(1)) as u64 * 1000;
            if name == 20 {
                net::sock(fd).rcv_timeout = ns;
            } else {
                net::sock(fd).snd_timeout = ns;
            }
        }
        return 0;
    }
    ret(sc(SYS_SETSOCKOPT, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, v: *mut c_void, l: *mut u32) -> c_int {
    if net::is_sim_fd(fd) {
        if lvl == 1 && name == 4 {
            let e = match net::poll_connect(fd, None) {
                Err(net::EAGAIN) | Ok(()) => 0,
                Err(e) => e,
            };
            *v.cast::<i32>() = e;
            *l = 4;
            return 0;
        }
        if lvl == 1 && (name == 20 || name == 21) {
            let ns = if name == 20 { net::sock(fd).rcv_timeout } else { net::sock(fd).snd_timeout };
            *v.cast::<i64>() = (ns / 1_000_000_000) as i64;
            *v.cast::<i64>().add(1) = (ns % 1_000_000_000 / 1000) as i64;
            *l = 16;
            return 0;
        }
        *v.cast::<i32>() = 0;
        *l = 4;
        return 0;
    }
    ret(sc(SYS_GETSOCKOPT, fd as i64, lvl as i64, name as i64, v as i64, l as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: u64, arg: *mut c_int) -> c_int {
    if net::is_sim_fd(fd) {
        if req == 0x5421 {
            net::sock(fd).nonblock = *arg != 0;
        }
        return 0;
    }
    ret(sc(SYS_IOCTL, fd as i64, req as i64, arg as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if net::is_sim_fd(fd) {
        return match cmd {
            3 => 2 | if net::sock(fd).nonblock { 0o4000 } else { 0 },
            4 => {
                net::sock(fd).nonblock = arg & 0o4000 != 0;
                0
            }
            0 | 1030 => {
                // dup: one more reference to the same socket, same descriptor number
                net::sock(fd).refs += 1;
                fd
            }
            _ => 0,
        };
    }
    ret(sc(SYS_FCNTL, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[repr(C)]
pub struct PollFd {
    fd: c_int,
    events: i16,
    revents: i16,
}
#[no_mangle]
pub unsafe extern "C" fn poll(p: *mut PollFd, n: u64, timeout: c_int) -> c_int {
    if in_coro() && n == 1 && net::is_sim_fd((*p).fd) {
        let fd = (*p).fd;
        let dl = if timeout >= 0 { Some(sim().now + timeout as u64 * 1_000_000) } else { None };
        loop {
            let w = net::Waiter::Coro(current());
            let mut r = 0;
            if let net::Kind::Connecting { res, waiters, .. } = &mut net::sock(fd).kind {
                match res {
                    Some(Ok(_)) => r = 4,
                    Some(Err(_)) => r = 4 | 8 | 16,
                    None => waiters.push(w),
                }
            } else {
                if (*p).events & 1 != 0 && net::readable(fd, Some(net::Waiter::Coro(current()))) {
                    r |= 1;
                }
                if (*p).events & 4 != 0 && net::writable(fd, Some(w)) {
                    r |= 4;
                }
            }
            if r == 4 {
                // an established connection can be used from now on
                let _ = net::poll_connect(fd, None);
            }
            if r != 0 {
                (*p).revents = r;
                return 1;
            }
            match dl {
                Some(d) => {
                    if park_until("poll", d) {
                        (*p).revents = 0;
                        return 0;
                    }
                }
                None => park("poll"),
            }
        }
    }
    ret(sc(SYS_POLL, p as i64, n as i64, timeout as i64, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- processes
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    if in_coro() && CUR_NODE != 0 {
        return crate::child::sim_fork();
    }
    real_fork()
}
pub fn real_fork() -> c_int {
    type F = unsafe extern "C" fn() -> c_int;
    unsafe {
        let f = dlsym(-1isize as *mut c_void, b"fork\0".as_ptr().cast());
        assert!(!f.is_null());
        let f: F = std::mem::transmute(f);
        f()
    }
}
#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int {
    if in_coro() && CUR_NODE != 0 {
        return crate::child::sim_waitpid(pid, st, opt);
    }
    ret(sc(SYS_WAIT4, pid as i64, st as i64, opt as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, sig: c_int) -> c_int {
    if in_coro() && CUR_NODE != 0 {
        // signals never leave the simulation; SIGKILL/SIGTERM of a simulated child ends it
        return crate::child::sim_kill(pid, sig);
    }
    ret(sc(SYS_KILL, pid as i64, sig as i64, 0, 0, 0, 0)) as c_int
}
static mut EXIT_GUARD: *mut usize = std::ptr::null_mut();
/// `std::process::exit` lets only one thread of a process pass, once. Simulated processes share the real
/// one, so the variable behind that is found in our own symbol table and cleared after every simulated exit.
pub fn find_exit_guard() {
    unsafe {
        if !EXIT_GUARD.is_null() {
            return;
        }
        let Ok(f) = std::fs::read("/proc/self/exe") else { return };
        let u16_at = |o: usize| u16::from_le_bytes(f[o..o + 2].try_into().unwrap()) as usize;
        let u32_at = |o: usize| u32::from_le_bytes(f[o..o + 4].try_into().unwrap()) as usize;
        let u64_at = |o: usize| u64::from_le_bytes(f[o..o + 8].try_into().unwrap()) as usize;
        let (shoff, shsize, shnum) = (u64_at(0x28), u16_at(0x3a), u16_at(0x3c));
        let (mut guard, mut here) = (0, 0);
        for i in 0..shnum {
            let sh = shoff + i * shsize;
            if u32_at(sh + 4) != 2 {
                continue;
            }
            let (off, size, link) = (u64_at(sh + 0x18), u64_at(sh + 0x20), u32_at(sh + 0x28));
            let strs = u64_at(shoff + link * shsize + 0x18);
            for s in (off..off + size).step_by(24) {
                let n = strs + u32_at(s);
                let end = n + f[n..].iter().position(|c| *c == 0).unwrap_or(0);
                let name = &f[n..end];
                if name == b"exit" {
                    here = u64_at(s + 8);
                } else if name.ends_with(b"EXITING_THREAD_ID") {
                    guard = u64_at(s + 8);
                }
            }
        }
        if guard > 0 && here > 0 {
            EXIT_GUARD = (exit as *const () as usize - here + guard) as *mut usize;
        }
    }
}
unsafe fn do_exit(code: c_int) -> ! {
    if !EXIT_GUARD.is_null() {
        *EXIT_GUARD = 0;
    }
    if active() && sim().in_child {
        raw_exit(code & 0xff);
    }
    if in_coro() && CUR_NODE != 0 {
        node_exit(code);
    }
    if !active() {
        // flush stdio of the harness itself
        use std::io::Write;
        let _ = std::io::stdout().flush();
    }
    raw_exit(code & 0xff)
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    do_exit(code)
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    do_exit(code)
}
pub fn link() {}
