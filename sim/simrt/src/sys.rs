//! Raw system calls: the interposed libc symbols must not call themselves.
use std::arch::asm;

#[inline]
pub unsafe fn sc(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_POLL: i64 = 7;
pub const SYS_MMAP: i64 = 9;
pub const SYS_MPROTECT: i64 = 10;
pub const SYS_MUNMAP: i64 = 11;
pub const SYS_IOCTL: i64 = 16;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_SOCKET: i64 = 41;
pub const SYS_CONNECT: i64 = 42;
pub const SYS_SENDTO: i64 = 44;
pub const SYS_RECVFROM: i64 = 45;
pub const SYS_SHUTDOWN: i64 = 48;
pub const SYS_BIND: i64 = 49;
pub const SYS_LISTEN: i64 = 50;
pub const SYS_GETSOCKNAME: i64 = 51;
pub const SYS_GETPEERNAME: i64 = 52;
pub const SYS_SETSOCKOPT: i64 = 54;
pub const SYS_GETSOCKOPT: i64 = 55;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_ACCEPT4: i64 = 288;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_WAIT4: i64 = 61;
pub const SYS_KILL: i64 = 62;

pub fn raw_mmap(len: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let r = unsafe { sc(SYS_MMAP, 0, len as i64, 3, 0x2 | 0x20 | 0x4000, -1, 0) };
    assert!(r > 0, "mmap failed {r}");
    r as *mut u8
}
pub fn raw_mmap_shared(len: usize) -> *mut u8 {
    let r = unsafe { sc(SYS_MMAP, 0, len as i64, 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(r > 0, "mmap failed {r}");
    r as *mut u8
}
pub fn raw_munmap(p: *mut u8, len: usize) {
    unsafe { sc(SYS_MUNMAP, p as i64, len as i64, 0, 0, 0, 0) };
}
pub fn raw_mprotect_none(p: *mut u8, len: usize) {
    unsafe { sc(SYS_MPROTECT, p as i64, len as i64, 0, 0, 0, 0) };
}
pub fn raw_exit(code: i32) -> ! {
    unsafe { sc(SYS_EXIT_GROUP, i64::from(code), 0, 0, 0, 0, 0) };
    unreachable!()
}
/// Also returns when the child stopped itself.
pub fn raw_waitpid_stopped(pid: i32) -> (i32, i32) {
    let mut st: i32 = 0;
    loop {
        let r = unsafe { sc(SYS_WAIT4, i64::from(pid), &mut st as *mut i32 as i64, 2, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        return (r as i32, st);
    }
}
pub fn raw_kill(pid: i32, sig: i32) {
    unsafe { sc(62, i64::from(pid), i64::from(sig), 0, 0, 0, 0) };
}
pub fn raw_getpid() -> i32 {
    unsafe { sc(39, 0, 0, 0, 0, 0, 0) as i32 }
}
/// This process is killed when its parent ends.
pub fn raw_die_with_parent() {
    unsafe { sc(157, 1, 9, 0, 0, 0, 0) };
}
pub fn raw_waitpid(pid: i32) -> (i32, i32) {
    let mut st: i32 = 0;
    loop {
        let r = unsafe { sc(SYS_WAIT4, i64::from(pid), &mut st as *mut i32 as i64, 0, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        return (r as i32, st);
    }
}
