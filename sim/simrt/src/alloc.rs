//! Allocator that charges every byte to the simulated process that allocated it.
use std::alloc::{GlobalAlloc, Layout, System};

pub const MAX_NODES: usize = 64;
static mut LIVE: [i64; MAX_NODES] = [0; MAX_NODES];

pub struct SimAlloc;
#[inline]
fn hdr(l: &Layout) -> usize {
    l.align().max(16)
}
#[inline]
unsafe fn owner() -> usize {
    (crate::core::CUR_NODE as usize).min(MAX_NODES - 1)
}
#[allow(static_mut_refs)]
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = hdr(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let o = owner();
        LIVE[o] += l.size() as i64;
        let u = p.add(h);
        u.cast::<u64>().sub(1).write(o as u64);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = hdr(&l);
        let o = u.cast::<u64>().sub(1).read() as usize;
        LIVE[o] -= l.size() as i64;
        System.dealloc(u.sub(h), Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let h = hdr(&l);
        let p = System.alloc_zeroed(Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let o = owner();
        LIVE[o] += l.size() as i64;
        let u = p.add(h);
        u.cast::<u64>().sub(1).write(o as u64);
        u
    }
    unsafe fn realloc(&self, u: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let h = hdr(&l);
        let o = u.cast::<u64>().sub(1).read() as usize;
        let p = System.realloc(
            u.sub(h),
            Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)),
            n + h,
        );
        if p.is_null() {
            return p;
        }
        LIVE[o] += n as i64 - l.size() as i64;
        p.add(h)
    }
}
/// Bytes currently owned by simulated process `n`.
pub fn live(n: u32) -> i64 {
    unsafe { LIVE[n as usize] }
}
