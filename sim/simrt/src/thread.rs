//! What a thread is to code under simulation: the coroutine it runs in.
use crate::core::*;
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Thread {
    Coro(CoroId),
    Os(std::thread::Thread),
}
impl Thread {
    pub fn unpark(&self) {
        match self {
            Thread::Coro(c) => unpark(*c),
            Thread::Os(t) => t.unpark(),
        }
    }
}
pub fn current() -> Thread {
    if in_coro() {
        Thread::Coro(crate::core::current())
    } else {
        Thread::Os(std::thread::current())
    }
}
pub fn park() {
    if in_coro() {
        crate::core::park("thread::park");
    } else {
        std::thread::park();
    }
}
pub fn park_timeout(d: Duration) {
    if in_coro() {
        let at = sim().now.saturating_add(d.as_nanos() as u64);
        park_until("thread::park_timeout", at);
    } else {
        std::thread::park_timeout(d);
    }
}
