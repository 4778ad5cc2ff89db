use crate::task::{self, JoinHandle};
use std::{future::Future, io};

#[derive(Clone, Debug)]
pub struct Handle;
#[derive(Debug)]
pub struct TryCurrentError;
impl Handle {
    pub fn current() -> Self {
        Handle
    }
    pub fn try_current() -> Result<Self, TryCurrentError> {
        if simrt::in_coro() {
            Ok(Handle)
        } else {
            Err(TryCurrentError)
        }
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_blocking(f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        task::block_on(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard
    }
    pub fn runtime_flavor(&self) -> RuntimeFlavor {
        RuntimeFlavor::MultiThread
    }
}
#[derive(Debug, PartialEq, Eq)]
#[non_exhaustive]
pub enum RuntimeFlavor {
    CurrentThread,
    MultiThread,
}
pub struct EnterGuard;
pub struct Runtime;
impl Runtime {
    pub fn new() -> io::Result<Self> {
        Ok(Runtime)
    }
    pub fn handle(&self) -> &Handle {
        &Handle
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        task::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        task::spawn(f)
    }
    pub fn enter(&self) -> EnterGuard {
        EnterGuard
    }
}
impl Runtime {
    pub fn spawn_blocking<F, R>(&self, f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        task::spawn_blocking(f)
    }
    /// The tasks are dropped; the blocking closures are waited for until the timeout.
    pub fn shutdown_timeout(self, d: std::time::Duration) {
        std::mem::forget(self);
        task::shutdown(Some(d));
    }
    pub fn shutdown_background(self) {
        self.shutdown_timeout(std::time::Duration::ZERO);
    }
}
impl Drop for Runtime {
    fn drop(&mut self) {
        if simrt::in_coro() {
            task::shutdown(None);
        }
    }
}
pub struct Builder;
impl Builder {
    pub fn new_multi_thread() -> Self {
        Builder
    }
    pub fn new_current_thread() -> Self {
        Builder
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _n: impl Into<String>) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn thread_keep_alive(&mut self, _d: std::time::Duration) -> &mut Self {
        self
    }
    pub fn thread_name_fn<F: Fn() -> String + Send + Sync + 'static>(&mut self, _f: F) -> &mut Self {
        self
    }
    pub fn on_thread_start<F: Fn() + Send + Sync + 'static>(&mut self, _f: F) -> &mut Self {
        self
    }
    pub fn on_thread_stop<F: Fn() + Send + Sync + 'static>(&mut self, _f: F) -> &mut Self {
        self
    }
    pub fn event_interval(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn global_queue_interval(&mut self, _n: u32) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Ok(Runtime)
    }
}
