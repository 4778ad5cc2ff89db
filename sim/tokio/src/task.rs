use simrt::{coro_node, current, in_coro, park, spawn_on, unpark, worker_acquire, worker_release, CoroId};
use std::{
    any::Any,
    fmt,
    future::Future,
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};

pub struct JoinError {
    panic: Option<Box<dyn Any + Send>>,
}
impl JoinError {
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send>, JoinError> {
        match self.panic {
            Some(p) => Ok(p),
            None => Err(self),
        }
    }
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        self.panic.expect("task was cancelled")
    }
}
unsafe impl Sync for JoinError {}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "panic" } else { "cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

pub(crate) struct TaskWaker {
    id: CoroId,
    notified: AtomicBool,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if simrt::active() {
            self.notified.store(true, Ordering::SeqCst);
            unpark(self.id);
        }
    }
}
impl TaskWaker {
    pub(crate) fn here() -> Arc<Self> {
        Arc::new(TaskWaker { id: current(), notified: AtomicBool::new(false) })
    }
    pub(crate) fn wait(&self, why: &'static str) {
        while !self.notified.swap(false, Ordering::SeqCst) {
            park(why);
        }
    }
}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    done: bool,
    waker: Option<Waker>,
    task: Option<Arc<TaskWaker>>,
    aborted: bool,
}
pub struct JoinHandle<T> {
    sh: Arc<Mutex<Shared<T>>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let w = {
            let mut s = self.sh.lock().unwrap();
            s.aborted = true;
            s.task.clone()
        };
        if let Some(w) = w {
            w.wake_by_ref();
        }
    }
    pub fn is_finished(&self) -> bool {
        self.sh.lock().unwrap().done
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: 'static,
    {
        let sh = self.sh.clone();
        let sh2 = self.sh.clone();
        AbortHandle {
            abort: Arc::new(move || JoinHandle { sh: sh.clone() }.abort()),
            done: Arc::new(move || sh2.lock().unwrap().done),
        }
    }
}
#[derive(Clone)]
pub struct AbortHandle {
    abort: Arc<dyn Fn()>,
    done: Arc<dyn Fn() -> bool>,
}
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl AbortHandle {
    pub fn abort(&self) {
        (self.abort)();
    }
    pub fn is_finished(&self) -> bool {
        (self.done)()
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.sh.lock().unwrap();
        if let Some(r) = s.result.take() {
            return Poll::Ready(r);
        }
        if s.done {
            panic!("JoinHandle polled after completion");
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
fn finish<T>(sh: &Arc<Mutex<Shared<T>>>, r: Result<T, JoinError>) {
    let w = {
        let mut s = sh.lock().unwrap();
        s.result = Some(r);
        s.done = true;
        s.task = None;
        s.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}
fn new_shared<T>() -> Arc<Mutex<Shared<T>>> {
    Arc::new(Mutex::new(Shared { result: None, done: false, waker: None, task: None, aborted: false }))
}
fn my_node() -> simrt::NodeId {
    assert!(in_coro(), "there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    coro_node(current())
}
fn name_of<F>() -> &'static str {
    let n = std::any::type_name::<F>();
    // "server::Listener::run::{{closure}}" and the like
    n
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let node = my_node();
    let sh = new_shared();
    let sh2 = sh.clone();
    let name = name_of::<F>();
    spawn_on(
        node,
        name,
        Box::new(move || {
            let tw = TaskWaker::here();
            sh2.lock().unwrap().task = Some(tw.clone());
            note_task(node, &tw);
            let waker = Waker::from(tw.clone());
            let mut cx = Context::from_waker(&waker);
            let mut fut: Option<Pin<Box<F>>> = Some(Box::pin(fut));
            loop {
                worker_acquire();
                if sh2.lock().unwrap().aborted || closing(node) {
                    let _ = catch_unwind(AssertUnwindSafe(|| fut = None));
                    worker_release();
                    finish(&sh2, Err(JoinError { panic: None }));
                    return;
                }
                let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().unwrap().as_mut().poll(&mut cx)));
                match r {
                    Ok(Poll::Pending) => {
                        worker_release();
                        tw.wait("task");
                    }
                    Ok(Poll::Ready(v)) => {
                        let _ = catch_unwind(AssertUnwindSafe(|| fut = None));
                        worker_release();
                        finish(&sh2, Ok(v));
                        return;
                    }
                    Err(p) => {
                        let _ = catch_unwind(AssertUnwindSafe(|| fut = None));
                        worker_release();
                        if simrt::coro_in_child() {
                            simrt::child_exit(101);
                        }
                        simrt::task_died(name);
                        finish(&sh2, Err(JoinError { panic: Some(p) }));
                        return;
                    }
                }
            }
        }),
    );
    simrt::yield_point(40);
    JoinHandle { sh }
}

pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    let node = my_node();
    let sh = new_shared();
    let sh2 = sh.clone();
    let name = name_of::<F>();
    let id = spawn_on(
        node,
        name,
        Box::new(move || {
            if sh2.lock().unwrap().aborted || closing(node) {
                finish(&sh2, Err(JoinError { panic: None }));
                return;
            }
            match catch_unwind(AssertUnwindSafe(f)) {
                Ok(v) => finish(&sh2, Ok(v)),
                Err(p) => {
                    if simrt::coro_in_child() {
                        simrt::child_exit(101);
                    }
                    simrt::task_died(name);
                    finish(&sh2, Err(JoinError { panic: Some(p) }));
                }
            }
        }),
    );
    note_blocking(node, id);
    simrt::yield_point(41);
    JoinHandle { sh }
}

static mut BLOCKING: Vec<(u32, u32)> = Vec::new();
#[allow(static_mut_refs)]
fn note_blocking(node: u32, id: u32) {
    let _k = simrt::Kernel::enter();
    unsafe {
        BLOCKING.retain(|x| !simrt::coro_done(x.1));
        BLOCKING.push((node, id));
    }
}
static mut TASKS: Vec<(u32, std::sync::Weak<TaskWaker>)> = Vec::new();
static mut CLOSING: Vec<(u32, u64)> = Vec::new();
#[allow(static_mut_refs)]
fn note_task(node: u32, tw: &Arc<TaskWaker>) {
    let _k = simrt::Kernel::enter();
    unsafe {
        if TASKS.len() > 64 && TASKS.len().is_power_of_two() {
            TASKS.retain(|x| x.1.upgrade().map_or(false, |t| !simrt::coro_done(t.id)));
        }
        TASKS.push((node, Arc::downgrade(tw)));
    }
}
#[allow(static_mut_refs)]
fn closing(node: u32) -> bool {
    unsafe { CLOSING.iter().any(|x| x.0 == node) }
}
/// When the runtime of a node began to shut down, that is its main future was done.
#[allow(static_mut_refs)]
pub fn sim_closing(node: u32) -> Option<u64> {
    unsafe { CLOSING.iter().find(|x| x.0 == node).map(|x| x.1) }
}
/// A runtime that is dropped drops its tasks and waits for the blocking closures it started.
#[allow(static_mut_refs)]
pub(crate) fn shutdown(limit: Option<std::time::Duration>) {
    let until = limit.map(|d| simrt::sim().now.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64));
    let node = my_node();
    let tasks: Vec<Arc<TaskWaker>> = {
        let _k = simrt::Kernel::enter();
        unsafe {
            CLOSING.push((node, simrt::sim().now));
            TASKS.iter().filter(|x| x.0 == node).filter_map(|x| x.1.upgrade()).collect()
        }
    };
    for t in &tasks {
        t.wake_by_ref();
    }
    while tasks.iter().any(|t| !simrt::coro_done(t.id)) || unsafe { BLOCKING.iter().any(|x| x.0 == node && !simrt::coro_done(x.1)) } {
        if until.map_or(false, |u| simrt::sim().now >= u) {
            break;
        }
        simrt::sleep_ns(5_000_000);
    }
}

/// Drive a future on the calling simulated thread (Runtime::block_on).
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let tw = TaskWaker::here();
    let waker = Waker::from(tw.clone());
    let mut cx = Context::from_waker(&waker);
    let mut fut = Box::pin(fut);
    loop {
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        tw.wait("block_on");
    }
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    worker_release();
    let r = f();
    worker_acquire();
    r
}

pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await;
}
pub async fn consume_budget() {}
pub async fn unconstrained<F: Future>(f: F) -> F::Output {
    f.await
}

pub struct JoinSet<T> {
    v: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { v: Vec::new() }
    }
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle {
        let h = spawn(f);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.v.clear();
    }
    pub fn abort_all(&mut self) {
        for h in &self.v {
            h.abort();
        }
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.v.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.v.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) {
                    self.v.swap_remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.v {
            h.abort();
        }
    }
}
