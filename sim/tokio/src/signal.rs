use std::{io, task::Poll};
fn poll_sigint(cx: &mut std::task::Context<'_>) -> Poll<()> {
    let n = simrt::node(simrt::coro_node(simrt::current()));
    n.sigint_installed = true;
    if n.sigint {
        return Poll::Ready(());
    }
    if !n.sigint_wakers.iter().any(|w| w.will_wake(cx.waker())) {
        n.sigint_wakers.push(cx.waker().clone());
    }
    Poll::Pending
}
pub async fn ctrl_c() -> io::Result<()> {
    std::future::poll_fn(poll_sigint).await;
    Ok(())
}
pub mod unix {
    use std::io;
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn child() -> Self {
            SignalKind(17)
        }
    }
    pub struct Signal(SignalKind);
    pub fn signal(k: SignalKind) -> io::Result<Signal> {
        if k == SignalKind::interrupt() {
            simrt::node(simrt::coro_node(simrt::current())).sigint_installed = true;
        }
        Ok(Signal(k))
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            if self.0 == SignalKind::interrupt() {
                std::future::poll_fn(super::poll_sigint).await;
                return Some(());
            }
            std::future::pending().await
        }
    }
}
