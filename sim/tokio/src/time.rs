use simrt::sim;
use std::{
    fmt,
    future::Future,
    ops::{Add, AddAssign, Sub, SubAssign},
    pin::Pin,
    task::{Context, Poll},
};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(std::time::Instant);
impl Instant {
    pub fn now() -> Self {
        Instant(std::time::Instant::now())
    }
    pub fn from_std(i: std::time::Instant) -> Self {
        Instant(i)
    }
    pub fn into_std(self) -> std::time::Instant {
        self.0
    }
    pub fn elapsed(&self) -> Duration {
        std::time::Instant::now().saturating_duration_since(self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_duration_since(o.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl From<std::time::Instant> for Instant {
    fn from(i: std::time::Instant) -> Self {
        Instant(i)
    }
}
impl From<Instant> for std::time::Instant {
    fn from(i: Instant) -> Self {
        i.0
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0.saturating_duration_since(o.0)
    }
}
// about thirty years, as tokio itself does
fn far() -> Duration {
    Duration::from_secs(86400 * 365 * 30)
}
fn after(d: Duration) -> Instant {
    let d = d.min(far());
    Instant::now() + d
}
fn sim_ns(i: Instant) -> u64 {
    // tokio's timer has millisecond granularity and never fires early
    let d = i.0.saturating_duration_since(std::time::Instant::now()).min(far());
    let at = sim().now + d.as_nanos() as u64;
    if d.is_zero() {
        return sim().now;
    }
    at.div_ceil(1_000_000) * 1_000_000
}

pub struct Sleep {
    at: Instant,
    due: Option<u64>,
    timer: Option<u64>,
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(after(d))
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep { at, due: None, timer: None }
}
impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sleep")
    }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.at
    }
    pub fn is_elapsed(&self) -> bool {
        self.at <= Instant::now()
    }
    pub fn reset(self: Pin<&mut Self>, at: Instant) {
        let me = self.get_mut();
        me.cancel();
        me.at = at;
        me.due = None;
    }
    fn cancel(&mut self) {
        if let Some(k) = self.timer.take() {
            if simrt::active() {
                sim().slots.remove(&k);
            }
        }
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = self.get_mut();
        let due = match me.due {
            Some(d) => d,
            None => {
                let d = sim_ns(me.at);
                me.due = Some(d);
                d
            }
        };
        if sim().now >= due {
            me.cancel();
            return Poll::Ready(());
        }
        if let Some(k) = me.timer {
            if let Some(w) = sim().slots.get(&k) {
                if w.will_wake(cx.waker()) {
                    return Poll::Pending;
                }
            }
        }
        me.cancel();
        me.timer = Some(simrt::add_waker_timer(due, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        self.cancel();
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
    impl From<Elapsed> for std::io::Error {
        fn from(_: Elapsed) -> Self {
            std::io::ErrorKind::TimedOut.into()
        }
    }
}

pin_project_lite::pin_project! {
    pub struct Timeout<F> {
        #[pin]
        f: F,
        #[pin]
        s: Sleep,
    }
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { f, s: sleep(d) }
}
pub fn timeout_at<F: Future>(at: Instant, f: F) -> Timeout<F> {
    Timeout { f, s: sleep_until(at) }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = self.project();
        if let Poll::Ready(v) = me.f.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match me.s.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    s: Sleep,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(!period.is_zero(), "`period` must be non-zero.");
    Interval { s: sleep_until(start), period, missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        if Pin::new(&mut self.s).poll(cx).is_pending() {
            return Poll::Pending;
        }
        let t = self.s.at;
        let now = Instant::now();
        let next = if now > t + Duration::from_millis(5) {
            match self.missed {
                MissedTickBehavior::Burst => t + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => {
                    let mut n = t + self.period;
                    while n <= now {
                        n += self.period;
                    }
                    n
                }
            }
        } else {
            t + self.period
        };
        Pin::new(&mut self.s).reset(next);
        Poll::Ready(t)
    }
    pub fn reset(&mut self) {
        let at = Instant::now() + self.period;
        Pin::new(&mut self.s).reset(at);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b;
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
}
