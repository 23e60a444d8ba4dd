//! Virtual time.
use crate::mc;
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant {
        Instant(mc::now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(mc::now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(*self + d)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(d.as_nanos() as u64))
    }
}

#[derive(Debug)]
pub struct Sleep {
    at: u64,
    key: Option<(u64, u64)>,
}
pub fn sleep(d: Duration) -> Sleep {
    sleep_until(Instant::now() + d)
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep { at: i.0, key: None }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        mc::now() >= self.at
    }
    pub fn reset(mut self: Pin<&mut Self>, i: Instant) {
        if let Some(k) = self.key.take() {
            mc::del_timer(k);
        }
        self.at = i.0;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(k) = self.key.take() {
            mc::del_timer(k);
        }
        if mc::now() >= self.at {
            return Poll::Ready(());
        }
        self.key = Some(mc::add_timer(self.at, cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key.take() {
            mc::del_timer(k);
        }
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    fut: Pin<Box<F>>,
    sleep: Sleep,
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
    Timeout { fut: Box::pin(f), sleep: sleep(d) }
}
pub fn timeout_at<F: Future>(i: Instant, f: F) -> Timeout<F> {
    Timeout { fut: Box::pin(f), sleep: sleep_until(i) }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if let Poll::Ready(v) = self.fut.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        Pin::new(&mut self.sleep).poll(cx).map(|_| Err(error::Elapsed(())))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    sleep: Sleep,
    period: Duration,
}
pub fn interval(p: Duration) -> Interval {
    interval_at(Instant::now(), p)
}
pub fn interval_at(s: Instant, p: Duration) -> Interval {
    Interval { sleep: sleep_until(s), period: p }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Ready(()) => {
                let t = Instant(self.sleep.at);
                self.sleep = sleep_until(t + self.period);
                Poll::Ready(t)
            }
            Poll::Pending => Poll::Pending,
        }
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.sleep = sleep(self.period);
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
}
