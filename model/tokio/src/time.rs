use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use std::time::Duration;

pub struct Sleep {
    deadline: u64,
}

fn millis(d: Duration) -> u64 {
    d.as_secs() * 1000 + d.subsec_millis() as u64
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep { deadline: crate::model::timer_now() + millis(d) }
}

impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        if crate::model::timer_now() >= self.deadline {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    deadline: u64,
    inner: F,
}

pub fn timeout<F: Future>(d: Duration, inner: F) -> Timeout<F> {
    Timeout { deadline: crate::model::timer_now() + millis(d), inner }
}

impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let inner = unsafe { Pin::new_unchecked(&mut this.inner) };
        if let Poll::Ready(v) = inner.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        if crate::model::timer_now() >= this.deadline {
            return Poll::Ready(Err(error::Elapsed(())));
        }
        Poll::Pending
    }
}

pub struct Interval {
    period: u64,
    next: u64,
    missed: MissedTickBehavior,
}
pub fn interval(d: Duration) -> Interval {
    Interval { period: millis(d), next: crate::model::timer_now(), missed: MissedTickBehavior::Burst }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let at = self.next;
        Sleep { deadline: at }.await;
        let now = crate::model::timer_now();
        self.next = at + self.period;
        if now > self.next {
            match self.missed {
                MissedTickBehavior::Burst => {}
                MissedTickBehavior::Delay => self.next = now + self.period,
                MissedTickBehavior::Skip => self.next = now + self.period - (now - at) % self.period,
            }
        }
        Instant(at)
    }
}

/// A point on the timer clock.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant {
        Instant(crate::model::timer_now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_millis(crate::model::timer_now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_millis(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(millis(d)).map(Instant)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + millis(d))
    }
}
impl std::ops::AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += millis(d)
    }
}
impl std::ops::Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - millis(d))
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.deadline)
    }
    pub fn is_elapsed(&self) -> bool {
        crate::model::timer_now() >= self.deadline
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.deadline = at.0
    }
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep { deadline: at.0 }
}
pub fn timeout_at<F: Future>(at: Instant, inner: F) -> Timeout<F> {
    Timeout { deadline: at.0, inner }
}
pub fn interval_at(at: Instant, d: Duration) -> Interval {
    Interval { period: millis(d), next: at.0, missed: MissedTickBehavior::Burst }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.missed = b
    }
    pub fn period(&self) -> Duration {
        Duration::from_millis(self.period)
    }
    pub fn reset(&mut self) {
        self.next = crate::model::timer_now() + self.period
    }
}
