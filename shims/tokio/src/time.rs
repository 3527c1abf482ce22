use std::{
    fmt,
    future::Future,
    ops::{Add, AddAssign, Sub},
    pin::Pin,
    task::{Context, Poll},
};

pub use std::time::Duration;

fn us(d: Duration) -> u64 {
    d.as_micros().min(u64::MAX as u128 / 4) as u64
}

/// An instant of the simulated clock.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Instant {
        Instant(simrt::now())
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(*self + d)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(us(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        Duration::from_micros(self.0.saturating_sub(o.0))
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(us(d)))
    }
}

pub struct Sleep(simrt::task::Sleep);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.deadline())
    }
    pub fn reset(mut self: Pin<&mut Self>, at: Instant) {
        self.0 = simrt::task::sleep_until(at.0);
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep(simrt::task::sleep(us(d)))
}
pub fn sleep_until(at: Instant) -> Sleep {
    Sleep(simrt::task::sleep_until(at.0))
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub async fn timeout_at<F: Future>(at: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f);
    let mut s = sleep_until(at);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut s).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    timeout_at(Instant::now() + d, f).await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}

pub struct Interval {
    next: Instant,
    period: Duration,
    missed: MissedTickBehavior,
}
impl fmt::Debug for Interval {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Interval")
    }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        sleep_until(self.next).await;
        let at = self.next;
        let now = Instant::now();
        self.next = match self.missed {
            MissedTickBehavior::Burst => at + self.period,
            MissedTickBehavior::Delay => now + self.period,
            MissedTickBehavior::Skip => {
                let mut n = at + self.period;
                while n <= now {
                    n += self.period;
                }
                n
            }
        };
        at
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn reset(&mut self) {
        self.next = Instant::now() + self.period;
    }
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(!period.is_zero(), "`period` must be non-zero.");
    Interval { next: start, period, missed: MissedTickBehavior::Burst }
}
