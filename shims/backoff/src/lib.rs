//! Exponential backoff with the crate's default policy, on simulated time.
use std::{fmt, time::Duration};

#[derive(Debug, PartialEq, Eq)]
pub enum Error<E> {
    Permanent(E),
    Transient { err: E, retry_after: Option<Duration> },
}
impl<E> Error<E> {
    pub fn permanent(err: E) -> Self {
        Error::Permanent(err)
    }
    pub fn transient(err: E) -> Self {
        Error::Transient { err, retry_after: None }
    }
    pub fn retry_after(err: E, d: Duration) -> Self {
        Error::Transient { err, retry_after: Some(d) }
    }
}
impl<E: fmt::Display> fmt::Display for Error<E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Permanent(e) => e.fmt(f),
            Error::Transient { err, .. } => err.fmt(f),
        }
    }
}
impl<E: fmt::Debug + fmt::Display> std::error::Error for Error<E> {}
impl<E> From<E> for Error<E> {
    fn from(err: E) -> Self {
        Error::Transient { err, retry_after: None }
    }
}

pub mod default {
    pub const INITIAL_INTERVAL_MILLIS: u64 = 500;
    pub const RANDOMIZATION_FACTOR: f64 = 0.5;
    pub const MULTIPLIER: f64 = 1.5;
    pub const MAX_INTERVAL_MILLIS: u64 = 60_000;
    pub const MAX_ELAPSED_TIME_MILLIS: u64 = 900_000;
}

pub mod backoff {
    use std::time::Duration;
    pub trait Backoff {
        fn reset(&mut self) {}
        fn next_backoff(&mut self) -> Option<Duration>;
    }
    impl<B: Backoff + ?Sized> Backoff for Box<B> {
        fn reset(&mut self) {
            (**self).reset()
        }
        fn next_backoff(&mut self) -> Option<Duration> {
            (**self).next_backoff()
        }
    }
    #[derive(Debug, Clone)]
    pub struct Constant {
        interval: Duration,
    }
    impl Constant {
        pub fn new(interval: Duration) -> Constant {
            Constant { interval }
        }
    }
    impl Backoff for Constant {
        fn next_backoff(&mut self) -> Option<Duration> {
            Some(self.interval)
        }
    }
    #[derive(Debug, Clone)]
    pub struct Zero {}
    impl Backoff for Zero {
        fn next_backoff(&mut self) -> Option<Duration> {
            Some(Duration::ZERO)
        }
    }
    #[derive(Debug, Clone)]
    pub struct Stop {}
    impl Backoff for Stop {
        fn next_backoff(&mut self) -> Option<Duration> {
            None
        }
    }
}
use crate::backoff::Backoff;

#[derive(Debug, Clone)]
pub struct SystemClock {}

pub mod exponential {
    pub use crate::{ExponentialBackoff, ExponentialBackoffBuilder};
}

#[derive(Debug, Clone)]
pub struct ExponentialBackoff {
    pub current_interval: Duration,
    pub initial_interval: Duration,
    pub randomization_factor: f64,
    pub multiplier: f64,
    pub max_interval: Duration,
    /// Simulated microseconds.
    pub start_time: u64,
    pub max_elapsed_time: Option<Duration>,
    pub clock: SystemClock,
}
impl Default for ExponentialBackoff {
    fn default() -> Self {
        let mut b = ExponentialBackoff {
            current_interval: Duration::from_millis(default::INITIAL_INTERVAL_MILLIS),
            initial_interval: Duration::from_millis(default::INITIAL_INTERVAL_MILLIS),
            randomization_factor: default::RANDOMIZATION_FACTOR,
            multiplier: default::MULTIPLIER,
            max_interval: Duration::from_millis(default::MAX_INTERVAL_MILLIS),
            start_time: simrt::now(),
            max_elapsed_time: Some(Duration::from_millis(default::MAX_ELAPSED_TIME_MILLIS)),
            clock: SystemClock {},
        };
        b.reset();
        b
    }
}
impl ExponentialBackoff {
    pub fn get_elapsed_time(&self) -> Duration {
        Duration::from_micros(simrt::now().saturating_sub(self.start_time))
    }
}
impl Backoff for ExponentialBackoff {
    fn reset(&mut self) {
        self.current_interval = self.initial_interval;
        self.start_time = simrt::now();
    }
    fn next_backoff(&mut self) -> Option<Duration> {
        let elapsed = self.get_elapsed_time();
        if self.max_elapsed_time.is_some_and(|m| elapsed > m) {
            return None;
        }
        let c = self.current_interval.as_nanos() as f64;
        let delta = self.randomization_factor * c;
        let d = c - delta + rand::random::<f64>() * (2.0 * delta + 1.0);
        let d = Duration::from_nanos(d as u64);
        let cur = self.current_interval.as_nanos() as f64;
        self.current_interval = if cur >= self.max_interval.as_nanos() as f64 / self.multiplier {
            self.max_interval
        } else {
            Duration::from_nanos((cur * self.multiplier) as u64)
        };
        match self.max_elapsed_time {
            Some(m) if elapsed + d > m => None,
            _ => Some(d),
        }
    }
}

#[derive(Debug, Default)]
pub struct ExponentialBackoffBuilder {
    b: ExponentialBackoff,
}
impl ExponentialBackoffBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_initial_interval(&mut self, d: Duration) -> &mut Self {
        self.b.initial_interval = d;
        self
    }
    pub fn with_randomization_factor(&mut self, f: f64) -> &mut Self {
        self.b.randomization_factor = f;
        self
    }
    pub fn with_multiplier(&mut self, f: f64) -> &mut Self {
        self.b.multiplier = f;
        self
    }
    pub fn with_max_interval(&mut self, d: Duration) -> &mut Self {
        self.b.max_interval = d;
        self
    }
    pub fn with_max_elapsed_time(&mut self, d: Option<Duration>) -> &mut Self {
        self.b.max_elapsed_time = d;
        self
    }
    pub fn build(&self) -> ExponentialBackoff {
        let mut b = self.b.clone();
        b.reset();
        b
    }
}

pub trait Notify<E> {
    fn notify(&mut self, err: E, duration: Duration);
}
impl<E, F: FnMut(E, Duration)> Notify<E> for F {
    fn notify(&mut self, err: E, d: Duration) {
        self(err, d)
    }
}
#[derive(Debug, Clone, Copy)]
pub struct NoopNotify;
impl<E> Notify<E> for NoopNotify {
    fn notify(&mut self, _: E, _: Duration) {}
}

fn us(d: Duration) -> u64 {
    d.as_micros() as u64
}

pub mod future {
    use std::future::Future;

    use super::*;

    pub async fn retry<I, E, Fn, Fut, B>(backoff: B, operation: Fn) -> Result<I, E>
    where
        B: Backoff,
        Fn: FnMut() -> Fut,
        Fut: Future<Output = Result<I, Error<E>>>,
    {
        retry_notify(backoff, operation, NoopNotify).await
    }

    pub async fn retry_notify<I, E, Fn, Fut, B, N>(mut backoff: B, mut operation: Fn, mut notify: N) -> Result<I, E>
    where
        B: Backoff,
        Fn: FnMut() -> Fut,
        Fut: Future<Output = Result<I, Error<E>>>,
        N: Notify<E>,
    {
        backoff.reset();
        loop {
            match operation().await {
                Ok(v) => return Ok(v),
                Err(Error::Permanent(e)) => return Err(e),
                Err(Error::Transient { err, retry_after }) => match retry_after.or_else(|| backoff.next_backoff()) {
                    Some(d) => {
                        notify.notify(err, d);
                        simrt::task::sleep(us(d)).await;
                    }
                    None => return Err(err),
                },
            }
        }
    }
}

pub fn retry<F, B, T, E>(backoff: B, op: F) -> Result<T, Error<E>>
where
    F: FnMut() -> Result<T, Error<E>>,
    B: Backoff,
{
    retry_notify(backoff, op, NoopNotify)
}
pub fn retry_notify<F, B, N, T, E>(mut backoff: B, mut op: F, mut notify: N) -> Result<T, Error<E>>
where
    F: FnMut() -> Result<T, Error<E>>,
    B: Backoff,
    N: Notify<E>,
{
    backoff.reset();
    loop {
        match op() {
            Ok(v) => return Ok(v),
            Err(Error::Permanent(e)) => return Err(Error::Permanent(e)),
            Err(Error::Transient { err, retry_after }) => match retry_after.or_else(|| backoff.next_backoff()) {
                Some(d) => {
                    notify.notify(err, d);
                    simrt::current().block_sleep(us(d));
                }
                None => return Err(Error::transient(err)),
            },
        }
    }
}
