//! Tasks and timers over the made-up clock of the thread.
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct JoinHandle<T>(Arc<Mutex<Option<T>>>);
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, std::convert::Infallible>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.lock().unwrap().take() {
            Some(v) => Poll::Ready(Ok(v)),
            None => Poll::Pending,
        }
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let out = Arc::new(Mutex::new(None));
    let o = out.clone();
    sim::tasks::spawn(async move {
        let v = f.await;
        *o.lock().unwrap() = Some(v);
    });
    JoinHandle(out)
}
impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        self.0.lock().unwrap().is_some()
    }
}
pub mod task {
    pub use super::{spawn, JoinHandle};
    use super::*;
    pub struct Yield(bool);
    impl Future for Yield {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
            if std::mem::replace(&mut self.0, true) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    pub fn yield_now() -> Yield {
        Yield(false)
    }
    pub fn spawn_blocking<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> JoinHandle<R> {
        super::spawn(async move { f() })
    }
}
#[doc(hidden)]
pub use futures as __futures;
#[macro_export]
macro_rules! join {
    ($($t:tt)*) => { $crate::__futures::join!($($t)*) };
}
#[macro_export]
macro_rules! try_join {
    ($($t:tt)*) => { $crate::__futures::try_join!($($t)*) };
}
/// Locks of tasks: within one thread a task holding one is always suspended while another asks.
pub mod sync {
    use super::*;
    use std::sync::{MutexGuard, RwLockReadGuard, RwLockWriteGuard};
    pub struct Mutex<T>(std::sync::Mutex<T>);
    pub struct RwLock<T>(std::sync::RwLock<T>);
    struct Until<F>(F);
    impl<F> Unpin for Until<F> {}
    impl<R, F: FnMut() -> Option<R>> Future for Until<F> {
        type Output = R;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<R> {
            match (self.0)() {
                Some(r) => Poll::Ready(r),
                None => Poll::Pending,
            }
        }
    }
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(std::sync::Mutex::new(t))
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            Until(|| self.0.try_lock().ok()).await
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner().unwrap()
        }
    }
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock(std::sync::RwLock::new(t))
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            Until(|| self.0.try_read().ok()).await
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            Until(|| self.0.try_write().ok()).await
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
}
pub mod time {
    use super::*;
    pub use std::time::{Duration, Instant};
    pub struct Sleep(u64);
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
            match sim::clock::now() {
                Some(t) if t < self.0 => {
                    sim::clock::wake_at(self.0);
                    Poll::Pending
                }
                _ => Poll::Ready(()),
            }
        }
    }
    fn now() -> u64 {
        sim::clock::now().unwrap_or(0)
    }
    fn at(i: Instant) -> u64 {
        now() + i.saturating_duration_since(Instant::now()).as_nanos() as u64
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(now().saturating_add(d.as_nanos() as u64))
    }
    pub fn sleep_until(i: Instant) -> Sleep {
        Sleep(at(i))
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub struct Timeout<F>(Pin<Box<F>>, Sleep);
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            if let Poll::Ready(v) = self.0.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            Pin::new(&mut self.1).poll(cx).map(|_| Err(error::Elapsed(())))
        }
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        Timeout(Box::pin(f), sleep(d))
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    pub struct Interval {
        next: u64,
        period: u64,
        missed: MissedTickBehavior,
    }
    pub fn interval(d: Duration) -> Interval {
        interval_at(Instant::now(), d)
    }
    pub fn interval_at(start: Instant, d: Duration) -> Interval {
        assert!(d > Duration::ZERO, "`period` must be non-zero.");
        Interval { next: at(start), period: d.as_nanos() as u64, missed: Default::default() }
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            Sleep(self.next).await;
            let now = now();
            self.next = match self.missed {
                MissedTickBehavior::Delay if now > self.next + 5_000_000 => now + self.period,
                MissedTickBehavior::Skip if now > self.next + 5_000_000 => {
                    now + self.period - (now - self.next) % self.period
                }
                _ => self.next + self.period,
            };
            Instant::now()
        }
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period)
        }
        pub fn reset(&mut self) {
            self.next = now() + self.period;
        }
        pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
            self.missed = m;
        }
    }
}
