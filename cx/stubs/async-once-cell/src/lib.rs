//! A value computed once by whoever asks first; everyone asking can drive it.
pub mod unpin {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Mutex, OnceLock};
    use std::task::{Context, Poll};

    pub struct Lazy<T, F = Pin<Box<dyn Future<Output = T> + Send>>> {
        value: OnceLock<T>,
        work: Mutex<Option<F>>,
    }
    impl<T, F> Lazy<T, F> {
        pub fn new(f: F) -> Self {
            Lazy { value: OnceLock::new(), work: Mutex::new(Some(f)) }
        }
        pub fn try_get(&self) -> Option<&T> {
            self.value.get()
        }
    }
    impl<T, F: Future<Output = T> + Unpin> Lazy<T, F> {
        pub fn get(&self) -> Get<'_, T, F> {
            Get(self)
        }
    }
    pub struct Get<'a, T, F>(&'a Lazy<T, F>);
    impl<'a, T, F: Future<Output = T> + Unpin> Future for Get<'a, T, F> {
        type Output = &'a T;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<&'a T> {
            let l = self.0;
            if l.value.get().is_none() {
                let mut work = l.work.lock().unwrap();
                let w = work.as_mut().expect("work is there until the value is");
                match Pin::new(w).poll(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(v) => {
                        *work = None;
                        let _ = l.value.set(v);
                    }
                }
            }
            Poll::Ready(l.value.get().unwrap())
        }
    }
}
pub use unpin::Lazy;
