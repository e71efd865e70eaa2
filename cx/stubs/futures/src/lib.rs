//! The combinators of streams and futures the client uses.
pub use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub trait Stream {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
}

pub mod stream {
    use super::*;
    pub use super::{Stream, StreamExt, TryStreamExt};
    pub struct Iter<I>(pub(crate) I);
    impl<I> Unpin for Iter<I> {}
    pub fn iter<I: IntoIterator>(i: I) -> Iter<I::IntoIter> {
        Iter(i.into_iter())
    }
    /// `ordered` yields in the order of pushing
    pub struct Futures<F: Future, const ORDERED: bool>(Vec<(Pin<Box<F>>, Option<F::Output>)>);
    pub type FuturesUnordered<F> = Futures<F, false>;
    pub type FuturesOrdered<F> = Futures<F, true>;
    impl<F: Future, const O: bool> Unpin for Futures<F, O> {}
    impl<F: Future, const O: bool> Default for Futures<F, O> {
        fn default() -> Self {
            Futures(vec![])
        }
    }
    impl<F: Future, const O: bool> Futures<F, O> {
        pub fn new() -> Self {
            Futures(vec![])
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn push_back(&mut self, f: F) {
            self.0.push((Box::pin(f), None));
        }
        pub fn push(&mut self, f: F) {
            self.push_back(f);
        }
    }
    impl<F: Future, const O: bool> Extend<F> for Futures<F, O> {
        fn extend<I: IntoIterator<Item = F>>(&mut self, i: I) {
            i.into_iter().for_each(|f| self.push_back(f));
        }
    }
    impl<F: Future, const O: bool> FromIterator<F> for Futures<F, O> {
        fn from_iter<I: IntoIterator<Item = F>>(i: I) -> Self {
            let mut s = Self::default();
            s.extend(i);
            s
        }
    }
    impl<F: Future, const O: bool> Stream for Futures<F, O> {
        type Item = F::Output;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
            for w in self.0.iter_mut() {
                if w.1.is_none() {
                    if let Poll::Ready(v) = w.0.as_mut().poll(cx) {
                        w.1 = Some(v);
                    }
                }
            }
            let at = if O {
                self.0.first().and_then(|w| w.1.as_ref().map(|_| 0))
            } else {
                self.0.iter().position(|w| w.1.is_some())
            };
            match at {
                Some(i) => Poll::Ready(self.0.remove(i).1),
                None if self.0.is_empty() => Poll::Ready(None),
                None => Poll::Pending,
            }
        }
    }
    impl<I: Iterator> Stream for Iter<I> {
        type Item = I::Item;
        fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<I::Item>> {
            Poll::Ready(self.0.next())
        }
    }
}

pub struct Chunks<S: Stream> {
    s: S,
    n: usize,
    have: Vec<S::Item>,
}
impl<S: Stream> Unpin for Chunks<S> {}
impl<S: Stream + Unpin> Stream for Chunks<S> {
    type Item = Vec<S::Item>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        loop {
            match Pin::new(&mut self.s).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(x)) => {
                    self.have.push(x);
                    if self.have.len() >= self.n {
                        return Poll::Ready(Some(std::mem::take(&mut self.have)));
                    }
                }
                Poll::Ready(None) => {
                    return Poll::Ready(if self.have.is_empty() { None } else { Some(std::mem::take(&mut self.have)) });
                }
            }
        }
    }
}
pub struct Map<S, F>(S, F);
impl<S, F> Unpin for Map<S, F> {}
impl<S: Stream + Unpin, T, F: FnMut(S::Item) -> T> Stream for Map<S, F> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        match Pin::new(&mut self.0).poll_next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Ready(Some(x)) => Poll::Ready(Some((self.1)(x))),
        }
    }
}
/// `ordered` keeps the results in the order of the requests.
pub struct Buffer<S: Stream>
where
    S::Item: Future,
{
    s: S,
    n: usize,
    ordered: bool,
    ended: bool,
    work: Vec<(Pin<Box<S::Item>>, Option<<S::Item as Future>::Output>)>,
}
impl<S: Stream> Unpin for Buffer<S> where S::Item: Future {}
impl<S: Stream + Unpin> Stream for Buffer<S>
where
    S::Item: Future,
{
    type Item = <S::Item as Future>::Output;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let me = &mut *self;
        while !me.ended && me.work.len() < me.n {
            match Pin::new(&mut me.s).poll_next(cx) {
                Poll::Pending => break,
                Poll::Ready(None) => me.ended = true,
                Poll::Ready(Some(f)) => me.work.push((Box::pin(f), None)),
            }
        }
        for w in me.work.iter_mut() {
            if w.1.is_none() {
                if let Poll::Ready(v) = w.0.as_mut().poll(cx) {
                    w.1 = Some(v);
                }
            }
        }
        let at = if me.ordered {
            me.work.first().and_then(|w| w.1.as_ref().map(|_| 0))
        } else {
            me.work.iter().position(|w| w.1.is_some())
        };
        match at {
            Some(i) => Poll::Ready(me.work.remove(i).1),
            None if me.ended && me.work.is_empty() => Poll::Ready(None),
            None => Poll::Pending,
        }
    }
}
pub struct Collect<S, C>(S, C);
impl<S, C> Unpin for Collect<S, C> {}
impl<S: Stream + Unpin, C: Default + Extend<S::Item>> Future for Collect<S, C> {
    type Output = C;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> {
        loop {
            match Pin::new(&mut self.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(x)) => self.1.extend(Some(x)),
                Poll::Ready(None) => return Poll::Ready(std::mem::take(&mut self.1)),
            }
        }
    }
}
pub struct Next<'a, S>(&'a mut S);
impl<S: Stream + Unpin> Future for Next<'_, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
}
pub trait StreamExt: Stream {
    fn chunks(self, n: usize) -> Chunks<Self>
    where
        Self: Sized,
    {
        assert!(n > 0);
        Chunks { s: self, n, have: vec![] }
    }
    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
    where
        Self: Sized,
    {
        Map(self, f)
    }
    fn buffer_unordered(self, n: usize) -> Buffer<Self>
    where
        Self: Sized,
        Self::Item: Future,
    {
        Buffer { s: self, n, ordered: false, ended: false, work: vec![] }
    }
    fn buffered(self, n: usize) -> Buffer<Self>
    where
        Self: Sized,
        Self::Item: Future,
    {
        Buffer { s: self, n, ordered: true, ended: false, work: vec![] }
    }
    fn collect<C: Default + Extend<Self::Item>>(self) -> Collect<Self, C>
    where
        Self: Sized,
    {
        Collect(self, C::default())
    }
    fn then<Fut: Future, F: FnMut(Self::Item) -> Fut>(self, f: F) -> Buffer<Map<Self, F>>
    where
        Self: Sized + Unpin,
    {
        self.map(f).buffered(1)
    }
    fn filter_map<Fut: Future<Output = Option<T>>, T, F: FnMut(Self::Item) -> Fut>(self, f: F) -> Some_<Buffer<Map<Self, F>>>
    where
        Self: Sized + Unpin,
    {
        Some_(self.map(f).buffered(1))
    }
    fn enumerate(self) -> Enumerate<Self>
    where
        Self: Sized,
    {
        Enumerate(self, 0)
    }
    fn take(self, n: usize) -> Take<Self>
    where
        Self: Sized,
    {
        Take(self, n)
    }
    fn for_each<Fut: Future<Output = ()>, F: FnMut(Self::Item) -> Fut>(self, f: F) -> Done<Buffer<Map<Self, F>>>
    where
        Self: Sized + Unpin,
    {
        Done(self.then(f))
    }
    fn for_each_concurrent<Fut: Future<Output = ()>, F: FnMut(Self::Item) -> Fut>(
        self,
        n: impl Into<Option<usize>>,
        f: F,
    ) -> Done<Buffer<Map<Self, F>>>
    where
        Self: Sized + Unpin,
    {
        Done(self.map(f).buffer_unordered(n.into().filter(|n| *n > 0).unwrap_or(usize::MAX)))
    }
    fn fold<'a, T: 'a, Fut: Future<Output = T> + 'a, F: FnMut(T, Self::Item) -> Fut + 'a>(
        mut self,
        init: T,
        mut f: F,
    ) -> Pin<Box<dyn Future<Output = T> + 'a>>
    where
        Self: Sized + Unpin + 'a,
    {
        Box::pin(async move {
            let mut t = init;
            while let Some(x) = self.next().await {
                t = f(t, x).await;
            }
            t
        })
    }
    fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn next(&mut self) -> Next<'_, Self>
    where
        Self: Unpin + Sized,
    {
        Next(self)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}
impl<S: Stream + Unpin + ?Sized> Stream for &mut S {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        Pin::new(&mut **self).poll_next(cx)
    }
}
impl<S: Stream + ?Sized> Stream for Pin<Box<S>> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<S::Item>> {
        self.as_mut().get_mut().as_mut().poll_next(cx)
    }
}
pub struct Enumerate<S>(S, usize);
impl<S> Unpin for Enumerate<S> {}
impl<S: Stream + Unpin> Stream for Enumerate<S> {
    type Item = (usize, S::Item);
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let x = match Pin::new(&mut self.0).poll_next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(x) => x,
        };
        self.1 += 1;
        Poll::Ready(x.map(|x| (self.1 - 1, x)))
    }
}
pub struct Take<S>(S, usize);
impl<S> Unpin for Take<S> {}
impl<S: Stream + Unpin> Stream for Take<S> {
    type Item = S::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        if self.1 == 0 {
            return Poll::Ready(None);
        }
        let r = Pin::new(&mut self.0).poll_next(cx);
        if r.is_ready() {
            self.1 -= 1;
        }
        r
    }
}
pub struct Some_<S>(S);
impl<S> Unpin for Some_<S> {}
impl<T, S: Stream<Item = Option<T>> + Unpin> Stream for Some_<S> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        loop {
            match Pin::new(&mut self.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(None),
                Poll::Ready(Some(Some(x))) => return Poll::Ready(Some(x)),
                Poll::Ready(Some(None)) => {}
            }
        }
    }
}
pub struct Done<S>(S);
impl<S> Unpin for Done<S> {}
impl<S: Stream<Item = ()> + Unpin> Future for Done<S> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        loop {
            match Pin::new(&mut self.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(()),
                Poll::Ready(Some(())) => {}
            }
        }
    }
}
pub struct TryCollect<S, C>(S, C);
impl<S, C> Unpin for TryCollect<S, C> {}
impl<T, E, S: Stream<Item = Result<T, E>> + Unpin, C: Default + Extend<T>> Future for TryCollect<S, C> {
    type Output = Result<C, E>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        loop {
            match Pin::new(&mut self.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Some(Ok(x))) => self.1.extend(Some(x)),
                Poll::Ready(Some(Err(e))) => return Poll::Ready(Err(e)),
                Poll::Ready(None) => return Poll::Ready(Ok(std::mem::take(&mut self.1))),
            }
        }
    }
}
pub struct TryDone<S>(S);
impl<S> Unpin for TryDone<S> {}
impl<E, S: Stream<Item = Result<(), E>> + Unpin> Future for TryDone<S> {
    type Output = Result<(), E>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        loop {
            match Pin::new(&mut self.0).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(Ok(())),
                Poll::Ready(Some(Ok(()))) => {}
                Poll::Ready(Some(Err(e))) => return Poll::Ready(Err(e)),
            }
        }
    }
}
pub struct TryNext<'a, S>(&'a mut S);
impl<T, E, S: Stream<Item = Result<T, E>> + Unpin> Future for TryNext<'_, S> {
    type Output = Result<Option<T>, E>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0).poll_next(cx).map(|x| x.transpose())
    }
}
pub trait TryStreamExt<T, E>: Stream<Item = Result<T, E>> {
    fn try_collect<C: Default + Extend<T>>(self) -> TryCollect<Self, C>
    where
        Self: Sized,
    {
        TryCollect(self, C::default())
    }
    fn try_next(&mut self) -> TryNext<'_, Self>
    where
        Self: Unpin + Sized,
    {
        TryNext(self)
    }
    fn map_ok<'a, U, F: FnMut(T) -> U + 'a>(self, mut f: F) -> Map<Self, Box<dyn FnMut(Result<T, E>) -> Result<U, E> + 'a>>
    where
        Self: Sized,
    {
        Map(self, Box::new(move |r| r.map(&mut f)))
    }
    fn map_err<'a, U, F: FnMut(E) -> U + 'a>(self, mut f: F) -> Map<Self, Box<dyn FnMut(Result<T, E>) -> Result<T, U> + 'a>>
    where
        Self: Sized,
    {
        Map(self, Box::new(move |r| r.map_err(&mut f)))
    }
}
impl<T, E, S: Stream<Item = Result<T, E>> + ?Sized> TryStreamExt<T, E> for S {}

pub trait FutureExt: Future {
    fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn map<T, F: FnOnce(Self::Output) -> T>(self, f: F) -> MapFuture<Self, F>
    where
        Self: Sized,
    {
        MapFuture(Box::pin(self), Some(f))
    }
}
impl<F: Future + ?Sized> FutureExt for F {}
pub struct MapFuture<Fut, F>(Pin<Box<Fut>>, Option<F>);
impl<Fut, F> Unpin for MapFuture<Fut, F> {}
impl<Fut: Future, T, F: FnOnce(Fut::Output) -> T> Future for MapFuture<Fut, F> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        match self.0.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(v) => Poll::Ready((self.1.take().expect("polled once ready"))(v)),
        }
    }
}
pub mod executor {
    pub fn block_on<F: super::Future>(f: F) -> F::Output {
        sim::block_on(f)
    }
}
pub use future::{join, join_all, try_join, try_join_all};
pub mod prelude {
    pub use super::{Future, FutureExt, Stream, StreamExt, TryStreamExt};
}
#[macro_export]
macro_rules! join {
    ($a:expr $(,)?) => { ($a.await,) };
    ($a:expr, $b:expr $(,)?) => { $crate::future::join($a, $b).await };
    ($a:expr, $b:expr, $c:expr $(,)?) => {{
        let ((a, b), c) = $crate::future::join($crate::future::join($a, $b), $c).await;
        (a, b, c)
    }};
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => {{
        let ((a, b), (c, d)) =
            $crate::future::join($crate::future::join($a, $b), $crate::future::join($c, $d)).await;
        (a, b, c, d)
    }};
}
#[macro_export]
macro_rules! try_join {
    ($a:expr $(,)?) => { $a.await.map(|a| (a,)) };
    ($a:expr, $b:expr $(,)?) => { $crate::future::try_join($a, $b).await };
    ($a:expr, $b:expr, $c:expr $(,)?) => {
        $crate::future::try_join($crate::future::try_join($a, $b), $c).await.map(|((a, b), c)| (a, b, c))
    };
    ($a:expr, $b:expr, $c:expr, $d:expr $(,)?) => {
        $crate::future::try_join($crate::future::try_join($a, $b), $crate::future::try_join($c, $d))
            .await
            .map(|((a, b), (c, d))| (a, b, c, d))
    };
}
#[macro_export]
macro_rules! pin_mut {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { std::pin::Pin::new_unchecked(&mut $x) };
    )* };
}

pub mod future {
    pub use super::FutureExt;
    use super::*;
    pub use std::future::{ready, Ready};
    pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
    pub async fn join<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
        let (mut a, mut b) = (Box::pin(a), Box::pin(b));
        let (mut x, mut y) = (None, None);
        std::future::poll_fn(move |cx| {
            if x.is_none() {
                if let Poll::Ready(v) = a.as_mut().poll(cx) {
                    x = Some(v);
                }
            }
            if y.is_none() {
                if let Poll::Ready(v) = b.as_mut().poll(cx) {
                    y = Some(v);
                }
            }
            if x.is_some() && y.is_some() {
                Poll::Ready((x.take().unwrap(), y.take().unwrap()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub async fn try_join<T, U, E, A: Future<Output = Result<T, E>>, B: Future<Output = Result<U, E>>>(
        a: A,
        b: B,
    ) -> Result<(T, U), E> {
        let (mut a, mut b) = (Box::pin(a), Box::pin(b));
        let (mut x, mut y) = (None, None);
        std::future::poll_fn(move |cx| {
            if x.is_none() {
                match a.as_mut().poll(cx) {
                    Poll::Ready(Ok(v)) => x = Some(v),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => {}
                }
            }
            if y.is_none() {
                match b.as_mut().poll(cx) {
                    Poll::Ready(Ok(v)) => y = Some(v),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => {}
                }
            }
            if x.is_some() && y.is_some() {
                Poll::Ready(Ok((x.take().unwrap(), y.take().unwrap())))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub async fn try_join_all<T, E, I: IntoIterator>(i: I) -> Result<Vec<T>, E>
    where
        I::Item: Future<Output = Result<T, E>>,
    {
        let mut l: Vec<_> = i.into_iter().map(|f| (Box::pin(f), None)).collect();
        std::future::poll_fn(move |cx| {
            for w in l.iter_mut() {
                if w.1.is_none() {
                    match w.0.as_mut().poll(cx) {
                        Poll::Ready(Ok(v)) => w.1 = Some(v),
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                        Poll::Pending => {}
                    }
                }
            }
            if l.iter().all(|w| w.1.is_some()) {
                Poll::Ready(Ok(l.iter_mut().map(|w| w.1.take().unwrap()).collect()))
            } else {
                Poll::Pending
            }
        })
        .await
    }
    pub struct JoinAll<F: Future>(Vec<(Pin<Box<F>>, Option<F::Output>)>);
    impl<F: Future> Unpin for JoinAll<F> {}
    pub fn join_all<I: IntoIterator>(i: I) -> JoinAll<I::Item>
    where
        I::Item: Future,
    {
        JoinAll(i.into_iter().map(|f| (Box::pin(f), None)).collect())
    }
    impl<F: Future> Future for JoinAll<F> {
        type Output = Vec<F::Output>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            for w in self.0.iter_mut() {
                if w.1.is_none() {
                    if let Poll::Ready(v) = w.0.as_mut().poll(cx) {
                        w.1 = Some(v);
                    }
                }
            }
            if self.0.iter().all(|w| w.1.is_some()) {
                Poll::Ready(self.0.iter_mut().map(|w| w.1.take().unwrap()).collect())
            } else {
                Poll::Pending
            }
        }
    }
}
