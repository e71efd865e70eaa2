//! Channels between tasks of one thread.
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

struct Chan<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    senders: usize,
    receivers: usize,
}
pub struct Sender<T>(Arc<Mutex<Chan<T>>>);
pub struct Receiver<T>(Arc<Mutex<Chan<T>>>);
#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
impl<T> std::fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("sending into a closed channel")
    }
}
impl<T> std::error::Error for SendError<T> {}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(t) | TrySendError::Closed(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_closed(&self) -> bool {
        matches!(self, TrySendError::Closed(_))
    }
}
impl<T> std::fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.is_full() { "Full(..)" } else { "Closed(..)" })
    }
}
impl<T> std::fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(if self.is_full() { "sending into a full channel" } else { "sending into a closed channel" })
    }
}
impl<T> std::error::Error for TrySendError<T> {}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Closed,
}

fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Mutex::new(Chan { q: VecDeque::new(), cap, senders: 1, receivers: 1 }));
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().senders += 1;
        Sender(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.lock().unwrap().senders -= 1;
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.lock().unwrap().receivers += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.lock().unwrap().receivers -= 1;
    }
}
impl<T> Sender<T> {
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        let mut c = self.0.lock().unwrap();
        if c.receivers == 0 {
            return Err(TrySendError::Closed(msg));
        }
        if c.cap.map_or(false, |n| c.q.len() >= n) {
            return Err(TrySendError::Full(msg));
        }
        c.q.push_back(msg);
        Ok(())
    }
    pub fn send(&self, msg: T) -> Send<'_, T> {
        Send(self, Some(msg))
    }
    pub fn is_full(&self) -> bool {
        let c = self.0.lock().unwrap();
        c.cap.map_or(false, |n| c.q.len() >= n)
    }
    pub fn is_closed(&self) -> bool {
        self.0.lock().unwrap().receivers == 0
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.lock().unwrap().cap
    }
    pub fn receiver_count(&self) -> usize {
        self.0.lock().unwrap().receivers
    }
    pub fn sender_count(&self) -> usize {
        self.0.lock().unwrap().senders
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
}
impl<T> Receiver<T> {
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut c = self.0.lock().unwrap();
        match c.q.pop_front() {
            Some(m) => Ok(m),
            None if c.senders == 0 => Err(TryRecvError::Closed),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Recv<'_, T> {
        Recv(self)
    }
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().q.len()
    }
}
pub struct Send<'a, T>(&'a Sender<T>, Option<T>);
impl<T> Unpin for Send<'_, T> {}
impl<T> Future for Send<'_, T> {
    type Output = Result<(), SendError<T>>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let m = self.1.take().expect("polled after completion");
        match self.0.try_send(m) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(TrySendError::Closed(m)) => Poll::Ready(Err(SendError(m))),
            Err(TrySendError::Full(m)) => {
                self.1 = Some(m);
                Poll::Pending
            }
        }
    }
}
pub struct Recv<'a, T>(&'a Receiver<T>);
impl<T> Future for Recv<'_, T> {
    type Output = Result<T, RecvError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match self.0.try_recv() {
            Ok(m) => Poll::Ready(Ok(m)),
            Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError)),
            Err(TryRecvError::Empty) => Poll::Pending,
        }
    }
}
