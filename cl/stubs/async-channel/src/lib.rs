//! Types only: nothing here is ever called by the checks.
pub struct Sender<T>(std::marker::PhantomData<T>);
pub struct SendError<T>(pub T);
pub enum TrySendError<T> {
    Full(T),
    Closed(T),
}
impl<T> Sender<T> {
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        Err(TrySendError::Full(msg))
    }
}
