//! The surroundings of the client under test, per thread: a clock that only
//! moves when told to, the tasks it starts, and the node it talks to.
use solana_sdk::{
    account::Account, commitment_config::CommitmentConfig, commitment_config::CommitmentLevel, hash::Hash,
    pubkey::Pubkey, signature::Signature, transaction::TransactionError, transaction::VersionedTransaction,
};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use std::time::Duration;

fn raw() -> RawWaker {
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    fn nothing(_: *const ()) {}
    static T: RawWakerVTable = RawWakerVTable::new(clone, nothing, nothing, nothing);
    RawWaker::new(std::ptr::null(), &T)
}
/// Poll once; every schedule is driven explicitly, so nobody has to be woken.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = unsafe { Waker::from_raw(raw()) };
    f.poll(&mut Context::from_waker(&w))
}
/// Run a future that never has to wait.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    for _ in 0..100_000 {
        clock::wakes();
        if let Poll::Ready(v) = poll_once(f.as_mut()) {
            return v;
        }
        // nothing but the clock can be what it waits for
        if let (Some(t), Some(now)) = (clock::wakes(), clock::now()) {
            clock::sleep(t.saturating_sub(now));
        }
    }
    panic!("the call waits for ever");
}

pub mod clock {
    use super::*;
    thread_local! {
        static NOW: Cell<Option<u64>> = const { Cell::new(None) };
        static SLEPT: Cell<u64> = const { Cell::new(0) };
        static WAKE: Cell<Option<u64>> = const { Cell::new(None) };
    }
    /// a timer waits for this time
    pub fn wake_at(t: u64) {
        WAKE.with(|w| w.set(Some(w.get().map_or(t, |o| o.min(t)))));
    }
    /// the first of the timers waited for since the last question
    pub fn wakes() -> Option<u64> {
        WAKE.with(|w| w.take())
    }
    /// From here on this thread lives in made-up time.
    pub fn start() {
        NOW.with(|n| n.set(Some(1_000_000_000_000)));
        SLEPT.with(|s| s.set(0));
    }
    pub fn stop() {
        NOW.with(|n| n.set(None));
    }
    pub fn now() -> Option<u64> {
        NOW.try_with(|n| n.get()).ok().flatten()
    }
    pub fn advance(d: Duration) {
        NOW.with(|n| n.set(n.get().map(|t| t + d.as_nanos() as u64)));
    }
    /// number of times the code under test went to sleep
    pub fn slept() -> u64 {
        SLEPT.with(|s| s.get())
    }
    pub fn sleep(ns: u64) {
        SLEPT.with(|s| s.set(s.get() + 1));
        NOW.with(|n| n.set(n.get().map(|t| t + ns)));
    }
}

pub mod tasks {
    use super::*;
    thread_local! {
        static TASKS: RefCell<Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>> = RefCell::new(vec![]);
    }
    pub fn spawn(f: impl Future<Output = ()> + 'static) {
        TASKS.with(|t| t.borrow_mut().push(Some(Box::pin(f))));
    }
    pub fn clear() {
        let l = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
        drop(l);
    }
    /// Poll every task once; the number of tasks still running.
    pub fn run() -> usize {
        let n = TASKS.with(|t| t.borrow().len());
        let mut live = 0;
        for i in 0..n {
            let f = TASKS.with(|t| t.borrow_mut()[i].take());
            if let Some(mut f) = f {
                if poll_once(f.as_mut()).is_pending() {
                    TASKS.with(|t| t.borrow_mut()[i] = Some(f));
                    live += 1;
                }
            }
        }
        live
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Filter {
    Size(u64),
    Bytes(usize, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Account(Pubkey),
    Accounts(Vec<Pubkey>),
    ProgramAccounts { program: Pubkey, filters: Vec<Filter>, slice: Option<(usize, usize)> },
    /// sent without waiting for it to be confirmed
    Send { tx: VersionedTransaction, skip_preflight: bool, preflight: Option<CommitmentLevel> },
    /// sent and confirmed
    Confirm(VersionedTransaction),
    Statuses(Vec<Signature>),
    LatestBlockhash,
    BlockhashValid(Hash),
    Slot,
    Raw { method: String, params: serde_json::Value },
}
/// One request: whom it went to, and with which settings.
#[derive(Clone, Debug, PartialEq)]
pub struct Call {
    pub url: String,
    pub commitment: CommitmentConfig,
    pub timeout: Option<Duration>,
    pub req: Req,
}
#[derive(Clone, Debug)]
pub struct Status {
    pub slot: u64,
    /// none once rooted
    pub confirmations: Option<usize>,
    pub err: Option<TransactionError>,
    /// 0 processed, 1 confirmed, 2 finalized
    pub level: Option<u8>,
}
#[derive(Clone, Debug)]
pub enum Ans {
    Account(u64, Option<Account>),
    Accounts(u64, Vec<Option<Account>>),
    ProgramAccounts(u64, Vec<(Pubkey, Account)>),
    Signature(Signature),
    Statuses(u64, Vec<Option<Status>>),
    Hash(Hash, u64),
    Bool(bool),
    Slot(u64),
    Value(serde_json::Value),
}
#[derive(Clone, Debug)]
pub enum Fail {
    Transport(String),
    /// refused by the simulation before anything was executed
    Preflight { err: Option<TransactionError>, logs: Option<Vec<String>> },
    Transaction(TransactionError),
}
pub trait Node {
    fn start(&self, c: Call) -> u64;
    fn poll(&self, id: u64) -> Option<Result<Ans, Fail>>;
    /// the caller lost interest
    fn gone(&self, _id: u64) {}
}
thread_local! {
    static NODE: RefCell<Option<Rc<dyn Node>>> = RefCell::new(None);
}
pub fn set_node(n: Option<Rc<dyn Node>>) {
    let old = NODE.with(|x| std::mem::replace(&mut *x.borrow_mut(), n));
    drop(old);
}
pub fn node() -> Rc<dyn Node> {
    NODE.with(|x| x.borrow().clone()).expect("no node")
}
/// A request under way.
pub struct Pending {
    call: Option<Call>,
    id: u64,
    done: bool,
}
pub fn ask(call: Call) -> Pending {
    Pending { call: Some(call), id: 0, done: false }
}
impl Future for Pending {
    type Output = Result<Ans, Fail>;
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        let n = node();
        if let Some(c) = self.call.take() {
            self.id = n.start(c);
        }
        match n.poll(self.id) {
            Some(r) => {
                self.done = true;
                Poll::Ready(r)
            }
            None => Poll::Pending,
        }
    }
}
impl Drop for Pending {
    fn drop(&mut self) {
        if self.call.is_none() && !self.done {
            if let Ok(Some(n)) = NODE.try_with(|x| x.borrow().clone()) {
                n.gone(self.id);
            }
        }
    }
}
/// A request of a caller that waits for the answer.
pub fn ask_now(call: Call) -> Result<Ans, Fail> {
    let n = node();
    let id = n.start(call);
    n.poll(id).expect("the node answers waiting callers at once")
}
