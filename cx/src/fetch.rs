//! Reading accounts: every schedule of a few readers of the caching reader,
//! and the plain reader in every kind of node answer.

use crate::ledger::*;
use anchor_lang::Discriminator;
use crate::tx::Setup;
use obmc::alpha;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use obmc::world::*;
use openbook_v2::state as st;
use openbook_v2_client as ob;
use openbook_v2_client::AccountFetcher;
use solana_sdk::account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signer::Signer;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum What {
    /// one of two accounts
    One(u8),
    /// the accounts of a program
    All,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Start(What),
    /// the source answers a request
    Answer(usize, bool),
    Poll(usize),
    Clear,
    /// a reader loses interest
    Drop(usize),
}

fn key(a: u8) -> Pubkey {
    Pubkey::new_from_array([a + 1; 32])
}
const PROGRAM: u8 = 100;
const KIND: [u8; 8] = [9, 8, 7, 6, 5, 4, 3, 2];

fn content(a: u8, id: u64) -> AccountSharedData {
    let mut d = AccountSharedData::new(id + 1, 9, &key(PROGRAM));
    d.data_as_mut_slice()[0] = a;
    d.data_as_mut_slice()[1..9].copy_from_slice(&id.to_le_bytes());
    d
}
/// which account, which answer
fn provenance(d: &AccountSharedData) -> Option<(u8, u64)> {
    let b = d.data();
    let id = u64::from_le_bytes(b.get(1..9)?.try_into().ok()?);
    (*d == content(b[0], id)).then_some((b[0], id))
}

/// The accounts listed by an answer.
fn members(lists: u8, id: u64) -> Vec<u8> {
    match (lists, id % 2) {
        (0, _) | (2, 1) => vec![0, 1],
        (1, _) | (2, _) => vec![],
        (_, i) => vec![1 - i as u8],
    }
}

#[derive(Default)]
struct Source {
    /// how long the lists are
    lists: u8,
    /// what is asked for, and the answer
    reqs: Vec<(What, Option<Result<u64, ()>>)>,
    /// unexpected requests
    odd: Vec<String>,
    answers: u64,
}
#[derive(Clone, Default)]
struct Scripted(Arc<Mutex<Source>>);
struct Wait(Arc<Mutex<Source>>, What, Option<usize>);
impl Future for Wait {
    type Output = Result<u64, String>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        let s = self.0.clone();
        let mut s = s.lock().unwrap();
        let i = match self.2 {
            Some(i) => i,
            None => {
                s.reqs.push((self.1, None));
                self.2 = Some(s.reqs.len() - 1);
                s.reqs.len() - 1
            }
        };
        match s.reqs[i].1 {
            None => Poll::Pending,
            Some(Ok(id)) => Poll::Ready(Ok(id)),
            Some(Err(())) => Poll::Ready(Err(format!("answer {i} refused"))),
        }
    }
}
impl Scripted {
    fn request(&self, w: What) -> Wait {
        Wait(self.0.clone(), w, None)
    }
}
#[async_trait::async_trait]
impl AccountFetcher for Scripted {
    async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData> {
        let a = address.to_bytes()[0] - 1;
        if *address != key(a) || a > 1 {
            self.0.lock().unwrap().odd.push(format!("asked for account {address}"));
        }
        match self.request(What::One(a)).await {
            Ok(id) => Ok(content(a, id)),
            Err(e) => Err(anyhow::format_err!("{e}")),
        }
    }
    async fn fetch_program_accounts(
        &self,
        program: &Pubkey,
        discriminator: [u8; 8],
    ) -> anyhow::Result<Vec<(Pubkey, AccountSharedData)>> {
        if *program != key(PROGRAM) || discriminator != KIND {
            self.0.lock().unwrap().odd.push(format!("asked for accounts of {program}"));
        }
        match self.request(What::All).await {
            Ok(id) => {
                let lists = self.0.lock().unwrap().lists;
                Ok(members(lists, id).into_iter().map(|a| (key(a), content(a, id))).collect())
            }
            Err(e) => Err(anyhow::format_err!("{e}")),
        }
    }
}

type Got = Result<Vec<(Pubkey, AccountSharedData)>, String>;
type Task = Pin<Box<dyn Future<Output = Got>>>;

struct Reader {
    what: What,
    /// time of the last clearing before it began
    cleared: usize,
    began: usize,
    task: Option<Task>,
    done: bool,
    /// an answer came since it last looked
    news: bool,
    asked: bool,
    /// everything it wants was known when it began
    known: bool,
}

struct Run {
    src: Scripted,
    cache: Arc<ob::CachedAccountFetcher<Scripted>>,
    readers: Vec<Reader>,
    now: usize,
    last_clear: usize,
    clears: usize,
    /// per request: when it began, and when somebody was first told of its answer
    times: Vec<(usize, Option<usize>)>,
    /// per answer: its request
    by_answer: HashMap<u64, usize>,
    /// things delivered since the last clearing to readers who began after it
    delivered: Vec<(What, Vec<u8>)>,
    lists: u8,
    seen: usize,
    /// answers read so far to see whether failures are reported
    failures: Vec<(What, usize)>,
}
impl Run {
    fn new(lists: u8) -> Run {
        let src = Scripted::default();
        src.0.lock().unwrap().lists = lists;
        Run {
            cache: Arc::new(ob::CachedAccountFetcher::new(Arc::new(src.clone()))),
            src,
            readers: vec![],
            now: 1,
            last_clear: 0,
            clears: 0,
            times: vec![],
            by_answer: HashMap::new(),
            delivered: vec![],
            lists,
            seen: 0,
            failures: vec![],
        }
    }
    fn enabled(&self, most: usize, clears: usize) -> Vec<Ev> {
        let mut l = vec![];
        if self.readers.len() < most {
            l.push(Ev::Start(What::One(0)));
            if self.readers.iter().any(|r| r.what == What::One(0)) {
                l.push(Ev::Start(What::One(1)));
            }
            l.push(Ev::Start(What::All));
        }
        for (i, r) in self.src.0.lock().unwrap().reqs.iter().enumerate() {
            if r.1.is_none() {
                l.push(Ev::Answer(i, true));
                l.push(Ev::Answer(i, false));
            }
        }
        for (i, r) in self.readers.iter().enumerate() {
            if r.task.is_some() {
                if r.news {
                    l.push(Ev::Poll(i));
                }
                l.push(Ev::Drop(i));
            }
        }
        if self.clears < clears && !self.readers.is_empty() {
            l.push(Ev::Clear);
        }
        l
    }
    fn step(&mut self, e: Ev) -> Result<(), String> {
        self.now += 1;
        match e {
            Ev::Start(what) => {
                let c = self.cache.clone();
                let task: Task = match what {
                    What::One(a) => Box::pin(async move {
                        c.fetch_raw_account(&key(a)).await.map(|d| vec![(key(a), d)]).map_err(|e| format!("{e:?}"))
                    }),
                    What::All => Box::pin(async move { c.fetch_program_accounts(&key(PROGRAM), KIND).await.map_err(|e| format!("{e:?}")) }),
                };
                let covers = |d: &(What, Vec<u8>)| d.0 == what || matches!(what, What::One(a) if d.1.contains(&a));
                let known = self.delivered.iter().any(covers);
                self.readers.push(Reader {
                    what,
                    cleared: self.last_clear,
                    began: self.now,
                    task: Some(task),
                    done: false,
                    news: false,
                    asked: false,
                    known,
                });
                let i = self.readers.len() - 1;
                self.poll(i)?;
                if known && !self.readers[i].done {
                    return Err(format!("a reader of {what:?} waits although it is known"));
                }
            }
            Ev::Answer(i, ok) => {
                let mut s = self.src.0.lock().unwrap();
                let id = s.answers;
                s.answers += 1;
                s.reqs[i].1 = Some(if ok { Ok(id) } else { Err(()) });
                self.by_answer.insert(id, i);
                if !ok {
                    self.failures.push((s.reqs[i].0, i));
                }
                for r in &mut self.readers {
                    r.news = true;
                }
            }
            Ev::Poll(i) => self.poll(i)?,
            Ev::Clear => {
                self.cache.clear_cache();
                self.last_clear = self.now;
                self.clears += 1;
                self.delivered.clear();
            }
            Ev::Drop(i) => self.readers[i].task = None,
        }
        let s = self.src.0.lock().unwrap();
        if let Some(o) = s.odd.first() {
            return Err(o.clone());
        }
        // one request at a time for one thing
        for w in [What::One(0), What::One(1), What::All] {
            if s.reqs.iter().filter(|r| r.0 == w && r.1.is_none()).count() > 1 {
                return Err(format!("two requests for {w:?} are under way"));
            }
        }
        Ok(())
    }
    fn poll(&mut self, i: usize) -> Result<(), String> {
        let before = self.src.0.lock().unwrap().reqs.len();
        self.readers[i].news = false;
        let mut t = self.readers[i].task.take().unwrap();
        let r = sim::poll_once(t.as_mut());
        let made: Vec<What> = self.src.0.lock().unwrap().reqs[before..].iter().map(|r| r.0).collect();
        for w in &made {
            self.times.push((self.now, None));
            if *w != self.readers[i].what {
                return Err(format!("a reader of {:?} asks the source for {w:?}", self.readers[i].what));
            }
        }
        if made.len() > 1 || (!made.is_empty() && self.readers[i].asked) {
            return Err("a reader asks the source twice".into());
        }
        if !made.is_empty() {
            self.readers[i].asked = true;
            if self.readers[i].known {
                return Err(format!("the source is asked for {:?} although it is known", self.readers[i].what));
            }
        }
        let r = match r {
            Poll::Pending => {
                self.readers[i].task = Some(t);
                return Ok(());
            }
            Poll::Ready(r) => r,
        };
        self.seen += 1;
        let me = &mut self.readers[i];
        me.done = true;
        match r {
            Ok(l) => {
                let want: Vec<u8> = match me.what {
                    What::One(a) => vec![a],
                    What::All => {
                        // one of the lists the source gave, not forgotten since
                        let got: Vec<u8> = l.iter().map(|x| x.0.to_bytes()[0] - 1).collect();
                        let s = self.src.0.lock().unwrap();
                        let mut from: Vec<usize> = self.by_answer.iter().map(|(id, q)| (*id, *q)).filter(|(id, q)| s.reqs[*q].0 == What::All && s.reqs[*q].1 == Some(Ok(*id)) && members(self.lists, *id) == got).map(|x| x.1).collect();
                        if from.is_empty() {
                            return Err(format!("a list of {} accounts that the source never gave", l.len()));
                        }
                        from.retain(|q| self.times[*q].1.map_or(true, |t| t >= me.cleared));
                        match from[..] {
                            [] => return Err("a list known before the cache was cleared".into()),
                            [q] => {
                                self.times[q].1.get_or_insert(self.now);
                            }
                            _ => {}
                        }
                        got
                    }
                };
                if l.len() != want.len() {
                    return Err(format!("a reader of {:?} got {} accounts", me.what, l.len()));
                }
                for (n, a) in want.iter().enumerate() {
                    let Some((b, id)) = provenance(&l[n].1).filter(|_| l[n].0 == key(*a)) else {
                        return Err(format!("a reader of {:?} got something the source never gave", me.what));
                    };
                    let Some(q) = self.by_answer.get(&id).copied().filter(|_| b == *a) else {
                        return Err(format!("a reader of {:?} got another account", me.what));
                    };
                    // requests under way when the cache is cleared may still count
                    let told = self.times[q].1.get_or_insert(self.now);
                    if *told < me.cleared {
                        return Err(format!("a reader of {:?} got what was known before the cache was cleared", me.what));
                    }
                }
                if me.began > self.last_clear && self.last_clear == me.cleared {
                    self.delivered.push((me.what, want));
                }
            }
            Err(e) => {
                let mine = self.failures.iter().find(|(w, q)| *w == me.what && e.contains(&format!("answer {q} refused")));
                let fresh = match mine {
                    Some((_, q)) => *self.times[*q].1.get_or_insert(self.now) >= me.began,
                    None => false,
                };
                if !fresh {
                    return Err(format!("a reader of {:?} failed with \"{e}\"", me.what));
                }
            }
        }
        Ok(())
    }
    /// When the source answers everything, everybody gets an answer.
    fn finish(&mut self) -> Result<(), String> {
        for _ in 0..20 {
            let open: Vec<usize> = {
                let s = self.src.0.lock().unwrap();
                (0..s.reqs.len()).filter(|i| s.reqs[*i].1.is_none()).collect()
            };
            for i in open {
                self.step(Ev::Answer(i, true))?;
            }
            let live: Vec<usize> = (0..self.readers.len()).filter(|i| self.readers[*i].task.is_some()).collect();
            if live.is_empty() {
                break;
            }
            for i in live {
                self.step(Ev::Poll(i))?;
            }
        }
        if self.readers.iter().any(|r| r.task.is_some()) {
            return Err("a reader waits for ever".into());
        }
        // what failed can be asked for again
        for w in [What::One(0), What::One(1), What::All] {
            self.step(Ev::Start(w))?;
            let i = self.readers.len() - 1;
            for _ in 0..3 {
                if self.readers[i].task.is_none() {
                    break;
                }
                let open: Vec<usize> = {
                    let s = self.src.0.lock().unwrap();
                    (0..s.reqs.len()).filter(|i| s.reqs[*i].1.is_none()).collect()
                };
                for q in open {
                    self.step(Ev::Answer(q, true))?;
                }
                self.step(Ev::Poll(i))?;
            }
            if self.readers[i].task.is_some() {
                return Err(format!("reading {w:?} afterwards waits for ever"));
            }
        }
        Ok(())
    }
}

fn replay(lists: u8, path: &[Ev], last: bool) -> Result<Run, String> {
    let mut r = Run::new(lists);
    for e in path {
        r.step(*e)?;
    }
    if last {
        r.finish()?;
    }
    Ok(r)
}

fn dfs(lists: u8, path: &mut Vec<Ev>, len: usize, most: usize, clears: usize, c: &mut Counts) -> Result<(), (Vec<Ev>, String)> {
    c.states += 1;
    sample(|| format!("{path:?}"));
    let r = match guarded(|| replay(lists, path, true)) {
        Ok(r) => r,
        Err(e) => Err(format!("panicked: {e}")),
    };
    match r {
        Err(e) => return Err((path.clone(), e)),
        Ok(r) => {
            c.transitions += r.now as u64 - 1;
            c.compared += r.seen as u64;
        }
    }
    if path.len() == len {
        return Ok(());
    }
    c.depth = c.depth.max(path.len() as u64 + 1);
    let on = replay(lists, path, false).map_err(|e| (path.clone(), e))?.enabled(most, clears);
    for e in on {
        path.push(e);
        dfs(lists, path, len, most, clears, c)?;
        path.pop();
    }
    Ok(())
}

fn schedules(lists: u8, len: usize, most: usize, clears: usize) -> (Counts, Vec<Violation>) {
    // all prefixes of length 3 as units of work
    let mut units: Vec<Vec<Ev>> = vec![vec![]];
    let mut short = vec![];
    for _ in 0..3 {
        let mut next = vec![];
        for u in units {
            if let Ok(Ok(r)) = guarded(|| replay(lists, &u, false)) {
                for e in r.enabled(most, clears) {
                    next.push([u.clone(), vec![e]].concat());
                }
            }
            short.push(u);
        }
        units = next;
    }
    let jobs: Vec<(Vec<Ev>, bool)> = short.into_iter().map(|u| (u, false)).chain(units.into_iter().map(|u| (u, true))).collect();
    let next = AtomicUsize::new(0);
    let out = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= jobs.len() || !out.lock().unwrap().1.is_empty() {
                    break;
                }
                let mut c = Counts::default();
                let (u, deep) = &jobs[i];
                let l = if *deep { len } else { u.len() };
                let r = dfs(lists, &mut u.clone(), l, most, clears, &mut c);
                let mut o = out.lock().unwrap();
                o.0.merge(&c);
                if let Err((p, e)) = r {
                    o.1.push(Violation {
                        plan: "schedules of readers".into(),
                        seed: format!("{p:?}"),
                        ops: vec![],
                        what: format!("{e}: {p:?}"),
                        known: None,
                    });
                }
            });
        }
    });
    out.into_inner().unwrap()
}

/// The reader without a cache, against every account of a market.
fn plain() -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let mut crashes = false;
    let mut fail = |what: String| {
        bad.push(Violation { plan: "plain reader".into(), seed: String::new(), ops: vec![], what, known: None });
    };
    for (name, seed) in alpha::market_seeds() {
        let w = World::new(Cfg { second_market: true, ..alpha::cfg(alpha::FEES3[2]) });
        let mut m = w.machine();
        for op in &seed {
            w.run(&mut m, op);
        }
        let s = m.save();
        c.states += 1;
        sample(|| format!("every account of the ledger after {name}"));
        let l = Ledger::new(&w);
        sim::set_node(Some(l.clone() as Rc<dyn sim::Node>));
        for level in 0..3 {
            let setup = Setup { payer: Some("payer"), price: None, timeout: Some(9), level };
            let f = ob::RpcAccountFetcher { rpc: setup.client("user0").rpc_async() };
            let cached = ob::CachedAccountFetcher::new(Arc::new(ob::RpcAccountFetcher { rpc: setup.client("user0").rpc_async() }));
            let keys: Vec<Pubkey> = w.image.accts.iter().map(|a| a.key).chain([key(77)]).collect();
            for k in keys {
                for lost in [false, true] {
                    for table in [false, true] {
                        l.reset(&s);
                        if lost {
                            l.fail_at.set(Some((0, true)));
                        }
                        let want = l.account_at(&k).filter(|_| !lost);
                        let got = guarded(|| sim::block_on(async { if table { f.fetch_raw_account_lookup_table(&k).await } else { f.fetch_raw_account(&k).await } }));
                        c.transitions += 1;
                        c.compared += 1;
                        let ok = match (&got, &want) {
                            (Ok(Ok(a)), Some(b)) => *a == AccountSharedData::from(b.clone()),
                            (Ok(Err(e)), None) => format!("{e:?}").contains(&k.to_string()),
                            _ => false,
                        };
                        if !ok || l.calls.borrow().len() != 1 {
                            fail(format!("reading account {k} of \"{name}\" (lost: {lost}): {got:?} instead of {want:?}"));
                        }
                        if let Err(e) = crate::tx::check_requests(&l, &setup, k) {
                            fail(format!("reading account {k}: {e}"));
                        }
                    }
                }
                // read as something
                l.reset(&s);
                let a = l.account_at(&k);
                let oo = guarded(|| sim::block_on(ob::account_fetcher_fetch_openorders_account(&cached, &k)));
                let oo2 = guarded(|| sim::block_on(ob::account_fetcher_fetch_anchor_account::<st::OpenOrdersAccount>(&cached, &k)));
                let mk = guarded(|| sim::block_on(ob::account_fetcher_fetch_anchor_account::<st::Market>(&cached, &k)));
                c.extra_runs += 3;
                let is = |d: [u8; 8]| a.as_ref().map_or(false, |a| a.data.get(..8) == Some(&d[..]));
                let body = |b: &[u8]| a.as_ref().map_or(false, |a| a.data[8..] == *b);
                let fits_oo = |r: &Result<anyhow::Result<st::OpenOrdersAccount>, String>| match r {
                    Ok(Ok(x)) => is(st::OpenOrdersAccount::discriminator()) && body(bytes_of(x)),
                    Ok(Err(_)) => !is(st::OpenOrdersAccount::discriminator()),
                    Err(_) => false,
                };
                let fits_mk = match &mk {
                    Ok(Ok(x)) => is(st::Market::discriminator()) && body(bytes_of(x)),
                    Ok(Err(_)) => !is(st::Market::discriminator()),
                    Err(_) => false,
                };
                if !fits_oo(&oo) || !fits_oo(&oo2) || !fits_mk {
                    fail(format!("account {k} of \"{name}\" is read as something it is not, or not read as what it is"));
                }
            }
            // accounts longer than their contents, or cut short
            for k in w.ids.oo.iter().chain([&w.ids.m.market, &w.ids.m.bids, &w.ids.m.heap]).map(|i| w.k(*i)) {
                l.reset(&s);
                let kept = l.account_at(&k);
                let full = kept.as_ref().map_or(0, |a| a.data.len()) as isize;
                for longer in [1, 8, -1, -full / 2, 8 - full, 7 - full, -full] {
                    if full == 0 || longer == 0 {
                        continue;
                    }
                    l.reset(&s);
                    l.longer.set(longer);
                    let a = l.account_at(&k).unwrap();
                    let oo = guarded(|| sim::block_on(ob::account_fetcher_fetch_openorders_account(&f, &k)));
                    c.transitions += 1;
                    c.compared += 1;
                    let readable = a.data.len() >= OO_LEN && a.data[..8] == st::OpenOrdersAccount::discriminator();
                    let ok = match &oo {
                        Ok(Ok(x)) => readable && a.data[8..].starts_with(bytes_of(x)),
                        Ok(Err(_)) => !readable,
                        Err(_) => false,
                    };
                    if !ok {
                        fail(format!("account {k} of \"{name}\" with {longer} additional bytes read as an open orders account: {:?}, should be possible: {readable}", oo.map(|x| x.is_ok())));
                    }
                    let generic = [
                        guarded(|| sim::block_on(ob::account_fetcher_fetch_anchor_account::<st::OpenOrdersAccount>(&f, &k)).is_ok()),
                        guarded(|| sim::block_on(ob::account_fetcher_fetch_anchor_account::<st::BookSide>(&f, &k)).is_ok()),
                    ];
                    c.extra_runs += 2;
                    if generic.iter().any(|g| g.is_err()) {
                        crashes = true;
                    }
                }
            }
            for longer in [1, 8, -1, 8 - OO_LEN as isize] {
                l.reset(&s);
                l.longer.set(longer);
                let me = pair("user0");
                let got = guarded(|| sim::block_on(ob::OpenBookClient::find_accounts(&setup.client("user0"), &me)));
                c.transitions += 1;
                c.compared += 1;
                let own: Vec<&usize> = w.ids.oo.iter().chain(&w.ids.oo_m2).filter(|i| l.account_at(&w.k(**i)).map_or(false, |a| a.data.get(8..40) == Some(&me.pubkey().to_bytes()[..]))).collect();
                let ok = match &got {
                    Ok(Ok(g)) => longer > 0 && g.len() == own.len() && g.iter().all(|(k, x)| l.account_at(k).unwrap().data[8..].starts_with(bytes_of(x))),
                    Ok(Err(_)) => longer < 0 && !own.is_empty(),
                    Err(_) => false,
                } || own.is_empty() && matches!(&got, Ok(Ok(g)) if g.is_empty());
                if !ok {
                    fail(format!("finding accounts of \"{name}\" with {longer} additional bytes: {:?}", got.map(|x| x.map(|x| x.len()))));
                }
            }
            // listings
            let mut kinds: Vec<[u8; 8]> = w.image.accts.iter().filter(|a| a.data.len() >= 8).map(|a| a.data[..8].try_into().unwrap()).collect();
            kinds.sort_unstable();
            kinds.dedup();
            kinds.push([77; 8]);
            for kind in kinds {
                for program in [prog(), spl_token_id(), key(3)] {
                    for lost in [false, true] {
                        l.reset(&s);
                        if lost {
                            l.fail_at.set(Some((0, true)));
                        }
                        let mut want: Vec<(Pubkey, AccountSharedData)> = w
                            .image
                            .accts
                            .iter()
                            .filter_map(|a| l.account_at(&a.key).map(|x| (a.key, x)))
                            .filter(|(_, x)| x.owner == program && x.data.get(..8) == Some(&kind[..]))
                            .map(|(k, x)| (k, x.into()))
                            .collect();
                        let got = guarded(|| sim::block_on(f.fetch_program_accounts(&program, kind)));
                        c.transitions += 1;
                        c.compared += 1;
                        let ok = match got {
                            Ok(Ok(mut g)) => {
                                g.sort_by_key(|x| x.0);
                                want.sort_by_key(|x| x.0);
                                !lost && g == want
                            }
                            Ok(Err(_)) => lost,
                            Err(_) => false,
                        };
                        if !ok {
                            fail(format!("the listing of kind {kind:?} of {program} is wrong (lost: {lost})"));
                        }
                        if let Err(e) = crate::tx::check_requests(&l, &setup, program) {
                            fail(format!("listing accounts: {e}"));
                        }
                    }
                }
            }
        }
        sim::set_node(None);
    }
    bad.truncate(3);
    if crashes {
        let what = "reading an account whose length is not that of its kind through the generic reader crashes".into();
        bad.push(Violation { plan: "plain reader".into(), seed: String::new(), ops: vec![], what, known: None });
    }
    (c, bad)
}

fn spl_token_id() -> Pubkey {
    anchor_spl::token::ID
}
fn bytes_of<T>(x: &T) -> &[u8] {
    // plain data without padding, as stored on the ledger
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
}

pub fn parts(t: Tier) -> Vec<Part> {
    let n = t.pick(9, 10);
    let m = t.pick(8, 9);
    vec![
        Part::Custom("schedules of three readers".into(), Box::new(move || schedules(0, n, 3, 1))),
        Part::Custom("schedules of four readers, two clearings".into(), Box::new(move || schedules(0, m, 4, 2))),
        Part::Custom("empty lists".into(), Box::new(move || schedules(1, m, 3, 1))),
        Part::Custom("lists that fill and become empty".into(), Box::new(move || schedules(2, m, 3, 2))),
        Part::Custom("lists that change".into(), Box::new(move || schedules(3, m, 3, 2))),
        Part::Custom("plain reader".into(), Box::new(move || crate::accts::on_thread(plain))),
    ]
}
