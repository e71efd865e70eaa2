//! Reading accounts out of followed chain data, refreshed over the node.

use crate::script::*;
use anchor_lang::Discriminator;
use obmc::alpha;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use obmc::world::*;
use openbook_v2::state as st;
use openbook_v2_client::account_update_stream::{AccountUpdate, Message};
use openbook_v2_client::chain_data::*;
use openbook_v2_client::AccountFetcher as _;
use openbook_v2_client::ChainDataAccountFetcher as Fetcher;
use sim::{Ans, Fail, Req, Status};
use solana_client::nonblocking::rpc_client::RpcClient;
use solana_client::rpc_response::*;
use solana_account_decoder::{UiAccount, UiAccountData, UiAccountEncoding};
use solana_sdk::account::{Account, AccountSharedData, ReadableAccount};
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::Duration;

const ACCTS: usize = 3;

/// An open orders account, a market, and one too short to be anything.
struct Stock {
    keys: Vec<Pubkey>,
    data: Vec<Account>,
}
impl Stock {
    /// With accounts longer than their contents, or cut short.
    fn new(longer: isize) -> Stock {
        let w = World::new(alpha::cfg(alpha::FEES3[2]));
        let m = w.machine();
        let get = |i: usize| Account { lamports: 0, data: m.data(i).to_vec(), owner: m.owner(i), executable: false, rent_epoch: 0 };
        let mut short = get(w.ids.oo[0]);
        short.data.truncate(7);
        let sized = |i: usize| {
            let mut a = get(i);
            a.data.resize((a.data.len() as isize + longer) as usize, 77);
            a
        };
        Stock {
            keys: vec![w.k(w.ids.oo[0]), w.k(w.ids.m.market), Pubkey::new_from_array([8; 32])],
            data: vec![sized(w.ids.oo[0]), if longer < 0 { get(w.ids.m.market) } else { sized(w.ids.m.market) }, short],
        }
    }
    /// The account in the state of a slot.
    fn at(&self, a: usize, slot: u64, nth: u64) -> AccountSharedData {
        let mut x = self.data[a].clone();
        x.lamports = 1000 + slot * 10 + nth;
        x.into()
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Said {
    At(u64),
    Nothing,
    Lost,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Account(usize, u64),
    Snapshot(u64, u64),
    Bank(u64, u64),
    Confirmed(u64),
    Root(u64),
    Other(u8, u64),
    Refresh(usize, Said),
    Fresh(usize, Said),
    FreshOo(usize, Said),
    Table(usize, Said),
}
fn events(slots: u64) -> Vec<Ev> {
    let mut l = vec![];
    for s in 1..=slots {
        for a in 0..ACCTS {
            l.push(Ev::Account(a, s));
        }
        l.push(Ev::Snapshot(s, s));
        l.push(Ev::Bank(s, s - 1));
        l.push(Ev::Confirmed(s));
        l.push(Ev::Root(s));
        l.push(Ev::Refresh(0, Said::At(s)));
        l.push(Ev::Fresh(1, Said::At(s)));
    }
    l.push(Ev::Snapshot(1, slots));
    l.push(Ev::Bank(slots, slots.saturating_sub(2)));
    l.push(Ev::FreshOo(0, Said::At(slots)));
    l.push(Ev::FreshOo(1, Said::At(slots)));
    l.push(Ev::Fresh(0, Said::At(slots)));
    for a in 0..ACCTS {
        l.push(Ev::Table(a, Said::At(2)));
    }
    for s in [Said::Nothing, Said::Lost] {
        l.push(Ev::Refresh(0, s));
        l.push(Ev::Fresh(1, s));
        l.push(Ev::Table(2, s));
    }
    for k in 0..4 {
        l.push(Ev::Other(k, slots));
    }
    l
}

struct Node {
    said: RefCell<(Said, Option<AccountSharedData>)>,
    calls: RefCell<Vec<sim::Call>>,
}
impl sim::Node for Node {
    fn start(&self, c: sim::Call) -> u64 {
        self.calls.borrow_mut().push(c);
        0
    }
    fn poll(&self, _: u64) -> Option<Result<Ans, Fail>> {
        let s = self.said.borrow();
        Some(match s.0 {
            Said::At(slot) => Ok(Ans::Account(slot, s.1.clone().map(Into::into))),
            Said::Nothing => Ok(Ans::Account(5, None)),
            Said::Lost => Err(Fail::Transport("connection lost".into())),
        })
    }
}

fn bytes_of<T>(x: &T) -> &[u8] {
    // plain data without padding, as stored on the ledger
    unsafe { std::slice::from_raw_parts(x as *const T as *const u8, std::mem::size_of::<T>()) }
}

struct Run<'a> {
    st: &'a Stock,
    f: Fetcher,
    /// fed directly with what the fetcher and the messages should pass on
    mirror: ChainData,
    node: Rc<Node>,
    n: u64,
    judged: u64,
}
impl<'a> Run<'a> {
    fn new(st: &'a Stock) -> Run<'a> {
        let node = Rc::new(Node { said: RefCell::new((Said::Lost, None)), calls: Default::default() });
        sim::set_node(Some(node.clone() as Rc<dyn sim::Node>));
        Run {
            st,
            f: Fetcher {
                chain_data: Arc::new(RwLock::new(ChainData::new())),
                rpc: RpcClient::new_with_commitment("http://node.test", CommitmentConfig::confirmed()),
            },
            mirror: ChainData::new(),
            node,
            n: 0,
            judged: 0,
        }
    }
    fn message(&mut self, m: Message) {
        m.update_chain_data(&mut self.f.chain_data.write().unwrap());
    }
    fn slot(&mut self, u: SlotUpdate) {
        self.message(Message::Slot(Arc::new(u)));
    }
    fn rpc(&mut self, a: usize, said: Said) -> bool {
        if let Said::At(slot) = said {
            let x = self.st.at(a, slot, self.n);
            *self.node.said.borrow_mut() = (said, Some(x.clone()));
            self.mirror.update_from_rpc(&self.st.keys[a], AccountAndSlot { slot, account: x });
            true
        } else {
            *self.node.said.borrow_mut() = (said, None);
            false
        }
    }
    fn step(&mut self, e: Ev) -> Result<(), String> {
        self.n += 1;
        let n = self.n;
        self.node.calls.borrow_mut().clear();
        let mut requests = 0;
        let st = self.st;
        match e {
            Ev::Account(a, slot) => {
                let account = st.at(a, slot, n);
                self.message(Message::Account(AccountUpdate { pubkey: st.keys[a], slot, account: account.clone() }));
                self.mirror.update_account(st.keys[a], AccountAndSlot { slot, account });
            }
            Ev::Snapshot(s, t) => {
                let l: Vec<AccountUpdate> =
                    [(0, s), (1, t)].iter().map(|(a, slot)| AccountUpdate { pubkey: st.keys[*a], slot: *slot, account: st.at(*a, *slot, n) }).collect();
                self.message(Message::Snapshot(l));
                for (a, slot) in [(0, s), (1, t)] {
                    self.mirror.update_account(st.keys[a], AccountAndSlot { slot, account: st.at(a, slot, n) });
                }
            }
            Ev::Bank(slot, parent) => {
                self.slot(SlotUpdate::CreatedBank { slot, parent, timestamp: 1 });
                self.mirror.update_slot(SlotData { slot, parent: Some(parent), status: SlotStatus::Processed, chain: 0 });
            }
            Ev::Confirmed(slot) => {
                self.slot(SlotUpdate::OptimisticConfirmation { slot, timestamp: 1 });
                self.mirror.update_slot(SlotData { slot, parent: None, status: SlotStatus::Confirmed, chain: 0 });
            }
            Ev::Root(slot) => {
                self.slot(SlotUpdate::Root { slot, timestamp: 1 });
                self.mirror.update_slot(SlotData { slot, parent: None, status: SlotStatus::Rooted, chain: 0 });
            }
            Ev::Other(k, slot) => self.slot(match k {
                0 => SlotUpdate::FirstShredReceived { slot, timestamp: 1 },
                1 => SlotUpdate::Completed { slot, timestamp: 1 },
                2 => SlotUpdate::Dead { slot, timestamp: 1, err: String::new() },
                _ => SlotUpdate::Frozen {
                    slot,
                    timestamp: 1,
                    stats: SlotTransactionStats {
                        num_transaction_entries: 0,
                        num_successful_transactions: 0,
                        num_failed_transactions: 0,
                        max_transactions_per_entry: 0,
                    },
                },
            }),
            Ev::Refresh(a, said) => {
                let there = self.rpc(a, said);
                requests = 1;
                let got = sim::block_on(self.f.refresh_account_via_rpc(&st.keys[a]));
                match (got, said) {
                    (Ok(s), Said::At(w)) if s == w => {}
                    (Err(_), _) if !there => {}
                    (g, _) => return Err(format!("refreshing gives {g:?}")),
                }
            }
            Ev::Fresh(a, said) => {
                self.rpc(a, said);
                requests = 1;
                let got = sim::block_on(self.f.fetch_fresh::<st::Market>(&st.keys[a]));
                self.same_market(a, said != Said::Nothing && said != Said::Lost, got)?;
            }
            Ev::FreshOo(a, said) => {
                self.rpc(a, said);
                requests = 1;
                let got = sim::block_on(self.f.fetch_fresh_openbook_account(&st.keys[a]));
                self.same_oo(a, said != Said::Nothing && said != Said::Lost, got)?;
            }
            Ev::Table(a, said) => {
                let known = self.mirror.account(&st.keys[a]).is_ok();
                if known {
                    *self.node.said.borrow_mut() = (said, Some(st.at(a, 9, n)));
                } else {
                    self.rpc(a, said);
                    requests = 1;
                }
                let got = sim::block_on(self.f.fetch_raw_account_lookup_table(&st.keys[a]));
                self.same_raw(a, got)?;
            }
        }
        let c = self.node.calls.borrow();
        if c.len() != requests {
            return Err(format!("{} requests instead of {requests}", c.len()));
        }
        for x in c.iter() {
            let right = match e {
                Ev::Refresh(a, _) | Ev::Fresh(a, _) | Ev::FreshOo(a, _) | Ev::Table(a, _) => x.req == Req::Account(st.keys[a]),
                _ => false,
            };
            if !right || x.commitment != CommitmentConfig::confirmed() {
                return Err(format!("asks the node for {x:?}"));
            }
        }
        Ok(())
    }
    fn want(&self, a: usize) -> Option<&AccountSharedData> {
        self.mirror.account(&self.st.keys[a]).ok()
    }
    fn same_raw(&self, a: usize, got: anyhow::Result<AccountSharedData>) -> Result<(), String> {
        match (got, self.want(a)) {
            (Ok(x), Some(y)) if x == *y => Ok(()),
            (Err(e), None) if format!("{e:?}").contains(&self.st.keys[a].to_string()) => Ok(()),
            (g, w) => Err(format!("account {a} is read as {g:?} instead of {w:?}")),
        }
    }
    fn same_market(&self, a: usize, there: bool, got: anyhow::Result<st::Market>) -> Result<(), String> {
        let w = self.want(a).filter(|x| there && x.data().get(..8) == Some(&st::Market::discriminator()[..]));
        match (got, w) {
            (Ok(x), Some(y)) if y.data()[8..].starts_with(bytes_of(&x)) => Ok(()),
            (Err(_), None) => Ok(()),
            (g, w) => Err(format!("account {a} read as a market: {:?}, should be possible: {}", g.err(), w.is_some())),
        }
    }
    fn same_oo(&self, a: usize, there: bool, got: anyhow::Result<st::OpenOrdersAccount>) -> Result<(), String> {
        let w = self.want(a).filter(|x| there && x.data().get(..8) == Some(&st::OpenOrdersAccount::discriminator()[..]) && x.data().len() >= OO_LEN);
        match (got, w) {
            (Ok(x), Some(y)) if y.data()[8..].starts_with(bytes_of(&x)) => Ok(()),
            (Err(_), None) => Ok(()),
            (g, w) => Err(format!("account {a} read as open orders account: {:?}, should be possible: {}", g.err(), w.is_some())),
        }
    }
    fn reads(&mut self) -> Result<(), String> {
        self.node.calls.borrow_mut().clear();
        for a in 0..ACCTS {
            let k = &self.st.keys[a];
            self.same_raw(a, self.f.fetch_raw(k))?;
            self.same_raw(a, sim::block_on(self.f.fetch_raw_account(k)))?;
            self.same_market(a, true, self.f.fetch::<st::Market>(k))?;
            self.same_oo(a, true, self.f.fetch_openbook_account(k))?;
            self.judged += 4;
        }
        for program in [prog(), Pubkey::new_from_array([7; 32])] {
            for kind in [st::Market::discriminator(), st::OpenOrdersAccount::discriminator(), [1; 8]] {
                let mut got = sim::block_on(self.f.fetch_program_accounts(&program, kind)).map_err(|e| format!("listing fails: {e:?}"))?;
                let mut want: Vec<(Pubkey, AccountSharedData)> = (0..ACCTS)
                    .filter_map(|a| self.want(a).map(|x| (self.st.keys[a], x.clone())))
                    .filter(|x| *x.1.owner() == program && x.1.data().get(..8) == Some(&kind[..]))
                    .collect();
                got.sort_by_key(|x| x.0);
                want.sort_by_key(|x| x.0);
                self.judged += 1;
                if got != want {
                    return Err(format!("the accounts of kind {kind:?} are listed as {got:?} instead of {want:?}"));
                }
            }
        }
        if !self.node.calls.borrow().is_empty() {
            return Err("reading what is followed asks the node".into());
        }
        let cd = self.f.chain_data.read().unwrap();
        if cd.slots_count() != self.mirror.slots_count() || cd.account_writes_count() != self.mirror.account_writes_count() {
            return Err("other slots or writes are kept than were reported".into());
        }
        Ok(())
    }
}

fn walk(st: &Stock, path: &mut Vec<Ev>, all: &[Ev], len: usize, c: &mut Counts) -> Result<(), (Vec<Ev>, String)> {
    c.states += 1;
    sample(|| format!("{path:?}"));
    let r = guarded(|| {
        let mut r = Run::new(st);
        for e in path.iter() {
            r.step(*e)?;
        }
        r.reads()?;
        Ok::<u64, String>(r.judged)
    });
    match r {
        Ok(Ok(n)) => {
            c.compared += n;
            c.transitions += path.len() as u64;
        }
        Ok(Err(e)) => return Err((path.clone(), e)),
        Err(e) => return Err((path.clone(), format!("panicked: {e}"))),
    }
    c.depth = c.depth.max(path.len() as u64);
    if path.len() < len {
        for e in all {
            path.push(*e);
            walk(st, path, all, len, c)?;
            path.pop();
        }
    }
    Ok(())
}

fn sequences(slots: u64, len: usize, longer: isize) -> (Counts, Vec<Violation>) {
    let st = Stock::new(longer);
    let all = events(slots);
    let next = AtomicUsize::new(0);
    let out = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= all.len() || !out.lock().unwrap().1.is_empty() {
                    break;
                }
                let mut c = Counts::default();
                let r = walk(&st, &mut vec![all[i]], &all, len, &mut c);
                sim::set_node(None);
                let mut o = out.lock().unwrap();
                o.0.merge(&c);
                if let Err((p, e)) = r {
                    o.1.push(Violation { plan: "sequences".into(), seed: String::new(), ops: vec![], what: format!("{e}: {p:?}"), known: None });
                }
            });
        }
    });
    out.into_inner().unwrap()
}

/// Waiting until accounts are as new as a slot.
fn until(most: usize) -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad: Vec<Violation> = vec![];
    let st = Stock::new(0);
    sim::clock::start();
    'all: for n_addr in 0..=2usize {
        for timeout in [0u64, 499, 500, 1200, 1_000_000] {
            for takes in [0u64, 300, 700] {
                let asked = Rc::new(RefCell::new(0usize));
                let a = asked.clone();
                let keys = st.keys.clone();
                let stock = Stock::new(0);
                let node = Script::new(Box::new(move |call, ch| {
                    let Req::Account(k) = &call.req else { return Err(Fail::Transport("unexpected".into())) };
                    *a.borrow_mut() += 1;
                    let i = keys.iter().position(|x| x == k).unwrap_or(0);
                    // too old, just new enough, newer, no account, lost
                    match if *a.borrow() > most { 4 } else { ch.pick(5) } {
                        0 => Ok(Ans::Account(9, Some(stock.at(i, 9, 0).into()))),
                        1 => Ok(Ans::Account(10, Some(stock.at(i, 10, 0).into()))),
                        2 => Ok(Ans::Account(11, Some(stock.at(i, 11, 0).into()))),
                        3 => Ok(Ans::Account(12, None)),
                        _ => Err(Fail::Transport("lost".into())),
                    }
                }));
                node.takes.set(takes);
                sim::set_node(Some(node.clone() as Rc<dyn sim::Node>));
                loop {
                    node.reset();
                    *asked.borrow_mut() = 0;
                    let f = Fetcher {
                        chain_data: Arc::new(RwLock::new(ChainData::new())),
                        rpc: RpcClient::new_with_commitment("http://node.test", CommitmentConfig::confirmed()),
                    };
                    let start = sim::clock::now().unwrap();
                    let addrs = &st.keys[..n_addr];
                    let got = guarded(|| sim::block_on(f.refresh_accounts_via_rpc_until_slot(addrs, 10, Duration::from_millis(timeout))));
                    let end = sim::clock::now().unwrap();
                    c.states += 1;
                    sample(|| format!("{:?}", node.log.borrow().iter().map(|x| format!("{:?}", x.1)).collect::<Vec<_>>()));
                    c.transitions += node.log.borrow().len() as u64;
                    c.compared += 1;
                    c.depth = c.depth.max(node.log.borrow().len() as u64);
                    let log = node.log.borrow();
                    let r: Result<(), String> = (|| {
                        let got = got.map_err(|e| format!("panicked: {e}"))?;
                        let late = |t: u64| t - start > timeout * 1_000_000;
                        let mut new = vec![];
                        let mut failed = false;
                        let mut last: Option<(Pubkey, u64)> = None;
                        for (i, (call, r, at)) in log.iter().enumerate() {
                            let Req::Account(k) = &call.req else { return Err(format!("asks for {:?}", call.req)) };
                            if !addrs.contains(k) || new.contains(k) {
                                return Err("asks for an account that is not wanted (any more)".into());
                            }
                            if late(*at) {
                                return Err("asks after the time is over".into());
                            }
                            if let Some((p, t)) = last {
                                if p == *k && at - t < 1_000_000 + takes * 1_000_000 {
                                    return Err("asks again without waiting".into());
                                }
                            }
                            last = Some((*k, *at));
                            match r {
                                Ok(Ans::Account(s, Some(_))) => {
                                    if *s >= 10 {
                                        new.push(*k);
                                    }
                                }
                                _ => {
                                    failed = true;
                                    if i + 1 != log.len() {
                                        return Err("goes on after a failure".into());
                                    }
                                }
                            }
                        }
                        match got {
                            Ok(()) if failed || new.len() != n_addr => return Err("succeeds although not all accounts are new enough".into()),
                            Err(e) if !failed && (new.len() == n_addr || !late(end)) => return Err(format!("fails too early with {e:?}")),
                            Ok(()) => {}
                            Err(_) => {}
                        }
                        // everything answered is passed on
                        let mut mirror = ChainData::new();
                        for (call, r, _) in log.iter() {
                            if let (Req::Account(k), Ok(Ans::Account(slot, Some(x)))) = (&call.req, r) {
                                mirror.update_from_rpc(k, AccountAndSlot { slot: *slot, account: x.clone().into() });
                            }
                        }
                        let cd = f.chain_data.read().unwrap();
                        for k in addrs {
                            let l = [&*cd, &mirror].map(|d| d.account_and_slot(k).ok().map(|a| (a.slot, a.account.clone())));
                            if l[0] != l[1] {
                                return Err("does not keep what was answered".into());
                            }
                        }
                        Ok(())
                    })();
                    if let Err(e) = r {
                        let l: Vec<String> = log.iter().map(|x| format!("{:?} at {}", x.1.as_ref().map(|_| ()), x.2 - start)).collect();
                        bad.push(Violation { plan: "waiting".into(), seed: String::new(), ops: vec![], what: format!("{e}: {n_addr} accounts, {timeout} ms, {l:?}"), known: None });
                        break 'all;
                    }
                    drop(log);
                    if !node.choices.borrow_mut().next() {
                        break;
                    }
                }
                sim::set_node(None);
            }
        }
    }
    sim::clock::stop();
    // the newest slot of some transactions
    let slots = [None, Some(0u64), Some(5), Some(9)];
    for n in 0..=3u32 {
        for code in 0..=4usize.pow(n) {
            let lost = code == 4usize.pow(n);
            let list: Vec<Option<u64>> = (0..n).map(|i| slots[code / 4usize.pow(i) % 4]).collect();
            let l = list.clone();
            let sigs: Vec<Signature> = (0..n).map(|i| Signature::new(&[i as u8 + 1; 64])).collect();
            let s2 = sigs.clone();
            let node = Script::new(Box::new(move |call, _| {
                if lost {
                    return Err(Fail::Transport("lost".into()));
                }
                match &call.req {
                    Req::Statuses(s) if *s == s2 => Ok(Ans::Statuses(
                        70,
                        l.iter().map(|s| s.map(|slot| Status { slot, confirmations: None, err: None, level: Some(2) })).collect(),
                    )),
                    _ => Err(Fail::Transport("unexpected".into())),
                }
            }));
            sim::set_node(Some(node.clone() as Rc<dyn sim::Node>));
            let f = Fetcher {
                chain_data: Arc::new(RwLock::new(ChainData::new())),
                rpc: RpcClient::new_with_commitment("http://node.test", CommitmentConfig::confirmed()),
            };
            let got = guarded(|| sim::block_on(f.transaction_max_slot(&sigs)));
            c.states += 1;
            sample(|| format!("transactions at {list:?}, refused {lost}"));
            c.transitions += 1;
            c.compared += 1;
            let ok = match got {
                Ok(Ok(s)) => !lost && s == list.iter().map(|x| x.unwrap_or(0)).max().unwrap_or(0),
                Ok(Err(_)) => lost,
                Err(_) => false,
            };
            if !ok {
                bad.push(Violation { plan: "slots of transactions".into(), seed: String::new(), ops: vec![], what: format!("the newest slot of {list:?} (lost: {lost}) is wrong"), known: None });
            }
            sim::set_node(None);
        }
    }
    // updates as nodes report them
    for (a, k) in st.keys.iter().enumerate() {
        for (key, good_key) in [(k.to_string(), true), ("not a key".to_string(), false), (String::new(), false)] {
            for data in 0..3 {
                let x = st.at(a, 3, 1);
                let mut ui = UiAccount::encode(k, &x, UiAccountEncoding::Base64, None, None);
                match data {
                    0 => {}
                    1 => ui.data = UiAccountData::Binary("%%%".into(), UiAccountEncoding::Base64),
                    _ => ui.owner = "nobody".into(),
                }
                let r = guarded(|| {
                    AccountUpdate::from_rpc(Response { context: RpcResponseContext { slot: 31 + a as u64 }, value: RpcKeyedAccount { pubkey: key.clone(), account: ui.clone() } })
                });
                c.states += 1;
                c.transitions += 1;
                c.compared += 1;
                let ok = match r {
                    Ok(Ok(u)) => good_key && data == 0 && u.pubkey == *k && u.slot == 31 + a as u64 && u.account == x,
                    Ok(Err(_)) => !(good_key && data == 0),
                    Err(_) => false,
                };
                if !ok {
                    bad.push(Violation { plan: "updates".into(), seed: String::new(), ops: vec![], what: format!("an update for {key} of kind {data} is read wrongly"), known: None });
                }
            }
        }
    }
    bad.truncate(3);
    (c, bad)
}

pub fn parts(t: Tier) -> Vec<Part> {
    let d = t.pick(3, 4);
    let n = t.pick(5, 7);
    vec![
        Part::Custom("updates, refreshes and reads".into(), Box::new(move || sequences(3, d, 0))),
        Part::Custom("accounts longer than their contents".into(), Box::new(move || sequences(2, d - 1, 8))),
        Part::Custom("accounts cut short".into(), Box::new(move || sequences(2, d - 1, -1))),
        Part::Custom("accounts cut to their kind".into(), Box::new(move || sequences(2, d - 1, 8 - OO_LEN as isize))),
        Part::Custom("waiting for new accounts".into(), Box::new(move || crate::accts::on_thread(move || until(n)))),
    ]
}
