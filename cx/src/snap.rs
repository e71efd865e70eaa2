//! The source of snapshots, for every order in which the node's answers
//! arrive and every way they can fail.

use crate::script::Choices;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use openbook_v2_client::account_update_stream::Message;
use openbook_v2_client::snapshot_source;
use serde_json::{json, Value};
use sim::{Ans, Fail, Req};
use solana_account_decoder::{UiAccount, UiAccountData, UiAccountEncoding};
use solana_sdk::account::Account;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

const MIN: u64 = 100;
const SECOND: u64 = 1_000_000_000;

#[derive(Default)]
struct Node {
    calls: RefCell<Vec<(sim::Call, Option<Result<Ans, Fail>>)>>,
}
impl sim::Node for Node {
    fn start(&self, c: sim::Call) -> u64 {
        self.calls.borrow_mut().push((c, None));
        self.calls.borrow().len() as u64 - 1
    }
    fn poll(&self, id: u64) -> Option<Result<Ans, Fail>> {
        self.calls.borrow()[id as usize].1.clone()
    }
    fn gone(&self, id: u64) {
        self.calls.borrow_mut()[id as usize].1 = Some(Err(Fail::Transport("given up".into())));
    }
}

#[derive(Clone, Copy, Debug)]
struct Setup {
    programs: usize,
    oracles: usize,
    batch: usize,
    parallel: usize,
    interval: u64,
    /// the slot may have to be waited for
    late: bool,
}
fn key(n: usize) -> Pubkey {
    Pubkey::new_from_array([n as u8 + 10; 32])
}
/// The state of an account in a slot.
fn account(n: usize, slot: u64) -> Account {
    Account { lamports: slot * 100 + n as u64, data: vec![n as u8; n + 1], owner: openbook_v2::id(), executable: false, rent_epoch: 0 }
}
/// The second of the oracles does not exist.
fn exists(n: usize) -> bool {
    n != 11
}
fn ui(n: usize, slot: u64, broken: bool) -> Value {
    let mut u = UiAccount::encode(&key(n), &account(n, slot), UiAccountEncoding::Base64, None, None);
    if broken {
        u.data = UiAccountData::Binary("%%%".into(), UiAccountEncoding::Base64);
    }
    serde_json::to_value(u).unwrap()
}

struct Attempt {
    begun: u64,
    asked: Vec<Pubkey>,
    listed: bool,
    failed: bool,
    want: Vec<(Pubkey, u64, Account)>,
}

fn course(s: Setup, ch: &mut Choices, c: &mut Counts) -> Result<(), String> {
    let node = Rc::new(Node::default());
    sim::clock::start();
    sim::set_node(Some(node.clone() as Rc<dyn sim::Node>));
    let (tx, rx) = async_channel::unbounded();
    let oracles: Vec<Pubkey> = (0..s.oracles).map(|i| key(10 + i)).collect();
    let t0 = sim::clock::now().unwrap();
    snapshot_source::start(
        snapshot_source::Config {
            rpc_http_url: "http://node.test".into(),
            get_multiple_accounts_count: s.batch,
            parallel_rpc_requests: s.parallel,
            snapshot_interval: Duration::from_secs(s.interval),
            min_slot: MIN,
        },
        oracles.clone(),
        tx,
    );
    let mut seen = 0;
    let mut slot_asked = 0u64;
    let mut ready = false;
    let mut last_answer: Option<u64> = None;
    let mut l: Vec<Attempt> = vec![];
    let mut done = 0usize;
    let mut slot = 200u64;
    for step in 0.. {
        if step > 10_000 {
            return Err("no end of it".into());
        }
        let live = guarded(sim::tasks::run).map_err(|e| format!("the task panics: {e}"))?;
        c.transitions += 1;
        if live != 1 {
            return Err(format!("{live} tasks instead of one"));
        }
        let now = sim::clock::now().unwrap();
        // messages, of what was asked for before
        while let Ok(m) = rx.try_recv() {
            let Message::Snapshot(got) = m else { return Err("not a snapshot".into()) };
            c.compared += 1;
            if done + 1 != l.len() {
                return Err("a snapshot nobody asked for".into());
            }
            let a = l.last().unwrap();
            if a.failed || node.calls.borrow()[..seen].iter().any(|x| x.1.is_none()) || !a.listed || a.asked.len() != s.oracles {
                return Err("an incomplete snapshot is passed on".into());
            }
            let mut got: Vec<(Pubkey, u64, Account)> = got.into_iter().map(|u| (u.pubkey, u.slot, u.account.into())).collect();
            let mut want = a.want.clone();
            got.sort_by_key(|x| x.0);
            want.sort_by_key(|x| x.0);
            if got != want {
                return Err(format!("the snapshot holds {got:?} instead of {want:?}"));
            }
            done += 1;
        }
        if let Some(a) = l.last() {
            if a.finished(&node, s, seen) && done < l.len() {
                if !a.failed {
                    return Err("a complete snapshot is not passed on".into());
                }
                done += 1;
            }
        }
        // new requests
        let n = node.calls.borrow().len();
        let fresh = n > seen;
        while seen < n {
            let call = node.calls.borrow()[seen].0.clone();
            seen += 1;
            if call.url != "http://node.test" {
                return Err(format!("asks {}", call.url));
            }
            match &call.req {
                Req::Slot => {
                    if ready || call.commitment != CommitmentConfig::finalized() {
                        return Err("asks for the slot wrongly".into());
                    }
                    slot_asked += 1;
                    if last_answer.map_or(false, |t| now == t) && slot_asked > 2 {
                        return Err("asks for the slot again without waiting".into());
                    }
                }
                Req::Raw { method, params } if method == "getProgramAccounts" => {
                    if !ready {
                        return Err("takes a snapshot before the slot is reached".into());
                    }
                    let p = &params[1];
                    if params[0] != json!(openbook_v2::id().to_string())
                        || p["withContext"] != json!(true)
                        || !whole(p)
                        || p.get("filters").map_or(false, |f| !f.is_null())
                    {
                        return Err(format!("asks for {params}"));
                    }
                    // an attempt begins
                    if l.last().map_or(false, |a: &Attempt| !a.finished(&node, s, seen - 1)) {
                        return Err("begins again before the last attempt is over".into());
                    }
                    l.push(Attempt { begun: now, asked: vec![], listed: false, failed: false, want: vec![] });
                    if l.len() as u64 > (now - t0) / (s.interval * SECOND) + 1 {
                        return Err("takes snapshots more often than wanted".into());
                    }
                }
                Req::Raw { method, params } if method == "getMultipleAccounts" => {
                    let Some(a) = l.last_mut() else { return Err("asks for accounts too early".into()) };
                    let keys: Vec<Pubkey> = params[0].as_array().map(|k| k.iter().filter_map(|x| x.as_str()?.parse().ok()).collect()).unwrap_or_default();
                    if keys.is_empty() || keys.len() > s.batch || !whole(&params[1]) {
                        return Err(format!("asks for {params}"));
                    }
                    for k in keys {
                        if !oracles.contains(&k) || a.asked.contains(&k) {
                            return Err(format!("asks for {params} again or without need"));
                        }
                        a.asked.push(k);
                    }
                }
                other => return Err(format!("asks for {other:?}")),
            }
        }
        let open: Vec<usize> = node.calls.borrow().iter().enumerate().filter(|x| x.1 .1.is_none()).map(|x| x.0).collect();
        if open.len() > s.parallel.max(1) {
            return Err("more requests at once than allowed".into());
        }
        if done == 2 && (l.len() > 2 || open.is_empty()) {
            break;
        }
        if open.is_empty() {
            if fresh {
                continue;
            }
            // nothing to do but wait
            let since = l.last().map(|a| a.begun).or(last_answer).unwrap_or(t0);
            if now - since > 10 * s.interval.max(2) * SECOND {
                return Err("nothing happens any more".into());
            }
            sim::clock::advance(Duration::from_secs(1));
            continue;
        }
        // the next answer
        let first = l.len() < 2;
        let i = open[if first { ch.pick(open.len()) } else { 0 }];
        let req = node.calls.borrow()[i].0.req.clone();
        slot += 1;
        let lost = Err(Fail::Transport("connection lost".into()));
        let answer = match req {
            Req::Slot => {
                last_answer = Some(now);
                // too early, just too early, lost
                match if s.late && slot_asked < 4 { ch.pick(4) } else { 0 } {
                    0 => {
                        ready = true;
                        Ok(Ans::Slot(MIN + 1))
                    }
                    1 => Ok(Ans::Slot(MIN)),
                    2 => Ok(Ans::Slot(3)),
                    _ => lost,
                }
            }
            Req::Raw { method, params } if method == "getProgramAccounts" => {
                let kind = if first { ch.pick(6) } else { 0 };
                // a node that is behind answers with what it has, unless told not to
                let behind = kind == 5;
                let slot = if behind { 3 } else { slot };
                let a = l.last_mut().unwrap();
                a.listed = true;
                a.failed |= kind == 1 || kind == 2 || behind || (kind > 2 && s.programs > 0);
                for n in 0..s.programs {
                    a.want.push((key(n), slot, account(n, slot)));
                }
                let mut v: Vec<Value> = (0..s.programs).map(|n| json!({"pubkey": key(n).to_string(), "account": ui(n, slot, kind == 3 && n + 1 == s.programs)})).collect();
                if kind == 4 && s.programs > 0 {
                    v[0]["pubkey"] = json!("not a key");
                }
                match kind {
                    1 => lost,
                    5 if params[1]["minContextSlot"].as_u64().map_or(false, |m| m > slot) => lost,
                    2 => Ok(Ans::Value(json!(v))),
                    _ => Ok(Ans::Value(json!({"context": {"slot": slot}, "value": v}))),
                }
            }
            Req::Raw { params, .. } => {
                let kind = if first { ch.pick(4) } else { 0 };
                let behind = kind == 3;
                let slot = if behind { 3 } else { slot };
                let a = l.last_mut().unwrap();
                let keys: Vec<Pubkey> = params[0].as_array().unwrap().iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect();
                let mut v = vec![];
                let mut broken = false;
                for k in keys {
                    let n = k.to_bytes()[0] as usize - 10;
                    if exists(n) {
                        a.want.push((k, slot, account(n, slot)));
                        broken |= kind == 2;
                        v.push(ui(n, slot, kind == 2));
                    } else {
                        v.push(Value::Null);
                    }
                }
                a.failed |= kind == 1 || broken || behind;
                if kind == 1 || behind && params[1]["minContextSlot"].as_u64().map_or(false, |m| m > slot) {
                    lost
                } else {
                    Ok(Ans::Value(json!({"context": {"slot": slot}, "value": v})))
                }
            }
            _ => unreachable!(),
        };
        node.calls.borrow_mut()[i].1 = Some(answer);
    }
    Ok(())
}
impl Attempt {
    /// everything answered, and nothing left to ask for
    fn finished(&self, node: &Node, s: Setup, calls: usize) -> bool {
        self.listed && node.calls.borrow()[..calls].iter().all(|x| x.1.is_some()) && (self.failed || self.asked.len() == s.oracles)
    }
}
fn whole(p: &Value) -> bool {
    p["encoding"] == json!("base64")
        && p["commitment"] == json!("finalized")
        && p.get("dataSlice").map_or(true, |d| d.is_null())
        && p.get("minContextSlot").map_or(true, |m| m.is_null() || *m == json!(MIN) || *m == json!(MIN + 1))
}

fn courses(oracles: usize) -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad: Vec<Violation> = vec![];
    'all: for programs in 0..=2 {
        for oracles in 0..=oracles {
            for batch in 1..=3usize.min(oracles.max(1)) {
                for parallel in 1..=3 {
                    for interval in [1, 3, 60] {
                        let s = Setup { programs, oracles, batch, parallel, interval, late: programs == 1 && oracles <= 2 && batch == 1 };
                        let mut ch = Choices::default();
                        loop {
                            c.states += 1;
                            let r = course(s, &mut ch, &mut c);
                            sample(|| format!("{s:?}, choices {:?}", ch.path));
                            c.depth = c.depth.max(ch.made() as u64);
                            sim::tasks::clear();
                            sim::set_node(None);
                            if let Err(e) = r {
                                bad.push(Violation { plan: "snapshots".into(), seed: String::new(), ops: vec![], what: format!("{e}: {s:?}, choices {:?}", ch.path), known: None });
                                break 'all;
                            }
                            if !ch.next() {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    sim::clock::stop();
    (c, bad)
}

pub fn parts(t: Tier) -> Vec<Part> {
    let n = t.pick(4, 5);
    vec![Part::Custom("courses of snapshots".into(), Box::new(move || crate::accts::on_thread(move || courses(n))))]
}
