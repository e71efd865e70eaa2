//! The account cache of the client under every arrival order of slot and
//! account messages over small trees of slots.

use crate::chain_data::{AccountAndSlot, ChainData, SlotData, SlotStatus};
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use solana_sdk::account::{AccountSharedData, ReadableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Msg {
    /// a new slot and its parent
    Slot { slot: u64, parent: u64 },
    /// a slot was confirmed, the parent is not part of the message
    Confirmed { slot: u64 },
    Rooted { slot: u64, parent: Option<u64> },
    /// account, slot, content
    Write { acct: u8, slot: u64, version: u8 },
    /// the same, fetched on request
    Fetched { acct: u8, slot: u64, version: u8 },
}

fn acct_key(a: u8) -> Pubkey {
    Pubkey::new_from_array([a + 1; 32])
}
fn content(version: u8) -> AccountSharedData {
    let mut a = AccountSharedData::new(1, 1, &Pubkey::default());
    a.set_data_from_slice(&[version]);
    a
}

fn deliver(c: &mut ChainData, m: &Msg) {
    match *m {
        Msg::Slot { slot, parent } => {
            c.update_slot(SlotData { slot, parent: Some(parent), status: SlotStatus::Processed, chain: 0 })
        }
        Msg::Confirmed { slot } => c.update_slot(SlotData { slot, parent: None, status: SlotStatus::Confirmed, chain: 0 }),
        Msg::Rooted { slot, parent } => c.update_slot(SlotData { slot, parent, status: SlotStatus::Rooted, chain: 0 }),
        Msg::Write { acct, slot, version } => {
            c.update_account(acct_key(acct), AccountAndSlot { slot, account: content(version) })
        }
        Msg::Fetched { acct, slot, version } => {
            c.update_from_rpc(&acct_key(acct), AccountAndSlot { slot, account: content(version) })
        }
    }
}

/// What is known after a sequence of messages.
#[derive(Clone, Default)]
struct Known {
    seen: BTreeSet<u64>,
    parent: BTreeMap<u64, u64>,
    rooted: BTreeSet<u64>,
    best: u64,
    root: u64,
    /// slots older than the root that turned out not to be its ancestors
    abandoned: BTreeSet<u64>,
    writes: BTreeMap<u8, Vec<(u64, u8)>>,
}
impl Known {
    fn slot(&mut self, slot: u64, parent: Option<u64>, rooted: bool) {
        self.seen.insert(slot);
        if let Some(p) = parent {
            self.parent.entry(slot).or_insert(p);
            self.best = self.best.max(slot);
        }
        if rooted {
            self.rooted.insert(slot);
            if slot > self.root {
                let line = self.line(slot, false);
                let old = self.root;
                for s in self.seen.iter().filter(|s| **s > old && **s < slot) {
                    if !line.contains(s) && !self.rooted.contains(s) {
                        self.abandoned.insert(*s);
                    }
                }
                self.root = slot;
            }
        }
    }
    /// the known slots leading to a slot, down to the first rooted one
    fn line(&self, from: u64, stop: bool) -> BTreeSet<u64> {
        let mut l = BTreeSet::new();
        let mut s = from;
        while self.seen.contains(&s) {
            l.insert(s);
            if stop && self.rooted.contains(&s) {
                break;
            }
            match self.parent.get(&s) {
                Some(p) => s = *p,
                None => break,
            }
        }
        l
    }
    fn apply(&mut self, m: &Msg) {
        match *m {
            Msg::Slot { slot, parent } => self.slot(slot, Some(parent), false),
            Msg::Confirmed { slot } => self.slot(slot, None, false),
            Msg::Rooted { slot, parent } => self.slot(slot, parent, true),
            Msg::Write { acct, slot, version } => self.writes.entry(acct).or_default().push((slot, version)),
            Msg::Fetched { acct, slot, version } => {
                if slot > self.best {
                    self.slot(slot, Some(self.best), false);
                }
                self.writes.entry(acct).or_default().push((slot, version));
            }
        }
    }
    fn read(&self, acct: u8) -> Option<(u64, u8)> {
        let line = self.line(self.best, true);
        let live = |s: u64| {
            if s <= self.root {
                !self.abandoned.contains(&s)
            } else {
                self.seen.contains(&s) && (line.contains(&s) || s > self.best)
            }
        };
        let w = self.writes.get(&acct)?;
        // the latest arrival wins among writes of one slot
        w.iter().rev().filter(|(s, _)| live(*s)).max_by_key(|(s, _)| *s).and_then(|(s, _)| {
            w.iter().rev().find(|(x, _)| x == s).copied()
        })
    }
    /// Message orders that a node does not produce.
    fn allowed(&self, m: &Msg) -> bool {
        match *m {
            // a root is announced once its slot is on the best chain; older ones may be repeated
            Msg::Rooted { slot, .. } => {
                if slot > self.root {
                    self.line(self.best, true).contains(&slot)
                } else {
                    self.seen.contains(&slot) && !self.abandoned.contains(&slot)
                }
            }
            // nothing about slots older than the root is announced any more,
            // except late account data of the rooted chain itself
            Msg::Slot { slot, .. } | Msg::Confirmed { slot } => slot >= self.root ,
            Msg::Write { slot, .. } | Msg::Fetched { slot, .. } => !self.abandoned.contains(&slot),
        }
    }
}

fn observe(c: &ChainData, acct: u8) -> Result<Option<(u64, u8)>, String> {
    let k = acct_key(acct);
    let a = c.account_and_slot(&k).ok().map(|w| (w.slot, w.account.data()[0]));
    let b = c.account(&k).ok().map(|w| w.data()[0]);
    let s = c.accounts_snapshot().get(&k).map(|w| (w.slot, w.account.data()[0]));
    let mut i = c.iter_accounts().filter(|(p, _)| **p == k).map(|(_, w)| (w.slot, w.account.data()[0]));
    let i0 = i.next();
    if i.next().is_some() {
        return Err("an account is listed twice".into());
    }
    if a != s || a != i0 || a.map(|x| x.1) != b {
        return Err(format!("ways of reading disagree: {a:?}, {b:?}, snapshot {s:?}, iteration {i0:?}"));
    }
    Ok(a)
}

struct Search<'a> {
    msgs: &'a [Msg],
    accts: u8,
    n: u64,
    outcomes: BTreeSet<(u64, u8)>,
    bad: Option<(Vec<Msg>, String)>,
}
impl Search<'_> {
    fn go(&mut self, path: &mut Vec<usize>, used: u32, k: &Known) {
        if self.bad.is_some() {
            return;
        }
        self.n += 1;
        let r = guarded(|| {
            let mut c = ChainData::new();
            for i in path.iter() {
                deliver(&mut c, &self.msgs[*i]);
            }
            (0..self.accts).map(|a| observe(&c, a)).collect::<Result<Vec<_>, String>>()
        });
        let what = match r {
            Err(p) => Some(format!("panicked: {p}")),
            Ok(Err(e)) => Some(e),
            Ok(Ok(got)) => {
                let want: Vec<_> = (0..self.accts).map(|a| k.read(a)).collect();
                for g in got.iter().flatten() {
                    self.outcomes.insert(*g);
                }
                if got != want {
                    Some(format!("reads (slot, version) {got:?}, the chain to the best slot has {want:?}"))
                } else {
                    None
                }
            }
        };
        if let Some(w) = what {
            self.bad = Some((path.iter().map(|i| self.msgs[*i]).collect(), w));
            return;
        }
        for i in 0..self.msgs.len() {
            if used & (1 << i) != 0 || !k.allowed(&self.msgs[i]) {
                continue;
            }
            // identical messages are interchangeable
            if (0..i).any(|j| used & (1 << j) == 0 && self.msgs[j] == self.msgs[i]) {
                continue;
            }
            let mut k2 = k.clone();
            k2.apply(&self.msgs[i]);
            path.push(i);
            self.go(path, used | (1 << i), &k2);
            path.pop();
        }
    }
}

/// All trees over slots 1..=n, each slot hanging below an earlier one or slot 0.
fn trees(n: u64) -> Vec<Vec<u64>> {
    let mut l: Vec<Vec<u64>> = vec![vec![]];
    for i in 1..=n {
        l = l.into_iter().flat_map(|t| (0..i).map(move |p| [t.clone(), vec![p]].concat())).collect();
    }
    l
}
fn line_of(tree: &[u64], mut s: u64) -> Vec<u64> {
    let mut l = vec![];
    while s > 0 {
        l.push(s);
        s = tree[s as usize - 1];
    }
    l.reverse();
    l
}

fn part(name: &str, accts: u8, sets: Vec<Vec<Msg>>) -> Part {
    let name = name.to_string();
    let label = name.clone();
    Part::Custom(
        label,
        Box::new(move || {
            let next = AtomicUsize::new(0);
            let out: Mutex<(Counts, Vec<Violation>, BTreeSet<(u64, u8)>)> = Mutex::new((
                Counts { exhausted: true, ..Default::default() },
                vec![],
                BTreeSet::new(),
            ));
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= sets.len() || !out.lock().unwrap().1.is_empty() {
                            break;
                        }
                        sample(|| format!("every order of {:?}", sets[i]));
                        let mut r = Search { msgs: &sets[i], accts, n: 0, outcomes: BTreeSet::new(), bad: None };
                        r.go(&mut vec![], 0, &Known::default());
                        let mut o = out.lock().unwrap();
                        o.0.states += r.n;
                        o.0.transitions += r.n - 1;
                        o.0.compared += r.n;
                        o.0.ok += r.n;
                        o.0.depth = o.0.depth.max(sets[i].len() as u64);
                        o.2.extend(r.outcomes);
                        if let Some((p, what)) = r.bad {
                            let seed = p.iter().map(|m| format!("    {m:?}")).collect::<Vec<_>>().join("\n");
                            o.1.push(Violation { plan: name.clone(), seed, ops: vec![], what: format!("{what} after {p:?}"), known: None });
                        }
                    });
                }
            });
            let (mut c, v, oc) = out.into_inner().unwrap();
            c.outcomes = oc.len() as u64;
            (c, v)
        }),
    )
}

pub fn c38(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    let slots = |tree: &Vec<u64>| -> Vec<Msg> {
        tree.iter().enumerate().map(|(i, p)| Msg::Slot { slot: i as u64 + 1, parent: *p }).collect()
    };
    let writes = |n: u64| -> Vec<Msg> { (1..=n).map(|s| Msg::Write { acct: 0, slot: s, version: s as u8 }).collect() };
    l.push(part(
        "four slots, one account written in each",
        2,
        trees(4).iter().map(|t| [slots(t), writes(4)].concat()).collect(),
    ));
    l.push(part(
        "three slots confirmed before or after their parents are known",
        1,
        trees(3)
            .iter()
            .map(|t| [slots(t), (1..=3).map(|slot| Msg::Confirmed { slot }).collect(), writes(3)].concat())
            .collect(),
    ));
    let w = |acct: u8, slot: u64, version: u8| Msg::Write { acct, slot, version };
    let subsets: Vec<Vec<u64>> = t.pick(
        vec![vec![1, 2, 3, 4], vec![1, 3], vec![2, 3, 4]],
        vec![vec![1, 2, 3, 4], vec![1, 2], vec![1, 3], vec![1, 4], vec![2, 3, 4], vec![1, 3, 4], vec![1, 2, 3]],
    );
    let mut sets = vec![];
    for tr in trees(4) {
        for tip in 1..=4 {
            let line = line_of(&tr, tip);
            // every one and every pair of roots on the line
            for a in 0..line.len() {
                for b in a..line.len() {
                    let parent = if a % 2 == 0 { None } else { Some(tr[line[a] as usize - 1]) };
                    let mut roots = vec![Msg::Rooted { slot: line[a], parent }];
                    if b > a {
                        roots.push(Msg::Rooted { slot: line[b], parent: None });
                    }
                    for s in &subsets {
                        if s.len() < 4 || b == a {
                            let ws: Vec<Msg> = s.iter().map(|s| w(0, *s, *s as u8)).collect();
                            let m = [slots(&tr), ws, roots.clone()].concat();
                            if !sets.contains(&m) && m.len() <= t.pick(9, 9) {
                                sets.push(m);
                            }
                        }
                    }
                }
            }
        }
    }
    l.push(part("four slots, one or two roots", 1, sets));
    // rewrites within a slot, repeated messages, several accounts
    let mut sets = vec![];
    for tr in trees(3) {
        for a in 1..=3u64 {
            for b in 1..=3u64 {
                sets.push([slots(&tr), vec![w(0, a, 1), w(0, a, 2), w(0, b, 3), w(1, a, 4), Msg::Rooted { slot: a, parent: None }]].concat());
                sets.push([slots(&tr), vec![w(0, a, 1), w(1, b, 2), slots(&tr)[b as usize - 1], Msg::Confirmed { slot: a }, Msg::Rooted { slot: b, parent: None }]].concat());
            }
        }
    }
    l.push(part("three slots, repeated messages, two accounts", 2, sets));
    // data fetched on request, ahead of or behind the known slots
    let f = |acct: u8, slot: u64, version: u8| Msg::Fetched { acct, slot, version };
    let mut sets = vec![];
    for tr in trees(3) {
        for a in 1..=4u64 {
            for b in 1..=4u64 {
                sets.push([slots(&tr), vec![f(0, a, 1), f(0, b, 2), w(0, 2, 3), w(1, 1, 4)]].concat());
                if a <= 3 {
                    sets.push([slots(&tr), vec![f(0, b, 1), w(0, a, 2), w(0, 1, 3), Msg::Rooted { slot: a, parent: None }]].concat());
                }
            }
        }
    }
    l.push(part("three slots, fetched data", 2, sets));
    if t == Tier::Thorough {
        l.push(part(
            "five slots, one account written in each second",
            1,
            trees(5).iter().map(|t| [slots(t), vec![w(0, 1, 1), w(0, 2, 2), w(0, 3, 3), w(0, 4, 4)]].concat()).collect(),
        ));
    }
    l
}
