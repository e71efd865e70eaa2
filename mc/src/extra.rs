//! Identifiers, data structures, account and market creation, extreme inputs.

use crate::alpha::*;
use crate::checks::*;
use crate::explore::facet::*;
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeSet, HashSet, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use Side::*;

// ---------------------------------------------------------------- C17

/// One step of an identifier history.
fn id_ops(v: &View) -> Vec<Op> {
    let mut l = vec![
        limc(0, Bid, 4, 1, 7),
        limc(0, Ask, 6, 1, 7),
        limc(1, Bid, 4, 1, 7),
        limc(1, Ask, 4, 2, 8),
        limc(1, Ask, 6, 1, 7),
        peg(0, Bid, -1, 100, 1),
        peg(1, Ask, 1, 1, 1),
        Op::Edit { oo: 0, cancel_cid: 7, expected: 1, a: PlaceArgs { cid: 7, ..PlaceArgs::limit_order(Bid, 4, 1) }, rem: vec![] },
        Op::Many {
            oo: 1,
            cancel: false,
            otype: OType::Limit,
            bids: vec![MultiArgs { price: 4, quote: 40, expiry: 0 }, MultiArgs { price: 4, quote: 40, expiry: 0 }],
            asks: vec![MultiArgs { price: 6, quote: 60, expiry: 0 }],
            limit: 5,
            rem: vec![0],
        },
        take(2, Ask, 1, vec![0, 1]),
        take(2, Bid, 1, vec![]),
        Op::CancelAll { oo: 0, side: None, limit: 9 },
    ];
    if !v.events.is_empty() {
        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
    }
    l
}

/// All histories from a given first sequence number, remembering every id.
fn id_histories(first_seq: u64, depth: usize) -> (Counts, Vec<Violation>) {
    let w = World::new(Cfg { oracles: 1, oo_owners: vec![0, 1], users: 3, ..cfg((0, 0)) });
    let mut m = w.machine();
    m.poke(w.ids.m.market, 464, &first_seq.to_le_bytes());
    let (w, _) = w.freeze(&m, vec![]);
    let p = Parser::new(&w);
    m = w.machine();
    let v0 = p.parse(&w, &m).expect("start");
    let first = id_ops(&v0);
    let total: Mutex<(Counts, Vec<Violation>)> = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
    let next = AtomicUsize::new(0);
    let n2 = first.len() * first.len();
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| {
                let mut m = w.machine();
                let mut c = Counts::default();
                let mut bad: Vec<Violation> = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n2 || !bad.is_empty() {
                        break;
                    }
                    let plan = [first[i / first.len()].clone(), first[i % first.len()].clone()];
                    let mut h = Hist { w: &w, p: &p, m: &mut m, c: &mut c, bad: &mut bad, path: vec![], depth };
                    h.go(&w.start, &v0, &[], Some(&plan));
                }
                let mut g = total.lock().unwrap();
                g.0.merge(&c);
                g.1.extend(bad);
            });
        }
    });
    let (mut c, mut v) = total.into_inner().unwrap();
    c.depth = depth as u64;
    v.truncate(3);
    (c, v)
}

struct Hist<'a> {
    w: &'a World,
    p: &'a Parser,
    m: &'a mut Machine,
    c: &'a mut Counts,
    bad: &'a mut Vec<Violation>,
    path: Vec<Op>,
    depth: usize,
}
impl<'a> Hist<'a> {
    fn fail(&mut self, what: String) {
        if self.bad.len() < 2 {
            self.bad.push(Violation {
                plan: "histories of ids".into(),
                seed: String::new(),
                ops: self.path.clone(),
                what,
                known: None,
            });
        }
    }
    /// `issued`: every id seen so far on this path with its owner.
    fn go(&mut self, st: &State, v: &View, issued: &[(u128, usize)], forced: Option<&[Op]>) {
        let d = self.path.len();
        self.c.states += 1;
        if d == self.depth {
            self.use_ids(st, v, issued);
            return;
        }
        let ops: Vec<Op> = match forced {
            Some(f) if d < f.len() => vec![f[d].clone()],
            _ => id_ops(v),
        };
        for op in ops {
            self.m.load(st);
            let o = self.w.run(self.m, &op);
            self.c.transitions += 1;
            if !o.ok {
                self.c.failed += 1;
                continue;
            }
            self.c.ok += 1;
            self.path.push(op.clone());
            match self.p.parse(self.w, self.m) {
                Err(e) => self.fail(e),
                Ok(post) => {
                    let nst = self.m.save();
                    let mut iss = issued.to_vec();
                    self.check(&op, &o, v, &post, &mut iss);
                    self.go(&nst, &post, &iss, forced);
                }
            }
            self.path.pop();
            if !self.bad.is_empty() {
                return;
            }
        }
    }
    fn check(&mut self, op: &Op, o: &Outcome, pre: &View, post: &View, iss: &mut Vec<(u128, usize)>) {
        let ids = |v: &View, k: usize| -> BTreeSet<u128> { v.o(k).orders.iter().map(|x| x.id).collect() };
        let mut new = vec![];
        for k in 0..post.oo.len() {
            for id in ids(post, k) {
                if !ids(pre, k).contains(&id) {
                    new.push((id, k));
                }
            }
        }
        for (id, k) in &new {
            if iss.iter().any(|x| x.0 == *id) {
                self.fail(format!("order id {id:x} of account {k} was issued before"));
            }
            iss.push((*id, *k));
        }
        for k in 0..post.oo.len() {
            let l: Vec<u128> = post.o(k).orders.iter().map(|x| x.id).collect();
            if l.iter().collect::<BTreeSet<_>>().len() != l.len() {
                self.fail(format!("account {k} records an id twice"));
            }
        }
        // book and accounts agree, with equal ids
        let pending_out: HashSet<(usize, u8)> = post
            .events
            .iter()
            .filter_map(|e| match e {
                Ev::Fill { out: true, maker: Who::Oo(k), slot, .. } => Some((*k, *slot)),
                Ev::Out { owner: Who::Oo(k), slot, .. } => Some((*k, *slot)),
                _ => None,
            })
            .collect();
        for s in Side::both() {
            for x in post.book(s) {
                match x.owner {
                    Who::Oo(k) => {
                        if !post.o(k).orders.iter().any(|y| y.id == x.key && y.slot == x.slot && y.cid == x.cid) {
                            self.fail(format!("resting order {:x} is not recorded under that id by its owner", x.key));
                        }
                    }
                    _ => self.fail("resting order of nobody".into()),
                }
            }
        }
        for k in 0..post.oo.len() {
            for y in &post.o(k).orders {
                let rests = post.book(y.side).iter().any(|x| x.key == y.id);
                if !rests && !pending_out.contains(&(k, y.slot)) {
                    self.fail(format!("account {k} records id {:x} which rests nowhere", y.id));
                }
            }
        }
        // ids returned to the caller
        let mine: Vec<u128> = new.iter().filter(|x| Some(x.1) == placer(op)).map(|x| x.0).collect();
        let got = match op {
            Op::Place { .. } | Op::Peg { .. } | Op::Edit { .. } | Op::EditPeg { .. } => one_ret(&o.ret),
            Op::Many { .. } => many_ret(&o.ret),
            _ => return,
        };
        let mut a = mine;
        a.sort_unstable();
        let mut b: Vec<u128> = got.clone();
        b.sort_unstable();
        if a != b {
            self.fail(format!("returned ids {b:x?} but recorded {a:x?}"));
        }
    }
    /// Try to act on every id ever issued from every account.
    fn use_ids(&mut self, st: &State, v: &View, issued: &[(u128, usize)]) {
        for k in 0..v.oo.len() {
            for (id, _) in issued {
                let op = Op::Cancel { oo: k, id: *id };
                self.m.load(st);
                let o = self.w.run(self.m, &op);
                self.c.transitions += 1;
                self.c.extra_runs += 1;
                let live = v.o(k).orders.iter().any(|x| x.id == *id) && Side::both().iter().any(|s| v.book(*s).iter().any(|x| x.key == *id));
                if o.ok {
                    self.c.ok += 1;
                } else {
                    self.c.failed += 1;
                }
                if live && !o.ok {
                    self.path.push(op);
                    self.fail(format!("own resting order cannot be cancelled by its id: {}", o.err));
                    self.path.pop();
                    continue;
                }
                if !o.ok {
                    continue;
                }
                self.path.push(op);
                match self.p.parse(self.w, self.m) {
                    Err(e) => self.fail(e),
                    Ok(post) => {
                        for s in Side::both() {
                            for x in v.book(s) {
                                let still = post.book(s).iter().any(|y| y.key == x.key && y.qty == x.qty);
                                let target = live && x.key == *id;
                                if still == target {
                                    self.fail(format!("acting on id {id:x} from account {k} affected order {:x}", x.key));
                                }
                            }
                        }
                    }
                }
                self.path.pop();
            }
        }
    }
}
fn placer(op: &Op) -> Option<usize> {
    match op {
        Op::Place { oo, .. } | Op::Peg { oo, .. } | Op::Edit { oo, .. } | Op::EditPeg { oo, .. } | Op::Many { oo, .. } => Some(*oo),
        _ => None,
    }
}
fn one_ret(r: &[u8]) -> Vec<u128> {
    if r.first() == Some(&1) && r.len() == 17 {
        vec![u128::from_le_bytes(r[1..17].try_into().unwrap())]
    } else {
        vec![]
    }
}
fn many_ret(r: &[u8]) -> Vec<u128> {
    let mut out = vec![];
    if r.len() < 4 {
        return out;
    }
    let n = u32::from_le_bytes(r[..4].try_into().unwrap());
    let mut p = 4;
    for _ in 0..n {
        if r.get(p) == Some(&1) {
            out.push(u128::from_le_bytes(r[p + 1..p + 17].try_into().unwrap()));
            p += 17;
        } else {
            p += 1;
        }
    }
    out
}

pub fn c17(t: Tier) -> Vec<Part> {
    let mut l: Vec<Part> = [0u64, (1 << 32) - 3, (1 << 62) - 3]
        .into_iter()
        .map(|s| {
            let d = if s == 0 { t.pick(5, 6) } else { t.pick(4, 5) };
            Part::Custom(format!("histories of {d} steps, numbering continued from {s}"), Box::new(move || id_histories(s, d)))
        })
        .collect();
    l.extend(crate::checks::wide(t, SLOTS | BOOK | RET, &[], crate::checks::plain));
    l
}

// ---------------------------------------------------------------- C19

fn permutations(l: &[u64], k: usize) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    let mut level: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..k {
        let mut n = vec![];
        for p in &level {
            for x in l {
                let mut q = p.clone();
                q.push(*x);
                n.push(q);
            }
        }
        out.extend(n.clone());
        level = n;
    }
    out
}

pub fn c19(t: Tier) -> Vec<Part> {
    const M: u32 = RES | EV | STRUCT | SLOTS | FREE;
    let mut l = vec![];
    // every arrangement of up to five queued events
    l.push(world_part(move || {
        Plan::new(
            "queue of up to five events, all arrangements of slots",
            World::new(Cfg { oo_owners: vec![0, 1], users: 3, ..cfg((0, 0)) }),
            M,
            t.pick(6, 8),
            Box::new(|_, v| {
                let mut l = vec![];
                if v.events.len() < 5 {
                    l.push(take(2, Ask, 1, vec![]));
                    l.push(take(2, Bid, 1, vec![]));
                    l.push(take(2, Bid, 2, vec![]));
                }
                for n in 1..=v.events.len() as u64 {
                    l.push(Op::Consume { limit: n, rem: vec![0, 1] });
                }
                l.push(Op::Consume { limit: 8, rem: vec![0] });
                l.push(Op::Consume { limit: 8, rem: vec![1] });
                for s in &v.ev_slots {
                    l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
                }
                if v.ev_slots.len() >= 2 {
                    let k = v.ev_slots.len();
                    l.push(Op::ConsumeGiven { slots: vec![v.ev_slots[k - 1] as u64, v.ev_slots[0] as u64], rem: vec![0, 1] });
                }
                l
            }),
        )
        .seeds(vec![(
            "makers",
            vec![lim(0, Bid, 4, 50), lim(1, Ask, 6, 1), lim(1, Ask, 7, 50)],
        )])
        .probe(Box::new(move |_, v| {
            // all sequences of up to two (three) positions, used, unused or out of range
            let mut pos: Vec<u64> = v.ev_slots.iter().map(|x| *x as u64).collect();
            let free = (0..600u64).find(|x| !pos.contains(x)).unwrap();
            pos.push(free);
            pos.push(599);
            let mut l: Vec<Op> = permutations(&pos, t.pick(2, 3))
                .into_iter()
                .map(|slots| Op::ConsumeGiven { slots, rem: vec![0, 1] })
                .collect();
            for bad in [600u64, 601, 65535, 65536, 1 << 32, u64::MAX] {
                l.push(Op::ConsumeGiven { slots: vec![bad], rem: vec![0, 1] });
            }
            for s in v.ev_slots.iter() {
                l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0] });
                l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![1] });
            }
            for n in [0, 9, 255, u64::MAX] {
                l.push(Op::Consume { limit: n, rem: vec![0, 1] });
            }
            l
        }))
        .physical()
    }));
    // around the capacity
    l.push(world_part(move || {
        let mut seed = vec![lim(0, Bid, 4, 2000), lim(0, Bid, 3, 1), lim(0, Bid, 2, 1), lim(1, Ask, 6, 2000), lime(1, Ask, 5, 1, 1005)];
        for _ in 0..HEAP_MAX - 2 {
            seed.push(take(2, Ask, 1, vec![]));
        }
        let mut full = seed.clone();
        full.push(take(2, Ask, 1, vec![]));
        full.push(take(2, Ask, 1, vec![]));
        let mut late = seed.clone();
        late.push(Op::Advance { dt: 6 });
        Plan::new(
            "queue close to its capacity",
            World::new(Cfg { oo_owners: vec![0, 1], users: 3, ..cfg((0, 0)) }),
            M,
            t.pick(3, 4),
            Box::new(|_, v| {
                let mut l = vec![
                    take(2, Ask, 1, vec![]),
                    take(2, Bid, 1, vec![]),
                    take(2, Bid, 1, vec![1]),
                    Op::Consume { limit: 1, rem: vec![0, 1] },
                    Op::Consume { limit: 8, rem: vec![0, 1] },
                    Op::ConsumeGiven { slots: vec![599], rem: vec![0, 1] },
                ];
                if let Some(s) = v.ev_slots.get(300) {
                    l.push(Op::ConsumeGiven { slots: vec![*s as u64, 3], rem: vec![0, 1] });
                }
                l
            }),
        )
        .seeds(vec![("two free", seed), ("full", full), ("two free, an order expired", late)])
        .probe(Box::new(|_, _| {
            let mut l = vec![
                lim(1, Ask, 4, 1),
                lim(1, Ask, 4, 3),
                lim(1, Bid, 6, 2),
                limr(1, Ask, 4, 1, vec![0]),
                lim(0, Bid, 6, 2),
                lim(0, Bid, 1, 1),
                Op::CancelAll { oo: 1, side: None, limit: 5 },
                Op::Settle { oo: 0, referrer: false },
            ];
            for n in [0, 1, 2, 7, 8, 9] {
                l.push(Op::Consume { limit: n, rem: vec![0, 1] });
            }
            for s in [0u64, 1, 2, 299, 597, 598, 599, 600] {
                l.push(Op::ConsumeGiven { slots: vec![s], rem: vec![0, 1] });
                l.push(Op::ConsumeGiven { slots: vec![s, 598, 4, s], rem: vec![0, 1] });
            }
            l
        }))
    }));
    l.extend(crate::checks::wide(t, RES | EV | STRUCT, &[], crate::checks::plain));
    l
}

// ---------------------------------------------------------------- C20

/// All insertions and removals on one side with a bounded number of resting
/// orders, distinguishing every arrangement of the tree.
fn tree_plan(side: Side, live_max: usize, depth: usize, levels: Vec<i64>, kind: u8) -> Plan {
    const M: u32 = RES | BOOK | STRUCT | EXP;
    Plan::new(
        &format!(
            "{side:?} side, up to {live_max} orders at {levels:?}, {}",
            ["fixed", "fixed and pegged", "with expiry times", "fixed and pegged with expiry times"][kind as usize]
        ),
        World::new(Cfg { oracles: 1, oo_owners: vec![0], users: 2, ..cfg((0, 0)) }),
        M,
        depth,
        Box::new(move |_, v| {
            let mut l = vec![];
            let book = v.book(side);
            if book.len() < live_max {
                for &p in &levels {
                    match kind {
                        0 => l.push(lim(0, side, p, 1)),
                        1 => {
                            l.push(lim(0, side, p, 1));
                            let lm = if side == Bid { 1_000_000 } else { 1 };
                            l.push(peg(0, side, p - 10, lm, 1));
                        }
                        2 => {
                            for e in [0u64, 1005, 1009] {
                                l.push(lime(0, side, p, 1, e));
                            }
                        }
                        _ => {
                            let lm = if side == Bid { 1_000_000 } else { 1 };
                            for e in [0u64, 1005] {
                                l.push(lime(0, side, p, 1, e));
                                l.push(Op::Peg { oo: 0, a: PegArgs { expiry: e, ..pega(side, p - 10, lm, 1) }, rem: vec![] });
                            }
                        }
                    }
                }
            }
            for o in book {
                l.push(Op::Cancel { oo: 0, id: o.key });
            }
            if kind >= 2 && v.now.ts < 1006 && !book.is_empty() {
                l.push(Op::Advance { dt: 6 });
            }
            if !book.is_empty() {
                // takes the best order out
                l.push(Op::Take {
                    user: 1,
                    a: TakeArgs {
                        side: side.inv(),
                        price: if side == Bid { 1 } else { 1 << 40 },
                        base: 1,
                        quote: 1 << 40,
                        otype: OType::Market,
                        limit: 3,
                    },
                    rem: vec![0],
                });
            }
            l
        }),
    )
    .physical()
}

pub fn c20(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    let th = t == Tier::Thorough;
    for side in Side::both() {
        l.push(world_part(move || tree_plan(side, if th { 5 } else { 4 }, t.pick(9, 10), vec![3, 4, 5], 0)));
        l.push(world_part(move || tree_plan(side, 4, t.pick(7, 9), vec![9, 11], 1)));
        l.push(world_part(move || tree_plan(side, if th { 4 } else { 3 }, t.pick(7, 8), vec![4, 5], 2)));
        l.push(world_part(move || tree_plan(side, if th { 4 } else { 3 }, t.pick(6, 7), vec![9, 11], 3)));
        // far apart and adjacent prices
        l.push(world_part(move || tree_plan(side, 4, t.pick(5, 7), vec![1, 2, 255, 256, 65_535, 65_536], 0)));
    }
    // full and almost full sides: capacity, removal of the worst and of expired orders
    for side in Side::both() {
        l.push(world_part(move || {
            let s = if side == Bid { -1 } else { 1 };
            let base: Vec<Op> = (0..511usize)
                .map(|i| {
                    let p = 100 + s * (1 + (i * 37 % 90) as i64);
                    if i == 77 {
                        lime(i / 24, side, p, 1, 1005)
                    } else {
                        lim(i / 24, side, p, 1)
                    }
                })
                .collect();
            let mut late = base.clone();
            late.push(Op::Advance { dt: 6 });
            Plan::new(
                &format!("full {side:?} side"),
                World::new(Cfg { oo_owners: (0..23).map(|i| i % 3).collect(), ..cfg((0, 0)) }),
                RES | BOOK | STRUCT | EXP | SLOTS | EV,
                t.pick(3, 4),
                Box::new(move |_, v| {
                    let mut l = vec![
                        lim(22, side, 100 + s * 50, 1),
                        lim(22, side, 100 + s * 95, 1),
                        lim(22, side, 100, 1),
                        take(2, side.inv(), 1, vec![]),
                        Op::Consume { limit: 8, rem: (0..22).collect() },
                    ];
                    let b = v.book(side);
                    for i in [0, b.len() / 2, b.len() - 1] {
                        if let Who::Oo(k) = b[i].owner {
                            l.push(Op::Cancel { oo: k, id: b[i].key });
                        }
                    }
                    l
                }),
            )
            .seeds(vec![("almost full", base), ("almost full, one expired", late)])
        }));
    }
    l.extend(crate::checks::wide(t, BOOK | STRUCT, &[], crate::checks::plain));
    l
}

// ---------------------------------------------------------------- C30

const MAX_NUM: u32 = 6;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct IndexM {
    counter: u32,
    list: Vec<u32>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct LifeState {
    index: Vec<Option<IndexM>>,
    /// (user, number) -> market used, non-empty
    accts: Vec<((usize, u32), (u8, bool))>,
}
#[derive(Clone, Copy, Debug)]
enum LOp {
    NewIndex(usize),
    CloseIndex(usize),
    /// user, number used for the address, market
    Create(usize, u32, u8),
    Close(usize, usize, u32),
    /// by user, of (user, number)
    CloseForeign(usize, usize, u32),
    Fund(usize, u32),
    Drain(usize, u32),
}

struct LifeWorld {
    w: World,
    oo: Vec<Vec<usize>>,
}

fn life_world(users: usize) -> LifeWorld {
    let w = World::new(Cfg { oo_owners: vec![], users, second_market: true, ..cfg((0, 0)) });
    let mut m = w.machine();
    for u in 0..users {
        if u == 0 {
            let o = m.exec(&w.ix_close_oo(0, w.ids.oo_m2.unwrap()));
            assert!(o.ok, "closing an empty account failed: {}", o.err);
        }
        let o = m.exec(&w.ix_close_indexer(u));
        assert!(o.ok, "closing an empty index failed: {}", o.err);
    }
    m.poke_lamports(w.ids.sol_dest, WALLET_SOL);
    let mut extra = vec![];
    for u in 0..users {
        for n in 1..=MAX_NUM {
            let k = oo_key(&key(&format!("user{u}")), n);
            if Some(k) != w.ids.oo_m2.map(|i| w.k(i)) {
                extra.push(Acct::empty(k, OO_LEN));
            }
        }
    }
    let (w, _) = w.freeze(&m, extra);
    let oo = (0..users)
        .map(|u| (1..=MAX_NUM).map(|n| w.image.index[&oo_key(&key(&format!("user{u}")), n)]).collect())
        .collect();
    LifeWorld { w, oo }
}

impl LifeWorld {
    fn at(&self, u: usize, n: u32) -> usize {
        self.oo[u][n as usize - 1]
    }
    fn ix(&self, op: LOp) -> Ix {
        let w = &self.w;
        let i = &w.ids;
        let mk = |k: u8| if k == 0 { i.m.clone() } else { i.m2.clone().unwrap() };
        match op {
            LOp::NewIndex(u) => w.ix_create_indexer(u),
            LOp::CloseIndex(u) => w.ix_close_indexer(u),
            LOp::Create(u, n, k) => w.ix_create_oo(u, self.at(u, n), &mk(k), if n % 2 == 0 { Some(i.stranger) } else { None }),
            LOp::Close(u, v, n) | LOp::CloseForeign(u, v, n) => w.ix_close_oo(u, self.at(v, n)),
            LOp::Fund(..) | LOp::Drain(..) => unreachable!(),
        }
    }
    /// deposit into, or settle, an account of whichever market it belongs to
    fn fund(&self, m: &mut Machine, u: usize, n: u32, market: u8, fund: bool) -> Outcome {
        let mut x = self.w.clone();
        if market == 1 {
            let m2 = x.ids.m2.clone().unwrap();
            x.ids.m = m2;
        }
        x.ids.oo = vec![self.at(u, n)];
        x.ids.oo_owner = vec![u];
        let op = if fund { Op::Deposit { user: u, oo: 0, base: 0, quote: 1 } } else { Op::Settle { oo: 0, referrer: false } };
        let ix = x.ix(&op).unwrap();
        m.exec(&ix)
    }
    fn apply(&self, s: &LifeState, op: LOp) -> Option<LifeState> {
        let mut s = s.clone();
        let pos = |s: &LifeState, u: usize, n: u32| s.accts.iter().position(|x| x.0 == (u, n));
        match op {
            LOp::NewIndex(u) => {
                if s.index[u].is_some() {
                    return None;
                }
                s.index[u] = Some(IndexM::default());
            }
            LOp::CloseIndex(u) => {
                if !s.index[u].as_ref()?.list.is_empty() {
                    return None;
                }
                s.index[u] = None;
            }
            LOp::Create(u, n, k) => {
                let ix = s.index[u].as_mut()?;
                if n != ix.counter + 1 {
                    return None;
                }
                ix.counter += 1;
                ix.list.push(n);
                s.accts.push(((u, n), (k, false)));
                s.accts.sort();
            }
            LOp::Close(u, v, n) | LOp::CloseForeign(u, v, n) => {
                let p = pos(&s, v, n)?;
                if u != v || s.accts[p].1 .1 {
                    return None;
                }
                s.accts.remove(p);
                s.index[u].as_mut()?.list.retain(|x| *x != n);
            }
            LOp::Fund(u, n) => {
                let p = pos(&s, u, n)?;
                s.accts[p].1 .1 = true;
            }
            LOp::Drain(u, n) => {
                let p = pos(&s, u, n)?;
                s.accts[p].1 .1 = false;
            }
        }
        Some(s)
    }
    fn verify(&self, m: &Machine, s: &LifeState) -> Result<(), String> {
        let w = &self.w;
        for u in 0..s.index.len() {
            let d = m.data(w.ids.users[u].indexer);
            match &s.index[u] {
                None => {
                    if !d.is_empty() || m.lamports(w.ids.users[u].indexer) != 0 {
                        return Err(format!("index of user {u} should not exist"));
                    }
                }
                Some(ix) => {
                    if d.len() < 17 || d[..8] != disc("account", "OpenOrdersIndexer") {
                        return Err(format!("index of user {u} missing"));
                    }
                    let n = u32a(d, 13) as usize;
                    if u32a(d, 9) != ix.counter || n != ix.list.len() || d.len() < 17 + 32 * n {
                        return Err(format!("index of user {u}: numbered {} lists {n}, expected {ix:?}", u32a(d, 9)));
                    }
                    let got: BTreeSet<Pubkey> = (0..n).map(|k| pka(d, 17 + 32 * k)).collect();
                    let want: BTreeSet<Pubkey> = ix.list.iter().map(|x| w.k(self.at(u, *x))).collect();
                    if got != want {
                        return Err(format!("index of user {u} lists other accounts than {ix:?}"));
                    }
                    if m.lamports(w.ids.users[u].indexer) < rent_min(d.len()) {
                        return Err(format!("index of user {u} is not rent exempt"));
                    }
                }
            }
            for n in 1..=MAX_NUM {
                let a = self.at(u, n);
                let d = m.data(a);
                match s.accts.iter().find(|x| x.0 == (u, n)) {
                    None => {
                        if !d.is_empty() || m.lamports(a) != 0 {
                            return Err(format!("account {n} of user {u} should not exist"));
                        }
                    }
                    Some((_, (k, funded))) => {
                        if d.len() != OO_LEN || d[..8] != disc("account", "OpenOrdersAccount") {
                            return Err(format!("account {n} of user {u} missing"));
                        }
                        let mk = if *k == 0 { w.ids.m.market } else { w.ids.m2.as_ref().unwrap().market };
                        let dl = if n % 2 == 0 { w.k(w.ids.stranger) } else { Pubkey::default() };
                        if pka(d, 8) != w.k(w.ids.users[u].wallet) || pka(d, 40) != w.k(mk) || pka(d, 104) != dl || u32a(d, 136) != n {
                            return Err(format!("account {n} of user {u}: owner, market, delegate or number wrong"));
                        }
                        if &d[72..76] != b"acct" || d[76..104].iter().any(|x| *x != 0) {
                            return Err(format!("account {n} of user {u}: name wrong"));
                        }
                        let o = Parser::new(w).oo(d)?;
                        if !o.orders.is_empty() {
                            return Err(format!("account {n} of user {u} has orders"));
                        }
                        let p = &d[144..304];
                        let zero = p.iter().enumerate().all(|(i, b)| *b == 0 || (*funded && (24..32).contains(&i)));
                        if !zero || (*funded) != (u64a(d, 144 + 24) > 0) {
                            return Err(format!("account {n} of user {u} does not hold what it should"));
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn life_bfs(users: usize, depth: usize) -> (Counts, Vec<Violation>) {
    let lw = life_world(users);
    let w = &lw.w;
    let mut m = w.machine();
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let start = LifeState { index: vec![None; users], accts: vec![] };
    if let Err(e) = lw.verify(&m, &start) {
        panic!("account life setup failed: {e}");
    }
    let mut seen: HashSet<LifeState> = HashSet::new();
    seen.insert(start.clone());
    let mut q: VecDeque<(usize, LifeState, State, Vec<String>)> = VecDeque::new();
    q.push_back((0, start, w.start.clone(), vec![]));
    while let Some((d, s, st, path)) = q.pop_front() {
        c.states += 1;
        sample(|| path.join(" ; "));
        c.depth = c.depth.max(d as u64);
        let mut ops = vec![];
        for u in 0..users {
            ops.push(LOp::NewIndex(u));
            ops.push(LOp::CloseIndex(u));
            for n in 1..=MAX_NUM {
                // the right number, an old one and a later one
                let next = s.index[u].as_ref().map_or(1, |x| x.counter + 1);
                if n <= next + 1 {
                    ops.push(LOp::Create(u, n, 0));
                    if n == next {
                        ops.push(LOp::Create(u, n, 1));
                    }
                }
                for v in 0..users {
                    if s.accts.iter().any(|x| x.0 == (v, n)) {
                        ops.push(if u == v { LOp::Close(u, v, n) } else { LOp::CloseForeign(u, v, n) });
                    }
                }
                if s.accts.iter().any(|x| x.0 == (u, n)) {
                    ops.push(LOp::Fund(u, n));
                    ops.push(LOp::Drain(u, n));
                }
            }
        }
        for op in ops {
            m.load(&st);
            let sol0: u64 = [w.ids.payer, w.ids.sol_dest].iter().map(|i| m.lamports(*i)).sum();
            let o = match op {
                LOp::Fund(u, n) | LOp::Drain(u, n) => {
                    let k = s.accts.iter().find(|x| x.0 == (u, n)).unwrap().1 .0;
                    lw.fund(&mut m, u, n, k, matches!(op, LOp::Fund(..)))
                }
                _ => m.exec(&lw.ix(op)),
            };
            c.transitions += 1;
            c.compared += 1;
            let nm = format!("{op:?}");
            let e = c.by_op.entry(nm.split('(').next().unwrap().to_string()).or_default();
            if o.ok {
                c.ok += 1;
                e.0 += 1;
            } else {
                c.failed += 1;
                e.1 += 1;
            }
            let want = lw.apply(&s, op);
            let mut p = path.clone();
            p.push(nm);
            let mut fail = |what: String| {
                if bad.len() < 3 {
                    bad.push(Violation {
                        plan: "life of trading accounts".into(),
                        seed: p.join(" ; "),
                        ops: vec![],
                        what: format!("{what} after {}", p.join(" ; ")),
                        known: None,
                    })
                }
            };
            match (o.ok, want) {
                (true, None) => fail("succeeded but must be rejected".into()),
                (false, Some(_)) => fail(format!("failed ({}) but must succeed", o.err)),
                (false, None) => {}
                (true, Some(ns)) => {
                    if let Err(e) = lw.verify(&m, &ns) {
                        fail(e);
                        continue;
                    }
                    // rent comes from the payer and goes to the destination, nothing is lost
                    let rent = |m: &Machine| -> u64 {
                        (0..users)
                            .map(|u| {
                                m.lamports(w.ids.users[u].indexer) + lw.oo[u].iter().map(|a| m.lamports(*a)).sum::<u64>()
                            })
                            .sum()
                    };
                    let now = [w.ids.payer, w.ids.sol_dest].iter().map(|i| m.lamports(*i)).sum::<u64>() + rent(&m);
                    m.load(&st);
                    if now != sol0 + rent(&m) {
                        fail("lamports of rent lost".into());
                        continue;
                    }
                    if d < depth && seen.insert(ns.clone()) {
                        // recompute the successor state
                        let _ = match op {
                            LOp::Fund(u, n) | LOp::Drain(u, n) => {
                                let k = s.accts.iter().find(|x| x.0 == (u, n)).unwrap().1 .0;
                                lw.fund(&mut m, u, n, k, matches!(op, LOp::Fund(..)))
                            }
                            _ => m.exec(&lw.ix(op)),
                        };
                        q.push_back((d + 1, ns, m.save(), p.clone()));
                    }
                }
            }
        }
        if !bad.is_empty() {
            break;
        }
    }
    (c, bad)
}

/// Closing an account holding any combination of assets and obligations.
fn close_combinations() -> (Counts, Vec<Violation>) {
    let w = World::new(Cfg { oo_owners: vec![0], users: 1, ..cfg((0, 0)) });
    let mut m = w.machine();
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    // lots in bids, lots in asks, free base, free quote, locked fees, rebates,
    // penalties, quote lots in bids; then the two volumes
    let offs = [0usize, 8, 16, 24, 32, 40, 48, 88, 56, 72];
    for set in 0u32..1 << offs.len() {
        for amount in [1u64, 1 << 40] {
            m.load(&w.start);
            for (i, o) in offs.iter().enumerate() {
                if set >> i & 1 == 1 {
                    m.poke(w.ids.oo[0], 144 + o, &amount.to_le_bytes());
                }
            }
            let o = m.exec(&w.ix_close_oo(0, w.ids.oo[0]));
            c.transitions += 1;
            c.compared += 1;
            c.states += 1;
            sample(|| format!("closing with remainders {set:b} of {amount}"));
            let may = set & 0xff == 0;
            if o.ok {
                c.ok += 1;
            } else {
                c.failed += 1;
            }
            if o.ok != may && bad.len() < 3 {
                bad.push(Violation {
                    plan: "closing".into(),
                    seed: String::new(),
                    ops: vec![],
                    what: format!("account with holdings {set:010b} of {amount}: closing {}", if o.ok { "succeeded".into() } else { o.err }),
                    known: None,
                });
            }
        }
    }
    (c, bad)
}

/// One user with many accounts: numbers, addresses and listing stay exact.
fn many_accounts(n: u32) -> (Counts, Vec<Violation>) {
    let w = World::new(Cfg { oo_owners: vec![], users: 1, ..cfg((0, 0)) });
    let extra: Vec<Acct> = (1..=n).map(|k| Acct::empty(oo_key(&key("user0"), k), OO_LEN)).collect();
    let m = w.machine();
    let (mut w, ids) = w.freeze(&m, extra);
    let mut accts = w.image.accts.clone();
    accts[w.ids.users[0].indexer].cap = 17 + 32 * n as usize;
    w.image = Arc::new(Image::new(accts));
    let mut m = w.machine();
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let mut list: Vec<usize> = vec![];
    let mut step = |m: &mut Machine, ix: Ix, list: &Vec<usize>, counter: u32, what: String| {
        let o = m.exec(&ix);
        c.transitions += 1;
        c.compared += 1;
        c.states += 1;
        sample(|| what.clone());
        c.ok += o.ok as u64;
        let d = m.data(w.ids.users[0].indexer);
        let got: Vec<Pubkey> = if d.len() > 17 { (0..u32a(d, 13) as usize).map(|k| pka(d, 17 + 32 * k)).collect() } else { vec![] };
        let a: BTreeSet<Pubkey> = got.iter().cloned().collect();
        let b: BTreeSet<Pubkey> = list.iter().map(|i| w.k(*i)).collect();
        if (!o.ok || a != b || got.len() != b.len() || u32a(d, 9) != counter) && bad.len() < 3 {
            bad.push(Violation {
                plan: "many accounts".into(),
                seed: String::new(),
                ops: vec![],
                what: format!("{what}: ok {} {}, index lists {} of {} accounts, numbered {}", o.ok, o.err, got.len(), b.len(), u32a(d, 9)),
                known: None,
            });
        }
    };
    for k in 0..n {
        list.push(ids[k as usize]);
        let ix = w.ix_create_oo(0, ids[k as usize], &w.ids.m, None);
        step(&mut m, ix, &list, k + 1, format!("creating account {}", k + 1));
    }
    // close in a scattered order
    let mut k = 0usize;
    while !list.is_empty() {
        k = (k + 7) % list.len();
        let a = list.remove(k);
        let ix = w.ix_close_oo(0, a);
        step(&mut m, ix, &list, n, format!("closing one, {} left", list.len()));
    }
    (c, bad)
}

pub fn c30(t: Tier) -> Vec<Part> {
    let d = t.pick(7, 9);
    vec![
        Part::Custom("life of trading accounts, two users".into(), Box::new(move || life_bfs(2, d))),
        Part::Custom("life of trading accounts, one user".into(), Box::new(move || life_bfs(1, d + 4))),
        Part::Custom("closing with every combination of holdings".into(), Box::new(close_combinations)),
        Part::Custom("many accounts of one user".into(), Box::new(move || many_accounts(t.pick(40, 250)))),
    ]
}

// ---------------------------------------------------------------- C31

#[derive(Clone, Debug)]
struct MarketArgs {
    name: String,
    conf: f32,
    stale: Option<u32>,
    quote_lot: i64,
    base_lot: i64,
    maker: i64,
    taker: i64,
    expiry: i64,
    /// index into the oracle choices, or none
    oracle_a: Option<usize>,
    oracle_b: Option<usize>,
    admins: u8,
    same_mint: bool,
}
impl Default for MarketArgs {
    fn default() -> Self {
        MarketArgs {
            name: "NEW".into(),
            conf: 0.25,
            stale: Some(77),
            quote_lot: 100,
            base_lot: 1000,
            maker: -200,
            taker: 400,
            expiry: 0,
            oracle_a: None,
            oracle_b: None,
            admins: 7,
            same_mint: false,
        }
    }
}

struct Fresh {
    w: World,
    m: MarketIds,
    /// stub, stub, pyth, pyth, raydium, unreadable, empty
    oracles: Vec<(usize, u8)>,
}

fn fresh_market() -> Fresh {
    use crate::oracle::*;
    let w = World::new(Cfg { base_decimals: 9, quote_decimals: 6, ..cfg((0, 0)) });
    let mk = key("fresh_market");
    let auth = Pubkey::find_program_address(&[b"Market", mk.as_ref()], &prog()).0;
    let ata = |m: usize| anchor_spl::associated_token::get_associated_token_address(&auth, &w.k(m));
    let q = Quote { price: 10.0, dev: 0.0, slot: Some(1000) };
    let mut extra = vec![
        Acct::empty(mk, MARKET_LEN),
        Acct::empty(auth, 0),
        Acct::new(key("fresh_bids"), prog(), rent_min(BOOK_LEN), vec![0; BOOK_LEN]),
        Acct::new(key("fresh_asks"), prog(), rent_min(BOOK_LEN), vec![0; BOOK_LEN]),
        Acct::new(key("fresh_heap"), prog(), rent_min(HEAP_LEN), vec![0; HEAP_LEN]),
        Acct::empty(ata(w.ids.bmint), 165),
        Acct::empty(ata(w.ids.qmint), 165),
    ];
    let mut kinds = vec![];
    for (k, q) in [
        (Kind::Pyth, q),
        (Kind::PythPrev, q),
        (Kind::SwitchboardV2, q),
        (Kind::Raydium, Quote { slot: None, ..q }),
    ] {
        let (o, d) = account(k, &q).unwrap();
        extra.push(Acct::new(key(&format!("oracle_{k:?}")), o, 1 << 30, d));
        kinds.push(match k {
            Kind::Pyth | Kind::PythPrev => 1u8,
            Kind::SwitchboardV2 => 2,
            _ => 3,
        });
    }
    extra.push(Acct::new(key("junk_oracle"), key("evil_program"), 1 << 30, vec![7; 256]));
    kinds.push(255);
    let m = w.machine();
    let (w, e) = w.freeze(&m, extra);
    let mut oracles = vec![(w.ids.oracle_a, 0u8), (w.ids.oracle_b, 0u8)];
    for (i, k) in kinds.into_iter().enumerate() {
        oracles.push((e[7 + i], k));
    }
    // a readable account that is no oracle, and the market's own accounts
    oracles.push((w.ids.users[0].base, 255));
    oracles.push((w.ids.m.market, 255));
    let m = MarketIds { market: e[0], authority: e[1], bids: e[2], asks: e[3], heap: e[4], bvault: e[5], qvault: e[6] };
    Fresh { w, m, oracles }
}

impl Fresh {
    fn ix(&self, a: &MarketArgs) -> Ix {
        let w = &self.w;
        let i = &w.ids;
        let m = &self.m;
        let mut e = Enc::ix("create_market").str(&a.name).f32(a.conf);
        e = match a.stale {
            None => e.u8(0),
            Some(v) => e.u8(1).u32(v),
        };
        let data = e.i64(a.quote_lot).i64(a.base_lot).i64(a.maker).i64(a.taker).i64(a.expiry).0;
        let orc = |o: Option<usize>| ro(o.map_or(i.program, |k| self.oracles[k].0));
        let adm = |b: u8, k: usize| ro(if a.admins >> b & 1 == 1 { k } else { i.program });
        Ix {
            metas: vec![
                sw(m.market),
                ro(m.authority),
                rw(m.bids),
                rw(m.asks),
                rw(m.heap),
                sw(i.payer),
                rw(m.bvault),
                rw(m.qvault),
                ro(i.bmint),
                ro(if a.same_mint { i.bmint } else { i.qmint }),
                ro(i.system_program),
                ro(i.token_program),
                ro(i.ata_program),
                orc(a.oracle_a),
                orc(a.oracle_b),
                ro(i.fee_admin),
                adm(0, i.oo_admin),
                adm(1, i.consume_admin),
                adm(2, i.close_admin),
                ro(i.event_authority),
                ro(i.program),
            ],
            data,
        }
    }
    fn allowed(&self, a: &MarketArgs) -> bool {
        let fee = a.taker >= 0 && a.taker <= 1_000_000 && a.maker <= 1_000_000 && (a.maker >= 0 || a.maker as i128 + a.taker as i128 >= 0);
        let exp = a.expiry == 0 || a.expiry > self.w.start.now.ts;
        let orc = match (a.oracle_a, a.oracle_b) {
            (None, None) => true,
            (None, Some(_)) => false,
            (Some(x), None) => self.oracles[x].1 != 255,
            (Some(x), Some(y)) => x != y && self.oracles[x].1 == self.oracles[y].1 && self.oracles[x].1 != 255,
        };
        fee && exp && orc && a.base_lot > 0 && a.quote_lot > 0 && a.name.len() <= 16 && !a.same_mint
    }
    fn recorded(&self, m: &Machine, a: &MarketArgs, o: &Outcome) -> Result<(), String> {
        let w = &self.w;
        let i = &w.ids;
        let d = m.data(self.m.market);
        if d.len() != MARKET_LEN || d[..8] != disc("account", "Market") || m.owner(self.m.market) != prog() {
            return Err("market account not set up".into());
        }
        let z = Pubkey::default();
        let adm = |b: u8, k: usize| if a.admins >> b & 1 == 1 { w.k(k) } else { z };
        let orc = |o: Option<usize>| o.map_or(z, |k| w.k(self.oracles[k].0));
        let mut name = [0u8; 16];
        name[..a.name.len()].copy_from_slice(a.name.as_bytes());
        let keys: &[(usize, Pubkey, &str)] = &[
            (16, w.k(self.m.authority), "authority"),
            (56, w.k(i.fee_admin), "fee administrator"),
            (88, adm(0, i.oo_admin), "order administrator"),
            (120, adm(1, i.consume_admin), "event administrator"),
            (152, adm(2, i.close_admin), "closing administrator"),
            (200, w.k(self.m.bids), "bids"),
            (232, w.k(self.m.asks), "asks"),
            (264, w.k(self.m.heap), "event queue"),
            (296, orc(a.oracle_a), "first oracle"),
            (328, orc(a.oracle_b), "second oracle"),
            (576, w.k(i.bmint), "base mint"),
            (608, w.k(i.qmint), "quote mint"),
            (640, w.k(self.m.bvault), "base vault"),
            (680, w.k(self.m.qvault), "quote vault"),
        ];
        for (o, k, n) in keys {
            if pka(d, *o) != *k {
                return Err(format!("{n} recorded wrongly"));
            }
        }
        let ints: &[(usize, i64, &str)] = &[
            (48, a.expiry, "expiry"),
            (368, a.stale.map_or(-1, |x| x as i64), "staleness limit"),
            (448, a.quote_lot, "quote lot"),
            (456, a.base_lot, "base lot"),
            (464, 0, "sequence number"),
            (472, w.start.now.ts, "registration time"),
            (480, a.maker, "maker fee"),
            (488, a.taker, "taker fee"),
            (672, 0, "base total"),
            (712, 0, "quote total"),
        ];
        for (o, k, n) in ints {
            if i64a(d, *o) != *k {
                return Err(format!("{n} recorded as {} instead of {k}", i64a(d, *o)));
            }
        }
        if f64a(d, 360) != a.conf as f64 {
            return Err("confidence filter recorded wrongly".into());
        }
        if d[9] != 9 || d[10] != 6 || d[184..200] != name {
            return Err("decimals or name recorded wrongly".into());
        }
        if d[496..576].iter().any(|x| *x != 0) {
            return Err("new market does not start with zero statistics".into());
        }
        let mut x = w.clone();
        x.ids.m = self.m.clone();
        x.ids.oo = vec![];
        x.ids.oo_owner = vec![];
        let v = Parser::new(&x).parse(&x, m)?;
        if !v.bids.is_empty() || !v.asks.is_empty() || !v.events.is_empty() || v.bvault != 0 || v.qvault != 0 {
            return Err("new market is not empty".into());
        }
        for (vault, mint) in [(self.m.bvault, i.bmint), (self.m.qvault, i.qmint)] {
            let d = m.data(vault);
            if d.len() != 165 || pka(d, 0) != w.k(mint) || pka(d, 32) != w.k(self.m.authority) {
                return Err("vault not set up for the market".into());
            }
        }
        for (a, n) in [(self.m.bids, "BookSide"), (self.m.asks, "BookSide"), (self.m.heap, "EventHeap")] {
            if m.data(a)[..8] != disc("account", n) {
                return Err(format!("{n} account not marked"));
            }
        }
        let _ = o;
        Ok(())
    }
    fn run(&self, list: Vec<MarketArgs>) -> (Counts, Vec<Violation>) {
        let total: Mutex<(Counts, Vec<Violation>)> = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| {
                    let mut m = self.w.machine();
                    let mut c = Counts::default();
                    let mut bad: Vec<Violation> = vec![];
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= list.len() || bad.len() > 2 {
                            break;
                        }
                        let a = &list[i];
                        m.load(&self.w.start);
                        let o = m.exec(&self.ix(a));
                        c.transitions += 1;
                        c.compared += 1;
                        c.states += 1;
                        sample(|| format!("{a:?}"));
                        if o.ok {
                            c.ok += 1;
                        } else {
                            c.failed += 1;
                        }
                        let what = match (o.ok, self.allowed(a)) {
                            (true, false) => Some("created with unsafe parameters".to_string()),
                            (false, true) => Some(format!("refused: {}", o.err)),
                            (false, false) => None,
                            (true, true) => self.recorded(&m, a, &o).err(),
                        };
                        if let Some(what) = what {
                            bad.push(Violation {
                                plan: "creating markets".into(),
                                seed: format!("{a:?}"),
                                ops: vec![],
                                what: format!("{what}: {a:?}"),
                                known: None,
                            });
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.0.merge(&c);
                    g.1.extend(bad);
                });
            }
        });
        let (c, mut v) = total.into_inner().unwrap();
        v.truncate(3);
        (c, v)
    }
}

pub fn c31(t: Tier) -> Vec<Part> {
    let th = t == Tier::Thorough;
    let mut l = vec![
        Part::Custom(
            "fees, lot sizes and expiry".into(),
            Box::new(move || {
                let f = fresh_market();
                let now = f.w.start.now.ts;
                let fees: Vec<i64> = vec![i64::MIN, i64::MIN + 1, -1_000_001, -1_000_000, -500, -1, 0, 1, 500, 501, 1_000_000, 1_000_001, i64::MAX];
                let lots: Vec<i64> = if th { vec![i64::MIN, -1, 0, 1, 10, 1 << 40, i64::MAX] } else { vec![i64::MIN, -1, 0, 1, i64::MAX] };
                let exps = [i64::MIN, -1, 0, 1, now - 1, now, now + 1, i64::MAX];
                let mut a = vec![];
                for &maker in &fees {
                    for &taker in &fees {
                        for &base_lot in &lots {
                            for &quote_lot in &lots {
                                for &expiry in &exps {
                                    a.push(MarketArgs { maker, taker, base_lot, quote_lot, expiry, ..Default::default() });
                                }
                            }
                        }
                    }
                }
                f.run(a)
            }),
        ),
        Part::Custom(
            "oracles, administrators, name and mints".into(),
            Box::new(move || {
                let f = fresh_market();
                let mut a = vec![];
                let n = f.oracles.len();
                let ch: Vec<Option<usize>> = std::iter::once(None).chain((0..n).map(Some)).collect();
                for &oracle_a in &ch {
                    for &oracle_b in &ch {
                        for admins in 0..8u8 {
                            for name in ["", "A", "SIXTEEN-LETTERS!", "SEVENTEEN-LETTERS"] {
                                for stale in [None, Some(0), Some(u32::MAX)] {
                                    for same_mint in [false, true] {
                                        a.push(MarketArgs { oracle_a, oracle_b, admins, name: name.into(), stale, same_mint, conf: 0.125, ..Default::default() });
                                    }
                                }
                            }
                        }
                    }
                }
                f.run(a)
            }),
        ),
        Part::Custom("every account of the creation replaced".into(), Box::new(creation_accounts)),
    ];
    // parameters never change afterwards: every transition of the explored families
    l.extend(general(t, META, plain));
    l.extend(expired_market(t, META | EXP, plain));
    l
}

/// Creating a market over accounts in use must fail.
fn creation_accounts() -> (Counts, Vec<Violation>) {
    let f = fresh_market();
    let w = &f.w;
    let mut m = w.machine();
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let base = f.ix(&MarketArgs::default());
    for p in 0..base.metas.len() {
        for x in 0..w.image.accts.len() {
            if x == base.metas[p].acct {
                continue;
            }
            let mut ix = base.clone();
            ix.metas[p].acct = x;
            m.load(&w.start);
            let o = m.exec(&ix);
            c.transitions += 1;
            c.compared += 1;
            if !o.ok {
                c.failed += 1;
                continue;
            }
            c.ok += 1;
            // payer, mints, oracles and administrators are free to choose; the market address too if unused
            let free = matches!(p, 5 | 15 | 16 | 17 | 18 | 20);
            let pre_empty = w.image.accts[x].data.iter().all(|b| *b == 0);
            if !(free || (matches!(p, 2 | 3 | 4) && pre_empty) || matches!(p, 13 | 14)) && bad.len() < 3 {
                bad.push(Violation {
                    plan: "creating markets".into(),
                    seed: String::new(),
                    ops: vec![],
                    what: format!("creation accepted account {x} in position {p}"),
                    known: None,
                });
            }
            // nobody else's data may change
            for i in 0..w.image.accts.len() {
                let touched = ix.metas.iter().any(|q| q.acct == i && q.writable);
                if !touched && m.data(i) != &w.image.accts[i].data[..] {
                    bad.push(Violation {
                        plan: "creating markets".into(),
                        seed: String::new(),
                        ops: vec![],
                        what: format!("creation changed account {i}"),
                        known: None,
                    });
                }
            }
        }
    }
    c.states = base.metas.len() as u64;
    (c, bad)
}

// ---------------------------------------------------------------- C35

/// After success, nothing may have been created: the market is solvent, no
/// token appeared, and nobody gained more than the model allows.
fn extreme_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    if post.mkt.is_none() {
        return Ok(());
    }
    let sum = |v: &View| -> (i128, i128) {
        (
            v.wallets.iter().map(|x| x.0 as i128).sum::<i128>() + v.bvault as i128,
            v.wallets.iter().map(|x| x.1 as i128).sum::<i128>() + v.qvault as i128 + v.fee_receiver as i128 + v.referrer as i128,
        )
    };
    if sum(s.pre) != sum(post) {
        return Err("tokens appeared or vanished".into());
    }
    solvent(s.w, post)?;
    for o in post.oo.iter().flatten() {
        if o.bids_base < 0 || o.asks_base < 0 || o.bids_quote < 0 {
            return Err("negative amount of lots in orders".into());
        }
    }
    for sd in Side::both() {
        for o in post.book(sd) {
            if o.qty <= 0 || (!o.pegged && o.level() <= 0) {
                return Err(format!("resting order with quantity {} at {}", o.qty, o.level()));
            }
        }
    }
    if s.want.is_err() {
        return Err(format!("succeeded although it must be rejected ({})", s.want.as_ref().err().unwrap()));
    }
    Ok(())
}

const EXT: &[i64] = &[
    i64::MIN,
    i64::MIN + 1,
    -(1 << 32),
    -1,
    0,
    1,
    2,
    7,
    (1 << 31) - 1,
    1 << 31,
    1 << 32,
    (1 << 53) + 1,
    i64::MAX / 1000,
    i64::MAX / 10,
    i64::MAX / 2,
    i64::MAX / 2 + 1,
    i64::MAX - 1,
    i64::MAX,
];

fn extreme_ops(t: Tier, w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    let th = t == Tier::Thorough;
    let ext: Vec<i64> = if th { EXT.to_vec() } else { EXT.iter().cloned().filter(|x| *x != 1 << 31 && *x != -(1 << 32) && *x != i64::MIN + 1 && *x != i64::MAX / 1000).collect() };
    for side in Side::both() {
        for &price in &ext {
            for &base in &ext {
                for &quote in &ext {
                    let otypes: &[OType] = if th { &[OType::Limit, OType::PostOnly, OType::Slide, OType::Market, OType::Ioc, OType::Fok] } else { &[OType::Limit, OType::Slide, OType::Ioc] };
                    for &otype in otypes {
                        l.push(Op::Place { oo: 0, a: PlaceArgs { price, base, quote, otype, ..PlaceArgs::limit_order(side, 1, 1) }, rem: vec![] });
                    }
                    l.push(Op::Take {
                        user: 1,
                        a: TakeArgs { side, price, base, quote, otype: OType::Market, limit: 10 },
                        rem: vec![],
                    });
                }
            }
        }
        if w.cfg.oracles > 0 {
            for &offset in &ext {
                for &peg_limit in &ext {
                    for &base in &ext {
                        for quote in [1, 1000, i64::MAX / 2, i64::MAX] {
                            for otype in [OType::Limit, OType::Slide] {
                                l.push(Op::Peg { oo: 0, a: PegArgs { base, quote, otype, ..pega(side, offset, peg_limit, 1) }, rem: vec![] });
                            }
                        }
                    }
                }
            }
        }
        for &price in &ext {
            for &quote in &ext {
                let one = vec![MultiArgs { price, quote, expiry: 0 }];
                let (b, a) = if side == Bid { (one, vec![]) } else { (vec![], one) };
                l.push(Op::Many { oo: 0, cancel: false, otype: OType::Limit, bids: b, asks: a, limit: 10, rem: vec![] });
            }
        }
        for expiry in [0u64, 1, 999, 1000, 1001, 1000 + 65534, 1000 + 65535, 1000 + 65536, 1 << 32, 1 << 63, u64::MAX] {
            l.push(Op::Place { oo: 0, a: PlaceArgs { expiry, ..PlaceArgs::limit_order(side, 5, 1) }, rem: vec![] });
            l.push(Op::Many {
                oo: 0,
                cancel: true,
                otype: OType::Limit,
                bids: vec![MultiArgs { price: 3, quote: 30, expiry }],
                asks: vec![MultiArgs { price: 9, quote: 90, expiry }],
                limit: 255,
                rem: vec![],
            });
        }
    }
    for &expected in &ext {
        for &base in &ext {
            for side in Side::both() {
                l.push(Op::Edit { oo: 0, cancel_cid: 9, expected, a: PlaceArgs { base, quote: i64::MAX, ..PlaceArgs::limit_order(side, 5, 1) }, rem: vec![] });
            }
        }
    }
    let us: &[u64] = &[0, 1, 9, 1 << 32, 1 << 62, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    for &b in us {
        for &q in us {
            l.push(Op::Deposit { user: 0, oo: 0, base: b, quote: q });
            l.push(Op::Refill { user: 0, oo: 0, base: b, quote: q });
        }
        l.push(Op::CancelCid { oo: 0, cid: b });
        l.push(Op::Consume { limit: b, rem: vec![0, 1] });
        l.push(Op::ConsumeGiven { slots: vec![b, 0], rem: vec![0, 1] });
        for id in [b as u128, (b as u128) << 64, u128::MAX - b as u128] {
            l.push(Op::Cancel { oo: 0, id });
        }
    }
    for limit in [0u8, 1, 254, 255] {
        for oo in 0..2 {
            l.push(Op::CancelAll { oo, side: None, limit });
        }
        l.push(Op::Prune { oo: 0, limit });
    }
    let _ = v;
    l
}

pub fn c35(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    let big = 1u64 << 62;
    let grid: Vec<(i64, i64, (i64, i64), u64)> = vec![
        (1, 1, (0, 0), big),
        (1, 1, (0, 1000), (1 << 63) + 12),
        (10, 10, (123_457, 234_567), 1_000_000),
        (1, 1_000_000_000, (-100_001, 234_567), big),
        (1_000_000_000, 1, (500_000, 1_000_000), big),
        (i64::MAX, 1, (500, 1000), u64::MAX / 8),
        (1, i64::MAX, (-1000, 1000), u64::MAX / 8),
    ];
    for (bl, ql, f, bal) in grid.into_iter().take(t.pick(6, 7)) {
        l.push(world_part(move || {
            let w = World::new(Cfg {
                base_lot: bl,
                quote_lot: ql,
                // an oracle price far above the orders would keep them out of the book
                oracles: if bl > 1000 { 0 } else { 1 },
                base_balance: bal,
                quote_balance: bal,
                oo_owners: vec![0, 1],
                users: 2,
                ..cfg(f)
            });
            let small = bl < 1 << 40 && ql < 1 << 40;
            let mut seeds: Vec<(&str, Vec<Op>)> = vec![("empty", vec![])];
            if small {
                seeds.push(("two sided", vec![limc(1, Bid, 4, 3, 9), limc(1, Ask, 7, 3, 9), limc(0, Bid, 2, 2, 9)]));
                seeds.push((
                    "huge orders",
                    vec![
                        Op::Place { oo: 1, a: PlaceArgs { quote: i64::MAX / ql, ..PlaceArgs::limit_order(Ask, 1 << 30, (1 << 30).min((bal / 4 / bl as u64).max(1) as i64)) }, rem: vec![] },
                        Op::Place { oo: 1, a: PlaceArgs { quote: i64::MAX / ql, ..PlaceArgs::limit_order(Ask, i64::MAX, 1) }, rem: vec![] },
                        Op::Place { oo: 1, a: PlaceArgs { quote: i64::MAX / ql, ..PlaceArgs::limit_order(Bid, 1, (1 << 30).min((bal / 4 / ql as u64).max(1) as i64)) }, rem: vec![] },
                    ],
                ));
            }
            // a trade without an account pays out in whole tokens: also covered from here
            Plan::new(
                &format!("lots {bl}/{ql}, {}, balances {bal}", fees_name(f)),
                w,
                BOOK | FREE | LOCK | FEES | TOK | TOT | STRUCT,
                0,
                Box::new(|_, _| vec![]),
            )
            .seeds(seeds)
            .probe(Box::new(move |w, v| extreme_ops(t, w, v)))
            .step_mon(Box::new(extreme_mon))
        }));
    }
    l
}
