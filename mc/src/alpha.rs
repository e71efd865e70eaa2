//! Alphabets: generators of operations used by the plans.

use crate::view::*;
use crate::world::*;

pub const FEES3: [(i64, i64); 3] = [(0, 0), (123_457, 234_567), (-100_001, 234_567)];

pub fn fees_name(f: (i64, i64)) -> String {
    format!("maker{}ppm,taker{}ppm", f.0, f.1)
}

pub fn cfg(f: (i64, i64)) -> Cfg {
    Cfg { maker_fee: f.0, taker_fee: f.1, oo_owners: vec![0, 1], ..Default::default() }
}

pub fn lim(oo: usize, side: Side, price: i64, base: i64) -> Op {
    Op::Place { oo, a: PlaceArgs::limit_order(side, price, base), rem: vec![] }
}
pub fn limr(oo: usize, side: Side, price: i64, base: i64, rem: Vec<usize>) -> Op {
    Op::Place { oo, a: PlaceArgs::limit_order(side, price, base), rem }
}
pub fn limc(oo: usize, side: Side, price: i64, base: i64, cid: u64) -> Op {
    let mut a = PlaceArgs::limit_order(side, price, base);
    a.cid = cid;
    Op::Place { oo, a, rem: vec![] }
}
pub fn lime(oo: usize, side: Side, price: i64, base: i64, expiry: u64) -> Op {
    let mut a = PlaceArgs::limit_order(side, price, base);
    a.expiry = expiry;
    Op::Place { oo, a, rem: vec![] }
}
pub fn pega(side: Side, offset: i64, peg_limit: i64, base: i64) -> PegArgs {
    PegArgs {
        side,
        offset,
        peg_limit,
        base,
        quote: 1_000_000,
        cid: 0,
        otype: OType::Limit,
        expiry: 0,
        st: SelfTrade::Decrement,
        limit: 10,
    }
}
pub fn peg(oo: usize, side: Side, offset: i64, peg_limit: i64, base: i64) -> Op {
    Op::Peg { oo, a: pega(side, offset, peg_limit, base), rem: vec![] }
}
/// A taker without an account, any price.
pub fn take(user: usize, side: Side, base: i64, rem: Vec<usize>) -> Op {
    Op::Take {
        user,
        a: TakeArgs {
            side,
            price: if side == Side::Bid { 1000 } else { 1 },
            base,
            quote: 1_000_000,
            otype: OType::Market,
            limit: 10,
        },
        rem,
    }
}
pub fn all(w: &World) -> Vec<usize> {
    (0..w.cfg.oo_owners.len()).collect()
}
pub fn others(w: &World, oo: usize) -> Vec<usize> {
    (0..w.cfg.oo_owners.len()).filter(|x| *x != oo).collect()
}

/// Cancels of every order listed by every account.
pub fn cancels(v: &View) -> Vec<Op> {
    let mut l = vec![];
    for (k, o) in v.oo.iter().enumerate() {
        if let Some(o) = o {
            for e in &o.orders {
                l.push(Op::Cancel { oo: k, id: e.id });
            }
        }
    }
    l
}

pub fn live(v: &View) -> bool {
    v.mkt.is_some()
}

/// The general market alphabet: several makers and takers, direct and queued
/// delivery, cancels, settlement with and without referrer, crank, sweep.
pub fn market_ops(w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    for oo in 0..2 {
        for side in Side::both() {
            for price in [3, 4] {
                for base in [1, 2] {
                    for rem in [vec![], others(w, oo)] {
                        // passing makers only matters when something crosses
                        if !rem.is_empty() && v.book(side.inv()).is_empty() {
                            continue;
                        }
                        let mut a = PlaceArgs::limit_order(side, price, base);
                        a.cid = (10 * price + base) as u64;
                        l.push(Op::Place { oo, a, rem });
                    }
                }
            }
        }
        l.push(Op::Settle { oo, referrer: oo == 0 });
    }
    l.extend(cancels(v));
    for side in Side::both() {
        if !v.book(side.inv()).is_empty() {
            for rem in [vec![], vec![0], vec![0, 1]] {
                l.push(take(2, side, 3, rem));
            }
        }
    }
    if !v.events.is_empty() {
        l.push(Op::Consume { limit: 1, rem: vec![0, 1] });
        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
        l.push(Op::Consume { limit: 8, rem: vec![1] });
    }
    l.push(Op::Sweep);
    l
}

/// Less frequent operations, executed and judged in every state.
pub fn market_probes(w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    for oo in 0..2 {
        l.push(Op::Settle { oo, referrer: oo == 1 });
        l.push(Op::CancelAll { oo, side: None, limit: 5 });
        l.push(Op::CancelAll { oo, side: Some(Side::Bid), limit: 1 });
        l.push(Op::CancelAll { oo, side: Some(Side::Ask), limit: 1 });
        l.push(Op::CancelCid { oo, cid: 0 });
        l.push(Op::CancelCid { oo, cid: 32 });
        l.push(Op::Deposit { user: oo, oo, base: 7, quote: 11 });
        l.push(Op::Refill { user: oo, oo, base: 15, quote: 25 });
        l.push(Op::CloseOo { oo });
        for side in Side::both() {
            for otype in [OType::Ioc, OType::PostOnly, OType::Slide, OType::Market, OType::Fok] {
                let mut a = PlaceArgs::limit_order(side, 4, 2);
                a.otype = otype;
                a.quote = 9;
                l.push(Op::Place { oo, a, rem: others(w, oo) });
            }
            let mut a = PlaceArgs::limit_order(side, 3, 3);
            a.st = SelfTrade::CancelProvide;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            a.st = SelfTrade::Abort;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            l.push(Op::Edit { oo, cancel_cid: if side == Side::Bid { 0 } else { 42 }, expected: 2, a: a.clone(), rem: vec![] });
        }
        l.push(Op::Many {
            oo,
            cancel: true,
            otype: OType::Limit,
            bids: vec![MultiArgs { price: 3, quote: 7, expiry: 0 }],
            asks: vec![MultiArgs { price: 4, quote: 9, expiry: 0 }],
            limit: 5,
            rem: vec![],
        });
        l.push(Op::Many {
            oo,
            cancel: false,
            otype: OType::PostOnly,
            bids: vec![MultiArgs { price: 3, quote: 7, expiry: 0 }],
            asks: vec![MultiArgs { price: 4, quote: 9, expiry: 0 }],
            limit: 5,
            rem: vec![],
        });
    }
    for s in &v.ev_slots {
        l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
    }
    l
}

/// Start states that are expensive to reach by search: partial fills with
/// unprocessed events, locked remainders, mixed sides.
pub fn market_seeds() -> Vec<(&'static str, Vec<Op>)> {
    use Side::*;
    vec![
        ("start", vec![]),
        (
            "pending partial bid fills",
            vec![lim(0, Bid, 4, 2), lim(1, Bid, 3, 2), take(2, Ask, 3, vec![]), lim(1, Ask, 5, 2)],
        ),
        (
            "pending partial ask fills",
            vec![lim(1, Ask, 3, 2), lim(0, Ask, 4, 2), take(2, Bid, 3, vec![]), lim(0, Bid, 2, 3)],
        ),
        (
            "half settled",
            vec![
                lim(0, Bid, 4, 3),
                take(2, Ask, 1, vec![0]),
                lim(1, Ask, 4, 1),
                Op::Settle { oo: 1, referrer: true },
                lim(0, Ask, 5, 2),
                take(2, Bid, 1, vec![]),
            ],
        ),
    ]
}

// ---------------------------------------------------------------- pegged

pub fn peg_ops(_w: &World, v: &View) -> Vec<Op> {
    use Side::*;
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    for oo in 0..2 {
        l.push(peg(oo, Bid, 0, 12, 2));
        l.push(peg(oo, Bid, -1, 10, 1));
        l.push(peg(oo, Ask, 0, 8, 2));
        l.push(peg(oo, Ask, 1, 10, 1));
        l.push(lim(oo, Bid, 10, 1));
        l.push(lim(oo, Ask, 10, 2));
    }
    for side in Side::both() {
        if !v.book(side.inv()).is_empty() {
            l.push(take(2, side, 1, vec![]));
            l.push(take(2, side, 9, vec![0, 1]));
        }
    }
    for price in [9, 10, 13, u64::MAX] {
        if (price == u64::MAX && v.oracle_ok) || (price != u64::MAX && (v.oracle != price || !v.oracle_ok)) {
            l.push(Op::Oracle { price });
        }
    }
    if !v.events.is_empty() {
        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
    }
    l.extend(cancels(v));
    l
}

pub fn peg_probes(_w: &World, v: &View) -> Vec<Op> {
    use Side::*;
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    for side in Side::both() {
        for off in [-2, 0, 2] {
            for limit in [7, 10, 13] {
                for otype in [OType::Limit, OType::PostOnly, OType::Slide] {
                    let mut a = pega(side, off, limit, 3);
                    a.otype = otype;
                    a.quote = if off == 0 { 25 } else { 1_000_000 };
                    l.push(Op::Peg { oo: 0, a, rem: vec![1] });
                }
            }
        }
        for b in [1, 2, 4] {
            for otype in [OType::Ioc, OType::Fok] {
                l.push(Op::Take {
                    user: 2,
                    a: TakeArgs { side, price: 10, base: b, quote: 1_000_000, otype, limit: 3 },
                    rem: vec![0],
                });
            }
        }
        let mut a = pega(side, 0, 10, 2);
        for x in [OType::Ioc, OType::Market, OType::Fok] {
            a.otype = x;
            l.push(Op::Peg { oo: 1, a: a.clone(), rem: vec![] });
        }
        a.otype = OType::Limit;
        for lm in [0, -1, i64::MAX, i64::MIN] {
            a.peg_limit = lm;
            l.push(Op::Peg { oo: 1, a: a.clone(), rem: vec![] });
        }
        for off in [i64::MIN, i64::MIN + 9, -10, -9, i64::MAX - 10, i64::MAX] {
            let mut a = pega(side, off, if side == Bid { 12 } else { 8 }, 2);
            l.push(Op::Peg { oo: 1, a: a.clone(), rem: vec![] });
            a.otype = OType::Slide;
            l.push(Op::Peg { oo: 1, a, rem: vec![] });
        }
        let mut a = PlaceArgs::limit_order(side, 10, 3);
        a.otype = OType::Slide;
        l.push(Op::Place { oo: 0, a, rem: vec![] });
    }
    for price in [1, 2, 8, 11, 12] {
        l.push(Op::Oracle { price });
    }
    l.push(Op::Settle { oo: 0, referrer: false });
    l.push(Op::CancelAll { oo: 0, side: None, limit: 9 });
    l
}

pub fn peg_seeds() -> Vec<(&'static str, Vec<Op>)> {
    use Side::*;
    vec![
        ("start", vec![]),
        (
            "mixed bids",
            vec![peg(0, Bid, -1, 11, 2), lim(1, Bid, 9, 1), peg(1, Bid, -2, 9, 2), peg(0, Bid, -12, 9, 1), Op::Oracle { price: 11 }],
        ),
        (
            "mixed asks",
            vec![peg(0, Ask, 1, 9, 2), lim(1, Ask, 11, 1), peg(1, Ask, 2, 11, 2), peg(0, Ask, -9, 1, 1), Op::Oracle { price: 9 }],
        ),
        ("both, partly filled", vec![peg(0, Bid, -1, 14, 3), peg(1, Ask, 1, 6, 3), take(2, Ask, 1, vec![]), take(2, Bid, 2, vec![])]),
    ]
}

// ---------------------------------------------------------------- expiry

pub fn timed_ops(w: &World, v: &View) -> Vec<Op> {
    use Side::*;
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    let now = v.now.ts as u64;
    for side in Side::both() {
        let p = if side == Bid { 9 } else { 11 };
        if v.book(side).len() < 9 {
            for (k, e) in [(0, now + 1), (1, now + 2), (1, 0)] {
                l.push(lime(k, side, p, 1, e));
            }
            if w.cfg.oracles > 0 {
                let mut a = pega(side, if side == Bid { -1 } else { 1 }, if side == Bid { 30 } else { 1 }, 1);
                a.expiry = now + 1;
                l.push(Op::Peg { oo: 0, a, rem: vec![] });
            }
        }
        if !v.book(side.inv()).is_empty() {
            l.push(take(2, side, 2, vec![]));
            l.push(take(2, side, 2, vec![0]));
        }
    }
    if v.now.ts < 1010 {
        l.push(Op::Advance { dt: 1 });
    }
    if !v.events.is_empty() {
        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
    }
    l.push(Op::CancelAll { oo: 0, side: None, limit: 9 });
    l
}

pub fn timed_probes(w: &World, v: &View) -> Vec<Op> {
    use Side::*;
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    let now = v.now.ts as u64;
    for side in Side::both() {
        for e in [1, now - 1, now, now + 1, now + 65535, now + 65536, u64::MAX] {
            l.push(lime(1, side, 10, 2, e));
            if w.cfg.oracles > 0 {
                let mut a = pega(side, 0, if side == Bid { 30 } else { 1 }, 1);
                a.expiry = e;
                l.push(Op::Peg { oo: 0, a, rem: vec![] });
            }
        }
        for b in [1, 4] {
            for rem in [vec![], vec![0], vec![0, 1]] {
                l.push(take(2, side, b, rem.clone()));
                l.push(limr(1, side, if side == Bid { 12 } else { 8 }, b, if rem.is_empty() { rem } else { vec![0] }));
            }
        }
        let mut a = PlaceArgs::limit_order(side, 10, 1);
        for o in [OType::PostOnly, OType::Slide] {
            a.otype = o;
            a.price = if side == Bid { 11 } else { 9 };
            l.push(Op::Place { oo: 0, a: a.clone(), rem: vec![] });
        }
    }
    l.push(Op::Many {
        oo: 0,
        cancel: false,
        otype: OType::Limit,
        bids: vec![MultiArgs { price: 8, quote: 20, expiry: now + 1 }, MultiArgs { price: 8, quote: 20, expiry: now }],
        asks: vec![MultiArgs { price: 12, quote: 20, expiry: now + 2 }],
        limit: 5,
        rem: vec![],
    });
    l.push(Op::Settle { oo: 0, referrer: false });
    l.push(Op::Settle { oo: 1, referrer: false });
    l.extend(cancels(v).into_iter().take(4));
    l.push(Op::Advance { dt: 2 });
    l.push(Op::Advance { dt: 65535 });
    l
}

pub fn timed_seeds(pegged: bool) -> Vec<(&'static str, Vec<Op>)> {
    use Side::*;
    let mut seeds = vec![("start", vec![])];
    for side in Side::both() {
        let s = if side == Bid { -1 } else { 1 };
        // more expiring orders than one instruction removes, one that stays
        let mut l: Vec<Op> = (0..7).map(|i| lime(i % 2, side, 10 + s * (1 + i as i64 % 3), 1, 1002 + (i as u64 % 2))).collect();
        l.push(lim(1, side, 10 + 2 * s, 2));
        l.push(Op::Advance { dt: 1 });
        seeds.push((if side == Bid { "many bids expire next" } else { "many asks expire next" }, l.clone()));
        l.push(Op::Advance { dt: 2 });
        seeds.push((if side == Bid { "many bids expired" } else { "many asks expired" }, l.clone()));
        if pegged {
            let mut l: Vec<Op> = (0..3).map(|i| lime(i % 2, side, 10 + s, 1, 1002 + i as u64)).collect();
            for i in 0..3 {
                let mut a = pega(side, s * (1 + i), if side == Bid { 30 } else { 1 }, 2);
                a.expiry = 1002 + (i as u64) % 2;
                l.push(Op::Peg { oo: (i % 2) as usize, a, rem: vec![] });
            }
            l.push(Op::Advance { dt: 2 });
            seeds.push((if side == Bid { "pegged bids" } else { "pegged asks" }, l));
        }
    }
    seeds
}
