//! One entry per property.

use crate::alpha::*;
use crate::explore::facet::*;
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use Side::*;

pub fn world_part(f: impl Fn() -> Plan + 'static) -> Part {
    Part::World(Box::new(f))
}

/// The general market family for every fee setting.
pub fn general(tier: Tier, mask: u32, with: fn(Plan) -> Plan) -> Vec<Part> {
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("market {}", fees_name(f)),
                    World::new(cfg(f)),
                    mask,
                    tier.pick(2, 3),
                    Box::new(market_ops),
                )
                .seeds(market_seeds())
                .probe(Box::new(market_probes)),
            )
        }));
    }
    l
}
pub fn plain(p: Plan) -> Plan {
    p
}

/// Pegged and fixed orders with a moving oracle.
pub fn pegged(tier: Tier, mask: u32, with: fn(Plan) -> Plan) -> Vec<Part> {
    let mut l = vec![];
    for f in [FEES3[1], FEES3[2]] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("pegged {}", fees_name(f)),
                    World::new(Cfg { oracles: 1, ..cfg(f) }),
                    mask,
                    tier.pick(2, 3),
                    Box::new(peg_ops),
                )
                .seeds(peg_seeds())
                .probe(Box::new(peg_probes)),
            )
        }));
    }
    l
}

/// Orders with expiries around a moving clock.
pub fn timed(tier: Tier, mask: u32, with: fn(Plan) -> Plan) -> Vec<Part> {
    let mut l = vec![];
    for (f, orc) in [(FEES3[0], 0), (FEES3[1], 1)] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("expiring orders {}{}", fees_name(f), if orc > 0 { ", pegged" } else { "" }),
                    World::new(Cfg { oracles: orc, ..cfg(f) }),
                    mask,
                    tier.pick(3, 4),
                    Box::new(timed_ops),
                )
                .seeds(timed_seeds(orc > 0))
                .probe(Box::new(timed_probes)),
            )
        }));
    }
    l
}

/// Worlds of another check judged with this check's facets and monitor; the
/// depth is given per world (by position) or left out.
fn borrow(parts: Vec<Part>, depths: &[(usize, usize)], mask: u32, with: fn(Plan) -> Plan) -> Vec<Part> {
    let mut l = vec![];
    for (i, part) in parts.into_iter().enumerate() {
        let (f, d) = match (part, depths.iter().find(|x| x.0 == i)) {
            (Part::World(f), Some(x)) => (f, x.1),
            _ => continue,
        };
        l.push(world_part(move || {
            let mut p = f();
            p.name = format!("{} (depth {d})", p.name);
            p.mask = mask;
            p.depth = d;
            p.step_mon = None;
            p.state_mon = None;
            with(p)
        }));
    }
    l
}

/// All situations built for single properties, searched less deeply: what is
/// special in one of them may break any other property. `own` are the
/// families the check searches anyway.
pub fn wide(t: Tier, mask: u32, own: &[u32], with: fn(Plan) -> Plan) -> Vec<Part> {
    let th = t == Tier::Thorough;
    let x = th as usize;
    let q = Tier::Quick;
    let fam: Vec<(u32, Vec<Part>, Vec<(usize, usize)>)> = vec![
        (1, general(q, mask, plain), vec![(0, 1), (1, 2), (2, 1 + x)]),
        (2, pegged(q, mask, plain), vec![(0, 1 + x), (1, 1 + x)]),
        (3, timed(q, mask, plain), vec![(0, 2 + x), (1, 1 + x)]),
        (29, expired_market(q, mask, plain), vec![(0, 2 + x), (1, 2 + x)]),
        (4, own04(q), vec![(1, 1), (2, x)]),
        (6, own06(q), vec![(10, 1), (20, 1), (23, 1), (29, 1), (32, 1)]),
        (7, priority(q), vec![(0, 3 + x), (1, 3 + x)]),
        (8, own08(q), vec![(1, x)]),
        (9, own09(q), vec![(2, 1 + x)]),
        (10, own10(q), vec![(2, 1)]),
        (11, own11(q), vec![(1, 1), (2, x)]),
        (13, own13(q), vec![(2, 3), (3, 3)]),
        (15, own15(q), vec![(0, 1), (1, 1), (2, 0), (3, 0)]),
        (16, own16(q), vec![(1, 0), (2, 0), (4, x), (5, 0), (8, 0)]),
        (18, own18(q), vec![(5, 2)]),
        (21, own21(q), vec![(1, 2), (3, 1)]),
        (22, own22(q), vec![(0, 1)]),
        (23, own23(q), vec![(2, x), (3, 1)]),
        (24, own24(q), vec![(7, 1)]),
        (32, own32(q), vec![(1, 2)]),
    ];
    let mut l = vec![];
    for (n, parts, depths) in fam {
        if !own.contains(&n) {
            l.extend(borrow(parts, &depths, mask, with));
        }
    }
    l
}

// ---------------------------------------------------------------- C01

/// Tokens owed per token: (base, quote).
pub fn owed(w: &World, v: &View) -> (i128, i128) {
    let (bl, ql) = (w.cfg.base_lot as i128, w.cfg.quote_lot as i128);
    let fees = Fees { mf: w.cfg.maker_fee as i128, tf: w.cfg.taker_fee as i128 };
    let mut b = 0i128;
    let mut q = 0i128;
    for o in v.oo.iter().flatten() {
        b += o.base_free as i128 + o.asks_base as i128 * bl;
        q += o.quote_free as i128 + o.bids_quote as i128 * ql + o.locked_fees as i128 + o.rebates as i128;
    }
    q += v.m().fees_available as i128;
    for e in &v.events {
        if let Ev::Fill { taker_side, maker, taker, price, qty, .. } = e {
            let n = *qty as i128 * *price as i128 * ql;
            let r = if maker == taker { 0 } else { fees.rebate(n) };
            match taker_side {
                Side::Ask => {
                    q += r - n;
                    b += *qty as i128 * bl;
                }
                Side::Bid => {
                    q += n + r;
                    b -= *qty as i128 * bl;
                }
            }
        }
    }
    (b, q)
}

pub fn solvent(w: &World, v: &View) -> Result<(), String> {
    if v.mkt.is_none() {
        if v.bvault != 0 || v.qvault != 0 {
            return Err(format!("market closed with {} base and {} quote in its vaults", v.bvault, v.qvault));
        }
        return Ok(());
    }
    let (b, q) = owed(w, v);
    if b != v.bvault as i128 {
        return Err(format!("base vault holds {} but {} is owed", v.bvault, b));
    }
    if q != v.qvault as i128 {
        return Err(format!("quote vault holds {} but {} is owed", v.qvault, q));
    }
    if v.m().base_total != v.bvault || v.m().quote_total != v.qvault {
        return Err(format!(
            "recorded totals {}/{} differ from vaults {}/{}",
            v.m().base_total,
            v.m().quote_total,
            v.bvault,
            v.qvault
        ));
    }
    let reb: u128 = v.oo.iter().flatten().map(|o| o.rebates as u128).sum();
    if reb != v.m().rebates_accrued as u128 {
        return Err(format!("accounts hold {} rebates but the market records {}", reb, v.m().rebates_accrued));
    }
    Ok(())
}

pub fn with_solvency(p: Plan) -> Plan {
    p.step_mon(Box::new(|s| match s.post {
        Some(v) => solvent(s.w, v),
        None => Ok(()),
    }))
}

fn c01(t: Tier) -> Vec<Part> {
    let mut l = general(t, FUNDS, with_solvency);
    l.extend(pegged(t, FUNDS, with_solvency));
    l.extend(timed(t, FUNDS, with_solvency));
    l.extend(expired_market(t, FUNDS, with_solvency));
    l.extend(wide(t, FUNDS, &[1, 2, 3, 29], with_solvency));
    l
}

// ---------------------------------------------------------------- C02

fn must(w: &World, m: &mut Machine, n: &mut u64, op: Op) -> Result<(), String> {
    *n += 1;
    let o = w.run(m, &op);
    if o.ok {
        Ok(())
    } else {
        Err(format!("wind-down step {op:?} failed: {}", o.err))
    }
}

/// Everybody leaves by themselves, or the administrator clears the market.
fn wind_down(w: &World, p: &Parser, m: &mut Machine, st: &State, pre: &View, admin: bool) -> Result<u64, String> {
    m.load(st);
    let mut n = 0u64;
    if pre.mkt.is_none() {
        return Ok(0);
    }
    let expired = |v: &View| v.m().time_expiry != 0 && v.m().time_expiry < v.now.ts;
    if admin && !expired(pre) {
        must(w, m, &mut n, Op::SetExpired)?;
    }
    let open: Vec<usize> = (0..pre.oo.len()).filter(|k| pre.oo[*k].is_some()).collect();
    for &k in &open {
        let op = if admin { Op::Prune { oo: k, limit: 255 } } else { Op::CancelAll { oo: k, side: None, limit: 255 } };
        must(w, m, &mut n, op)?;
    }
    let mut left = pre.events.len();
    while left > 0 {
        must(w, m, &mut n, Op::Consume { limit: 8, rem: open.clone() })?;
        let v = p.parse(w, m)?;
        if v.events.len() >= left {
            return Err(format!("{} events cannot be processed", v.events.len()));
        }
        left = v.events.len();
    }
    for &k in &open {
        let op = if admin {
            Op::SettleExpired { oo: k, referrer: k % 2 == 0 }
        } else {
            Op::Settle { oo: k, referrer: k % 2 == 1 }
        };
        must(w, m, &mut n, op)?;
    }
    must(w, m, &mut n, Op::Sweep)?;
    let v = p.parse(w, m)?;
    if v.bvault != 0 || v.qvault != 0 {
        return Err(format!("{} base and {} quote left in the vaults after everybody left", v.bvault, v.qvault));
    }
    if !v.bids.is_empty() || !v.asks.is_empty() {
        return Err("orders left after everybody cancelled".into());
    }
    let total = |v: &View| {
        let b: u128 = v.wallets.iter().map(|x| x.0 as u128).sum::<u128>() + v.bvault as u128;
        let q: u128 =
            v.wallets.iter().map(|x| x.1 as u128).sum::<u128>() + v.qvault as u128 + v.fee_receiver as u128 + v.referrer as u128;
        (b, q)
    };
    if total(pre) != total(&v) {
        return Err(format!("tokens before {:?} and after {:?} wind-down differ", total(pre), total(&v)));
    }
    for &k in &open {
        must(w, m, &mut n, Op::CloseOo { oo: k })?;
    }
    if !admin && !expired(&v) {
        must(w, m, &mut n, Op::SetExpired)?;
    }
    must(w, m, &mut n, Op::CloseMarket)?;
    Ok(n)
}

fn with_wind_down(p: Plan) -> Plan {
    p.state_mon(Box::new(|w, p, m, st, v| {
        Ok(wind_down(w, p, m, st, v, false)? + wind_down(w, p, m, st, v, true)?)
    }))
}

const M02: u32 = RES | FUNDS | STRUCT | SOL;
fn c02(t: Tier) -> Vec<Part> {
    const M: u32 = M02;
    let mut l = general(t, M, with_wind_down);
    l.extend(pegged(t, M, with_wind_down));
    l.extend(timed(t, M, with_wind_down));
    l.extend(expired_market(t, M, with_wind_down));
    l.extend(wide(t, M, &[1, 2, 3, 29], with_solvency));
    l
}

// ---------------------------------------------------------------- C03

/// Open orders accounts and users whose consent the operation carries.
fn actor(w: &World, op: &Op) -> (Option<usize>, Option<usize>) {
    let own = |oo: &usize| (Some(*oo), Some(w.ids.oo_owner[*oo]));
    match op {
        Op::Place { oo, .. }
        | Op::Peg { oo, .. }
        | Op::Edit { oo, .. }
        | Op::EditPeg { oo, .. }
        | Op::Many { oo, .. }
        | Op::Cancel { oo, .. }
        | Op::CancelCid { oo, .. }
        | Op::CancelAll { oo, .. }
        | Op::Settle { oo, .. }
        | Op::CloseOo { oo }
        | Op::SetDelegate { oo, .. } => own(oo),
        Op::Take { user, .. } | Op::Deposit { user, .. } | Op::Refill { user, .. } => (None, Some(*user)),
        _ => (None, None),
    }
}

/// Position value of one account including undelivered fills: (base, quote) native.
fn holdings(w: &World, v: &View, k: usize) -> Option<(i128, i128)> {
    let (bl, ql) = (w.cfg.base_lot as i128, w.cfg.quote_lot as i128);
    let f = Fees { mf: w.cfg.maker_fee as i128, tf: w.cfg.taker_fee as i128 };
    let o = v.oo[k].as_ref()?;
    let mut b = o.base_free as i128 + o.asks_base as i128 * bl;
    let mut q = o.quote_free as i128 + o.bids_quote as i128 * ql + o.locked_fees as i128;
    for e in &v.events {
        if let Ev::Fill { taker_side, maker, taker, price, qty, .. } = e {
            if *maker != Who::Oo(k) {
                continue;
            }
            let n = *qty as i128 * *price as i128 * ql;
            let own = maker == taker;
            let fee = if own { 0 } else { f.maker_floor(n) - f.rebate(n) };
            match taker_side {
                Side::Ask => {
                    b += *qty as i128 * bl;
                    q -= n + fee;
                }
                Side::Bid => {
                    b -= *qty as i128 * bl;
                    q += n - fee;
                }
            }
        }
    }
    Some((b, q))
}

fn isolation(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    if matches!(s.op, Op::Advance { .. } | Op::Oracle { .. } | Op::CloseMarket) {
        return Ok(());
    }
    let (me, user) = actor(s.w, s.op);
    for u in 0..s.w.cfg.users {
        if Some(u) == user {
            continue;
        }
        let (a, b) = (s.pre.wallets[u], post.wallets[u]);
        if b.0 < a.0 || b.1 < a.1 {
            return Err(format!("wallet of user {u}, who did not sign, fell from {a:?} to {b:?}"));
        }
        if a != b && !matches!(s.op, Op::SettleExpired { oo, .. } if s.w.ids.oo_owner[*oo] == u) {
            return Err(format!("wallet of user {u} changed without their action"));
        }
    }
    let (bl, ql) = (s.w.cfg.base_lot as i128, s.w.cfg.quote_lot as i128);
    let f = Fees { mf: s.w.cfg.maker_fee as i128, tf: s.w.cfg.taker_fee as i128 };
    for k in 0..s.pre.oo.len() {
        if Some(k) == me {
            continue;
        }
        let (pre, po) = match (&s.pre.oo[k], &post.oo[k]) {
            (None, None) => continue,
            (Some(a), Some(b)) => (a, b),
            _ => return Err(format!("account {k} was opened or closed by somebody else")),
        };
        if (pre.owner, pre.delegate, pre.market, pre.num) != (po.owner, po.delegate, po.market, po.num) {
            return Err(format!("ownership of account {k} changed without its owner"));
        }
        if matches!(s.op, Op::SettleExpired { oo, .. } if *oo == k) {
            continue;
        }
        if let (Op::Deposit { oo, .. }, true) | (Op::Refill { oo, .. }, true) = (s.op, true) {
            if *oo == k {
                if po.base_free < pre.base_free || po.quote_free < pre.quote_free {
                    return Err(format!("deposit reduced account {k}"));
                }
                continue;
            }
        }
        let ((b0, q0), (b1, q1)) = (holdings(s.w, s.pre, k).unwrap(), holdings(s.w, post, k).unwrap());
        // orders that lost size in the book
        let mut gone: Vec<(Side, i128, i128)> = vec![];
        for side in Side::both() {
            for o in s.pre.book(side).iter().filter(|o| o.owner == Who::Oo(k)) {
                let now = post.book(side).iter().find(|x| x.key == o.key && x.pegged == o.pegged).map_or(0, |x| x.qty);
                if now > o.qty {
                    return Err(format!("order {} of account {k} grew", o.key));
                }
                if now < o.qty {
                    let worst = if o.pegged { o.peg_limit } else { o.level() } as i128;
                    gone.push((side, worst, (o.qty - now) as i128));
                }
            }
            for o in post.book(side).iter().filter(|o| o.owner == Who::Oo(k)) {
                if !s.pre.book(side).iter().any(|x| x.key == o.key && x.pegged == o.pegged) {
                    return Err(format!("order appeared for account {k} without its action"));
                }
            }
        }
        let (db, dq) = (b1 - b0, q1 - q0);
        if gone.is_empty() {
            if db < 0 || dq < 0 {
                return Err(format!("holdings of account {k} changed by {db} base, {dq} quote without any order of it touched"));
            }
            continue;
        }
        let bids: Vec<_> = gone.iter().filter(|g| g.0 == Bid).collect();
        let asks: Vec<_> = gone.iter().filter(|g| g.0 == Ask).collect();
        if !bids.is_empty() && asks.is_empty() {
            if db < 0 || db % bl != 0 {
                return Err(format!("account {k} lost base on its bids"));
            }
            let mut lots = db / bl;
            let mut c: Vec<(i128, i128)> = bids.iter().map(|g| (g.1, g.2)).collect();
            c.sort_by(|a, b| b.cmp(a));
            let mut cost = 0;
            for (p, q) in c {
                let t = q.min(lots);
                let n = t * p * ql;
                cost += n + f.maker_ceil(n).max(0);
                lots -= t;
            }
            if lots > 0 || -dq > cost {
                return Err(format!("account {k} paid {} for {} base, more than its bids allow ({cost})", -dq, db));
            }
        } else if !asks.is_empty() && bids.is_empty() {
            if db > 0 || db % bl != 0 {
                return Err(format!("account {k} gained base on its asks"));
            }
            let mut lots = -db / bl;
            let mut c: Vec<(i128, i128)> = asks.iter().map(|g| (g.1, g.2)).collect();
            c.sort();
            let mut gain = 0;
            for (p, q) in c {
                let t = q.min(lots);
                let n = t * p * ql;
                gain += n - f.maker_ceil(n).max(0);
                lots -= t;
            }
            if lots > 0 || dq < gain {
                return Err(format!("account {k} got {dq} for {} base, less than its asks demand ({gain})", -db));
            }
        }
    }
    Ok(())
}

fn with_isolation(p: Plan) -> Plan {
    p.step_mon(Box::new(isolation))
}

const M03: u32 = FREE | LOCK | FEES | SLOTS | TOK | BOOK | EV | META;
fn c03(t: Tier) -> Vec<Part> {
    const M: u32 = M03;
    let mut l = general(t, M, with_isolation);
    l.extend(pegged(t, M, with_isolation));
    l.extend(timed(t, M, with_isolation));
    l.extend(expired_market(t, M, with_isolation));
    l.extend(wide(t, M, &[1, 2, 3, 29], with_isolation));
    l
}

// ---------------------------------------------------------------- C04

const M04: u32 = RES | FREE | LOCK | TOK | TOT | SLOTS;
fn own04(t: Tier) -> Vec<Part> {
    const M: u32 = M04;
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            Plan::new(
                &format!("locking {}", fees_name(f)),
                World::new(Cfg { oracles: 1, base_balance: 95, quote_balance: 1000, ..cfg(f) }),
                M,
                t.pick(1, 2),
                Box::new(|w, v| {
                    let mut l = vec![];
                    for side in Side::both() {
                        for p in [9, 10] {
                            l.push(lim(0, side, p, 2));
                            l.push(limr(1, side, p, 1, vec![0]));
                        }
                        l.push(peg(0, side, 0, if side == Bid { 12 } else { 8 }, 2));
                        l.push(take(2, side, 1, all(w)));
                    }
                    l.extend(cancels(v));
                    l.push(Op::Settle { oo: 0, referrer: false });
                    for (b, q) in [(10, 100), (25, 0), (0, 230)] {
                        l.push(Op::Deposit { user: 0, oo: 0, base: b, quote: q });
                    }
                    l
                }),
            )
            .seeds(vec![
                ("start", vec![]),
                ("free", vec![Op::Deposit { user: 0, oo: 0, base: 15, quote: 95 }]),
                ("free2", vec![Op::Deposit { user: 0, oo: 0, base: 40, quote: 300 }, lim(1, Ask, 9, 1), lim(1, Bid, 8, 2)]),
            ])
            .probe(Box::new(|w, v| {
                let mut l = vec![];
                for side in Side::both() {
                    for p in [1, 8, 9, 10, 11] {
                        for b in [1, 2, 3, 9, 10, 100] {
                            for q in [7, 9, 10, 11, 20, 95, 1_000_000] {
                                let mut a = PlaceArgs::limit_order(side, p, b);
                                a.quote = q;
                                l.push(Op::Place { oo: 0, a, rem: vec![] });
                            }
                        }
                    }
                    for off in [-1, 0, 1] {
                        for lm in [8, 10, 12] {
                            for b in [1, 3, 9] {
                                for q in [11, 40, 1_000_000] {
                                    let mut a = pega(side, off, lm, b);
                                    a.quote = q;
                                    l.push(Op::Peg { oo: 0, a, rem: vec![] });
                                }
                            }
                        }
                    }
                }
                l.extend(cancels(v));
                l.push(Op::CancelAll { oo: 0, side: None, limit: 9 });
                let _ = w;
                l
            }))
            .state_mon(Box::new(round_trip))
        }));
    }
    l.extend(timed(t, M, plain));
    l
}

/// Placing and cancelling an order that did not trade changes nothing for
/// its owner.
fn round_trip(w: &World, p: &Parser, m: &mut Machine, st: &State, pre: &View) -> Result<u64, String> {
    let mut n = 0;
    let wealth = |v: &View| {
        let o = v.o(0);
        let u = v.wallets[w.ids.oo_owner[0]];
        (u.0 as i128 + o.base_free as i128, u.1 as i128 + o.quote_free as i128, o.locked_fees)
    };
    for side in Side::both() {
        for pr in [1, 7, 9, 10, 13] {
            for b in [1, 2, 3] {
                for op in [lim(0, side, pr, b), peg(0, side, pr - 10, if side == Bid { 15 } else { 1 }, b)] {
                    m.load(st);
                    n += 1;
                    if !w.run(m, &op).ok {
                        continue;
                    }
                    let v = p.parse(w, m)?;
                    let new: Vec<_> =
                        v.o(0).orders.iter().filter(|e| !pre.o(0).orders.iter().any(|x| x.id == e.id)).collect();
                    if new.len() != 1 || v.book(side.inv()) != pre.book(side.inv()) {
                        continue;
                    }
                    n += 1;
                    let o = w.run(m, &Op::Cancel { oo: 0, id: new[0].id });
                    if !o.ok {
                        return Err(format!("fresh order of {op:?} cannot be cancelled: {}", o.err));
                    }
                    let v2 = p.parse(w, m)?;
                    if wealth(pre) != wealth(&v2) {
                        return Err(format!(
                            "placing and cancelling {op:?} changed the owner's funds from {:?} to {:?}",
                            wealth(pre),
                            wealth(&v2)
                        ));
                    }
                }
            }
        }
    }
    Ok(n)
}

// ---------------------------------------------------------------- C05

fn settle_twice(w: &World, p: &Parser, m: &mut Machine, st: &State, pre: &View) -> Result<u64, String> {
    let mut n = 0;
    if pre.mkt.is_none() {
        return Ok(0);
    }
    for k in 0..pre.oo.len() {
        let o = match &pre.oo[k] {
            None => continue,
            Some(o) => o.clone(),
        };
        let u = w.ids.oo_owner[k];
        for referrer in [false, true] {
            let mut ops = vec![Op::Settle { oo: k, referrer }];
            if pre.m().time_expiry != 0 && pre.m().time_expiry < pre.now.ts {
                ops.push(Op::SettleExpired { oo: k, referrer });
            }
            for op in ops {
                m.load(st);
                n += 2;
                let r = w.run(m, &op);
                if !r.ok {
                    return Err(format!("{op:?} failed: {}", r.err));
                }
                let a = p.parse(w, m)?;
                let paid = (a.wallets[u].0 - pre.wallets[u].0, a.wallets[u].1 - pre.wallets[u].1);
                if paid != (o.base_free, o.quote_free) {
                    return Err(format!("settlement paid {paid:?} instead of {:?}", (o.base_free, o.quote_free)));
                }
                let dust = if w.cfg.maker_fee > 0 && o.bids_base == 0 { o.locked_fees } else { 0 };
                let reb = if referrer { a.referrer - pre.referrer } else { a.m().fees_available - pre.m().fees_available };
                if reb != o.rebates + dust {
                    return Err(format!("rebates of {} settled as {}", o.rebates + dust, reb));
                }
                let x = a.o(k);
                if x.base_free != 0 || x.quote_free != 0 || x.rebates != 0 {
                    return Err("balances remain after settlement".into());
                }
                let r = w.run(m, &op);
                if !r.ok {
                    return Err(format!("second {op:?} failed: {}", r.err));
                }
                let b = p.parse(w, m)?;
                if (b.wallets, b.bvault, b.qvault, b.referrer) != (a.wallets, a.bvault, a.qvault, a.referrer) {
                    return Err("settling a second time paid again".into());
                }
            }
        }
    }
    Ok(n)
}

fn with_settle(p: Plan) -> Plan {
    p.state_mon(Box::new(settle_twice))
}

const M05: u32 = FREE | LOCK | FEES | TOK | TOT | SOL | RES;
fn c05(t: Tier) -> Vec<Part> {
    const M: u32 = M05;
    let mut l = general(t, M, with_settle);
    l.extend(expired_market(t, M, with_settle));
    l.extend(crate::access::settle_destinations(t));
    l.extend(wide(t, M, &[1, 29], with_solvency));
    l
}

// ---------------------------------------------------------------- C06

fn fee_conserved(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    solvent(s.w, post)?;
    if let Op::Sweep = s.op {
        let d = post.fee_receiver - s.pre.fee_receiver;
        if d != s.pre.m().fees_available || post.m().fees_available != 0 {
            return Err(format!("sweep paid {} of {} collectable fees", d, s.pre.m().fees_available));
        }
    }
    Ok(())
}

pub const FEE_GRID: [(i64, i64); 11] = [
    (0, 0),
    (0, 234_567),
    (123_457, 0),
    (123_457, 234_567),
    (-100_001, 234_567),
    (-234_567, 234_567),
    (1, 1),
    (-1, 3),
    (1_000_000, 1_000_000),
    // a remainder of one and of one less than the unit at a quote amount of 9
    (111_111, 888_889),
    (-111_111, 888_889),
];

fn fee_plan(f: (i64, i64), bl: i64, ql: i64, depth: usize, mask: u32) -> Plan {
    Plan::new(
        &format!("fees {} lots {bl}/{ql}", fees_name(f)),
        World::new(Cfg { base_lot: bl, quote_lot: ql, oracles: 1, ..cfg(f) }),
        mask,
        depth,
        Box::new(|_, v| {
            let mut l = vec![];
            for side in Side::both() {
                for (p, b) in [(9, 1), (10, 3)] {
                    l.push(lim(0, side, p, b));
                    l.push(limr(1, side, p, b, vec![0]));
                }
                l.push(peg(0, side, 0, if side == Bid { 13 } else { 7 }, 2));
                if !v.book(side.inv()).is_empty() {
                    l.push(take(2, side, 2, vec![]));
                    l.push(take(2, side, 5, vec![0, 1]));
                }
            }
            for k in 0..2 {
                l.push(Op::Settle { oo: k, referrer: k == 0 });
                l.push(Op::CancelAll { oo: k, side: None, limit: 9 });
            }
            if !v.events.is_empty() {
                l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
            }
            l.push(Op::Sweep);
            l
        }),
    )
    .seeds(vec![
        ("start", vec![]),
        ("makers", vec![lim(0, Bid, 9, 3), lim(1, Bid, 8, 2), lim(0, Ask, 11, 2), lim(1, Ask, 12, 3)]),
        ("filled bids", vec![lim(0, Bid, 9, 3), lim(1, Bid, 9, 2), take(2, Ask, 4, vec![]), lim(1, Ask, 9, 1)]),
        ("filled asks", vec![lim(0, Ask, 9, 3), lim(1, Ask, 10, 2), take(2, Bid, 4, vec![]), lim(0, Bid, 10, 1)]),
    ])
    .probe(Box::new(|_, v| {
        let mut l = vec![];
        for side in Side::both() {
            for b in 1..=6 {
                for rem in [vec![], vec![0], vec![0, 1]] {
                    l.push(take(2, side, b, rem));
                }
                l.push(limr(1, side, if side == Bid { 13 } else { 7 }, b, vec![0]));
                l.push(lim(0, side, if side == Bid { 13 } else { 7 }, b));
            }
            for q in [5, 9, 11, 13, 21, 33] {
                let mut a = PlaceArgs::limit_order(side, if side == Bid { 13 } else { 7 }, 9);
                a.quote = q;
                l.push(Op::Place { oo: 1, a: a.clone(), rem: vec![0] });
                a.otype = OType::Ioc;
                l.push(Op::Place { oo: 1, a, rem: vec![] });
            }
        }
        for k in 0..2 {
            l.push(Op::Settle { oo: k, referrer: k == 1 });
        }
        for s in &v.ev_slots {
            l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
        }
        l
    }))
    .step_mon(Box::new(fee_conserved))
}

fn own06(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    for f in FEE_GRID {
        l.push(world_part(move || fee_plan(f, 10, 10, t.pick(1, 3), FUNDS | RES)));
        l.push(world_part(move || fee_plan(f, 7, 13, t.pick(1, 2), FUNDS | RES)));
        l.push(world_part(move || fee_plan(f, 1, 1, t.pick(1, 2), FUNDS | RES)));
    }
    l
}

// ---------------------------------------------------------------- C07

fn priority(t: Tier) -> Vec<Part> {
    const M: u32 = RES | BOOK | EV | FREE | LOCK | TOK | SLOTS;
    let mut l = vec![];
    for side in Side::both() {
        l.push(world_part(move || {
            Plan::new(
                &format!("resting {side:?}s in every order"),
                World::new(Cfg { oracles: 1, oo_owners: vec![0, 1], ..Default::default() }),
                M,
                t.pick(4, 5),
                Box::new(move |_, v| {
                    let mut l = vec![];
                    if v.book(side).len() >= 4 {
                        return l;
                    }
                    let lm = if side == Bid { 30 } else { 1 };
                    for d in [-1, 0, 1] {
                        // alternate owners so that both appear
                        let k = v.book(side).len() % 2;
                        l.push(lim(k, side, 10 + d, 1 + k as i64));
                        l.push(peg(k, side, d, lm, 1 + k as i64));
                    }
                    if v.book(side).len() >= 2 {
                        for pr in [9, 11] {
                            if v.oracle != pr {
                                l.push(Op::Oracle { price: pr });
                            }
                        }
                        l.push(take(2, side.inv(), 1, vec![]));
                    }
                    l
                }),
            )
            .probe(Box::new(move |_, v| {
                let mut l = vec![];
                for b in [1, 2, 3, 4, 6] {
                    l.push(take(2, side.inv(), b, vec![]));
                }
                for pr in [9, 10, 11, 12] {
                    l.push(Op::Take {
                        user: 2,
                        a: TakeArgs { side: side.inv(), price: pr, base: 9, quote: 1000, otype: OType::Ioc, limit: 3 },
                        rem: vec![0, 1],
                    });
                }
                for q in [9, 10, 11, 21, 29, 31] {
                    l.push(Op::Take {
                        user: 2,
                        a: TakeArgs {
                            side: side.inv(),
                            price: if side == Bid { 1 } else { 20 },
                            base: 9,
                            quote: q,
                            otype: OType::Ioc,
                            limit: 9,
                        },
                        rem: vec![],
                    });
                }
                if v.book(side).len() == 4 {
                    l.push(limr(0, side.inv(), 10, 9, vec![]));
                }
                l
            }))
            .step_mon(Box::new(priority_mon))
        }));
    }
    l
}

/// Fills found from the books alone: no order loses size while a better ranked
/// valid one keeps some, whatever the model says.
fn priority_mon(s: &Step) -> Result<(), String> {
    let (side, post) = match (s.op, s.post) {
        (Op::Take { a, .. }, Some(p)) => (a.side, p),
        (Op::Place { a, .. }, Some(p)) if a.st == SelfTrade::Decrement => (a.side, p),
        _ => return Ok(()),
    };
    let oracle = match oracle_lots(s.w, s.pre) {
        Ok(o) => o,
        Err(_) => return Ok(()),
    };
    let mut kept: Option<(i64, u64)> = None;
    for (price, st, i) in ladder(s.pre, side.inv(), oracle) {
        if st != OState::Valid {
            continue;
        }
        let o = &s.pre.book(side.inv())[i];
        let left = post.book(side.inv()).iter().find(|x| x.key == o.key && x.pegged == o.pegged).map_or(0, |x| x.qty);
        if left < o.qty {
            if let Some(k) = kept {
                return Err(format!("order at {price} (sequence {}) traded while the one at {} (sequence {}) kept size", o.seq(), k.0, k.1));
            }
        }
        if left > 0 && kept.is_none() {
            kept = Some((price, o.seq()));
        }
    }
    Ok(())
}

fn own07(t: Tier) -> Vec<Part> {
    let mut l = priority(t);
    l.extend(pegged(t, RES | BOOK | EV | SLOTS | FREE | LOCK, |p| p.step_mon(Box::new(priority_mon))));
    l.extend(general(t, BOOK | EV | SLOTS | FREE | LOCK, |p| p.step_mon(Box::new(priority_mon))));
    l
}

// ---------------------------------------------------------------- C08

fn limits_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let (bl, ql) = (s.w.cfg.base_lot as i128, s.w.cfg.quote_lot as i128);
    let (side, base, quote, price, db, dq, market) = match s.op {
        Op::Take { user, a, .. } => {
            let (x, y) = (s.pre.wallets[*user], post.wallets[*user]);
            (
                a.side,
                a.base,
                a.quote,
                a.price,
                y.0 as i128 - x.0 as i128,
                y.1 as i128 - x.1 as i128,
                a.otype == OType::Market,
            )
        }
        Op::Place { oo, a, .. } if matches!(a.otype, OType::Ioc | OType::Market | OType::Fok) => {
            // self trades keep funds inside the account
            if s.pre.book(a.side.inv()).iter().any(|o| o.owner == Who::Oo(*oo)) {
                return Ok(());
            }
            let u = s.w.ids.oo_owner[*oo];
            let f = |v: &View| {
                let o = v.o(*oo);
                (
                    v.wallets[u].0 as i128 + o.base_free as i128,
                    v.wallets[u].1 as i128 + o.quote_free as i128,
                )
            };
            let (x, y) = (f(s.pre), f(post));
            (a.side, a.base, a.quote, a.price, y.0 - x.0, y.1 - x.1, a.otype == OType::Market)
        }
        _ => return Ok(()),
    };
    let (sold, bought) = match side {
        Bid => (-dq, db),
        Ask => (-db, dq),
    };
    if sold < 0 || bought < 0 {
        return Err(format!("taker paid {sold} and received {bought}"));
    }
    let base_moved = if side == Bid { bought } else { sold };
    if base_moved > base as i128 * bl {
        return Err(format!("taker traded {base_moved} base, limit {}", base as i128 * bl));
    }
    if side == Bid && sold > quote as i128 * ql {
        return Err(format!("taker paid {sold} quote, limit {}", quote as i128 * ql));
    }
    if !market {
        // price limit on the pure trade value
        if side == Bid {
            let fee = s.w.cfg.taker_fee as i128;
            let lots = bought / bl;
            let worst = lots * price as i128 * ql;
            let worst = worst + (worst * fee + 999_999) / 1_000_000;
            if sold > worst {
                return Err(format!("taker paid {sold} for {lots} lots, price limit allows {worst}"));
            }
        } else {
            let fee = s.w.cfg.taker_fee as i128;
            let lots = sold / bl;
            let worst = lots * price as i128 * ql;
            let worst = worst - (worst * fee + 999_999) / 1_000_000;
            if bought < worst {
                return Err(format!("taker received {bought} for {lots} lots, price limit demands {worst}"));
            }
        }
    }
    Ok(())
}

fn book_builder(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    if v.bids.len() + v.asks.len() >= 3 {
        return l;
    }
    for (side, ps) in [(Ask, [4, 5]), (Bid, [2, 3])] {
        for p in ps {
            for b in [1, 2] {
                l.push(lim((p as usize + b as usize) % 2, side, p, b));
            }
        }
    }
    l
}

const M08: u32 = RES | TOK | FREE | LOCK | EV | BOOK;
fn own08(t: Tier) -> Vec<Part> {
    const M: u32 = M08;
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            Plan::new(
                &format!("taker limits {}", fees_name(f)),
                World::new(Cfg { oo_owners: vec![0, 1, 2], ..cfg(f) }),
                M,
                t.pick(2, 3),
                Box::new(book_builder),
            )
            .probe(Box::new(move |_, _| {
                let mut l = vec![];
                for side in Side::both() {
                    for price in if side == Bid { [3, 4, 5] } else { [2, 3, 4] } {
                        for base in [0, 1, 2, 3, 9] {
                            for quote in [0, 1, 3, 4, 5, 7, 9, 12, 1_000_000] {
                                for limit in [0, 1, 9] {
                                    for otype in [OType::Ioc, OType::Fok, OType::Market] {
                                        if otype == OType::Market && price != 3 {
                                            continue;
                                        }
                                        l.push(Op::Take {
                                            user: 2,
                                            a: TakeArgs { side, price, base, quote, otype, limit },
                                            rem: vec![0],
                                        });
                                        if limit > 0 {
                                            let mut a = PlaceArgs::limit_order(side, price, base);
                                            a.quote = quote;
                                            a.limit = limit;
                                            a.otype = otype;
                                            l.push(Op::Place { oo: 2, a, rem: vec![1] });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                l
            }))
            .step_mon(Box::new(limits_mon))
        }));
    }
    l.extend(pegged(t, M, |p| p.step_mon(Box::new(limits_mon))));
    l
}

// ---------------------------------------------------------------- C09

/// Expired, or pegged beyond its limit or out of range at the present oracle price.
fn lapsed(s: &Step, o: &Order) -> bool {
    let oracle = oracle_lots(s.w, s.pre).unwrap_or(None);
    ladder(s.pre, o.side, oracle).into_iter().any(|(_, st, i)| st != OState::Valid && s.pre.book(o.side)[i] == *o)
}

fn types_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let (oo, a) = match s.op {
        Op::Place { oo, a, .. } => (*oo, a),
        _ => return Ok(()),
    };
    let new: Vec<&Order> = Side::both()
        .iter()
        .flat_map(|x| post.book(*x).iter())
        .filter(|o| !s.pre.book(o.side).iter().any(|p| p.key == o.key && p.pegged == o.pegged))
        .collect();
    if new.len() > 1 {
        return Err("one order was posted several times".into());
    }
    let traded: i64 = s
        .pre
        .book(a.side.inv())
        .iter()
        .filter(|o| !lapsed(s, o))
        .map(|o| o.qty - post.book(a.side.inv()).iter().find(|x| x.key == o.key).map_or(0, |x| x.qty))
        .sum();
    match a.otype {
        OType::Ioc | OType::Market | OType::Fok if !new.is_empty() => return Err(format!("{:?} order rests", a.otype)),
        OType::PostOnly | OType::Slide if traded != 0 => return Err(format!("{:?} order traded {traded}", a.otype)),
        OType::Fok if traded != a.base && a.st != SelfTrade::CancelProvide => {
            return Err(format!("fill or kill traded {traded} of {}", a.base))
        }
        _ => {}
    }
    if let Some(n) = new.first() {
        if n.owner != Who::Oo(oo) || n.side != a.side {
            return Err("posted for somebody else or on the wrong side".into());
        }
        let better = if a.side == Bid { n.level() > a.price } else { n.level() < a.price };
        if better {
            return Err(format!("posted at {} although limited to {}", n.level(), a.price));
        }
        if a.otype != OType::Slide && n.level() != a.price {
            return Err(format!("posted at {} instead of {}", n.level(), a.price));
        }
        if n.qty + if a.st == SelfTrade::CancelProvide { 0 } else { traded } > a.base {
            return Err(format!("posted {} after trading {traded} of {}", n.qty, a.base));
        }
        let mut e = vec![1u8];
        e.extend_from_slice(&n.key.to_le_bytes());
        if s.out.ret != e {
            return Err("returned id does not name the resting order".into());
        }
    } else if s.out.ret != vec![0] {
        return Err("an id was returned but nothing rests".into());
    }
    Ok(())
}

const M09: u32 = RES | BOOK | EV | RET | SLOTS | FREE | LOCK;
fn own09(t: Tier) -> Vec<Part> {
    const M: u32 = M09;
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            Plan::new(
                &format!("order types {}", fees_name(f)),
                World::new(Cfg { oo_owners: vec![0, 1, 2], ..cfg(f) }),
                M,
                t.pick(2, 3),
                Box::new(book_builder),
            )
            .probe(Box::new(move |_, _| {
                let mut l = vec![];
                for side in Side::both() {
                    for price in [1, 2, 3, 4, 5] {
                        for base in [1, 2, 4] {
                            for quote in [3, 5, 8, 13, 1_000_000] {
                                for limit in [0, 1, 9] {
                                    for otype in ALL_TYPES {
                                        let mut a = PlaceArgs::limit_order(side, price, base);
                                        a.quote = quote;
                                        a.limit = limit;
                                        a.otype = otype;
                                        l.push(Op::Place { oo: 2, a: a.clone(), rem: vec![1] });
                                        if quote == 8 {
                                            // resting orders of the same account
                                            l.push(Op::Place { oo: 0, a, rem: vec![1] });
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                for side in Side::both() {
                    for otype in ALL_TYPES {
                        l.push(Op::Take {
                            user: 2,
                            a: TakeArgs { side, price: 4, base: 2, quote: 8, otype, limit: 5 },
                            rem: vec![],
                        });
                    }
                }
                l
            }))
            .step_mon(Box::new(types_mon))
        }));
    }
    l.extend(pegged(t, M, plain));
    l
}

// ---------------------------------------------------------------- C10

fn crossing_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) if v.mkt.is_some() => v,
        _ => return Ok(()),
    };
    let oracle = oracle_lots(s.w, post).unwrap_or(None);
    let now = post.now.ts as u64;
    for side in Side::both() {
        for o in post.book(side) {
            if s.pre.book(side).iter().any(|x| x.key == o.key && x.pegged == o.pegged) {
                continue;
            }
            let p = match price_of(o, oracle, now) {
                Some((p, OState::Valid)) => p,
                _ => continue,
            };
            for x in post.book(side.inv()) {
                if let Some((q, OState::Valid)) = price_of(x, oracle, now) {
                    let bad = match side {
                        Bid => p >= q,
                        Ask => p <= q,
                    };
                    if bad {
                        return Err(format!("new {side:?} at {p} crosses the resting order at {q}"));
                    }
                }
            }
        }
    }
    // fixed prices only: never crossed at all
    if s.w.cfg.oracles == 0 {
        let best = |sd: Side| {
            let l = post.book(sd).iter().filter(|o| !o.expired(now)).map(|o| o.level());
            if sd == Bid {
                l.max()
            } else {
                l.min()
            }
        };
        if let (Some(b), Some(a)) = (best(Bid), best(Ask)) {
            if b >= a {
                return Err(format!("best bid {b} meets best ask {a}"));
            }
        }
    }
    Ok(())
}
fn with_crossing(p: Plan) -> Plan {
    p.step_mon(Box::new(crossing_mon))
}

const M10: u32 = BOOK | EV;
fn own10(t: Tier) -> Vec<Part> {
    const M: u32 = M10;
    let mut l = vec![];
    for f in [(0, 0), (0, 500_000), (123_457, 234_567), (-100_001, 234_567)] {
        l.push(world_part(move || {
            with_crossing(
                Plan::new(
                    &format!("budgets {}", fees_name(f)),
                    World::new(Cfg { oo_owners: vec![0, 1], ..cfg(f) }),
                    M,
                    t.pick(2, 3),
                    Box::new(|_, v| {
                        let mut l = vec![];
                        if v.bids.len() + v.asks.len() >= 4 {
                            return l;
                        }
                        for k in 0..2 {
                            for (side, ps) in [(Ask, [3, 4]), (Bid, [2, 3])] {
                                for p in ps {
                                    for b in [1, 2] {
                                        l.push(lim(k, side, p, b));
                                    }
                                }
                            }
                        }
                        l
                    }),
                )
                .probe(Box::new(|_, _| {
                    let mut l = vec![];
                    for side in Side::both() {
                        for p in [2, 3, 4, 5] {
                            for b in [1, 2, 3, 5] {
                                for q in 2..=16 {
                                    for limit in [1, 9] {
                                        for st in [SelfTrade::Decrement, SelfTrade::CancelProvide] {
                                            let mut a = PlaceArgs::limit_order(side, p, b);
                                            a.quote = q;
                                            a.st = st;
                                            a.limit = limit;
                                            l.push(Op::Place { oo: 0, a: a.clone(), rem: vec![] });
                                            if b == 5 && limit == 9 {
                                                a.otype = OType::Slide;
                                                l.push(Op::Place { oo: 0, a, rem: vec![] });
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    l
                })),
            )
        }));
    }
    l.extend(pegged(t, M, with_crossing));
    l.extend(timed(t, M, with_crossing));
    l.extend(general(t, M, with_crossing));
    l
}

// ---------------------------------------------------------------- C11

fn self_mon(s: &Step) -> Result<(), String> {
    // funds of the account plus its wallet never fall by trading with itself
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let oo = match s.op {
        Op::Place { oo, .. } | Op::Peg { oo, .. } => *oo,
        _ => return Ok(()),
    };
    let (fills, n) = match s.want {
        Ok((_, fx)) => (fx.fills.iter().all(|f| f.3), fx.fills.len()),
        Err(_) => return Ok(()),
    };
    if !fills || n == 0 {
        return Ok(());
    }
    let u = s.w.ids.oo_owner[oo];
    let wealth = |v: &View| {
        let h = holdings(s.w, v, oo).unwrap();
        (h.0 + v.wallets[u].0 as i128, h.1 + v.wallets[u].1 as i128)
    };
    if wealth(s.pre) != wealth(post) {
        return Err(format!("self trade changed the account's funds from {:?} to {:?}", wealth(s.pre), wealth(post)));
    }
    if s.pre.m().fees_accrued != post.m().fees_accrued || s.pre.m().rebates_accrued != post.m().rebates_accrued {
        return Err("self trade produced fees".into());
    }
    Ok(())
}

const M11: u32 = ALL & !(LOG | RET | SEQ | SOL);
fn own11(t: Tier) -> Vec<Part> {
    const M: u32 = M11;
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            Plan::new(
                &format!("self trades {}", fees_name(f)),
                World::new(Cfg { oracles: 1, ..cfg(f) }),
                M,
                t.pick(2, 3),
                Box::new(|_, v| {
                    let mut l = vec![];
                    if v.bids.len() + v.asks.len() < 4 {
                        for side in Side::both() {
                            for b in [1, 3] {
                                l.push(lim(0, side, 10, b));
                            }
                            l.push(peg(0, side, 0, if side == Bid { 13 } else { 7 }, 2));
                            l.push(lim(1, side, if side == Bid { 9 } else { 11 }, 1));
                            l.push(lim(1, side, 10, 1));
                        }
                    }
                    if !v.events.is_empty() {
                        l.push(Op::Consume { limit: 1, rem: vec![0, 1] });
                        l.push(Op::Consume { limit: 8, rem: vec![0] });
                        l.push(Op::Consume { limit: 8, rem: vec![1] });
                    }
                    l.push(Op::Settle { oo: 0, referrer: false });
                    l
                }),
            )
            .seeds(vec![
                ("start", vec![]),
                ("bids", vec![lim(0, Bid, 10, 2), lim(1, Bid, 10, 1), peg(0, Bid, 0, 13, 2)]),
                ("asks", vec![lim(0, Ask, 10, 2), lim(1, Ask, 10, 1), peg(0, Ask, 0, 7, 2)]),
                ("traded bid", vec![lim(0, Bid, 10, 3), lim(0, Ask, 10, 2)]),
                ("traded pegged bid", vec![peg(0, Bid, 0, 14, 3), lim(0, Ask, 10, 2), lim(1, Ask, 10, 1)]),
            ])
            .probe(Box::new(|_, _| {
                let mut l = vec![];
                for side in Side::both() {
                    for st in [SelfTrade::Decrement, SelfTrade::CancelProvide, SelfTrade::Abort] {
                        for b in [1, 2, 3, 5, 8] {
                            for q in [10, 25, 1_000_000] {
                                for otype in [OType::Limit, OType::Ioc, OType::Fok, OType::PostOnly] {
                                    let mut a = PlaceArgs::limit_order(side, 10, b);
                                    a.st = st;
                                    a.quote = q;
                                    a.otype = otype;
                                    l.push(Op::Place { oo: 0, a: a.clone(), rem: vec![] });
                                    if otype == OType::Limit {
                                        l.push(Op::Place { oo: 0, a: a.clone(), rem: vec![1] });
                                        l.push(Op::Place { oo: 1, a, rem: vec![0] });
                                    }
                                }
                            }
                            let mut a = pega(side, 0, if side == Bid { 13 } else { 7 }, b);
                            a.st = st;
                            l.push(Op::Peg { oo: 0, a, rem: vec![] });
                        }
                    }
                }
                l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
                l
            }))
            .step_mon(Box::new(self_mon))
        }));
    }
    l
}

// ---------------------------------------------------------------- C12

fn expiry_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    // an expired order never loses part of its size, and no fill names it
    for side in Side::both() {
        for o in s.pre.book(side).iter().filter(|o| o.tif > 0 && s.pre.now.ts as u64 >= o.ts + o.tif as u64) {
            if let Some(x) = post.book(side).iter().find(|x| x.key == o.key && x.pegged == o.pegged) {
                if x.qty != o.qty {
                    return Err(format!("expired order {} traded", o.key));
                }
            }
            let fills = |v: &View| {
                v.events
                    .iter()
                    .filter(|e| matches!(e, Ev::Fill{maker, slot, ts, ..} if *maker == o.owner && *slot == o.slot && *ts >= o.ts + o.tif as u64))
                    .count()
            };
            if fills(post) > fills(s.pre) {
                return Err(format!("expired order {} was filled", o.key));
            }
        }
    }
    if let Op::Place { a: PlaceArgs { expiry, .. }, .. } | Op::Peg { a: PegArgs { expiry, .. }, .. } = s.op {
        if *expiry != 0 && *expiry <= s.pre.now.ts as u64 && (post.bids != s.pre.bids || post.asks != s.pre.asks) {
            return Err("an order that had already expired changed the book".into());
        }
    }
    Ok(())
}

fn c12(t: Tier) -> Vec<Part> {
    let mut l = timed(t, ALL & !(LOG | SEQ), |p| p.step_mon(Box::new(expiry_mon)));
    l.extend(wide(t, RES | BOOK | EV | SLOTS | FREE | LOCK, &[3], |p| p.step_mon(Box::new(expiry_mon))));
    l
}

// ---------------------------------------------------------------- C13

fn peg_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let oracle = oracle_lots(s.w, s.pre).unwrap_or(None);
    for e in post.events.iter() {
        if let Ev::Fill { taker_side, maker, slot, price, peg_limit, ts, seq, .. } = e {
            if s.pre.events.contains(e) || *ts != s.pre.now.ts as u64 {
                continue;
            }
            let o = s
                .pre
                .book(taker_side.inv())
                .iter()
                .find(|o| o.owner == *maker && o.slot == *slot && o.seq() != *seq);
            if let Some(o) = o {
                if o.pegged {
                    let want = oracle.map(|x| x + o.level());
                    if want != Some(*price) {
                        return Err(format!("pegged order traded at {price}, oracle {oracle:?} offset {}", o.level()));
                    }
                    let beyond = match taker_side.inv() {
                        Bid => *price > o.peg_limit,
                        Ask => *price < o.peg_limit,
                    };
                    if beyond || *peg_limit != o.peg_limit {
                        return Err(format!("pegged order traded at {price} beyond its limit {}", o.peg_limit));
                    }
                }
            }
        }
    }
    // newly posted pegged orders respect their limit
    for side in Side::both() {
        for o in post.book(side).iter().filter(|o| o.pegged) {
            if s.pre.book(side).iter().any(|x| x.key == o.key && x.pegged) {
                continue;
            }
            if let Some(or) = oracle {
                let p = or + o.level();
                if (side == Bid && p > o.peg_limit) || (side == Ask && p < o.peg_limit) {
                    return Err(format!("pegged order posted at {p} beyond its limit {}", o.peg_limit));
                }
            } else {
                return Err("pegged order posted without an oracle price".into());
            }
        }
    }
    Ok(())
}

const M13: u32 = ALL & !(LOG | SEQ | SOL);
fn own13(t: Tier) -> Vec<Part> {
    const M: u32 = M13;
    let mut l = pegged(t, M, |p| p.step_mon(Box::new(peg_mon)));
    // many pegged orders around the ends of the representable range
    for side in Side::both() {
        l.push(world_part(move || {
            Plan::new(
                &format!("pegged {side:?}s at low oracle prices"),
                World::new(Cfg { oracles: 1, ..cfg((0, 0)) }),
                M,
                t.pick(4, 5),
                Box::new(move |_, v| {
                    let mut l = vec![];
                    let k = v.book(side).len() % 2;
                    if v.book(side).len() < 4 {
                        for d in [-3, -2, 0, 1] {
                            l.push(peg(k, side, d, if side == Bid { 6 } else { 2 }, 1));
                        }
                        l.push(lim(k, side, 3, 1));
                    }
                    for p in [2, 4, 6] {
                        if v.oracle != p && v.book(side).len() >= 2 {
                            l.push(Op::Oracle { price: p });
                        }
                    }
                    l
                }),
            )
            .seeds(vec![("low oracle", vec![Op::Oracle { price: 4 }])])
            .probe(Box::new(move |_, _| {
                let mut l = vec![];
                for b in [1, 2, 3, 9] {
                    l.push(take(2, side.inv(), b, vec![]));
                }
                l.push(take(2, side.inv(), 9, vec![0, 1]));
                l.push(limr(1, side.inv(), 3, 9, vec![0]));
                l.push(peg(1, side.inv(), 0, if side == Bid { 2 } else { 6 }, 9));
                l
            }))
            .step_mon(Box::new(peg_mon))
        }));
    }
    l
}

// ---------------------------------------------------------------- C15

/// No instruction does more work than its limits allow.
fn bounds_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let gone = |sd: Side| {
        s.pre
            .book(sd)
            .iter()
            .filter(|o| post.book(sd).iter().find(|x| x.key == o.key).map_or(true, |x| x.qty != o.qty))
            .count()
    };
    match s.op {
        Op::Take { a: TakeArgs { limit, side, .. }, .. } | Op::Place { a: PlaceArgs { limit, side, .. }, .. } => {
            // own orders given up to avoid a self trade are no fills
            let gives_up = match s.op {
                Op::Place { oo, a, .. } if a.st == SelfTrade::CancelProvide => Some(Who::Oo(*oo)),
                _ => None,
            };
            let (mut dropped, mut matched) = (0, 0);
            for o in s.pre.book(side.inv()) {
                if post.book(side.inv()).iter().any(|x| x.key == o.key && x.pegged == o.pegged && x.qty == o.qty) {
                    continue;
                }
                if lapsed(s, o) {
                    dropped += 1;
                } else if gives_up != Some(o.owner) {
                    matched += 1;
                }
            }
            if dropped > 5 {
                return Err(format!("{dropped} expired orders removed by one order"));
            }
            if matched > *limit as usize {
                return Err(format!("{matched} orders matched with limit {limit}"));
            }
        }
        Op::CancelAll { limit, .. } | Op::Prune { limit, .. } => {
            if gone(Bid) + gone(Ask) > *limit as usize {
                return Err("more orders cancelled than requested".into());
            }
        }
        Op::Consume { limit, .. } => {
            if s.pre.events.len() - post.events.len() > (*limit as usize).min(8) {
                return Err("more events processed than allowed".into());
            }
        }
        _ => {}
    }
    Ok(())
}

const M15: u32 = RES | BOOK | EV | SLOTS | FREE | LOCK | TOK;
fn own15(t: Tier) -> Vec<Part> {
    const M: u32 = M15;
    let mut l = vec![];
    let n = 18;
    for (side, orc) in [(Bid, 0), (Ask, 0), (Bid, 1), (Ask, 1)] {
        l.push(world_part(move || {
            let lv = |i: usize| if side == Ask { 3 + (i as i64 % 3) } else { 6 - (i as i64 % 3) };
            let rest: Vec<Op> = (0..n).map(|i| lim(i, side, lv(i), 1)).collect();
            let mut dead: Vec<Op> = (0..8)
                .map(|i| {
                    if orc == 0 {
                        return lime(i, side, lv(i), 1, 1005);
                    }
                    let mut a = pega(side, lv(i) - 10, if side == Bid { 30 } else { 1 }, 1);
                    a.expiry = 1005;
                    Op::Peg { oo: i, a, rem: vec![] }
                })
                .collect();
            dead.extend((8..11).map(|i| lim(i, side, lv(i), 1)));
            dead.push(Op::Advance { dt: 6 });
            let mut evs = rest.clone();
            evs.push(Op::Take {
                user: 2,
                a: TakeArgs {
                    side: side.inv(),
                    price: if side == Ask { 100 } else { 1 },
                    base: 12,
                    quote: 10000,
                    otype: OType::Market,
                    limit: 20,
                },
                rem: vec![],
            });
            let two: Vec<Op> = (0..6).map(|i| limc(0, side, lv(i), 1, i as u64)).chain((0..3).map(|i| lim(1, side, lv(i), 1))).collect();
            let mut two_exp = two.clone();
            two_exp.push(Op::SetExpired);
            Plan::new(
                &format!("limits against {side:?}s{}", if orc > 0 { ", pegged" } else { "" }),
                World::new(Cfg { oracles: orc, oo_owners: (0..n).map(|i| i % 2).collect(), ..Default::default() }),
                M,
                t.pick(1, 2),
                Box::new(move |w, _| {
                    let mut l = vec![];
                    let a = TakeArgs {
                        side: side.inv(),
                        price: if side == Ask { 100 } else { 1 },
                        base: 3,
                        quote: 10000,
                        otype: OType::Market,
                        limit: 2,
                    };
                    l.push(Op::Take { user: 2, a: a.clone(), rem: vec![] });
                    l.push(Op::Take { user: 2, a, rem: all(w) });
                    l.push(Op::Consume { limit: 3, rem: all(w) });
                    l.push(Op::CancelAll { oo: 0, side: None, limit: 2 });
                    l.push(lim(0, side, 4, 1));
                    l
                }),
            )
            .seeds(vec![
                ("many makers", rest),
                ("many expired", dead),
                ("many events", evs),
                ("many own orders", two),
                ("many own orders, market expired", two_exp),
            ])
            .probe(Box::new(move |w, _| {
                let mut l = vec![];
                for limit in [0u8, 1, 2, 5, 8, 14, 15, 16, 17, 18, 19, 255] {
                    for rem in [vec![], all(w), (0..5).collect::<Vec<_>>()] {
                        l.push(Op::Take {
                            user: 2,
                            a: TakeArgs {
                                side: side.inv(),
                                price: if side == Ask { 100 } else { 1 },
                                base: 18,
                                quote: 10000,
                                otype: OType::Market,
                                limit,
                            },
                            rem: rem.clone(),
                        });
                    }
                    let mut a = PlaceArgs::limit_order(side.inv(), if side == Ask { 9 } else { 1 }, 17);
                    a.limit = limit;
                    l.push(Op::Place { oo: 17, a: a.clone(), rem: (0..17).collect() });
                    l.push(Op::Place { oo: 17, a, rem: vec![] });
                    l.push(Op::Consume { limit: limit as u64, rem: all(w) });
                    l.push(Op::Consume { limit: limit as u64, rem: vec![1, 2, 7] });
                    for oo in [0, 1] {
                        l.push(Op::CancelAll { oo, side: None, limit });
                        l.push(Op::CancelAll { oo, side: Some(side), limit });
                        l.push(Op::CancelAll { oo, side: Some(side.inv()), limit });
                        l.push(Op::Prune { oo, limit });
                    }
                }
                for k in 0..10usize {
                    let slots: Vec<u64> = (0..k as u64).collect();
                    l.push(Op::ConsumeGiven { slots: slots.iter().rev().cloned().collect(), rem: all(w) });
                }
                l
            }))
            .step_mon(Box::new(bounds_mon))
        }));
    }
    l
}

// ---------------------------------------------------------------- C16

/// 22 accounts; fill one side to the brim.
fn full_world() -> World {
    World::new(Cfg {
        oracles: 1,
        oo_owners: (0..23).map(|i| i % 3).collect(),
        maker_fee: 123_457,
        taker_fee: 234_567,
        ..Default::default()
    })
}

/// `n` orders on one side; `kind` gives the i-th one.
fn fill_side(n: usize, kind: impl Fn(usize, usize) -> Op) -> Vec<Op> {
    (0..n).map(|i| kind(i, i / 24)).collect()
}

const M16: u32 = ALL & !(LOG | SEQ);
fn own16(t: Tier) -> Vec<Part> {
    const M: u32 = M16;
    let mut l = vec![];
    for side in Side::both() {
        for variant in 0..5usize {
            if t == Tier::Quick && side == Ask && variant == 3 {
                continue;
            }
            l.push(world_part(move || {
                let lm = if side == Bid { 300 } else { 1 };
                // 100 is the oracle price; larger is worse for asks, smaller for bids
                let s = if side == Bid { -1 } else { 1 };
                // both trees of a side share the nodes: one more fits when both are in use
                let total = if variant == 2 || variant == 3 { 513 } else { 512 };
                let mut ops = vec![Op::Oracle { price: 100 }];
                ops.extend(fill_side(total, |i, k| match variant {
                    // all at one price
                    0 => lim(k, side, 100 + 10 * s, 1),
                    // spread of prices, the worst placed in the middle
                    1 => lim(k, side, 100 + s * (10 + ((i * 7) % 40) as i64), 1 + (i % 2) as i64),
                    // half pegged
                    2 => {
                        if i % 2 == 0 {
                            lim(k, side, 100 + s * (10 + (i % 30) as i64), 1)
                        } else {
                            peg(k, side, s * (10 + (i % 31) as i64), lm, 1)
                        }
                    }
                    // one single pegged order
                    3 => {
                        if i == 300 {
                            peg(k, side, s * 45, lm, 1)
                        } else {
                            lim(k, side, 100 + s * (10 + (i % 30) as i64), 1)
                        }
                    }
                    // one expired order in between
                    _ => {
                        if i == 200 {
                            lime(k, side, 100 + s * 12, 1, 1005)
                        } else {
                            lim(k, side, 100 + s * (10 + (i % 30) as i64), 1)
                        }
                    }
                }));
                let last = ops.clone();
                let mut seeds = vec![("full".to_string(), last.clone())];
                if variant == 4 {
                    let mut x = last.clone();
                    x.push(Op::Advance { dt: 5 });
                    seeds.push(("expired now".into(), x));
                    let mut x = last.clone();
                    x.push(Op::Advance { dt: 6 });
                    seeds.push(("expired before".into(), x));
                }
                let mut x = last;
                x.pop();
                seeds.push(("one short".into(), x));
                let mut p = Plan::new(
                    &format!("full {side:?} side, distribution {variant}"),
                    full_world(),
                    M,
                    t.pick(1, 2),
                    Box::new(move |_, v| {
                        let mut l = vec![];
                        l.push(lim(22, side, 100 + 5 * s, 1));
                        l.push(peg(22, side, 5 * s, lm, 1));
                        if v.oracle == 100 {
                            l.push(Op::Oracle { price: u64::MAX });
                            l.push(Op::Oracle { price: (100 + 20 * s) as u64 });
                        }
                        l.push(take(2, side.inv(), 1, vec![]));
                        l
                    }),
                )
                .probe(Box::new(move |_, v| {
                    let mut l = vec![];
                    for d in [4, 9, 10, 11, 39, 40, 41, 44, 45, 46, 60] {
                        for rem in [vec![], vec![0, 8, 12, 20]] {
                            l.push(limr(22, side, 100 + s * d, 1, rem.clone()));
                            l.push(Op::Peg { oo: 22, a: pega(side, s * d, lm, 1), rem: rem.clone() });
                        }
                        // an account that may own the order being dropped
                        for k in [8, 12] {
                            if v.o(k).orders.len() < 24 {
                                l.push(lim(k, side, 100 + s * d, 1));
                            }
                        }
                        let mut a = PlaceArgs::limit_order(side, 100 + s * d, 1);
                        a.otype = OType::PostOnly;
                        l.push(Op::Place { oo: 22, a, rem: vec![] });
                    }
                    // the other side is not affected
                    l.push(lim(22, side.inv(), 100, 1));
                    l.push(Op::CancelAll { oo: 3, side: None, limit: 2 });
                    // an account without room
                    l.push(lim(0, side, 100 + s * 4, 1));
                    l
                }));
                p.seeds = seeds;
                p
            }));
        }
    }
    l
}

// ---------------------------------------------------------------- C18

fn deliveries(w: &World, p: &Parser, m: &mut Machine, st: &State, pre: &View) -> Result<u64, String> {
    let n = pre.events.len();
    if n == 0 || n > 4 {
        return Ok(0);
    }
    let mut runs = 0u64;
    let norm = |m: &Machine| -> Result<View, String> {
        let mut v = p.parse(w, m)?;
        normalise(&mut v);
        Ok(v)
    };
    m.load(st);
    runs += 1;
    let o = w.run(m, &Op::Consume { limit: 8, rem: all(w) });
    if !o.ok {
        return Err(format!("events cannot be processed: {}", o.err));
    }
    let want = norm(m)?;
    if !want.events.is_empty() {
        return Err("events remain after processing all".into());
    }
    let check = |m: &Machine, how: &str| -> Result<(), String> {
        let got = norm(m)?;
        let d = diff(&want, &got);
        if d.is_empty() {
            Ok(())
        } else {
            Err(format!("processing {how} differs from oldest-first: {}", d[0].1))
        }
    };
    // every order, one at a time
    let mut perms: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n {
        let mut np = vec![];
        for q in perms {
            for j in 0..=q.len() {
                let mut r = q.clone();
                r.insert(j, i);
                np.push(r);
            }
        }
        perms = np;
    }
    for q in &perms {
        // one by one
        m.load(st);
        for &i in q {
            runs += 1;
            let o = w.run(m, &Op::ConsumeGiven { slots: vec![pre.ev_slots[i] as u64], rem: all(w) });
            if !o.ok {
                return Err(format!("event {i} cannot be processed alone: {}", o.err));
            }
        }
        check(m, &format!("one by one in order {q:?}"))?;
        // in one go
        m.load(st);
        runs += 1;
        let o = w.run(m, &Op::ConsumeGiven { slots: q.iter().map(|i| pre.ev_slots[*i] as u64).collect(), rem: all(w) });
        if !o.ok {
            return Err(format!("events cannot be processed in order {q:?}: {}", o.err));
        }
        check(m, &format!("in order {q:?}"))?;
    }
    // account by account, in every order
    let k = w.cfg.oo_owners.len();
    for first in 0..k {
        m.load(st);
        for j in 0..k {
            runs += 1;
            let o = w.run(m, &Op::Consume { limit: 8, rem: vec![(first + j) % k] });
            if !o.ok {
                return Err(format!("events of one account cannot be processed: {}", o.err));
            }
        }
        check(m, "account by account")?;
    }
    // small steps
    m.load(st);
    for _ in 0..n {
        runs += 1;
        w.run(m, &Op::Consume { limit: 1, rem: all(w) });
    }
    check(m, "one at a time")?;
    Ok(runs)
}

/// A taker's choice of passed-in makers must not matter in the end.
fn inline_routes(w: &World, p: &Parser, m: &mut Machine, st: &State, pre: &View) -> Result<u64, String> {
    if !pre.events.is_empty() {
        return deliveries(w, p, m, st, pre);
    }
    let mut runs = 0;
    let k = w.cfg.oo_owners.len();
    for side in Side::both() {
        if pre.book(side.inv()).is_empty() {
            continue;
        }
        for base in [1, 2, 5] {
            let mut want: Option<View> = None;
            for set in 0..(1usize << k) {
                let rem: Vec<usize> = (0..k).filter(|i| set >> i & 1 == 1).collect();
                m.load(st);
                runs += 2;
                let o = w.run(m, &take(2, side, base, rem.clone()));
                if !o.ok {
                    return Err(format!("take with makers {rem:?} failed: {}", o.err));
                }
                let o = w.run(m, &Op::Consume { limit: 8, rem: all(w) });
                if !o.ok {
                    return Err(format!("events cannot be processed: {}", o.err));
                }
                let mut v = p.parse(w, m)?;
                normalise(&mut v);
                // the queueing charge is the only allowed difference
                v.sol.clear();
                match &want {
                    None => want = Some(v),
                    Some(x) => {
                        if let Some(d) = diff(x, &v).first() {
                            return Err(format!("{side:?} taker of {base} with makers {rem:?} passed in ends differently: {}", d.1));
                        }
                    }
                }
            }
        }
    }
    Ok(runs)
}

fn with_delivery(p: Plan) -> Plan {
    p.state_mon(Box::new(inline_routes))
}

const M18: u32 = RES | EV | FREE | LOCK | FEES | SLOTS | BOOK | VOL | TOK | TOT | STRUCT;
fn own18(t: Tier) -> Vec<Part> {
    const M: u32 = M18;
    let mut l = general(t, M, with_delivery);
    l.extend(pegged(t, M, with_delivery));
    l.push(world_part(move || {
        with_delivery(
            Plan::new(
                "three makers, expiring orders",
                World::new(Cfg { oo_owners: vec![0, 1, 2], ..cfg(FEES3[1]) }),
                M,
                t.pick(3, 4),
                Box::new(|_, v| {
                    let mut l = vec![];
                    let now = v.now.ts as u64;
                    if v.bids.len() + v.asks.len() < 4 {
                        for k in 0..3 {
                            l.push(lim(k, Bid, 4 - (k as i64 % 2), 1 + k as i64 % 2));
                            l.push(lime(k, Ask, 5, 1, now + 1));
                        }
                    }
                    l.push(Op::Advance { dt: 1 });
                    for rem in [vec![], vec![0], vec![1, 2]] {
                        l.push(take(2, Ask, 2, rem.clone()));
                        l.push(take(2, Bid, 2, rem));
                    }
                    if !v.events.is_empty() {
                        l.push(Op::Consume { limit: 8, rem: vec![1] });
                        l.push(Op::Consume { limit: 1, rem: vec![0, 2] });
                        for s in &v.ev_slots {
                            l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1, 2] });
                        }
                    }
                    l
                }),
            ),
        )
    }));
    l
}

// ---------------------------------------------------------------- C21

fn cancel_probes(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    let mut ids: Vec<u128> = vec![];
    for o in v.oo.iter().flatten() {
        ids.extend(o.orders.iter().map(|e| e.id));
    }
    ids.extend(v.bids.iter().chain(v.asks.iter()).map(|o| o.key));
    ids.push(0);
    ids.push(12345);
    ids.push(u128::MAX);
    ids.sort_unstable();
    ids.dedup();
    for oo in 0..2 {
        for id in &ids {
            l.push(Op::Cancel { oo, id: *id });
        }
        for cid in [0, 1, 2, 3, 9, CID_FAR] {
            l.push(Op::CancelCid { oo, cid });
        }
        for side in [None, Some(Bid), Some(Ask)] {
            for limit in [0, 1, 2, 3, 255] {
                l.push(Op::CancelAll { oo, side, limit });
            }
        }
    }
    l
}

fn cancel_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let hit: Box<dyn Fn(&Order) -> bool> = match s.op {
        Op::Cancel { oo, id } => {
            let (oo, id) = (*oo, *id);
            Box::new(move |o| o.owner == Who::Oo(oo) && o.key == id)
        }
        Op::CancelCid { oo, cid } => {
            let (oo, cid) = (*oo, *cid);
            Box::new(move |o| o.owner == Who::Oo(oo) && o.cid == cid)
        }
        Op::CancelAll { oo, side, limit } | Op::CancelAll { oo, side, limit } => {
            let (oo, side, limit) = (*oo, *side, *limit);
            let listed = s.pre.o(oo).orders.iter().filter(|e| side.map_or(true, |x| x == e.side)).count();
            if listed > limit as usize {
                return Ok(());
            }
            Box::new(move |o| o.owner == Who::Oo(oo) && side.map_or(true, |x| x == o.side))
        }
        _ => return Ok(()),
    };
    for side in Side::both() {
        for o in s.pre.book(side) {
            let there = post.book(side).contains(o);
            if there == hit(o) {
                return Err(format!("order {} {}", o.key, if there { "survived its cancellation" } else { "vanished though not named" }));
            }
        }
        if post.book(side).len() > s.pre.book(side).len() {
            return Err("cancelling added an order".into());
        }
    }
    Ok(())
}

/// Differs from 1 in the upper half only.
const CID_FAR: u64 = 1 + (1 << 32);

fn cid_ops(oracle: bool) -> Gen {
    Box::new(move |_, v| {
        let mut l = vec![];
        for k in 0..2 {
            for side in Side::both() {
                for (p, cid) in [(9, 1), (10, CID_FAR)] {
                    let p = if side == Ask { p + 2 } else { p };
                    l.push(limc(k, side, p, 2, cid));
                }
                if oracle && k == 0 {
                    let mut a = pega(side, if side == Bid { -1 } else { 1 }, if side == Bid { 20 } else { 2 }, 2);
                    a.cid = 1;
                    l.push(Op::Peg { oo: k, a, rem: vec![] });
                }
            }
        }
        for side in Side::both() {
            if !v.book(side.inv()).is_empty() {
                l.push(take(2, side, 1, vec![]));
                l.push(take(2, side, 3, vec![0]));
            }
        }
        if !v.events.is_empty() {
            l.push(Op::Consume { limit: 1, rem: vec![0, 1] });
        }
        l
    })
}

const M21: u32 = RES | BOOK | FREE | LOCK | SLOTS | RET | EV | STRUCT;
fn own21(t: Tier) -> Vec<Part> {
    const M: u32 = M21;
    let mut l = vec![];
    for f in FEES3 {
        l.push(world_part(move || {
            Plan::new(
                &format!("cancels {}", fees_name(f)),
                World::new(Cfg { oracles: 1, ..cfg(f) }),
                M,
                t.pick(3, 4),
                cid_ops(true),
            )
            .probe(Box::new(cancel_probes))
            .step_mon(Box::new(cancel_mon))
        }));
    }
    l.push(world_part(move || {
        let many: Vec<Op> = (0..24).map(|i| limc(0, if i % 3 == 0 { Ask } else { Bid }, if i % 3 == 0 { 20 } else { 5 }, 1, i % 4)).collect();
        Plan::new(
            "cancels of a full account",
            World::new(Cfg { ..cfg(FEES3[1]) }),
            M,
            t.pick(2, 3),
            Box::new(|_, v| {
                let mut l = vec![take(2, Ask, 3, vec![]), take(2, Bid, 2, vec![0]), Op::Consume { limit: 2, rem: vec![0, 1] }];
                l.extend(cancels(v).into_iter().step_by(5));
                l.push(Op::CancelAll { oo: 0, side: None, limit: 10 });
                l.push(limc(0, Bid, 5, 1, 2));
                l
            }),
        )
        .seeds(vec![("24 orders", many)])
        .probe(Box::new(cancel_probes))
        .step_mon(Box::new(cancel_mon))
    }));
    l
}

// ---------------------------------------------------------------- C22

fn edit_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let (oo, cid, expected, base) = match s.op {
        Op::Edit { oo, cancel_cid, expected, a, .. } => {
            if a.expiry != 0 && a.expiry <= s.pre.now.ts as u64 {
                return Ok(());
            }
            (*oo, *cancel_cid, *expected, a.base)
        }
        Op::EditPeg { oo, cancel_cid, expected, a, .. } => {
            if a.expiry != 0 && a.expiry <= s.pre.now.ts as u64 {
                return Ok(());
            }
            (*oo, *cancel_cid, *expected, a.base)
        }
        _ => return Ok(()),
    };
    let all = |v: &View| -> Vec<Order> { v.bids.iter().chain(v.asks.iter()).filter(|o| o.owner == Who::Oo(oo)).cloned().collect() };
    let (pre_o, post_o) = (all(s.pre), all(post));
    let left: i64 = pre_o.iter().filter(|o| o.cid == cid).map(|o| o.qty).sum();
    for o in pre_o.iter().filter(|o| o.cid == cid) {
        if post_o.iter().any(|x| x.key == o.key && x.pegged == o.pegged) {
            return Err("edited order is still there".into());
        }
    }
    let posted: i64 = post_o.iter().filter(|o| !pre_o.iter().any(|x| x.key == o.key && x.pegged == o.pegged)).map(|o| o.qty).sum();
    let filled = expected - left;
    let allowed = if filled < 0 { 0 } else { (base - filled).max(0) };
    if posted > allowed {
        return Err(format!("edit posted {posted}, at most {allowed} is left of the requested size"));
    }
    Ok(())
}

const M22: u32 = ALL & !(LOG | SEQ);
fn own22(t: Tier) -> Vec<Part> {
    const M: u32 = M22;
    let mut l = vec![];
    for f in [FEES3[1], FEES3[2]] {
        l.push(world_part(move || {
            Plan::new(
                &format!("edits {}", fees_name(f)),
                World::new(Cfg { oracles: 1, ..cfg(f) }),
                M,
                t.pick(2, 3),
                cid_ops(true),
            )
            .seeds(vec![
                ("start", vec![]),
                ("half filled", vec![limc(0, Bid, 10, 3, 1), take(2, Ask, 1, vec![0])]),
                ("half filled, undelivered", vec![limc(0, Ask, 10, 3, 1), take(2, Bid, 2, vec![])]),
                ("filled, undelivered", vec![limc(0, Ask, 10, 2, 1), take(2, Bid, 2, vec![])]),
            ])
            .probe(Box::new(|_, v| {
                let mut l = vec![];
                let now = v.now.ts as u64;
                for cid in [1, CID_FAR, 7] {
                    for expected in [-1, 0, 1, 2, 3, 4] {
                        for base in [0, 1, 2, 3, 5] {
                            for side in Side::both() {
                                let mut a = PlaceArgs::limit_order(side, 10, base);
                                a.cid = 5;
                                l.push(Op::Edit { oo: 0, cancel_cid: cid, expected, a: a.clone(), rem: vec![] });
                                if cid == 1 && base == 3 {
                                    for e in [now, now + 5] {
                                        a.expiry = e;
                                        l.push(Op::Edit { oo: 0, cancel_cid: cid, expected, a: a.clone(), rem: vec![1] });
                                    }
                                    a.expiry = 0;
                                    for ty in [OType::PostOnly, OType::Ioc, OType::Fok] {
                                        a.otype = ty;
                                        l.push(Op::Edit { oo: 0, cancel_cid: cid, expected, a: a.clone(), rem: vec![1] });
                                    }
                                }
                                if cid == 1 {
                                    let mut a = pega(side, 0, if side == Bid { 20 } else { 2 }, base);
                                    a.cid = 1;
                                    l.push(Op::EditPeg { oo: 0, cancel_cid: cid, expected, a: a.clone(), rem: vec![] });
                                    a.peg_limit = 0;
                                    l.push(Op::EditPeg { oo: 0, cancel_cid: cid, expected, a, rem: vec![] });
                                }
                            }
                        }
                    }
                }
                let mut a = PlaceArgs::limit_order(Bid, 0, 2);
                l.push(Op::Edit { oo: 0, cancel_cid: 1, expected: 2, a: a.clone(), rem: vec![] });
                a.price = -4;
                l.push(Op::Edit { oo: 0, cancel_cid: 1, expected: 2, a, rem: vec![] });
                l
            }))
            .step_mon(Box::new(edit_mon))
        }));
    }
    l
}

// ---------------------------------------------------------------- C23

fn batches() -> Vec<(Vec<MultiArgs>, Vec<MultiArgs>)> {
    let m = |price, quote| MultiArgs { price, quote, expiry: 0 };
    let bs: Vec<Vec<MultiArgs>> =
        vec![vec![], vec![m(9, 20)], vec![m(10, 11)], vec![m(9, 9), m(8, 17)], vec![m(11, 60), m(9, 10)], vec![m(9, 0), m(9, 100)]];
    let as_: Vec<Vec<MultiArgs>> =
        vec![vec![], vec![m(11, 22)], vec![m(10, 10)], vec![m(11, 12), m(12, 30)], vec![m(9, 90), m(11, 11)], vec![m(12, 5), m(11, 200)]];
    let mut l = vec![];
    for b in &bs {
        for a in &as_ {
            l.push((b.clone(), a.clone()));
        }
    }
    l
}

const M23: u32 = ALL & !(LOG | SEQ);
fn own23(t: Tier) -> Vec<Part> {
    const M: u32 = M23;
    let mut l = vec![];
    for f in FEES3 {
        for (bb, qb) in [(1_000_000_000u64, 1_000_000_000u64), (35, 310)] {
            l.push(world_part(move || {
                Plan::new(
                    &format!("batches {} funds {bb}/{qb}", fees_name(f)),
                    World::new(Cfg { base_balance: bb, quote_balance: qb, ..cfg(f) }),
                    M,
                    t.pick(2, 3),
                    Box::new(|_, v| {
                        let mut l = vec![];
                        for side in Side::both() {
                            l.push(lim(1, side, 10, 1));
                            l.push(lim(1, side, if side == Bid { 9 } else { 11 }, 2));
                            l.push(limc(0, side, if side == Bid { 8 } else { 12 }, 1, 3));
                            if !v.book(side.inv()).is_empty() {
                                l.push(take(2, side, 1, vec![]));
                            }
                        }
                        l.push(Op::Deposit { user: 0, oo: 0, base: 12, quote: 130 });
                        if !v.events.is_empty() {
                            l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
                        }
                        for cancel in [false, true] {
                            l.push(Op::Many {
                                oo: 0,
                                cancel,
                                otype: OType::Limit,
                                bids: vec![MultiArgs { price: 9, quote: 20, expiry: 0 }],
                                asks: vec![MultiArgs { price: 11, quote: 12, expiry: 0 }],
                                limit: 5,
                                rem: vec![],
                            });
                        }
                        l
                    }),
                )
                .seeds(vec![
                    ("start", vec![]),
                    ("many own orders", (0..12).map(|i| limc(0, if i % 4 == 0 { Ask } else { Bid }, if i % 4 == 0 { 12 } else { 2 }, 1, i)).collect()),
                ])
                .probe(Box::new(|_, v| {
                    let mut l = vec![];
                    let now = v.now.ts as u64;
                    for (bids, asks) in batches() {
                        for cancel in [false, true] {
                            for otype in [OType::Limit, OType::PostOnly] {
                                l.push(Op::Many {
                                    oo: 0,
                                    cancel,
                                    otype,
                                    bids: bids.clone(),
                                    asks: asks.clone(),
                                    limit: 5,
                                    rem: vec![1],
                                });
                            }
                        }
                    }
                    let e = |price, quote, expiry| MultiArgs { price, quote, expiry };
                    for otype in ALL_TYPES {
                        for limit in [0, 1, 5] {
                            l.push(Op::Many {
                                oo: 0,
                                cancel: false,
                                otype,
                                bids: vec![e(10, 30, 0), e(9, 30, now + 3)],
                                asks: vec![e(10, 30, now), e(11, 30, now + 1)],
                                limit,
                                rem: vec![],
                            });
                        }
                    }
                    for cancel in [false, true] {
                        for (x, y) in [(now, 0), (0, now), (now, now), (now - 1, now + 1)] {
                            l.push(Op::Many {
                                oo: 0,
                                cancel,
                                otype: OType::Limit,
                                bids: vec![e(9, 18, x), e(8, 10, y)],
                                asks: vec![e(11, 15, 0), e(12, 30, x)],
                                limit: 5,
                                rem: vec![],
                            });
                        }
                    }
                    // together more than fits into a token amount
                    let big = i64::MAX / 10;
                    for last in [1, 2, 3] {
                        let many = vec![e(1, big, 0), e(1, big, 0), e(1, last, 0)];
                        l.push(Op::Many { oo: 0, cancel: false, otype: OType::Limit, bids: many.clone(), asks: vec![], limit: 5, rem: vec![] });
                        l.push(Op::Many { oo: 0, cancel: false, otype: OType::PostOnly, bids: vec![], asks: many, limit: 5, rem: vec![] });
                    }
                    l.push(Op::Many { oo: 0, cancel: false, otype: OType::Limit, bids: vec![e(0, 30, 0)], asks: vec![], limit: 1, rem: vec![] });
                    l.push(Op::Many { oo: 0, cancel: true, otype: OType::Limit, bids: vec![e(9, -1, 0)], asks: vec![], limit: 1, rem: vec![] });
                    l.push(Op::Many { oo: 0, cancel: true, otype: OType::Limit, bids: vec![], asks: vec![e(i64::MAX, 1, 0)], limit: 1, rem: vec![] });
                    l
                }))
                .step_mon(Box::new(|s| match s.post {
                    Some(v) => solvent(s.w, v),
                    None => Ok(()),
                }))
            }));
        }
    }
    l
}

// ---------------------------------------------------------------- C24

const M24: u32 = STRUCT | SLOTS | BOOK | LOCK | EV;
fn own24(t: Tier) -> Vec<Part> {
    const M: u32 = M24;
    let mut l = general(t, M, plain);
    l.extend(pegged(t, M, plain));
    l.extend(timed(t, M, plain));
    // accounts with all places taken
    l.push(world_part(move || {
        let many: Vec<Op> = (0..23).map(|i| limc(0, if i % 2 == 0 { Ask } else { Bid }, if i % 2 == 0 { 20 } else { 5 }, 1, i % 4)).collect();
        let mut full = many.clone();
        full.push(lim(0, Bid, 4, 2));
        Plan::new(
            "nearly full account",
            World::new(cfg(FEES3[1])),
            M | RES,
            t.pick(2, 3),
            Box::new(|_, v| {
                let mut l = vec![
                    lim(0, Bid, 6, 1),
                    lim(0, Ask, 19, 1),
                    take(2, Ask, 2, vec![]),
                    take(2, Bid, 1, vec![0]),
                    Op::Consume { limit: 1, rem: vec![0, 1] },
                    lim(0, Ask, 5, 2),
                ];
                l.extend(cancels(v).into_iter().step_by(7));
                l
            }),
        )
        .seeds(vec![("23 orders", many), ("24 orders", full)])
        .probe(Box::new(market_probes))
    }));
    l
}

// ---------------------------------------------------------------- C29

/// Markets around their expiry.
pub fn expired_market(t: Tier, mask: u32, with: fn(Plan) -> Plan) -> Vec<Part> {
    let mut l = vec![];
    for (f, exp) in [(FEES3[1], 1002i64), (FEES3[2], 0)] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("market life {} expiry {exp}", fees_name(f)),
                    World::new(Cfg { time_expiry: exp, oracles: 1, ..cfg(f) }),
                    mask,
                    t.pick(3, 4),
                    Box::new(|_, v| {
                        let mut l = vec![];
                        if !live(v) {
                            return l;
                        }
                        l.push(lim(0, Bid, 9, 2));
                        l.push(lim(1, Ask, 9, 1));
                        l.push(lim(1, Ask, 11, 2));
                        l.push(take(2, Ask, 1, vec![]));
                        if v.now.ts < 1004 {
                            l.push(Op::Advance { dt: 1 });
                        }
                        l.push(Op::SetExpired);
                        for k in 0..2 {
                            l.push(Op::Prune { oo: k, limit: 3 });
                            l.push(Op::SettleExpired { oo: k, referrer: k == 1 });
                            l.push(Op::CancelAll { oo: k, side: None, limit: 5 });
                            l.push(Op::Settle { oo: k, referrer: k == 1 });
                            l.push(Op::CloseOo { oo: k });
                        }
                        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
                        l.push(Op::Sweep);
                        l.push(Op::CloseMarket);
                        l
                    }),
                )
                .seeds(vec![
                    ("start", vec![]),
                    ("traded", vec![lim(0, Bid, 9, 3), lim(1, Ask, 9, 1), lim(1, Ask, 12, 1), take(2, Ask, 1, vec![])]),
                    (
                        "nearly empty",
                        vec![
                            lim(0, Bid, 9, 1),
                            lim(1, Ask, 9, 1),
                            Op::Consume { limit: 8, rem: vec![0, 1] },
                            Op::Settle { oo: 0, referrer: true },
                        ],
                    ),
                    (
                        "only fees left",
                        vec![
                            lim(0, Bid, 9, 1),
                            lim(1, Ask, 9, 1),
                            Op::Consume { limit: 8, rem: vec![0, 1] },
                            Op::Settle { oo: 0, referrer: true },
                            Op::Settle { oo: 1, referrer: false },
                        ],
                    ),
                ])
                .probe(Box::new(life_probes)),
            )
        }));
    }
    l
}

fn life_probes(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    let a = PlaceArgs::limit_order(Bid, 9, 1);
    if v.oo[0].is_some() {
        l.push(lim(0, Ask, 12, 1));
        l.push(peg(0, Ask, 2, 2, 1));
        l.push(Op::Edit { oo: 0, cancel_cid: 0, expected: 2, a, rem: vec![] });
        l.push(Op::EditPeg { oo: 0, cancel_cid: 0, expected: 2, a: pega(Bid, -1, 20, 2), rem: vec![] });
        for cancel in [false, true] {
            l.push(Op::Many {
                oo: 0,
                cancel,
                otype: OType::Limit,
                bids: vec![MultiArgs { price: 8, quote: 20, expiry: 0 }],
                asks: vec![],
                limit: 5,
                rem: vec![],
            });
        }
        l.push(Op::Deposit { user: 0, oo: 0, base: 5, quote: 5 });
        l.push(Op::Refill { user: 0, oo: 0, base: 5, quote: 5 });
        l.push(Op::Deposit { user: 0, oo: 0, base: 0, quote: 0 });
        l.push(Op::CancelCid { oo: 0, cid: 0 });
        l.push(Op::SetDelegate { oo: 0, delegate: Some(1) });
        for e in &v.o(0).orders {
            l.push(Op::Cancel { oo: 0, id: e.id });
        }
    }
    l.push(take(2, Bid, 1, vec![]));
    l.push(take(2, Ask, 1, vec![0]));
    for s in &v.ev_slots {
        l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
    }
    for k in 0..2 {
        l.push(Op::Prune { oo: k, limit: 0 });
        l.push(Op::Prune { oo: k, limit: 1 });
        l.push(Op::SettleExpired { oo: k, referrer: k == 0 });
        l.push(Op::Settle { oo: k, referrer: k == 0 });
    }
    l
}

fn life_mon(s: &Step) -> Result<(), String> {
    let m = match &s.pre.mkt {
        None => {
            if s.out.ok && !matches!(s.op, Op::Advance { .. } | Op::Oracle { .. } | Op::SetDelegate { .. } | Op::CloseOo { .. }) {
                return Err(format!("{} succeeded on a closed market", op_name(s.op)));
            }
            return Ok(());
        }
        Some(m) => m,
    };
    let expired = m.time_expiry != 0 && m.time_expiry < s.pre.now.ts;
    if s.out.ok {
        let trading = matches!(
            s.op,
            Op::Place { .. } | Op::Peg { .. } | Op::Edit { .. } | Op::EditPeg { .. } | Op::Many { .. } | Op::Take { .. } | Op::Deposit { .. } | Op::Refill { .. }
        );
        if let (true, true, Some(p)) = (expired, trading, s.post) {
            let idle = p.bids.len() <= s.pre.bids.len() && p.asks.len() <= s.pre.asks.len() && p.wallets == s.pre.wallets;
            if !matches!(s.op, Op::Edit { .. } | Op::EditPeg { .. }) || !idle {
                return Err(format!("{} succeeded on an expired market", op_name(s.op)));
            }
        }
        if !expired && matches!(s.op, Op::Prune { .. } | Op::SettleExpired { .. } | Op::CloseMarket) {
            return Err(format!("{} succeeded although the market has not expired", op_name(s.op)));
        }
        if matches!(s.op, Op::CloseMarket)
            && (!s.pre.bids.is_empty() || !s.pre.asks.is_empty() || !s.pre.events.is_empty() || s.pre.bvault + s.pre.qvault > 0)
        {
            return Err("a market that was not empty was closed".into());
        }
        if let (true, Some(p)) = (expired, s.post) {
            if let Some(pm) = &p.mkt {
                if !(pm.time_expiry != 0 && pm.time_expiry < p.now.ts) {
                    return Err("an expired market was revived".into());
                }
            }
        }
        if let (Op::SetExpired, Some(p)) = (s.op, s.post) {
            if !(p.m().time_expiry != 0 && p.m().time_expiry < p.now.ts) {
                return Err("market not expired after being set expired".into());
            }
        }
    }
    Ok(())
}

fn own29(t: Tier) -> Vec<Part> {
    let mut l = expired_market(t, ALL & !LOG, |p| p.step_mon(Box::new(life_mon)));
    l.push(world_part(move || {
        Plan::new(
            "market without closing administrator",
            World::new(Cfg { time_expiry: 1001, close_admin: false, ..cfg(FEES3[1]) }),
            ALL & !LOG,
            t.pick(3, 4),
            Box::new(|_, v| {
                let mut l = vec![];
                if !live(v) {
                    return l;
                }
                l.push(lim(0, Bid, 9, 2));
                l.push(lim(1, Ask, 9, 1));
                l.push(Op::SetExpired);
                l.push(Op::CloseMarket);
                if v.now.ts < 1003 {
                    l.push(Op::Advance { dt: 1 });
                }
                l.push(Op::Prune { oo: 0, limit: 5 });
                l.push(Op::SettleExpired { oo: 0, referrer: false });
                l.push(Op::Settle { oo: 0, referrer: false });
                l.push(Op::CancelAll { oo: 0, side: None, limit: 5 });
                l
            }),
        )
        .step_mon(Box::new(life_mon))
    }));
    l
}

// ---------------------------------------------------------------- C32

/// What is asked for is paid, credited and held.
fn deposit_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) => v,
        None => return Ok(()),
    };
    let (user, oo, base, quote, refill) = match s.op {
        Op::Deposit { user, oo, base, quote } => (*user, *oo, *base, *quote, false),
        Op::Refill { user, oo, base, quote } => (*user, *oo, *base, *quote, true),
        _ => return Ok(()),
    };
    let (x, y) = (s.pre.o(oo), post.o(oo));
    let (eb, eq) = if refill {
        (base.max(x.base_free) - x.base_free, quote.max(x.quote_free) - x.quote_free)
    } else {
        (base, quote)
    };
    let credited = (y.base_free - x.base_free, y.quote_free - x.quote_free);
    let paid = (s.pre.wallets[user].0 - post.wallets[user].0, s.pre.wallets[user].1 - post.wallets[user].1);
    let held = (post.bvault - s.pre.bvault, post.qvault - s.pre.qvault);
    if credited != (eb, eq) || paid != (eb, eq) || held != (eb, eq) {
        return Err(format!("asked {:?}, paid {paid:?}, credited {credited:?}, vaults {held:?}", (eb, eq)));
    }
    Ok(())
}

const M32: u32 = RES | FREE | LOCK | TOK | TOT | LOG | META | BOOK | SLOTS;
fn own32(t: Tier) -> Vec<Part> {
    const M: u32 = M32;
    let mut l = vec![];
    for f in [FEES3[0], FEES3[1]] {
        l.push(world_part(move || {
            Plan::new(
                &format!("deposits {}", fees_name(f)),
                World::new(Cfg { base_balance: 100, quote_balance: 100, time_expiry: 1003, ..cfg(f) }),
                M,
                t.pick(3, 4),
                Box::new(|_, v| {
                    let mut l = vec![];
                    for (b, q) in [(0, 7), (30, 0), (60, 60)] {
                        l.push(Op::Deposit { user: 0, oo: 0, base: b, quote: q });
                        l.push(Op::Refill { user: 0, oo: 0, base: b, quote: q });
                        l.push(Op::Deposit { user: 1, oo: 0, base: b, quote: q });
                    }
                    l.push(lim(0, Bid, 3, 2));
                    l.push(lim(1, Ask, 3, 1));
                    l.push(Op::Settle { oo: 0, referrer: false });
                    l.push(Op::CancelAll { oo: 0, side: None, limit: 5 });
                    if v.now.ts < 1005 {
                        l.push(Op::Advance { dt: 2 });
                    }
                    l
                }),
            )
            .probe(Box::new(|_, _| {
                let mut l = vec![];
                for user in 0..2 {
                    for oo in 0..2 {
                        for b in [0, 1, 30, 99, 100, 101, u64::MAX] {
                            for q in [0, 1, 60, 100, 101, u64::MAX] {
                                l.push(Op::Deposit { user, oo, base: b, quote: q });
                                l.push(Op::Refill { user, oo, base: b, quote: q });
                            }
                        }
                    }
                }
                l
            }))
            .step_mon(Box::new(deposit_mon))
        }));
    }
    l
}

// ---------------------------------------------------------------- C33

fn penalty_mon(s: &Step) -> Result<(), String> {
    let post = match s.post {
        Some(v) if v.mkt.is_some() => v,
        _ => return Ok(()),
    };
    let longer = post.events.len() > s.pre.events.len();
    let charged: u64 = match s.op {
        Op::Take { user, .. } => s.pre.sol[1 + user] - post.sol[1 + user],
        Op::Place { oo, .. } | Op::Peg { oo, .. } | Op::Edit { oo, .. } | Op::EditPeg { oo, .. } | Op::Many { oo, .. } => {
            if post.sol != s.pre.sol {
                return Err("lamports moved although the charge is only counted".into());
            }
            (post.o(*oo).penalty - s.pre.o(*oo).penalty) * PENALTY
        }
        Op::Settle { oo, .. } => {
            let u = s.w.ids.oo_owner[*oo];
            let paid = s.pre.sol[1 + u] - post.sol[1 + u];
            if paid != s.pre.o(*oo).penalty * PENALTY || post.o(*oo).penalty != 0 {
                return Err(format!("settlement paid a charge of {paid} for {} counted", s.pre.o(*oo).penalty));
            }
            if post.sol[0] - s.pre.sol[0] != paid {
                return Err("the charge did not reach the market".into());
            }
            return Ok(());
        }
        _ => return Ok(()),
    };
    if charged != if longer { PENALTY } else { 0 } {
        return Err(format!("charged {charged} while the queue went from {} to {}", s.pre.events.len(), post.events.len()));
    }
    Ok(())
}

const M33: u32 = SOL | RES | EV;
fn c33(t: Tier) -> Vec<Part> {
    const M: u32 = M33;
    let mut l = general(t, M, |p| p.step_mon(Box::new(penalty_mon)));
    l.extend(timed(t, M, |p| p.step_mon(Box::new(penalty_mon))));
    l.extend(expired_market(t, M, |p| p.step_mon(Box::new(penalty_mon))));
    l.extend(wide(t, M, &[1, 3, 29], |p| p.step_mon(Box::new(penalty_mon))));
    l
}

// ---------------------------------------------------------------- C34

const M34: u32 = LOG | VOL | FEES;
fn c34(t: Tier) -> Vec<Part> {
    const M: u32 = M34;
    let mut l = general(t, M, plain);
    l.extend(pegged(t, M, plain));
    l.extend(timed(t, M, plain));
    l.extend(expired_market(t, M, plain));
    l.extend(wide(t, M, &[1, 2, 3, 29], plain));
    l
}

// ---------------------------------------------------------------- all checks

fn c04(t: Tier) -> Vec<Part> {
    let mut l = own04(t);
    l.extend(wide(t, M04, &[3, 4], plain));
    l
}
fn c06(t: Tier) -> Vec<Part> {
    let mut l = own06(t);
    l.extend(wide(t, FUNDS | RES, &[6], |p| p.step_mon(Box::new(fee_conserved))));
    l
}
fn c07(t: Tier) -> Vec<Part> {
    let mut l = own07(t);
    l.extend(wide(t, RES | BOOK | EV | SLOTS | FREE | LOCK, &[1, 2, 7], |p| p.step_mon(Box::new(priority_mon))));
    l
}
fn c08(t: Tier) -> Vec<Part> {
    let mut l = own08(t);
    l.extend(wide(t, M08, &[2, 8], |p| p.step_mon(Box::new(limits_mon))));
    l
}
fn c09(t: Tier) -> Vec<Part> {
    let mut l = own09(t);
    l.extend(wide(t, M09, &[2, 9], |p| p.step_mon(Box::new(types_mon))));
    l
}
fn c10(t: Tier) -> Vec<Part> {
    let mut l = own10(t);
    l.extend(wide(t, M10, &[1, 2, 3, 10], with_crossing));
    l
}
fn c11(t: Tier) -> Vec<Part> {
    let mut l = own11(t);
    l.extend(wide(t, M11, &[11], |p| p.step_mon(Box::new(self_mon))));
    l
}
fn c13(t: Tier) -> Vec<Part> {
    let mut l = own13(t);
    l.extend(wide(t, M13, &[2, 13], |p| p.step_mon(Box::new(peg_mon))));
    l
}
fn c15(t: Tier) -> Vec<Part> {
    let mut l = own15(t);
    l.extend(wide(t, M15, &[15], |p| p.step_mon(Box::new(bounds_mon))));
    l
}
fn c16(t: Tier) -> Vec<Part> {
    let mut l = own16(t);
    l.extend(wide(t, M16, &[16], plain));
    l
}
fn c18(t: Tier) -> Vec<Part> {
    let mut l = own18(t);
    l.extend(wide(t, M18, &[1, 2, 18], plain));
    l
}
fn c21(t: Tier) -> Vec<Part> {
    let mut l = own21(t);
    l.extend(wide(t, M21, &[21], |p| p.step_mon(Box::new(cancel_mon))));
    l
}
fn c22(t: Tier) -> Vec<Part> {
    let mut l = own22(t);
    l.extend(wide(t, M22, &[22], |p| p.step_mon(Box::new(edit_mon))));
    l
}
fn c23(t: Tier) -> Vec<Part> {
    let mut l = own23(t);
    l.extend(wide(t, M23, &[23], with_solvency));
    l
}
fn c24(t: Tier) -> Vec<Part> {
    let mut l = own24(t);
    l.extend(wide(t, M24, &[1, 2, 3, 24], plain));
    l
}
fn c29(t: Tier) -> Vec<Part> {
    let mut l = own29(t);
    l.extend(wide(t, ALL & !LOG, &[29], |p| p.step_mon(Box::new(life_mon))));
    l
}
fn c32(t: Tier) -> Vec<Part> {
    let mut l = own32(t);
    l.extend(wide(t, M32, &[32], |p| p.step_mon(Box::new(deposit_mon))));
    l
}

pub fn checks() -> Vec<Check> {
    let c = |id, parts: fn(Tier) -> Vec<Part>| Check { id, parts };
    vec![
        c("C01", c01),
        c("C02", c02),
        c("C03", c03),
        c("C04", c04),
        c("C05", c05),
        c("C06", c06),
        c("C07", c07),
        c("C08", c08),
        c("C09", c09),
        c("C10", c10),
        c("C11", c11),
        c("C12", c12),
        c("C13", c13),
        c("C14", crate::oracle::c14),
        c("C15", c15),
        c("C16", c16),
        c("C17", crate::extra::c17),
        c("C18", c18),
        c("C19", crate::extra::c19),
        c("C20", crate::extra::c20),
        c("C21", c21),
        c("C22", c22),
        c("C23", c23),
        c("C24", c24),
        c("C25", crate::access::c25),
        c("C26", crate::access::c26),
        c("C27", crate::access::c27),
        c("C28", crate::access::c28),
        c("C29", c29),
        c("C30", crate::extra::c30),
        c("C31", crate::extra::c31),
        c("C32", c32),
        c("C33", c33),
        c("C34", c34),
        c("C35", crate::extra::c35),
        c("C39", crate::ts::c39),
        c("C40", crate::ts::c40),
        c("C41", crate::ts::c41),
        c("C42", crate::ts::c42),
        c("C43", crate::ts::c43),
        c("C51", crate::ts::c51),
    ]
}
