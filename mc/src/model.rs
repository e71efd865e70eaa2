//! Reference model: what every operation is specified to do, written over the
//! semantic view with wide integers and plain sorted lists.

use crate::view::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub type E = &'static str;
pub type R<T> = Result<T, E>;

pub const HEAP_MAX: usize = 600;
pub const ARENA: i64 = 1024;
pub const PENALTY: u64 = 500;

/// Unspecified choices (equal expiry, arena with exactly two spare nodes).
#[derive(Clone, Default, Debug)]
pub struct Choice {
    pub want: Vec<usize>,
    pub taken: Vec<usize>,
    pub options: Vec<usize>,
}
impl Choice {
    fn pick(&mut self, n: usize) -> usize {
        let k = self.taken.len();
        let c = self.want.get(k).copied().unwrap_or(0).min(n - 1);
        self.taken.push(c);
        self.options.push(n);
        c
    }
    /// next combination in lexicographic order
    pub fn next(&self) -> Option<Choice> {
        let mut w = self.taken.clone();
        for k in (0..w.len()).rev() {
            if w[k] + 1 < self.options[k] {
                w[k] += 1;
                w.truncate(k + 1);
                return Some(Choice { want: w, ..Default::default() });
            }
        }
        None
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Effects {
    pub ret: Vec<u8>,
    pub logs: Vec<Vec<u8>>,
    /// individual fills in execution order: (price, base lots, maker order key, self trade)
    pub fills: Vec<(i64, i64, u128, bool)>,
}

pub struct Model<'a> {
    pub w: &'a World,
    pub p: &'a Parser,
    pub v: View,
    pub fx: Effects,
    pub ch: Choice,
}

#[derive(Clone, Debug)]
struct New {
    side: Side,
    base: i128,
    quote: i128,
    cid: u64,
    tif: u16,
    st: SelfTrade,
    otype: OType,
    /// limit price, or offset for pegged orders
    level: i64,
    peg: Option<i64>,
}

#[derive(Clone, Debug, Default)]
struct Amounts {
    id: Option<u128>,
    posted_base: i128,
    posted_quote: i128,
    base_taken: i128,
    quote_taken: i128,
    taker_fee: i128,
    maker_fee: i128,
    referrer: i128,
}

fn i64c(x: i128) -> R<i64> {
    i64::try_from(x).map_err(|_| "overflow")
}
fn u64c(x: i128) -> R<u64> {
    u64::try_from(x).map_err(|_| "overflow")
}
fn add(a: &mut u64, x: i128) -> R<()> {
    *a = u64c(*a as i128 + x)?;
    Ok(())
}
fn addi(a: &mut i64, x: i128) -> R<()> {
    *a = i64c(*a as i128 + x)?;
    Ok(())
}
fn addw(a: &mut u128, x: i128) -> R<()> {
    *a = a.checked_add(u128::try_from(x).map_err(|_| "neg")?).ok_or("overflow")?;
    Ok(())
}
fn need(c: bool, e: E) -> R<()> {
    if c {
        Ok(())
    } else {
        Err(e)
    }
}

pub fn price_better(side: Side, a: i128, b: i128) -> bool {
    match side {
        Side::Bid => a > b,
        Side::Ask => a < b,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum OState {
    Valid,
    Invalid,
}

/// Current price and state of a resting order; None = not visible.
pub fn price_of(o: &Order, oracle: Option<i64>, now: u64) -> Option<(i64, OState)> {
    let (price, mut st) = if o.pegged {
        let p = oracle? as i128 + o.level() as i128;
        if p < 1 || p >= i64::MAX as i128 {
            return None;
        }
        let p = p as i64;
        let bad = o.peg_limit != -1 && price_better(o.side, p as i128, o.peg_limit as i128);
        (p, if bad { OState::Invalid } else { OState::Valid })
    } else {
        (o.level(), OState::Valid)
    };
    if o.expired(now) {
        st = OState::Invalid;
    }
    Some((price, st))
}

/// All visible orders of one side in matching order.
pub fn ladder(v: &View, side: Side, oracle: Option<i64>) -> Vec<(i64, OState, usize)> {
    let now = v.now.ts as u64;
    let mut l: Vec<(i64, OState, usize)> = v
        .book(side)
        .iter()
        .enumerate()
        .filter_map(|(i, o)| price_of(o, oracle, now).map(|(p, s)| (p, s, i)))
        .collect();
    let b = v.book(side);
    l.sort_by(|x, y| {
        let c = match side {
            Side::Bid => y.0.cmp(&x.0),
            Side::Ask => x.0.cmp(&y.0),
        };
        c.then(b[x.2].seq().cmp(&b[y.2].seq()))
    });
    l
}

pub fn oracle_lots(w: &World, v: &View) -> R<Option<i64>> {
    let c = &w.cfg;
    if c.oracles == 0 || !v.oracle_ok {
        return Ok(None);
    }
    let mut num = v.oracle as i128 * c.base_lot as i128;
    let mut den = c.quote_lot as i128;
    let d = c.quote_decimals as i32 - c.base_decimals as i32;
    if d >= 0 {
        num *= 10i128.pow(d as u32);
    } else {
        den *= 10i128.pow((-d) as u32);
    }
    Ok(Some(i64c(num / den)?))
}

pub struct Fees {
    pub mf: i128,
    pub tf: i128,
}
const S: i128 = 1_000_000;
impl Fees {
    pub fn maker_floor(&self, x: i128) -> i128 {
        if self.mf > 0 {
            x * self.mf / S
        } else {
            0
        }
    }
    pub fn maker_ceil(&self, x: i128) -> i128 {
        if self.mf > 0 {
            (x * self.mf + S - 1) / S
        } else {
            0
        }
    }
    pub fn rebate(&self, x: i128) -> i128 {
        if self.mf > 0 {
            0
        } else {
            x * -self.mf / S
        }
    }
    pub fn taker_ceil(&self, x: i128) -> i128 {
        (x * self.tf + S - 1) / S
    }
}

impl<'a> Model<'a> {
    pub fn new(w: &'a World, p: &'a Parser, v: &View, ch: Choice) -> Self {
        Model { w, p, v: v.clone(), fx: Effects::default(), ch }
    }

    fn fees(&self) -> Fees {
        Fees { mf: self.w.cfg.maker_fee as i128, tf: self.w.cfg.taker_fee as i128 }
    }
    fn bl(&self) -> i128 {
        self.w.cfg.base_lot as i128
    }
    fn ql(&self) -> i128 {
        self.w.cfg.quote_lot as i128
    }
    fn pk(&self, w: Who) -> Pubkey {
        match w {
            Who::Oo(k) => self.p.oo_keys[k],
            Who::User(k) => self.p.user_keys[k],
            Who::Other => Pubkey::default(),
        }
    }
    fn mk(&mut self) -> R<&mut Mkt> {
        self.v.mkt.as_mut().ok_or("market closed")
    }
    fn oo(&mut self, k: usize) -> R<&mut Oo> {
        self.v.oo[k].as_mut().ok_or("account closed")
    }
    fn expired(&self) -> bool {
        let m = self.v.m();
        m.time_expiry != 0 && m.time_expiry < self.v.now.ts
    }
    fn log(&mut self, name: &str, body: Enc) {
        let mut d = disc("event", name).to_vec();
        d.extend_from_slice(&body.0);
        self.fx.logs.push(d);
    }
    fn market_key(&self) -> Pubkey {
        self.w.k(self.w.ids.m.market)
    }

    fn log_position(&mut self, k: usize) {
        let mk = self.market_key();
        let o = self.v.o(k).clone();
        let mut e = Enc(o.owner.to_bytes().to_vec()).u32(o.num);
        e.0.extend_from_slice(mk.as_ref());
        let e = e
            .i64(o.bids_base)
            .i64(o.bids_quote)
            .i64(o.asks_base)
            .u64(o.base_free)
            .u64(o.quote_free)
            .u64(o.locked_fees)
            .u64(o.rebates)
            .u128(o.maker_vol)
            .u128(o.taker_vol);
        self.log("OpenOrdersPositionLog", e);
    }

    fn drop_slot(&mut self, k: usize, slot: u8) -> R<()> {
        let oo = self.oo(k)?;
        let i = oo.orders.iter().position(|e| e.slot == slot).ok_or("slot empty")?;
        oo.orders.remove(i);
        Ok(())
    }

    /// Give back what an order that leaves the book had locked.
    fn release(&mut self, k: usize, slot: u8, qty: i64) -> R<()> {
        let (f, bl, ql) = (self.fees(), self.bl(), self.ql());
        let oo = self.oo(k)?;
        let e = oo.orders.iter().find(|e| e.slot == slot).ok_or("slot empty")?.clone();
        let q = qty as i128;
        match e.side {
            Side::Bid => {
                let lots = q * e.locked_price as i128;
                let fee = f.maker_ceil(lots * ql);
                add(&mut oo.quote_free, lots * ql + fee)?;
                add(&mut oo.locked_fees, -fee)?;
                addi(&mut oo.bids_base, -q)?;
                addi(&mut oo.bids_quote, -lots)?;
            }
            Side::Ask => {
                add(&mut oo.base_free, q * bl)?;
                addi(&mut oo.asks_base, -q)?;
            }
        }
        self.drop_slot(k, slot)
    }

    /// Apply a fill to the maker's account.
    fn maker_fill(&mut self, ev: &Ev) -> R<()> {
        let (f, bl, ql) = (self.fees(), self.bl(), self.ql());
        let (taker_side, out, maker, slot, ts, seq, maker_ts, taker, taker_cid, price, peg_limit, qty, maker_cid) =
            match ev {
                Ev::Fill {
                    taker_side, out, maker, slot, ts, seq, maker_ts, taker, taker_cid, price, peg_limit, qty, maker_cid,
                } => (
                    *taker_side, *out, *maker, *slot, *ts, *seq, *maker_ts, *taker, *taker_cid, *price, *peg_limit,
                    *qty, *maker_cid,
                ),
                _ => return Err("not a fill"),
            };
        let k = match maker {
            Who::Oo(k) => k,
            _ => return Err("maker unknown"),
        };
        let is_self = maker == taker;
        let q = qty as i128;
        let quote = q * price as i128 * ql;
        let fee = if is_self { 0 } else { f.maker_floor(quote) };
        let rebate = if is_self { 0 } else { f.rebate(quote) };
        let lock_price = if peg_limit != -1 && taker_side == Side::Ask { peg_limit } else { price } as i128;
        {
            let oo = self.oo(k)?;
            match taker_side {
                Side::Ask => {
                    // maker bought: everything locked for this quantity and not
                    // spent on price or fee is returned
                    let locked = q * lock_price * ql;
                    let locked_fee = f.maker_floor(locked);
                    add(&mut oo.base_free, q * bl)?;
                    add(&mut oo.locked_fees, -locked_fee)?;
                    add(&mut oo.quote_free, rebate + (locked - quote) + (locked_fee - fee))?;
                    addi(&mut oo.bids_base, -q)?;
                    addi(&mut oo.bids_quote, -q * lock_price)?;
                }
                Side::Bid => {
                    add(&mut oo.quote_free, quote + rebate - fee)?;
                    addi(&mut oo.asks_base, -q)?;
                }
            }
            addw(&mut oo.maker_vol, quote)?;
            add(&mut oo.rebates, fee)?;
        }
        if out {
            self.drop_slot(k, slot)?;
        }
        let m = self.mk()?;
        addw(&mut m.maker_vol, quote)?;
        addw(&mut m.fees_accrued, fee)?;
        add(&mut m.rebates_accrued, fee)?;
        let taker_fee = if is_self { 0 } else { f.taker_ceil(quote) };
        let mut e = Enc(self.market_key().to_bytes().to_vec())
            .u8(taker_side.code())
            .u8(slot)
            .u8(out as u8)
            .u64(ts)
            .u64(seq);
        e.0.extend_from_slice(self.pk(maker).as_ref());
        let mut e = e.u64(maker_cid).u64(fee as u64).u64(maker_ts);
        e.0.extend_from_slice(self.pk(taker).as_ref());
        let e = e.u64(taker_cid).u64(taker_fee as u64).i64(price).i64(qty);
        self.log("FillLog", e);
        self.log_position(k);
        Ok(())
    }

    fn push(&mut self, ev: Ev) -> R<()> {
        need(self.v.events.len() < HEAP_MAX, "heap full")?;
        self.v.events.push(ev);
        Ok(())
    }

    /// An order leaves the book involuntarily.
    fn evict(&mut self, o: &Order, me: Option<usize>, rem: &[usize]) -> R<()> {
        let k = match o.owner {
            Who::Oo(k) => k,
            _ => return Err("owner unknown"),
        };
        if me == Some(k) {
            return self.release(k, o.slot, o.qty);
        }
        if rem.contains(&k) {
            return self.release(k, o.slot, o.qty);
        }
        let ts = self.v.now.ts as u64;
        self.push(Ev::Out { side: o.side, owner: o.owner, slot: o.slot, ts, qty: o.qty })
    }

    fn spare(&self, side: Side) -> i64 {
        let b = self.v.book(side);
        let n = |p: bool| {
            let c = b.iter().filter(|o| o.pegged == p).count() as i64;
            if c == 0 {
                0
            } else {
                2 * c - 1
            }
        };
        ARENA - n(false) - n(true)
    }

    fn new_order(&mut self, o: &New, me: Option<usize>, taker: Who, mut limit: u8, rem: &[usize]) -> R<Amounts> {
        let f = self.fees();
        let (bl, ql) = (self.bl(), self.ql());
        let oracle = oracle_lots(self.w, &self.v)?;
        let other = o.side.inv();
        let post_only = matches!(o.otype, OType::PostOnly | OType::Slide);
        let mut post = matches!(o.otype, OType::Limit | OType::PostOnly | OType::Slide);

        // limit price
        let mut price: i128 = match (o.peg, o.otype) {
            (Some(_), _) => oracle.ok_or("no oracle")? as i128 + o.level as i128,
            (None, OType::Market) => match o.side {
                Side::Bid => i64::MAX as i128,
                Side::Ask => 1,
            },
            _ => o.level as i128,
        };
        i64c(price)?;
        let opposing = ladder(&self.v, other, oracle);
        if o.otype == OType::Slide {
            if let Some(best) = opposing.iter().find(|x| x.1 == OState::Valid) {
                price = match o.side {
                    Side::Bid => price.min(best.0 as i128 - 1),
                    Side::Ask => price.max(best.0 as i128 + 1),
                };
            }
        }
        need(price >= 1, "price below one")?;
        i64c(price)?;
        self.mk()?.seq += 1;
        let seq = self.v.m().seq;
        let level = match o.peg {
            Some(_) => i64c(price - oracle.unwrap() as i128)?,
            None => price as i64,
        };
        let id = make_key(o.side, o.peg.is_some(), level, seq);

        let max_quote = if o.side == Side::Bid && !post_only { o.quote * S / (S + f.tf) } else { o.quote };
        need(o.base <= i64::MAX as i128 / bl, "base too large")?;
        need(max_quote <= i64::MAX as i128 / ql, "quote too large")?;

        let mut base = o.base;
        let mut quote = max_quote;
        let mut self_quote = 0i128;
        let mut rebates = 0i128;
        let mut dropped = 0;
        let mut inline = 0;
        let mut gone: Vec<u128> = vec![];
        let now = self.v.now.ts as u64;
        for (bp, st, idx) in opposing {
            if base == 0 {
                break;
            }
            let bo = self.v.book(other)[idx].clone();
            if st == OState::Invalid {
                if dropped < 5 {
                    dropped += 1;
                    self.evict(&bo, me, rem)?;
                    gone.push(bo.key);
                }
                continue;
            }
            let bp = bp as i128;
            let within = match o.side {
                Side::Bid => bp <= price,
                Side::Ask => bp >= price,
            };
            if !within {
                break;
            }
            if post_only || limit == 0 {
                post = false;
                break;
            }
            let by_quote = quote / bp;
            if by_quote == 0 {
                post = false;
                break;
            }
            let m = base.min(bo.qty as i128).min(by_quote);
            let mq = m * bp;
            let own = me.is_some() && bo.owner == Who::Oo(me.unwrap());
            if own {
                match o.st {
                    SelfTrade::Decrement => self_quote += mq,
                    SelfTrade::CancelProvide => {
                        self.release(me.unwrap(), bo.slot, bo.qty)?;
                        gone.push(bo.key);
                        continue;
                    }
                    SelfTrade::Abort => return Err("self trade"),
                }
            } else {
                rebates += f.rebate(mq * ql);
            }
            base -= m;
            quote -= mq;
            let left = bo.qty - m as i64;
            if left == 0 {
                gone.push(bo.key);
            } else {
                self.v.book_mut(other)[idx].qty = left;
            }
            self.fx.fills.push((bp as i64, m as i64, bo.key, own));
            let ev = Ev::Fill {
                taker_side: o.side,
                out: left == 0,
                maker: bo.owner,
                slot: bo.slot,
                ts: now,
                seq,
                maker_ts: bo.ts,
                taker,
                taker_cid: o.cid,
                price: bp as i64,
                peg_limit: bo.peg_limit,
                qty: m as i64,
                maker_cid: bo.cid,
            };
            let mut e = Enc(self.market_key().to_bytes().to_vec());
            e = e.u64(seq);
            self.log("TakerSignatureLog", e);
            let mk = match bo.owner {
                Who::Oo(k) => k,
                _ => return Err("maker unknown"),
            };
            if rem.contains(&mk) && inline < 15 {
                need(!own, "account already borrowed")?;
                self.maker_fill(&ev)?;
                inline += 1;
            } else {
                self.push(ev)?;
            }
            limit -= 1;
            // the budget ends inside this order
            if left > 0 && base > 0 {
                post = false;
                break;
            }
        }
        let quote_lots = max_quote - quote;
        let base_lots = o.base - base;
        let mut a = Amounts { base_taken: base_lots * bl, quote_taken: quote_lots * ql, ..Default::default() };
        if quote_lots > 0 || base_lots > 0 {
            let charged = (quote_lots - self_quote) * ql;
            if charged > 0 {
                a.taker_fee = f.taker_ceil(charged);
                a.referrer = a.taker_fee - rebates;
                need(a.referrer >= 0, "negative fee")?;
                addw(&mut self.mk()?.fees_accrued, a.referrer)?;
            }
            match me {
                Some(k) => {
                    let (side, am) = (o.side, a.clone());
                    let oo = self.oo(k)?;
                    match side {
                        Side::Bid => add(&mut oo.base_free, am.base_taken)?,
                        Side::Ask => add(&mut oo.quote_free, am.quote_taken - am.taker_fee)?,
                    }
                    addw(&mut oo.taker_vol, am.quote_taken)?;
                    add(&mut oo.rebates, am.referrer)?;
                    add(&mut self.mk()?.rebates_accrued, am.referrer)?;
                    self.log_position(k);
                }
                None => {
                    let q = a.quote_taken;
                    addw(&mut self.mk()?.taker_vol, q)?;
                }
            }
            let (paid, got) = match o.side {
                Side::Bid => (a.quote_taken + a.taker_fee, a.base_taken),
                Side::Ask => (a.base_taken, a.quote_taken - a.taker_fee),
            };
            let mut e = Enc(vec![o.side.code()]);
            e.0.extend_from_slice(self.pk(taker).as_ref());
            let e = e.u64(u64c(paid)?).u64(u64c(got)?).u64(a.taker_fee as u64);
            self.log("TotalOrderFillEvent", e);
        }
        self.v.book_mut(other).retain(|x| !gone.contains(&x.key));

        // rest
        let mut left_quote = o.quote - quote_lots - (a.taker_fee + ql - 1) / ql;
        left_quote -= f.maker_ceil(left_quote);
        let lock_price = match o.peg {
            Some(l) if o.side == Side::Bid => l as i128,
            _ => price,
        };
        let qty = base.min(left_quote / lock_price);
        if qty <= 0 {
            post = false;
        }
        if let Some(l) = o.peg {
            if price_better(o.side, price, l as i128) {
                post = false;
            }
        }
        if o.otype == OType::Fok && base > 0 {
            return Err("fill or kill");
        }
        if post {
            let k = me.ok_or("no account")?;
            need(qty * lock_price <= i64::MAX as i128 / ql, "posted amount too large")?;
            a.posted_base = qty * bl;
            a.posted_quote = qty * lock_price * ql;
            if o.side == Side::Bid {
                a.maker_fee = f.maker_ceil(a.posted_quote);
                let fee = a.maker_fee;
                add(&mut self.oo(k)?.locked_fees, fee)?;
            }
            // one order past its time is cleaned up
            for tree in [o.peg.is_some(), o.peg.is_none()] {
                let b = self.v.book(o.side);
                let min = b.iter().filter(|x| x.pegged == tree).map(|x| x.expiry()).min().unwrap_or(u64::MAX);
                if min < now {
                    let mut c: Vec<Order> =
                        b.iter().filter(|x| x.pegged == tree && x.expiry() == min).cloned().collect();
                    c.sort_by_key(|x| x.key);
                    let x = c[self.ch.pick(c.len())].clone();
                    self.v.book_mut(o.side).retain(|y| y.key != x.key || y.pegged != x.pegged);
                    self.evict(&x, me, rem)?;
                    break;
                }
            }
            let sp = self.spare(o.side);
            let full = if sp == 2 { self.ch.pick(2) == 0 } else { sp <= 1 };
            if full {
                let b = self.v.book(o.side);
                let mut worst: Option<(i128, Order)> = None;
                for x in b {
                    let p = if x.pegged {
                        match oracle {
                            None => continue,
                            Some(or) => (or as i128 + x.level() as i128).max(1).min(i64::MAX as i128),
                        }
                    } else {
                        x.level() as i128
                    };
                    let worse = match &worst {
                        None => true,
                        Some((wp, wo)) => price_better(o.side, *wp, p) || (*wp == p && x.seq() > wo.seq()),
                    };
                    if worse {
                        worst = Some((p, x.clone()));
                    }
                }
                let (wp, wo) = worst.ok_or("book full")?;
                need(price_better(o.side, price, wp), "book full")?;
                self.v.book_mut(o.side).retain(|y| y.key != wo.key || y.pegged != wo.pegged);
                self.evict(&wo, me, rem)?;
                let nodes = if self.v.book(o.side).iter().any(|x| x.pegged == o.peg.is_some()) { 2 } else { 1 };
                need(self.spare(o.side) >= nodes, "no node")?;
            }
            let oo = self.oo(k)?;
            let slot = (0..24u8).find(|s| !oo.orders.iter().any(|e| e.slot == *s)).ok_or("no slot")?;
            let order = Order {
                side: o.side,
                pegged: o.peg.is_some(),
                key: id,
                owner: Who::Oo(k),
                slot,
                qty: i64c(qty)?,
                ts: now,
                tif: o.tif,
                peg_limit: o.peg.unwrap_or(-1),
                cid: o.cid,
            };
            let oo = self.oo(k)?;
            oo.orders.push(OoOrder {
                slot,
                id,
                cid: o.cid,
                locked_price: i64c(lock_price)?,
                side: o.side,
                pegged: o.peg.is_some(),
            });
            match o.side {
                Side::Bid => {
                    addi(&mut oo.bids_base, qty)?;
                    addi(&mut oo.bids_quote, qty * lock_price)?;
                }
                Side::Ask => addi(&mut oo.asks_base, qty)?,
            }
            self.v.book_mut(o.side).push(order);
            a.id = Some(id);
        }
        Ok(a)
    }

    fn tif(&self, expiry: u64) -> Option<u16> {
        if expiry == 0 {
            return Some(0);
        }
        let now = self.v.now.ts as u64;
        if expiry <= now {
            None
        } else {
            Some((expiry - now).min(65535) as u16)
        }
    }

    fn open_market(&self) -> R<()> {
        need(self.v.mkt.is_some(), "market closed")?;
        need(!self.expired(), "market expired")
    }

    fn pay_in(&mut self, user: usize, base: i128, quote: i128) -> R<()> {
        let w = &mut self.v.wallets[user];
        need(w.0 as i128 >= base && w.1 as i128 >= quote, "insufficient funds")?;
        w.0 -= base as u64;
        w.1 -= quote as u64;
        add(&mut self.v.bvault, base)?;
        add(&mut self.v.qvault, quote)?;
        let m = self.mk()?;
        add(&mut m.base_total, base)?;
        add(&mut m.quote_total, quote)
    }

    /// lock what an order needs: free balance first, then the wallet
    fn fund(&mut self, k: usize, base: i128, quote: i128) -> R<()> {
        let oo = self.oo(k)?;
        let fb = base.min(oo.base_free as i128);
        let fq = quote.min(oo.quote_free as i128);
        add(&mut oo.base_free, -fb)?;
        add(&mut oo.quote_free, -fq)?;
        let u = self.w.ids.oo_owner[k];
        self.pay_in(u, base - fb, quote - fq)
    }

    fn place(&mut self, k: usize, o: &New, limit: u8, rem: &[usize]) -> R<Option<u128>> {
        need(o.base >= 0 && o.quote >= 0, "negative size")?;
        self.oo(k)?;
        self.open_market()?;
        let before = self.v.events.len();
        let a = self.new_order(o, Some(k), Who::Oo(k), limit, rem)?;
        match o.side {
            Side::Bid => self.fund(k, 0, a.quote_taken + a.posted_quote + a.taker_fee + a.maker_fee)?,
            Side::Ask => self.fund(k, a.base_taken + a.posted_base, 0)?,
        }
        if self.v.events.len() > before {
            self.oo(k)?.penalty += 1;
        }
        Ok(a.id)
    }

    fn cancel_all(&mut self, k: usize, side: Option<Side>, cid: Option<u64>, mut limit: u8) -> R<i64> {
        need(self.v.mkt.is_some(), "market closed")?;
        let mut list: Vec<OoOrder> = self.oo(k)?.orders.clone();
        list.sort_by_key(|e| e.slot);
        let mut total = 0;
        for e in list {
            if side.map_or(false, |s| s != e.side) || cid.map_or(false, |c| c != e.cid) {
                continue;
            }
            if limit == 0 {
                break;
            }
            limit -= 1;
            let b = self.v.book(e.side);
            if let Some(o) = b.iter().find(|o| o.key == e.id && o.pegged == e.pegged).cloned() {
                self.v.book_mut(e.side).retain(|x| x.key != e.id || x.pegged != e.pegged);
                self.release(k, o.slot, o.qty)?;
                total += o.qty;
            }
        }
        Ok(total)
    }

    fn settle(&mut self, k: usize, referrer: bool, payer: usize) -> R<()> {
        need(self.v.mkt.is_some(), "market closed")?;
        let mf = self.w.cfg.maker_fee;
        let u = self.w.ids.oo_owner[k];
        let oo = self.oo(k)?;
        let mut rebate = oo.rebates;
        let accrued = oo.rebates;
        if mf > 0 && oo.bids_base == 0 {
            rebate += oo.locked_fees;
            oo.locked_fees = 0;
        }
        let (b, q, pen) = (oo.base_free, oo.quote_free, oo.penalty);
        oo.base_free = 0;
        oo.quote_free = 0;
        oo.rebates = 0;
        oo.penalty = 0;
        let m = self.mk()?;
        add(&mut m.base_total, -(b as i128))?;
        add(&mut m.quote_total, -(q as i128))?;
        add(&mut m.rebates_accrued, -(accrued as i128))?;
        if referrer {
            m.fees_to_referrers += rebate as u128;
            add(&mut m.quote_total, -(rebate as i128))?;
        } else {
            add(&mut m.fees_available, rebate as i128)?;
        }
        if referrer {
            add(&mut self.v.qvault, -(rebate as i128))?;
            add(&mut self.v.referrer, rebate as i128)?;
        }
        add(&mut self.v.bvault, -(b as i128))?;
        add(&mut self.v.qvault, -(q as i128))?;
        add(&mut self.v.wallets[u].0, b as i128)?;
        add(&mut self.v.wallets[u].1, q as i128)?;
        let pay = pen * PENALTY;
        need(self.v.sol[payer] >= pay, "no lamports")?;
        self.v.sol[payer] -= pay;
        self.v.sol[0] += pay;
        let mut e = Enc(self.p.oo_keys[k].to_bytes().to_vec()).u64(b).u64(q).u64(rebate);
        if referrer {
            e = e.u8(1);
            e.0.extend_from_slice(self.w.k(self.w.ids.referrer).as_ref());
        } else {
            e = e.u8(0);
        }
        self.log("SettleFundsLog", e);
        Ok(())
    }

    fn ret_opt(&mut self, id: Option<u128>) {
        self.fx.ret = match id {
            None => vec![0],
            Some(x) => {
                let mut v = vec![1];
                v.extend_from_slice(&x.to_le_bytes());
                v
            }
        };
    }

    fn conv(&self, a: &PlaceArgs) -> Option<New> {
        Some(New {
            side: a.side,
            base: a.base as i128,
            quote: a.quote as i128,
            cid: a.cid,
            tif: self.tif(a.expiry)?,
            st: a.st,
            otype: a.otype,
            level: a.price,
            peg: None,
        })
    }
    fn conv_peg(&self, a: &PegArgs) -> R<Option<New>> {
        need(self.w.cfg.oracles > 0, "no oracle")?;
        need(a.peg_limit > 0, "peg limit")?;
        let tif = match self.tif(a.expiry) {
            None => return Ok(None),
            Some(t) => t,
        };
        need(matches!(a.otype, OType::Limit | OType::PostOnly | OType::Slide), "order type")?;
        Ok(Some(New {
            side: a.side,
            base: a.base as i128,
            quote: a.quote as i128,
            cid: a.cid,
            tif,
            st: a.st,
            otype: a.otype,
            level: a.offset,
            peg: Some(a.peg_limit),
        }))
    }

    fn edit(&mut self, k: usize, cid: u64, expected: i64, mut n: New, limit: u8, rem: &[usize]) -> R<()> {
        need(expected >= 0, "negative size")?;
        let got = self.cancel_all(k, None, Some(cid), 255)?;
        let filled = expected as i128 - got as i128;
        let mut id = None;
        if filled >= 0 && n.base > filled {
            n.base -= filled;
            id = self.place(k, &n, limit, rem)?;
        }
        self.ret_opt(id);
        Ok(())
    }

    fn many(
        &mut self,
        k: usize,
        cancel: bool,
        otype: OType,
        bids: &[MultiArgs],
        asks: &[MultiArgs],
        limit: u8,
        rem: &[usize],
    ) -> R<()> {
        let mut l = vec![];
        for (i, (side, x)) in bids
            .iter()
            .map(|x| (Side::Bid, x))
            .chain(asks.iter().map(|x| (Side::Ask, x)))
            .enumerate()
        {
            need(x.price >= 1, "price")?;
            if let Some(tif) = self.tif(x.expiry) {
                l.push(New {
                    side,
                    base: 0,
                    quote: x.quote as i128,
                    cid: i as u64,
                    tif,
                    st: SelfTrade::CancelProvide,
                    otype,
                    level: x.price,
                    peg: None,
                });
            }
        }
        self.oo(k)?;
        self.open_market()?;
        let before = self.v.events.len();
        if cancel {
            self.cancel_all(k, None, None, 255)?;
        }
        let u = self.w.ids.oo_owner[k];
        let (bl, ql) = (self.bl(), self.ql());
        let (wb, wq) = self.v.wallets[u];
        let (mut nb, mut nq) = (0i128, 0i128);
        let mut ids = vec![];
        for mut o in l {
            need(o.quote >= 0, "negative size")?;
            o.base = i64::MAX as i128 / bl;
            let oo = self.v.o(k);
            match o.side {
                Side::Ask => {
                    let have = wb as i128 + oo.base_free as i128 - nb;
                    need(have >= 0, "underflow")?;
                    o.base = o.base.min(have / bl);
                }
                Side::Bid => {
                    let have = wq as i128 + oo.quote_free as i128 - nq;
                    need(have >= 0, "underflow")?;
                    o.quote = o.quote.min(have / ql);
                }
            }
            let a = self.new_order(&o, Some(k), Who::Oo(k), limit, rem)?;
            match o.side {
                Side::Bid => nq += a.quote_taken + a.posted_quote + a.taker_fee + a.maker_fee,
                Side::Ask => nb += a.base_taken + a.posted_base,
            }
            ids.push(a.id);
        }
        self.fund(k, nb, nq)?;
        if self.v.events.len() > before {
            self.oo(k)?.penalty += 1;
        }
        let mut r = (ids.len() as u32).to_le_bytes().to_vec();
        for id in ids {
            match id {
                None => r.push(0),
                Some(x) => {
                    r.push(1);
                    r.extend_from_slice(&x.to_le_bytes());
                }
            }
        }
        self.fx.ret = r;
        Ok(())
    }

    fn consume(&mut self, slots: &[u64], limit: usize, rem: &[usize]) -> R<()> {
        need(self.v.mkt.is_some(), "market closed")?;
        let limit = limit.min(8);
        let mut order: Vec<u16> = vec![];
        for s in slots {
            if let Some(x) = self.v.ev_slots.iter().find(|x| **x as u64 == *s) {
                if !order.contains(x) {
                    order.push(*x);
                }
            }
        }
        for s in &self.v.ev_slots {
            if !order.contains(s) {
                order.push(*s);
            }
        }
        order.truncate(limit);
        for s in order {
            let i = self.v.ev_slots.iter().position(|x| *x == s).unwrap();
            let ev = self.v.events[i].clone();
            match ev.account() {
                Who::Oo(k) if rem.contains(&k) => match &ev {
                    Ev::Fill { .. } => self.maker_fill(&ev)?,
                    Ev::Out { slot, qty, .. } => self.release(k, *slot, *qty)?,
                },
                _ => continue,
            }
            self.v.events.remove(i);
            self.v.ev_slots.remove(i);
        }
        Ok(())
    }

    pub fn apply(&mut self, op: &Op) -> R<()> {
        match op {
            Op::Place { oo, a, rem } => {
                need(a.price >= 1, "price")?;
                self.oo(*oo)?;
                need(self.v.mkt.is_some(), "market closed")?;
                let id = match self.conv(a) {
                    None => None,
                    Some(n) => self.place(*oo, &n, a.limit, rem)?,
                };
                self.ret_opt(id);
            }
            Op::Peg { oo, a, rem } => {
                self.oo(*oo)?;
                need(self.v.mkt.is_some(), "market closed")?;
                let id = match self.conv_peg(a)? {
                    None => None,
                    Some(n) => self.place(*oo, &n, a.limit, rem)?,
                };
                self.ret_opt(id);
            }
            Op::Edit { oo, cancel_cid, expected, a, rem } => {
                need(a.price >= 1, "price")?;
                self.oo(*oo)?;
                need(self.v.mkt.is_some(), "market closed")?;
                match self.conv(a) {
                    None => self.ret_opt(None),
                    Some(n) => self.edit(*oo, *cancel_cid, *expected, n, a.limit, rem)?,
                }
            }
            Op::EditPeg { oo, cancel_cid, expected, a, rem } => {
                self.oo(*oo)?;
                need(self.v.mkt.is_some(), "market closed")?;
                match self.conv_peg(a)? {
                    None => self.ret_opt(None),
                    Some(n) => self.edit(*oo, *cancel_cid, *expected, n, a.limit, rem)?,
                }
            }
            Op::Many { oo, cancel, otype, bids, asks, limit, rem } => {
                self.oo(*oo)?;
                need(self.v.mkt.is_some(), "market closed")?;
                self.many(*oo, *cancel, *otype, bids, asks, *limit, rem)?
            }
            Op::Take { user, a, rem } => {
                need(a.price >= 1, "price")?;
                need(matches!(a.otype, OType::Market | OType::Ioc | OType::Fok), "type")?;
                need(a.base >= 0 && a.quote >= 0, "negative size")?;
                self.open_market()?;
                let n = New {
                    side: a.side,
                    base: a.base as i128,
                    quote: a.quote as i128,
                    cid: 0,
                    tif: 0,
                    st: SelfTrade::Decrement,
                    otype: a.otype,
                    level: a.price,
                    peg: None,
                };
                let before = self.v.events.len();
                let am = self.new_order(&n, None, Who::User(*user), a.limit, rem)?;
                let reb = am.taker_fee - am.referrer;
                let (b, q) = match a.side {
                    Side::Bid => {
                        self.pay_in(*user, 0, am.quote_taken + reb)?;
                        (am.base_taken, 0)
                    }
                    Side::Ask => {
                        self.pay_in(*user, am.base_taken, 0)?;
                        (0, am.quote_taken - reb)
                    }
                };
                add(&mut self.v.bvault, -b)?;
                add(&mut self.v.qvault, -q)?;
                let m = self.mk()?;
                add(&mut m.base_total, -b)?;
                add(&mut m.quote_total, -q)?;
                add(&mut self.v.wallets[*user].0, b)?;
                add(&mut self.v.wallets[*user].1, q)?;
                if self.v.events.len() > before {
                    need(self.v.sol[1 + user] >= PENALTY, "no lamports")?;
                    self.v.sol[1 + user] -= PENALTY;
                    self.v.sol[0] += PENALTY;
                }
            }
            Op::Cancel { oo, id } => {
                need(self.v.mkt.is_some(), "market closed")?;
                need(*id > 0, "id")?;
                let e = self.oo(*oo)?.orders.iter().find(|e| e.id == *id).ok_or("unknown")?.clone();
                let o = self
                    .v
                    .book(e.side)
                    .iter()
                    .find(|o| o.key == *id && o.pegged == e.pegged)
                    .ok_or("not on book")?
                    .clone();
                self.v.book_mut(e.side).retain(|x| x.key != *id || x.pegged != e.pegged);
                self.release(*oo, o.slot, o.qty)?;
            }
            Op::CancelCid { oo, cid } => {
                let t = self.cancel_all(*oo, None, Some(*cid), 255)?;
                self.fx.ret = t.to_le_bytes().to_vec();
            }
            Op::CancelAll { oo, side, limit } => {
                self.cancel_all(*oo, *side, None, *limit)?;
            }
            Op::Consume { limit, rem } => self.consume(&[], *limit as usize, rem)?,
            Op::ConsumeGiven { slots, rem } => {
                need(slots.iter().all(|s| (*s as usize) < HEAP_MAX), "slots")?;
                self.consume(slots, slots.len(), rem)?
            }
            Op::Deposit { user, oo, base, quote } => self.deposit(*user, *oo, *base, *quote)?,
            Op::Refill { user, oo, base, quote } => {
                let o = self.oo(*oo)?;
                let b = base.saturating_sub(o.base_free);
                let q = quote.saturating_sub(o.quote_free);
                self.deposit(*user, *oo, b, q)?
            }
            Op::Settle { oo, referrer } => {
                let u = self.w.ids.oo_owner[*oo];
                self.settle(*oo, *referrer, 1 + u)?
            }
            Op::SettleExpired { oo, referrer } => {
                need(self.v.mkt.is_some(), "market closed")?;
                need(self.w.cfg.close_admin, "no admin")?;
                need(self.expired(), "not expired")?;
                let p = self.v.sol.len() - 1;
                self.settle(*oo, *referrer, p)?
            }
            Op::Sweep => {
                let m = self.mk()?;
                let a = m.fees_available;
                m.fees_available = 0;
                add(&mut m.quote_total, -(a as i128))?;
                add(&mut self.v.qvault, -(a as i128))?;
                add(&mut self.v.fee_receiver, a as i128)?;
                let mut e = Enc(self.market_key().to_bytes().to_vec()).u64(a);
                e.0.extend_from_slice(self.w.k(self.w.ids.fee_receiver).as_ref());
                self.log("SweepFeesLog", e);
            }
            Op::Prune { oo, limit } => {
                need(self.v.mkt.is_some(), "market closed")?;
                need(self.w.cfg.close_admin, "no admin")?;
                need(self.expired(), "not expired")?;
                self.cancel_all(*oo, None, None, *limit)?;
            }
            Op::SetExpired => {
                need(self.v.mkt.is_some(), "market closed")?;
                need(self.w.cfg.close_admin, "no admin")?;
                need(!self.expired(), "expired")?;
                self.mk()?.time_expiry = -1;
            }
            Op::CloseMarket => {
                need(self.v.mkt.is_some(), "market closed")?;
                need(self.w.cfg.close_admin, "no admin")?;
                need(self.expired(), "not expired")?;
                let m = self.v.m();
                need(
                    m.base_total == 0 && m.quote_total == 0 && m.fees_available == 0 && m.rebates_accrued == 0,
                    "not empty",
                )?;
                need(self.v.bids.is_empty() && self.v.asks.is_empty() && self.v.events.is_empty(), "not empty")?;
                self.v.mkt = None;
                self.v.sol[0] = 0;
            }
            Op::CloseOo { oo } => {
                let o = self.oo(*oo)?;
                need(
                    o.bids_base == 0
                        && o.asks_base == 0
                        && o.bids_quote == 0
                        && o.base_free == 0
                        && o.quote_free == 0
                        && o.locked_fees == 0
                        && o.rebates == 0
                        && o.penalty == 0,
                    "not empty",
                )?;
                self.v.oo[*oo] = None;
            }
            Op::SetDelegate { oo, delegate } => {
                let d = delegate.map(|u| self.p.user_keys[u]);
                self.oo(*oo)?.delegate = d.unwrap_or_default();
                let mut e = Enc(self.p.oo_keys[*oo].to_bytes().to_vec());
                match d {
                    None => e = e.u8(0),
                    Some(k) => {
                        e = e.u8(1);
                        e.0.extend_from_slice(k.as_ref());
                    }
                }
                self.log("SetDelegateLog", e);
            }
            Op::Advance { dt } => {
                self.v.now.ts += dt;
                self.v.now.slot += *dt as u64;
            }
            Op::Oracle { price } => {
                if *price == u64::MAX {
                    self.v.oracle_ok = false;
                } else {
                    self.v.oracle = *price;
                    self.v.oracle_ok = true;
                }
            }
        }
        Ok(())
    }

    fn deposit(&mut self, user: usize, k: usize, base: u64, quote: u64) -> R<()> {
        self.oo(k)?;
        self.open_market()?;
        self.pay_in(user, base as i128, quote as i128)?;
        let o = self.oo(k)?;
        add(&mut o.base_free, base as i128)?;
        add(&mut o.quote_free, quote as i128)?;
        if base > 0 || quote > 0 {
            let mut e = Enc(self.p.oo_keys[k].to_bytes().to_vec());
            e.0.extend_from_slice(self.p.user_keys[user].as_ref());
            let e = e.u64(base).u64(quote);
            self.log("DepositLog", e);
        }
        Ok(())
    }
}

/// Order lists as a set keyed by identity, storage positions removed.
pub fn normalise(v: &mut View) {
    for s in Side::both() {
        let b = v.book_mut(s);
        b.sort_by(|x, y| x.pegged.cmp(&y.pegged).then(x.key.cmp(&y.key)));
        if s == Side::Bid {
            b.reverse();
        }
    }
    let ids: Vec<(usize, u8, u128)> = v
        .oo
        .iter()
        .enumerate()
        .filter_map(|(k, o)| o.as_ref().map(|o| (k, o)))
        .flat_map(|(k, o)| o.orders.iter().map(move |e| (k, e.slot, e.id)))
        .collect();
    // position of the order in id order stands for the slot
    let mut sorted: Vec<u128> = ids.iter().map(|x| x.2).collect();
    sorted.sort_unstable();
    let map: std::collections::HashMap<(usize, u8), u128> = ids.iter().map(|x| ((x.0, x.1), x.2)).collect();
    let rank = |who: Who, slot: u8| -> u8 {
        if let Who::Oo(k) = who {
            if let Some(id) = map.get(&(k, slot)) {
                return (sorted.binary_search(id).unwrap() % 254) as u8;
            }
        }
        255
    };
    for s in Side::both() {
        for o in v.book_mut(s).iter_mut() {
            o.slot = rank(o.owner, o.slot);
        }
    }
    for e in v.events.iter_mut() {
        match e {
            Ev::Fill { maker, slot, .. } => *slot = rank(*maker, *slot),
            Ev::Out { owner, slot, .. } => *slot = rank(*owner, *slot),
        }
    }
    for (k, o) in v.oo.iter_mut().enumerate() {
        if let Some(o) = o {
            for e in o.orders.iter_mut() {
                e.slot = rank(Who::Oo(k), e.slot);
            }
            o.orders.sort_by_key(|e| e.id);
        }
    }
    v.ev_slots.clear();
}
