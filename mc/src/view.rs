//! Parsing of raw account bytes into a semantic view, independent of the
//! program's own readers, together with structural well-formedness checks.

use crate::rt::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;

pub fn u16a(d: &[u8], o: usize) -> u16 {
    u16::from_le_bytes(d[o..o + 2].try_into().unwrap())
}
pub fn u32a(d: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(d[o..o + 4].try_into().unwrap())
}
pub fn u64a(d: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn i64a(d: &[u8], o: usize) -> i64 {
    i64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn f64a(d: &[u8], o: usize) -> f64 {
    f64::from_le_bytes(d[o..o + 8].try_into().unwrap())
}
pub fn u128a(d: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(d[o..o + 16].try_into().unwrap())
}
pub fn pka(d: &[u8], o: usize) -> Pubkey {
    Pubkey::try_from(&d[o..o + 32]).unwrap()
}

/// Who a public key belongs to.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Who {
    Oo(usize),
    User(usize),
    Other,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Order {
    pub side: Side,
    pub pegged: bool,
    pub key: u128,
    pub owner: Who,
    pub slot: u8,
    pub qty: i64,
    pub ts: u64,
    pub tif: u16,
    pub peg_limit: i64,
    pub cid: u64,
}
impl Order {
    pub fn seq(&self) -> u64 {
        let low = self.key as u64;
        match self.side {
            Side::Bid => !low,
            Side::Ask => low,
        }
    }
    pub fn price_data(&self) -> u64 {
        (self.key >> 64) as u64
    }
    /// price of a fixed order, offset of a pegged order
    pub fn level(&self) -> i64 {
        if self.pegged {
            (self.price_data() as i128 - (1i128 << 63)) as i64
        } else {
            self.price_data() as i64
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.tif > 0 && now >= self.ts + self.tif as u64
    }
    pub fn expiry(&self) -> u64 {
        if self.tif == 0 {
            u64::MAX
        } else {
            self.ts + self.tif as u64
        }
    }
}

pub fn make_key(side: Side, pegged: bool, level: i64, seq: u64) -> u128 {
    let hi = if pegged {
        (level as i128 + (1i128 << 63)) as u128
    } else {
        level as u128
    };
    (hi << 64)
        | match side {
            Side::Bid => !seq as u128,
            Side::Ask => seq as u128,
        }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Fill {
        taker_side: Side,
        out: bool,
        maker: Who,
        slot: u8,
        ts: u64,
        seq: u64,
        maker_ts: u64,
        taker: Who,
        taker_cid: u64,
        price: i64,
        peg_limit: i64,
        qty: i64,
        maker_cid: u64,
    },
    Out {
        side: Side,
        owner: Who,
        slot: u8,
        ts: u64,
        qty: i64,
    },
}
impl Ev {
    pub fn account(&self) -> Who {
        match self {
            Ev::Fill { maker, .. } => *maker,
            Ev::Out { owner, .. } => *owner,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct OoOrder {
    pub slot: u8,
    pub id: u128,
    pub cid: u64,
    pub locked_price: i64,
    pub side: Side,
    pub pegged: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Oo {
    pub owner: Pubkey,
    pub market: Pubkey,
    pub delegate: Pubkey,
    pub num: u32,
    pub version: u8,
    pub bids_base: i64,
    pub asks_base: i64,
    pub bids_quote: i64,
    pub base_free: u64,
    pub quote_free: u64,
    pub locked_fees: u64,
    pub rebates: u64,
    pub penalty: u64,
    pub maker_vol: u128,
    pub taker_vol: u128,
    pub orders: Vec<OoOrder>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Mkt {
    pub time_expiry: i64,
    pub seq: u64,
    pub fees_accrued: u128,
    pub fees_to_referrers: u128,
    pub rebates_accrued: u64,
    pub fees_available: u64,
    pub maker_vol: u128,
    pub taker_vol: u128,
    pub base_total: u64,
    pub quote_total: u64,
    /// every other byte of the market account
    pub fixed: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct View {
    pub now: Now,
    pub oracle: u64,
    pub oracle_ok: bool,
    /// None once the market is closed
    pub mkt: Option<Mkt>,
    /// resting orders, best key first, fixed then pegged
    pub bids: Vec<Order>,
    pub asks: Vec<Order>,
    pub events: Vec<Ev>,
    pub ev_slots: Vec<u16>,
    pub oo: Vec<Option<Oo>>,
    /// per user (base, quote)
    pub wallets: Vec<(u64, u64)>,
    pub bvault: u64,
    pub qvault: u64,
    pub fee_receiver: u64,
    pub referrer: u64,
    /// lamports: market, users..., close admin
    pub sol: Vec<u64>,
}

impl View {
    pub fn book(&self, s: Side) -> &Vec<Order> {
        match s {
            Side::Bid => &self.bids,
            Side::Ask => &self.asks,
        }
    }
    pub fn book_mut(&mut self, s: Side) -> &mut Vec<Order> {
        match s {
            Side::Bid => &mut self.bids,
            Side::Ask => &mut self.asks,
        }
    }
    pub fn m(&self) -> &Mkt {
        self.mkt.as_ref().unwrap()
    }
    pub fn o(&self, i: usize) -> &Oo {
        self.oo[i].as_ref().unwrap()
    }
}

pub struct Parser {
    pub oo_keys: Vec<Pubkey>,
    pub user_keys: Vec<Pubkey>,
}

const MKT_DYNAMIC: [(usize, usize); 5] = [
    (48, 56),   // time_expiry
    (464, 472), // seq
    (496, 576), // fees and volumes
    (672, 680), // base total
    (712, 720), // quote total
];

impl Parser {
    pub fn new(w: &World) -> Parser {
        Parser {
            oo_keys: w.ids.oo.iter().map(|i| w.k(*i)).collect(),
            user_keys: w.ids.users.iter().map(|u| w.k(u.wallet)).collect(),
        }
    }
    pub fn who(&self, k: &[u8]) -> Who {
        if let Some(i) = self.oo_keys.iter().position(|x| x.as_ref() == k) {
            return Who::Oo(i);
        }
        if let Some(i) = self.user_keys.iter().position(|x| x.as_ref() == k) {
            return Who::User(i);
        }
        Who::Other
    }

    pub fn book(&self, d: &[u8], side: Side) -> Result<Vec<Order>, String> {
        let typ = d[312];
        if typ != side.code() {
            return Err(format!("book of {side:?} has type {typ}"));
        }
        let bump = u32a(d, 316) as usize;
        let free_len = u32a(d, 320) as usize;
        let mut seen = [false; 1024];
        let mut n_seen = 0usize;
        let mut out = vec![];
        if bump > 1024 {
            return Err(format!("bump index {bump}"));
        }
        for tree in 0..2 {
            let root = u32a(d, 8 + tree * 8);
            let cnt = u32a(d, 12 + tree * 8) as usize;
            let mut leaves = vec![];
            if cnt > 0 {
                self.walk(d, root, side, tree == 1, 0, 0, &mut seen, &mut n_seen, &mut leaves, bump)?;
            }
            if leaves.len() != cnt {
                return Err(format!("{side:?} tree {tree}: leaf count {cnt} but {} leaves", leaves.len()));
            }
            for w in leaves.windows(2) {
                if w[0].key >= w[1].key {
                    return Err(format!("{side:?} tree {tree}: keys out of order"));
                }
            }
            if side == Side::Bid {
                leaves.reverse();
            }
            out.extend(leaves);
        }
        // free list
        let mut cur = u32a(d, 324) as usize;
        for _ in 0..free_len {
            if cur >= bump {
                return Err(format!("{side:?} free list leaves arena ({cur})"));
            }
            if seen[cur] {
                return Err(format!("{side:?} free list reaches used or repeated node {cur}"));
            }
            seen[cur] = true;
            n_seen += 1;
            let tag = d[840 + cur * 88];
            if tag == 1 || tag == 2 {
                return Err(format!("{side:?} free node {cur} has tag {tag}"));
            }
            cur = u32a(d, 840 + cur * 88 + 4) as usize;
        }
        if n_seen != bump {
            return Err(format!("{side:?} arena leak: {n_seen} nodes reachable, {bump} allocated"));
        }
        Ok(out)
    }

    /// returns earliest expiry of the subtree
    #[allow(clippy::too_many_arguments)]
    fn walk(
        &self,
        d: &[u8],
        h: u32,
        side: Side,
        pegged: bool,
        prefix: u128,
        plen: u32,
        seen: &mut [bool; 1024],
        n: &mut usize,
        out: &mut Vec<Order>,
        bump: usize,
    ) -> Result<u64, String> {
        let h = h as usize;
        if h >= bump {
            return Err(format!("node handle {h} out of range"));
        }
        if seen[h] {
            return Err(format!("node {h} reached twice"));
        }
        seen[h] = true;
        *n += 1;
        let b = &d[840 + h * 88..840 + h * 88 + 88];
        let key = u128a(b, 8);
        if plen > 0 && (key ^ prefix) >> (128 - plen) != 0 {
            return Err(format!("node {h} violates prefix of its parent"));
        }
        match b[0] {
            2 => {
                let o = Order {
                    side,
                    pegged,
                    key,
                    owner: self.who(&b[24..56]),
                    slot: b[1],
                    qty: i64a(b, 56),
                    ts: u64a(b, 64),
                    tif: u16a(b, 2),
                    peg_limit: i64a(b, 72),
                    cid: u64a(b, 80),
                };
                let e = o.expiry();
                out.push(o);
                Ok(e)
            }
            1 => {
                let pl = u32a(b, 4);
                if pl < plen || pl > 127 {
                    return Err(format!("inner node {h} prefix length {pl} under {plen}"));
                }
                let mask = if pl == 0 { 0 } else { !0u128 << (128 - pl) };
                let mut mins = [0u64; 2];
                for c in 0..2 {
                    let child = u32a(b, 24 + c * 4);
                    let mut p = key & mask;
                    if c == 1 {
                        p |= 1u128 << (127 - pl);
                    }
                    mins[c] = self.walk(d, child, side, pegged, p, pl + 1, seen, n, out, bump)?;
                    if u64a(b, 32 + c * 8) != mins[c] {
                        return Err(format!(
                            "inner node {h}: cached expiry {} of child {c} but earliest is {}",
                            u64a(b, 32 + c * 8),
                            mins[c]
                        ));
                    }
                }
                Ok(mins[0].min(mins[1]))
            }
            t => Err(format!("node {h} has tag {t}")),
        }
    }

    pub fn heap(&self, d: &[u8]) -> Result<(Vec<Ev>, Vec<u16>), String> {
        let free_head = u16a(d, 8);
        let used_head = u16a(d, 10);
        let count = u16a(d, 12) as usize;
        let mut ev = vec![];
        let mut slots = vec![];
        let at = |i: usize| &d[24 + i * 152..24 + (i + 1) * 152];
        if count > 600 {
            return Err(format!("heap count {count}"));
        }
        let mut seen = [false; 600];
        let mut cur = used_head as usize;
        let mut prev = None;
        for _ in 0..count {
            if cur >= 600 || seen[cur] {
                return Err(format!("event list broken at slot {cur}"));
            }
            seen[cur] = true;
            let n = at(cur);
            if let Some(p) = prev {
                if u16a(n, 2) as usize != p {
                    return Err(format!("event list back link of {cur} is {}", u16a(n, 2)));
                }
            }
            slots.push(cur as u16);
            let e = &n[8..];
            let sd = |b: u8| if b == 0 { Side::Bid } else { Side::Ask };
            ev.push(match e[0] {
                0 => Ev::Fill {
                    taker_side: sd(e[1]),
                    out: e[2] == 1,
                    maker: self.who(&e[24..56]),
                    slot: e[3],
                    ts: u64a(e, 8),
                    seq: u64a(e, 16),
                    maker_ts: u64a(e, 56),
                    taker: self.who(&e[64..96]),
                    taker_cid: u64a(e, 96),
                    price: i64a(e, 104),
                    peg_limit: i64a(e, 112),
                    qty: i64a(e, 120),
                    maker_cid: u64a(e, 128),
                },
                1 => Ev::Out {
                    side: sd(e[1]),
                    owner: self.who(&e[24..56]),
                    slot: e[2],
                    ts: u64a(e, 8),
                    qty: i64a(e, 56),
                },
                t => return Err(format!("event type {t}")),
            });
            prev = Some(cur);
            cur = u16a(n, 0) as usize;
        }
        if count > 0 {
            if cur != used_head as usize || u16a(at(cur), 2) as usize != prev.unwrap() {
                return Err("event list is not circular".into());
            }
        }
        let mut cur = free_head as usize;
        for k in 0..600 - count {
            if cur >= 600 || seen[cur] {
                return Err(format!("free event list broken at {cur} after {k} entries"));
            }
            seen[cur] = true;
            if u16a(at(cur), 2) != 0xffff {
                return Err(format!("free event slot {cur} is not marked free"));
            }
            cur = u16a(at(cur), 0) as usize;
        }
        Ok((ev, slots))
    }

    pub fn oo(&self, d: &[u8]) -> Result<Oo, String> {
        let mut orders = vec![];
        for s in 0..24usize {
            let b = &d[304 + s * 40..304 + (s + 1) * 40];
            match b[32] {
                1 => {}
                0 => {
                    let st = b[33];
                    if st > 3 {
                        return Err(format!("order slot {s} side_and_tree {st}"));
                    }
                    orders.push(OoOrder {
                        slot: s as u8,
                        id: u128a(b, 0),
                        cid: u64a(b, 16),
                        locked_price: i64a(b, 24),
                        side: if st % 2 == 0 { Side::Bid } else { Side::Ask },
                        pegged: st >= 2,
                    });
                }
                x => return Err(format!("order slot {s} is_free {x}")),
            }
        }
        Ok(Oo {
            owner: pka(d, 8),
            market: pka(d, 40),
            delegate: pka(d, 104),
            num: u32a(d, 136),
            version: d[141],
            bids_base: i64a(d, 144),
            asks_base: i64a(d, 152),
            base_free: u64a(d, 160),
            quote_free: u64a(d, 168),
            locked_fees: u64a(d, 176),
            rebates: u64a(d, 184),
            penalty: u64a(d, 192),
            maker_vol: u128a(d, 200),
            taker_vol: u128a(d, 216),
            bids_quote: i64a(d, 232),
            orders,
        })
    }

    pub fn market(&self, d: &[u8]) -> Mkt {
        let mut fixed = d.to_vec();
        for (a, b) in MKT_DYNAMIC {
            fixed[a..b].fill(0);
        }
        Mkt {
            time_expiry: i64a(d, 48),
            seq: u64a(d, 464),
            fees_accrued: u128a(d, 496),
            fees_to_referrers: u128a(d, 512),
            rebates_accrued: u64a(d, 528),
            fees_available: u64a(d, 536),
            maker_vol: u128a(d, 544),
            taker_vol: u128a(d, 560),
            base_total: u64a(d, 672),
            quote_total: u64a(d, 712),
            fixed,
        }
    }

    pub fn parse(&self, w: &World, m: &Machine) -> Result<View, String> {
        let i = &w.ids;
        let tok = |a: usize| -> u64 {
            let d = m.data(a);
            if d.len() < 72 {
                0
            } else {
                u64a(d, 64)
            }
        };
        let open = m.data(i.m.market).len() == MARKET_LEN;
        let (mut bids, mut asks, mut events, mut ev_slots) = (vec![], vec![], vec![], vec![]);
        if open {
            bids = self.book(m.data(i.m.bids), Side::Bid)?;
            asks = self.book(m.data(i.m.asks), Side::Ask)?;
            let (e, s) = self.heap(m.data(i.m.heap))?;
            events = e;
            ev_slots = s;
        }
        let mut oo = vec![];
        for &a in &i.oo {
            let d = m.data(a);
            oo.push(if d.len() == OO_LEN { Some(self.oo(d)?) } else { None });
        }
        let none = [0u8; ORACLE_LEN];
        let od = Some(m.data(i.oracle_a)).filter(|d| d.len() == ORACLE_LEN).unwrap_or(&none);
        let price = f64a(od, 72);
        let mut sol = vec![m.lamports(i.m.market)];
        sol.extend(i.users.iter().map(|u| m.lamports(u.wallet)));
        sol.push(m.lamports(i.close_admin));
        Ok(View {
            now: m.now,
            oracle: price as u64,
            oracle_ok: f64a(od, 96) <= w.cfg.conf_filter as f64 * price,
            mkt: if open { Some(self.market(m.data(i.m.market))) } else { None },
            bids,
            asks,
            events,
            ev_slots,
            oo,
            wallets: i.users.iter().map(|u| (tok(u.base), tok(u.quote))).collect(),
            bvault: tok(i.m.bvault),
            qvault: tok(i.m.qvault),
            fee_receiver: tok(i.fee_receiver),
            referrer: tok(i.referrer),
            sol,
        })
    }
}

/// Agreement between order book, open orders accounts and pending events.
pub fn coherence(v: &View) -> Result<(), String> {
    let mut bids_base = vec![0i128; v.oo.len()];
    let mut bids_quote = vec![0i128; v.oo.len()];
    let mut asks_base = vec![0i128; v.oo.len()];
    let mut used: std::collections::HashSet<(usize, u8)> = Default::default();
    for o in v.bids.iter().chain(v.asks.iter()) {
        let k = match o.owner {
            Who::Oo(k) => k,
            x => return Err(format!("resting order owned by {x:?}")),
        };
        if o.qty <= 0 {
            return Err(format!("resting order with quantity {}", o.qty));
        }
        let oo = v.oo[k].as_ref().ok_or("resting order of a closed account")?;
        let e = oo
            .orders
            .iter()
            .find(|e| e.slot == o.slot)
            .ok_or_else(|| format!("account {k} has no entry in slot {} for a resting order", o.slot))?;
        if e.id != o.key || e.side != o.side || e.pegged != o.pegged || e.cid != o.cid {
            return Err(format!("account {k} slot {} disagrees with the resting order", o.slot));
        }
        if !used.insert((k, o.slot)) {
            return Err(format!("account {k} slot {} referenced twice", o.slot));
        }
        match o.side {
            Side::Bid => {
                bids_base[k] += o.qty as i128;
                bids_quote[k] += o.qty as i128 * e.locked_price as i128;
            }
            Side::Ask => asks_base[k] += o.qty as i128,
        }
    }
    for e in &v.events {
        match e {
            Ev::Fill { taker_side, out, maker, slot, price, peg_limit, qty, .. } => {
                let k = match maker {
                    Who::Oo(k) => *k,
                    x => return Err(format!("fill event for {x:?}")),
                };
                let oo = v.oo[k].as_ref().ok_or("fill event of a closed account")?;
                if *qty <= 0 {
                    return Err(format!("fill event with quantity {qty}"));
                }
                match taker_side {
                    Side::Ask => {
                        let lp = if *peg_limit != -1 { *peg_limit } else { *price };
                        bids_base[k] += *qty as i128;
                        bids_quote[k] += *qty as i128 * lp as i128;
                    }
                    Side::Bid => asks_base[k] += *qty as i128,
                }
                if *out {
                    if !oo.orders.iter().any(|e| e.slot == *slot) {
                        return Err(format!("final fill for account {k} but slot {slot} is empty"));
                    }
                    if !used.insert((k, *slot)) {
                        return Err(format!("account {k} slot {slot} referenced twice"));
                    }
                }
            }
            Ev::Out { owner, slot, qty, side, .. } => {
                let k = match owner {
                    Who::Oo(k) => *k,
                    x => return Err(format!("out event for {x:?}")),
                };
                let oo = v.oo[k].as_ref().ok_or("out event of a closed account")?;
                let ent = oo
                    .orders
                    .iter()
                    .find(|e| e.slot == *slot)
                    .ok_or_else(|| format!("out event for account {k} but slot {slot} is empty"))?;
                if ent.side != *side {
                    return Err(format!("out event side disagrees with account {k} slot {slot}"));
                }
                if !used.insert((k, *slot)) {
                    return Err(format!("account {k} slot {slot} referenced twice"));
                }
                match side {
                    Side::Bid => {
                        bids_base[k] += *qty as i128;
                        bids_quote[k] += *qty as i128 * ent.locked_price as i128;
                    }
                    Side::Ask => asks_base[k] += *qty as i128,
                }
            }
        }
    }
    for (k, oo) in v.oo.iter().enumerate() {
        if let Some(oo) = oo {
            if oo.bids_base as i128 != bids_base[k]
                || oo.asks_base as i128 != asks_base[k]
                || oo.bids_quote as i128 != bids_quote[k]
            {
                return Err(format!(
                    "account {k} records bids {}/{} asks {} but orders and events add up to {}/{} and {}",
                    oo.bids_base, oo.bids_quote, oo.asks_base, bids_base[k], bids_quote[k], asks_base[k]
                ));
            }
            for e in &oo.orders {
                if !used.contains(&(k, e.slot)) {
                    return Err(format!("account {k} slot {} holds an order that does not exist", e.slot));
                }
            }
        }
    }
    let mut ids: Vec<u128> = v.oo.iter().flatten().flat_map(|o| o.orders.iter().map(|e| e.id)).collect();
    ids.sort_unstable();
    if ids.windows(2).any(|w| w[0] == w[1]) {
        return Err("two open orders share an order id".into());
    }
    Ok(())
}
