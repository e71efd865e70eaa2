//! Swap quotes and maker lists of the client, judged by running the taker
//! order they describe on the real program in the same state.

use crate::{amounts_from_book, iterate_book, remaining_accounts_to_crank, OpenBookMarket, ZeroCopyDeserialize};
use jupiter_amm_interface::{AccountMap, Amm, KeyedAccount, QuoteParams, SwapParams};
use obmc::alpha::*;
use obmc::checks::world_part;
use obmc::explore::*;
use obmc::report::*;
use obmc::rt::*;
use obmc::view::*;
use obmc::world::*;
use openbook_v2::state::{BookSide, Market, Orderbook};
use solana_sdk::{account::Account, clock::Clock, pubkey::Pubkey, sysvar};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

const TAKEN: u8 = 45;
const LISTED: usize = 3;

fn account(m: &Machine, i: usize) -> Account {
    Account { lamports: m.lamports(i), data: m.data(i).to_vec(), owner: m.owner(i), executable: false, rent_epoch: 0 }
}

pub struct Client {
    pub amm: OpenBookMarket,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
}

/// The client's picture of the current state; the inner error is a refusal to follow the market.
pub fn client(w: &World, m: &Machine) -> Result<Result<Client, String>, String> {
    let i = &w.ids;
    let keyed = KeyedAccount { key: w.k(i.m.market), account: account(m, i.m.market), params: None };
    let r = guarded(|| {
        let mut amm = OpenBookMarket::from_keyed_account(&keyed).map_err(|e| format!("cannot decode the market: {e}"))?;
        let mut map = AccountMap::new();
        for k in amm.get_accounts_to_update() {
            if k == sysvar::clock::ID {
                let c = Clock { slot: m.now.slot, unix_timestamp: m.now.ts, ..Default::default() };
                let data = bincode::serialize(&c).unwrap();
                map.insert(k, Account { lamports: 1, data, owner: sysvar::ID, executable: false, rent_epoch: 0 });
            } else {
                match (0..w.image.accts.len()).find(|x| w.k(*x) == k) {
                    Some(x) => map.insert(k, account(m, x)),
                    None => return Err(format!("asks for an unknown account {k}")),
                };
            }
        }
        Ok(match amm.update(&map) {
            Ok(()) => Ok(amm),
            Err(e) => Err(e.to_string()),
        })
    });
    match r {
        Err(p) => Err(format!("client panicked: {p}")),
        Ok(Err(e)) => Err(e),
        Ok(Ok(Err(e))) => Ok(Err(e)),
        Ok(Ok(Ok(amm))) => Ok(Ok(Client { amm, base_mint: w.k(i.bmint), quote_mint: w.k(i.qmint) })),
    }
}

/// Effects of a taker order on the program.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Traded {
    pub paid: u64,
    pub got: u64,
    pub quote: u64,
    pub base: u64,
    pub new_events: Vec<Ev>,
}

pub fn take_args(w: &World, side: Side, in_amount: u64) -> TakeArgs {
    let c = &w.cfg;
    let (base, quote) = match side {
        Side::Bid => (i64::MAX / c.base_lot, in_amount as i64 / c.quote_lot),
        Side::Ask => (in_amount as i64 / c.base_lot, i64::MAX / c.quote_lot),
    };
    TakeArgs { side, price: if side == Side::Bid { i64::MAX } else { 1 }, base, quote, otype: OType::Market, limit: TAKEN }
}

pub fn execute(w: &World, p: &Parser, m: &mut Machine, st: &State, v: &View, ix: &Ix, user: usize, side: Side) -> Result<Traded, String> {
    let o = m.exec(ix);
    if !o.ok {
        m.load(st);
        return Err(o.err);
    }
    let n = p.parse(w, m)?;
    m.load(st);
    let (b0, q0) = v.wallets[user];
    let (b1, q1) = n.wallets[user];
    let quote = (n.m().taker_vol - v.m().taker_vol) as u64;
    // a taker event is new when its position in the list is beyond the old ones
    let new_events = n.events.iter().skip(v.events.len()).cloned().collect();
    Ok(match side {
        Side::Bid => Traded { paid: q0 - q1, got: b1 - b0, quote, base: b1 - b0, new_events },
        Side::Ask => Traded { paid: b0 - b1, got: q1 - q0, quote, base: b0 - b1, new_events },
    })
}

fn side_of(s: Side) -> openbook_v2::state::Side {
    match s {
        Side::Bid => openbook_v2::state::Side::Bid,
        Side::Ask => openbook_v2::state::Side::Ask,
    }
}

/// Quote lots left for trading once the taker fee is put aside.
fn net_of_fee(w: &World, lots: i64) -> i64 {
    (lots as i128 * 1_000_000 / (1_000_000 + w.cfg.taker_fee as i128)) as i64
}

pub struct Books {
    market: Market,
    bids: RefCell<BookSide>,
    asks: RefCell<BookSide>,
}
impl Books {
    fn new(w: &World, m: &Machine) -> Result<Books, String> {
        let i = &w.ids.m;
        let d = |e: anchor_lang::error::Error| format!("client cannot decode: {e}");
        Ok(Books {
            market: Market::try_deserialize_from_slice(&mut m.data(i.market)).map_err(d)?,
            bids: RefCell::new(BookSide::try_deserialize_from_slice(&mut m.data(i.bids)).map_err(d)?),
            asks: RefCell::new(BookSide::try_deserialize_from_slice(&mut m.data(i.asks)).map_err(d)?),
        })
    }
    fn book(&self) -> Orderbook<'_> {
        Orderbook { bids: self.bids.borrow_mut(), asks: self.asks.borrow_mut() }
    }
}

fn oracle_native(w: &World, v: &View) -> Option<fixed::types::I80F48> {
    if w.cfg.oracles == 1 && v.oracle_ok {
        Some(fixed::types::I80F48::from_num(v.oracle))
    } else {
        None
    }
}

fn amounts(w: &World, side: Side) -> Vec<u64> {
    let lot = if side == Side::Bid { w.cfg.quote_lot } else { w.cfg.base_lot } as u64;
    let mut l: Vec<u64> = vec![0, 1, lot - 1, lot, lot + 1];
    let steps: &[u64] = if side == Side::Bid { &[2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 17, 23, 31, 45, 60, 100] } else { &[2, 3, 4, 5, 6, 7, 9, 12] };
    for s in steps {
        l.push(s * lot);
    }
    l.extend([5 * lot + lot / 2, 12 * lot - 1, 10_000_000]);
    l.sort();
    l.dedup();
    l
}

/// C36
pub fn quote_mon(w: &World, p: &Parser, m: &mut Machine, st: &State, v: &View) -> Result<u64, String> {
    if !tradable(v) {
        return Ok(0);
    }
    let mut runs = 0;
    let user = w.cfg.users - 1;
    m.load(st);
    let cl = client(w, m)?;
    for side in Side::both() {
        for &amount in &amounts(w, side) {
            let a = take_args(w, side, amount);
            let lots = if side == Side::Bid { a.quote } else { a.base };
            let ix = w.ix(&Op::Take { user, a: a.clone(), rem: vec![] }).unwrap();
            let t = execute(w, p, m, st, v, &ix, user, side);
            runs += 1;
            let c = match &cl {
                Ok(c) => c,
                Err(e) => {
                    if t.is_ok() {
                        return Err(format!("the client cannot follow the market ({e}) although the program trades"));
                    }
                    continue;
                }
            };
            let (input_mint, output_mint) =
                if side == Side::Bid { (c.quote_mint, c.base_mint) } else { (c.base_mint, c.quote_mint) };
            let q = guarded(|| c.amm.quote(&QuoteParams { in_amount: amount, input_mint, output_mint }))
                .map_err(|e| format!("quote for {side:?} {amount} panicked: {e}"))?
                .map_err(|e| format!("quote for {side:?} {amount} failed: {e}"))?;
            let nothing = Traded::default();
            let t = match &t {
                Ok(t) => t,
                Err(e) => {
                    if lots > 0 {
                        return Err(format!("the program rejects the order of a quote for {side:?} {amount}: {e}"));
                    }
                    &nothing
                }
            };
            let fee = if side == Side::Bid { t.paid - t.quote } else { t.quote - t.got };
            let want = (t.paid, t.got, fee);
            let got = (q.in_amount, q.out_amount, q.fee_amount);
            if want != got {
                return Err(format!(
                    "quote for {side:?} with {amount}: client says pay, receive, fee = {got:?}, the program does {want:?}"
                ));
            }
            if q.fee_mint != c.quote_mint {
                return Err("fee quoted in another currency".into());
            }
            let left = match side {
                Side::Ask => lots - (t.base as i64 / w.cfg.base_lot),
                Side::Bid => net_of_fee(w, lots) - (t.quote as i64 / w.cfg.quote_lot),
            };
            if q.not_enough_liquidity != (left != 0) {
                return Err(format!(
                    "quote for {side:?} with {amount}: lack of liquidity reported as {}, {left} lots are left over",
                    q.not_enough_liquidity
                ));
            }
        }
        // the book simulation with limits on both sides of the trade
        if cl.is_ok() && w.cfg.oracles < 2 {
            let b = Books::new(w, m)?;
            for base in [1, 2, 3, 5, 20] {
                for quote in [1, 3, 7, 12, 40, 1000] {
                    let a = TakeArgs { base, quote, ..take_args(w, side, 1000) };
                    let ix = w.ix(&Op::Take { user, a, rem: vec![] }).unwrap();
                    let t = execute(w, p, m, st, v, &ix, user, side)
                        .map_err(|e| format!("{side:?} {base} lots for {quote}: program fails with {e}"))?;
                    runs += 1;
                    let r = guarded(|| {
                        amounts_from_book(b.book(), side_of(side), base, quote, &b.market, oracle_native(w, v), v.now.ts as u64)
                    })
                    .map_err(|e| format!("simulation panicked: {e}"))?
                    .map_err(|e| format!("simulation failed: {e}"))?;
                    let fee = if side == Side::Bid { t.paid - t.quote } else { t.quote - t.got };
                    let want = (t.base, t.quote, fee);
                    let got = (r.total_base_taken_native, r.total_quote_taken_native, r.fee);
                    if want != got {
                        return Err(format!(
                            "simulation of {side:?} {base} lots for at most {quote}: base, quote, fee = {got:?}, the program does {want:?}"
                        ));
                    }
                    let left = match side {
                        Side::Ask => base - (t.base as i64 / w.cfg.base_lot),
                        Side::Bid => net_of_fee(w, quote) - (t.quote as i64 / w.cfg.quote_lot),
                    };
                    if r.not_enough_liquidity != (left != 0) {
                        return Err(format!("simulation of {side:?} {base} lots for at most {quote}: wrong liquidity flag"));
                    }
                }
            }
        }
    }
    Ok(runs)
}

fn tradable(v: &View) -> bool {
    match &v.mkt {
        Some(m) => m.time_expiry == 0 || m.time_expiry > v.now.ts,
        None => false,
    }
}

fn fills(t: &[Ev]) -> Vec<Who> {
    t.iter().filter(|e| matches!(e, Ev::Fill { .. })).map(|e| e.account()).collect()
}

/// C37
pub fn maker_mon(w: &World, p: &Parser, m: &mut Machine, st: &State, v: &View) -> Result<u64, String> {
    if !tradable(v) {
        return Ok(0);
    }
    let mut runs = 0;
    let user = w.cfg.users - 1;
    m.load(st);
    let c = match client(w, m)? {
        Ok(c) => c,
        Err(_) => return Ok(0),
    };
    for side in Side::both() {
        // everything on offer: the program's own order of execution names the makers
        let a = take_args(w, side, 50_000_000);
        let ix = w.ix(&Op::Take { user, a: a.clone(), rem: vec![] }).unwrap();
        let t = execute(w, p, m, st, v, &ix, user, side).map_err(|e| format!("taking everything fails: {e}"))?;
        runs += 1;
        let mut want: Vec<Who> = vec![];
        for f in fills(&t.new_events) {
            if !want.contains(&f) && want.len() < LISTED {
                want.push(f);
            }
        }
        let want: BTreeSet<Pubkey> = want.iter().map(|x| who_key(w, x)).collect();
        if w.cfg.oracles < 2 {
            let b = Books::new(w, m)?;
            let l = guarded(|| {
                remaining_accounts_to_crank(b.book(), side_of(side), &b.market, oracle_native(w, v), v.now.ts as u64)
            })
            .map_err(|e| format!("maker list panicked: {e}"))?
            .map_err(|e| format!("maker list failed: {e}"))?;
            same_makers(w, side, &l, &want)?;
            // accounts touched by takers of every size
            for base in [1, 2, 3, 5, 8, 1000] {
                for quote in [12, 1_000_000] {
                    let a = TakeArgs { base, quote, ..a.clone() };
                    let ix = w.ix(&Op::Take { user, a, rem: vec![] }).unwrap();
                    let t = execute(w, p, m, st, v, &ix, user, side)
                        .map_err(|e| format!("{side:?} {base} lots for {quote}: program fails with {e}"))?;
                    runs += 1;
                    let mut touched = vec![];
                    let orc = oracle_native(w, v).map(|_| (v.oracle as i128 * w.cfg.base_lot as i128 / w.cfg.quote_lot as i128) as i64);
                    guarded(|| {
                        iterate_book(b.book(), side_of(side), base, quote, &b.market, orc, v.now.ts as u64, &mut touched)
                    })
                    .map_err(|e| format!("simulation panicked: {e}"))?;
                    let mut n = 0;
                    let mut exp: Vec<Pubkey> = vec![];
                    for e in &t.new_events {
                        if let Ev::Fill { .. } = e {
                            n += 1;
                            if n > 15 {
                                continue;
                            }
                        }
                        exp.push(who_key(w, &e.account()));
                    }
                    exp.sort();
                    touched.sort();
                    if exp != touched {
                        return Err(format!(
                            "{side:?} {base} lots for at most {quote}: {} makers touched according to the client, {} by the program: {:?}",
                            touched.len(),
                            exp.len(),
                            t.new_events
                        ));
                    }
                }
            }
        }
        // the accounts handed out for the swap run the instruction as they are
        let u = &w.ids.users[user];
        let (src, dst, sm, dm) = match side {
            Side::Bid => (u.quote, u.base, c.quote_mint, c.base_mint),
            Side::Ask => (u.base, u.quote, c.base_mint, c.quote_mint),
        };
        let s = guarded(|| {
            c.amm.get_swap_and_account_metas(&SwapParams {
                in_amount: 50_000_000,
                source_mint: sm,
                destination_mint: dm,
                user_destination_token_account: w.k(dst),
                user_source_token_account: w.k(src),
                user_transfer_authority: w.k(u.wallet),
                open_order_address: None,
                quote_mint_to_referrer: None,
                jupiter_program_id: &w.k(w.ids.program),
            })
        })
        .map_err(|e| format!("swap accounts panicked: {e}"))?
        .map_err(|e| format!("swap accounts failed: {e}"))?;
        let jupiter_amm_interface::Swap::Openbook { side: js } = s.swap;
        let expect = match side {
            Side::Bid => jupiter_amm_interface::Side::Bid,
            Side::Ask => jupiter_amm_interface::Side::Ask,
        };
        if js != expect {
            return Err(format!("swap described as {js:?}, paid in the currency of {side:?}"));
        }
        let mut metas = vec![];
        for a in &s.account_metas {
            let acct = (0..w.image.accts.len())
                .find(|x| w.k(*x) == a.pubkey)
                .ok_or_else(|| format!("swap names an unknown account {}", a.pubkey))?;
            metas.push(Meta { acct, signer: a.is_signer, writable: a.is_writable });
        }
        if metas.len() < 16 {
            return Err(format!("{} accounts for a swap", metas.len()));
        }
        let listed: Vec<Pubkey> = s.account_metas[16..].iter().map(|a| a.pubkey).collect();
        same_makers(w, side, &listed, &want)?;
        let ix2 = Ix { metas, data: ix.data.clone() };
        let t2 = execute(w, p, m, st, v, &ix2, user, side).map_err(|e| format!("swap with the client's accounts fails: {e}"))?;
        runs += 1;
        if (t2.paid, t2.got) != (t.paid, t.got) {
            return Err(format!("swap with the client's accounts trades {:?}, not {:?}", (t2.paid, t2.got), (t.paid, t.got)));
        }
        if fills(&t.new_events).len() <= 15 {
            for f in fills(&t2.new_events) {
                if want.contains(&who_key(w, &f)) {
                    return Err(format!("{side:?}: a fill of a named maker was queued all the same"));
                }
            }
        }
    }
    Ok(runs)
}

fn who_key(w: &World, x: &Who) -> Pubkey {
    match x {
        Who::Oo(i) => w.k(w.ids.oo[*i]),
        other => panic!("event for {other:?}"),
    }
}

fn same_makers(w: &World, side: Side, l: &[Pubkey], want: &BTreeSet<Pubkey>) -> Result<(), String> {
    let got: BTreeSet<Pubkey> = l.iter().cloned().collect();
    if got.len() != l.len() {
        return Err(format!("{side:?}: a maker is named twice"));
    }
    if &got != want {
        let n = |s: &BTreeSet<Pubkey>| -> Vec<usize> {
            let m: BTreeMap<Pubkey, usize> = w.ids.oo.iter().enumerate().map(|(k, i)| (w.k(*i), k)).collect();
            s.iter().map(|k| m.get(k).copied().unwrap_or(99)).collect()
        };
        return Err(format!("{side:?}: makers named {:?}, those met first {:?}", n(&got), n(want)));
    }
    Ok(())
}

fn with(p: Plan, makers: bool) -> Plan {
    p.state_mon(if makers { Box::new(maker_mon) } else { Box::new(quote_mon) })
}

/// Five owners, so that the list of makers is cut off.
fn owners_ops(_w: &World, v: &View) -> Vec<Op> {
    use Side::*;
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    let now = v.now.ts as u64;
    for oo in 0..5 {
        for side in Side::both() {
            let p = if side == Bid { 9 } else { 11 };
            l.push(lim(oo, side, p, 1));
            l.push(lim(oo, side, if side == Bid { p - 1 } else { p + 1 }, 2));
            if oo < 2 {
                l.push(lime(oo, side, p, 1, now + 1));
            }
        }
    }
    if v.now.ts < 1003 {
        l.push(Op::Advance { dt: 1 });
    }
    for side in Side::both() {
        if !v.book(side.inv()).is_empty() {
            l.push(take(5, side, 1, vec![]));
        }
    }
    l
}

fn owners_seeds() -> Vec<(&'static str, Vec<Op>)> {
    use Side::*;
    let mut seeds = vec![("start", vec![])];
    for side in Side::both() {
        let s = if side == Bid { -1 } else { 1 };
        let l: Vec<Op> = [(2, 3), (0, 1), (2, 1), (1, 2), (3, 2), (4, 1), (0, 3)]
            .iter()
            .map(|(oo, d)| lim(*oo, side, 10 + s * d, 1))
            .collect();
        seeds.push((if side == Bid { "five bidders" } else { "five sellers" }, l.clone()));
        let mut e: Vec<Op> = (0..6).map(|i| lime(i % 5, side, 10 + s, 1, 1001 + (i as u64) % 2)).collect();
        e.extend(l[..4].iter().cloned());
        e.push(Op::Advance { dt: 1 });
        seeds.push((if side == Bid { "expired before valid bids" } else { "expired before valid asks" }, e));
    }
    seeds
}

/// More orders than one taker may take, near the depth limit of the client.
fn deep_seeds() -> Vec<(&'static str, Vec<Op>)> {
    use Side::*;
    let mut seeds = vec![];
    for side in Side::both() {
        let s = if side == Bid { -1 } else { 1 };
        let mut l: Vec<Op> = (0..45).map(|i| lim(i % 2, side, 60 + s * (1 + (i as i64 * 7) % 45), 1)).collect();
        seeds.push((if side == Bid { "45 bids" } else { "45 asks" }, l.clone()));
        l.push(lim(0, side, 60 + s, 2));
        l.push(lim(1, side, 60 + s * 50, 3));
        seeds.push((if side == Bid { "47 bids" } else { "47 asks" }, l.clone()));
        // 18 small orders: more fills than are applied directly
        seeds.push((if side == Bid { "18 bids" } else { "18 asks" }, l[..18].to_vec()));
    }
    seeds
}
fn deep_ops(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    for side in Side::both() {
        if v.book(side.inv()).is_empty() {
            l.push(lim(0, side, 60, 1));
        } else {
            l.push(take(2, side, 2, vec![]));
        }
    }
    l
}

/// Oracle prices such that the price in lots is rounded.
fn scaled(op: Op) -> Op {
    match op {
        Op::Oracle { price } if price != u64::MAX => Op::Oracle { price: price * 10 + 7 },
        x => x,
    }
}

/// On a market that only lets approved accounts trade the client must not offer anything.
fn permissioned() -> Part {
    Part::Custom(
        "market with approved traders only".into(),
        Box::new(|| {
            let w = World::new(Cfg { oo_admin: true, ..cfg(FEES3[1]) });
            let mut m = w.machine();
            let mut c = Counts { states: 1, exhausted: true, ..Default::default() };
            let mut bad = vec![];
            for op in [lim(0, Side::Bid, 9, 5), lim(1, Side::Ask, 11, 5)] {
                if !w.run(&mut m, &op).ok {
                    bad.push("an approved order was rejected".to_string());
                }
            }
            match client(&w, &m) {
                Ok(Ok(cl)) => {
                    for side in Side::both() {
                        let (input_mint, output_mint) =
                            if side == Side::Bid { (cl.quote_mint, cl.base_mint) } else { (cl.base_mint, cl.quote_mint) };
                        for in_amount in [0, 1, 10, 1000, 1_000_000] {
                            c.transitions += 1;
                            c.compared += 1;
                            match guarded(|| cl.amm.quote(&QuoteParams { in_amount, input_mint, output_mint })) {
                                Ok(Ok(q)) if q.not_enough_liquidity && q.in_amount == 0 && q.out_amount == 0 => {}
                                _ => bad.push(format!("quote for {side:?} {in_amount} offers a trade nobody else can make")),
                            }
                        }
                    }
                }
                Ok(Err(e)) | Err(e) => bad.push(e),
            }
            let v = bad
                .into_iter()
                .map(|what| Violation { plan: "permissioned".into(), seed: String::new(), ops: vec![], what, known: None })
                .collect();
            (c, v)
        }),
    )
}

fn parts(t: Tier, makers: bool) -> Vec<Part> {
    let mut l = vec![];
    for (f, lots) in [(FEES3[1], (10, 10)), (FEES3[2], (10, 10)), (FEES3[2], (100, 1)), (FEES3[0], (1, 10))] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("market {}, lots {}/{}", fees_name(f), lots.0, lots.1),
                    World::new(Cfg { base_lot: lots.0, quote_lot: lots.1, ..cfg(f) }),
                    0,
                    t.pick(2, 3),
                    Box::new(market_ops),
                )
                .seeds(market_seeds()),
                makers,
            )
        }));
    }
    for (f, oracles) in [(FEES3[2], 1), (FEES3[1], 1), (FEES3[2], 2)] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("pegged {}, {oracles} oracles", fees_name(f)),
                    World::new(Cfg { oracles, ..cfg(f) }),
                    0,
                    t.pick(2, 3),
                    Box::new(peg_ops),
                )
                .seeds(peg_seeds()),
                makers,
            )
        }));
    }
    l.push(world_part(move || {
        with(
            Plan::new(
                "pegged, ten native units per lot price",
                World::new(Cfg { oracles: 1, base_lot: 1, quote_lot: 10, ..cfg(FEES3[2]) }),
                0,
                t.pick(2, 3),
                Box::new(|w, v| peg_ops(w, v).into_iter().map(scaled).collect()),
            )
            .seeds(
                peg_seeds()
                    .into_iter()
                    .map(|(n, l)| (n, [Op::Oracle { price: 10 }].into_iter().chain(l).map(scaled).collect()))
                    .collect(),
            ),
            makers,
        )
    }));
    for (f, orc) in [(FEES3[2], 0), (FEES3[1], 1)] {
        l.push(world_part(move || {
            with(
                Plan::new(
                    &format!("expiring orders {}{}", fees_name(f), if orc > 0 { ", pegged" } else { "" }),
                    World::new(Cfg { oracles: orc, ..cfg(f) }),
                    0,
                    t.pick(3, 4),
                    Box::new(timed_ops),
                )
                .seeds(timed_seeds(orc > 0)),
                makers,
            )
        }));
    }
    if makers {
        l.push(world_part(move || {
            with(
                Plan::new(
                    "many owners",
                    World::new(Cfg { oo_owners: vec![0, 1, 2, 3, 4], users: 6, ..cfg(FEES3[1]) }),
                    0,
                    t.pick(2, 3),
                    Box::new(owners_ops),
                )
                .seeds(owners_seeds()),
                makers,
            )
        }));
    }
    l.push(world_part(move || {
        with(
            Plan::new("deep book", World::new(Cfg { larger: 24, ..cfg(FEES3[2]) }), 0, t.pick(3, 6), Box::new(deep_ops)).seeds(deep_seeds()),
            makers,
        )
    }));
    l
}

pub fn c36(t: Tier) -> Vec<Part> {
    let mut l = parts(t, false);
    l.push(permissioned());
    l
}
pub fn c37(t: Tier) -> Vec<Part> {
    parts(t, true)
}
