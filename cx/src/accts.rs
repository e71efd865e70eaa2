//! Finding, creating and opening accounts and creating markets through the
//! client library, in every small history of one owner's accounts.

use crate::ledger::*;
use crate::tx::{state_hash, Setup};
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::*;
use obmc::world::*;
use openbook_v2::state as st;
use openbook_v2_client as ob;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signer::Signer;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

const OWNER: &str = "stranger";
const NAMES: [&str; 4] = ["a", "b", "", "a name of as many as 32 letters."];
const MOST: usize = 4;

/// What the owner has.
#[derive(Clone, Debug, Default, PartialEq)]
struct Has {
    indexer: Option<(u32, usize)>,
    /// number, name, market, delegate
    list: Vec<(u32, usize, usize, bool)>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Indexer,
    Account { num: u32, name: usize, market: usize, delegate: bool },
    Find { name: usize, market: usize },
    Close { num: u32 },
    CloseIndexer,
}

struct Place {
    w: World,
    indexer: usize,
    oo: Vec<usize>,
    owner: usize,
}
impl Place {
    fn new() -> Place {
        let w = World::new(Cfg { second_market: true, ..Default::default() });
        let me = pair(OWNER).pubkey();
        let mut extra = vec![Acct::empty(
            Pubkey::find_program_address(&[b"OpenOrdersIndexer", me.as_ref()], &prog()).0,
            17 + 32 * (MOST + 2),
        )];
        for n in 0..=MOST as u32 + 1 {
            let k = Pubkey::find_program_address(&[b"OpenOrders", me.as_ref(), &n.to_le_bytes()], &prog()).0;
            extra.push(Acct::empty(k, w.image.accts[w.ids.oo[0]].data.len().max(w.image.accts[w.ids.oo[0]].cap)));
        }
        let (w, ids) = w.freeze(&w.machine(), extra);
        let owner = w.ids.stranger;
        Place { w, indexer: ids[0], oo: ids[1..].to_vec(), owner }
    }
    fn market(&self, m: usize) -> usize {
        if m == 0 {
            self.w.ids.m.market
        } else {
            self.w.ids.m2.as_ref().unwrap().market
        }
    }
    fn ix_indexer(&self, payer: usize) -> Ix {
        let i = &self.w.ids;
        Ix {
            metas: vec![sw(payer), sg(self.owner), rw(self.indexer), ro(i.system_program)],
            data: Enc::ix("create_open_orders_indexer").0,
        }
    }
    fn ix_account(&self, payer: usize, num: u32, name: usize, market: usize, delegate: bool) -> Ix {
        let i = &self.w.ids;
        Ix {
            metas: vec![
                sw(payer),
                sg(self.owner),
                ro(if delegate { i.users[1].wallet } else { i.program }),
                rw(self.indexer),
                rw(self.oo[num as usize]),
                ro(self.market(market)),
                ro(i.system_program),
            ],
            data: Enc::ix("create_open_orders_account").str(NAMES[name]).0,
        }
    }
    fn ix_close(&self, num: u32) -> Ix {
        let i = &self.w.ids;
        Ix {
            metas: vec![sg(self.owner), rw(self.indexer), rw(self.oo[num as usize]), rw(i.sol_dest), ro(i.system_program)],
            data: Enc::ix("close_open_orders_account").0,
        }
    }
    fn ix_close_indexer(&self) -> Ix {
        let i = &self.w.ids;
        Ix {
            metas: vec![sg(self.owner), rw(self.indexer), rw(i.sol_dest), ro(i.token_program)],
            data: Enc::ix("close_open_orders_indexer").0,
        }
    }
    fn key(&self, num: u32) -> Pubkey {
        self.w.k(self.oo[num as usize])
    }
}

/// The instructions an action stands for, and whether they go through.
fn meant(p: &Place, h: &Has, a: Act, payer: usize) -> (Vec<Ix>, Has) {
    let mut n = h.clone();
    let mut l = vec![];
    match a {
        Act::Indexer => {
            l.push(p.ix_indexer(payer));
            n.indexer = Some((0, 0));
        }
        Act::Account { num, name, market, delegate } => {
            l.push(p.ix_account(payer, num, name, market, delegate));
            n.list.push((num, name, market, delegate));
            n.indexer = n.indexer.map(|x| (x.0 + 1, x.1 + 1));
        }
        Act::Find { name, market } => {
            if !h.list.iter().any(|x| x.1 == name && x.2 == market) {
                if h.indexer.is_none() {
                    l.push(p.ix_indexer(payer));
                    n.indexer = Some((0, 0));
                }
                let num = n.indexer.unwrap().0 + 1;
                l.push(p.ix_account(payer, num, name, market, false));
                n.list.push((num, name, market, false));
                n.indexer = n.indexer.map(|x| (x.0 + 1, x.1 + 1));
            }
        }
        Act::Close { num } => {
            l.push(p.ix_close(num));
            n.list.retain(|x| x.0 != num);
            n.indexer = n.indexer.map(|x| (x.0, x.1 - 1));
        }
        Act::CloseIndexer => {
            l.push(p.ix_close_indexer());
            n.indexer = None;
        }
    }
    (l, n)
}

fn acts(h: &Has) -> Vec<Act> {
    let mut l = vec![Act::Indexer];
    for market in 0..2 {
        for name in 0..NAMES.len() {
            l.push(Act::Find { name, market });
        }
    }
    for num in 0..=MOST as u32 {
        l.push(Act::Account { num, name: 0, market: 0, delegate: true });
    }
    for x in &h.list {
        l.push(Act::Close { num: x.0 });
    }
    l.push(Act::CloseIndexer);
    l
}

/// What the client says about the owner's accounts.
fn questions(p: &Place, h: &Has, s: &Setup) -> Result<u64, String> {
    let me = pair(OWNER);
    let c = s.client(OWNER);
    let mut n = 1;
    let l = sim::block_on(ob::OpenBookClient::find_accounts(&c, &me)).map_err(|e| format!("listing the accounts failed: {e:?}"))?;
    let mut got: Vec<(Pubkey, u32, String, Pubkey, Option<Pubkey>)> = l
        .iter()
        .map(|(k, a)| (*k, a.account_num, a.name().to_string(), a.market, a.delegate.into()))
        .collect();
    let mut want: Vec<(Pubkey, u32, String, Pubkey, Option<Pubkey>)> = h
        .list
        .iter()
        .map(|x| {
            (
                p.key(x.0),
                x.0,
                NAMES[x.1].to_string(),
                p.w.k(p.market(x.2)),
                x.3.then(|| p.w.k(p.w.ids.users[1].wallet)),
            )
        })
        .collect();
    got.sort();
    want.sort();
    if got != want {
        return Err(format!("the owner's accounts are listed as {got:?} instead of {want:?}"));
    }
    for num in 0..=MOST as u32 {
        let there = h.list.iter().find(|x| x.0 == num);
        for who in [OWNER, "user0"] {
            n += 1;
            let r = sim::block_on(ob::OpenBookClient::new_for_existing_account(c.clone(), p.key(num), Arc::new(pair(who))));
            match (r, there.is_some() && who == OWNER) {
                (Err(_), false) => {}
                (Ok(x), true) => {
                    let a: st::OpenOrdersAccount = sim::block_on(x.openorders_account()).map_err(|e| format!("account {num} cannot be read: {e:?}"))?;
                    if x.open_orders_account != p.key(num) || x.owner() != me.pubkey() || a.account_num != num {
                        return Err(format!("the client opened for account {num} is for another one"));
                    }
                }
                (r, w) => {
                    return Err(format!("opening account {num} as {who}: {:?}, should be possible: {w}", r.err().map(|e| e.to_string())))
                }
            }
        }
    }
    Ok(n)
}

fn histories(depth: usize) -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let p = Place::new();
    let l = Ledger::new(&p.w);
    sim::set_node(Some(l.clone() as Rc<dyn sim::Node>));
    let mut r = p.w.machine();
    let mut layer: Vec<(State, Has, Vec<Act>)> = vec![(r.save(), Has::default(), vec![])];
    let mut seen: HashSet<u64> = HashSet::new();
    seen.insert(state_hash(&layer[0].0));
    'all: for d in 0..=depth {
        let mut next = vec![];
        for (s, h, path) in &layer {
            c.states += 1;
            sample(|| format!("{path:?}"));
            let setup = Setup { payer: Some("payer"), price: None, timeout: None, level: 1 };
            l.reset(s);
            let mut fail = |what: String| {
                bad.push(Violation {
                    plan: "accounts of one owner".into(),
                    seed: format!("{path:?}"),
                    ops: vec![],
                    what: format!("{what} (after {path:?})"),
                    known: None,
                })
            };
            match guarded(|| questions(&p, h, &setup)) {
                Ok(Ok(n)) => {
                    c.extra_runs += n;
                    c.compared += n;
                }
                Ok(Err(e)) | Err(e) => {
                    fail(e);
                    break 'all;
                }
            }
            for a in acts(h) {
                for payer in ["payer", OWNER] {
                    let acct = if payer == OWNER { p.owner } else { p.w.ids.payer };
                    let (ixs, n) = meant(&p, h, a, acct);
                    r.load(s);
                    let mut ok = true;
                    let mut err = String::new();
                    let mut prefixes = vec![s.clone()];
                    for ix in &ixs {
                        let o = r.exec(ix);
                        if !o.ok {
                            ok = false;
                            err = o.err;
                            break;
                        }
                        prefixes.push(r.save());
                    }
                    let want = prefixes.last().unwrap().clone();
                    let room = n.list.iter().all(|x| x.0 as usize <= MOST);
                    c.transitions += 1;
                    if matches!(a, Act::Close { .. } | Act::CloseIndexer) {
                        if ok && d < depth && seen.insert(state_hash(&want)) {
                            next.push((want, n, [path.clone(), vec![a]].concat()));
                        }
                        continue;
                    }
                    if !room {
                        continue;
                    }
                    let ask = |l: &Ledger| -> anyhow::Result<Option<Pubkey>> {
                        let me = pair(OWNER);
                        let pay = pair(payer);
                        let client = setup.client(OWNER);
                        let _ = l;
                        sim::block_on(async {
                            match a {
                                Act::Indexer => ob::OpenBookClient::create_open_orders_indexer(&client, &me, &pay).await.map(|x| Some(x.0)),
                                Act::Account { num, name, market, delegate } => ob::OpenBookClient::create_open_orders_account(
                                    &client,
                                    p.w.k(p.market(market)),
                                    &me,
                                    &pay,
                                    delegate.then(|| p.w.k(p.w.ids.users[1].wallet)),
                                    num,
                                    NAMES[name],
                                )
                                .await
                                .map(|x| Some(x.0)),
                                Act::Find { name, market } => {
                                    ob::OpenBookClient::find_or_create_account(&client, &me, &pay, p.w.k(p.market(market)), NAMES[name])
                                        .await
                                        .map(Some)
                                }
                                _ => Ok(None),
                            }
                        })
                    };
                    l.reset(s);
                    let got = guarded(|| ask(&l));
                    let requests = l.calls.borrow().len();
                    c.compared += 1;
                    let res: Result<(), String> = (|| {
                        let got = got.map_err(|e| format!("panicked: {e}"))?;
                        crate::tx::check_requests(&l, &setup, pair(payer).pubkey())?;
                        let after = l.m.borrow().save();
                        match got {
                            Err(e) if ok => Err(format!("failed with \"{e:?}\"")),
                            Err(_) if after != prefixes[prefixes.len() - 1] => Err("failed and left something else than what was done before".into()),
                            Err(_) => Ok(()),
                            Ok(_) if !ok => Err(format!("succeeded, which is not possible: {err}")),
                            Ok(k) => {
                                if after != want {
                                    return Err("leaves other accounts than asked for".into());
                                }
                                let fits = match a {
                                    Act::Indexer => k == Some(p.w.k(p.indexer)),
                                    Act::Account { num, .. } => k == Some(p.key(num)),
                                    Act::Find { name, market } => n.list.iter().any(|x| x.1 == name && x.2 == market && k == Some(p.key(x.0))),
                                    _ => true,
                                };
                                if !fits {
                                    return Err(format!("answers with account {k:?}"));
                                }
                                if l.sent.borrow().len() != ixs.len() {
                                    return Err(format!("sent {} transactions", l.sent.borrow().len()));
                                }
                                Ok(())
                            }
                        }
                    })();
                    if let Err(e) = res {
                        fail(format!("{a:?} paid by {payer}: {e}"));
                        break 'all;
                    }
                    if ok {
                        c.ok += 1
                    } else {
                        c.failed += 1
                    }
                    // every request lost once, before or after it was served, and asked again
                    if ok && payer == "payer" {
                        for k in 0..requests {
                            for served in [false, true] {
                                l.reset(s);
                                l.fail_at.set(Some((k, served)));
                                let got = guarded(|| ask(&l));
                                c.extra_runs += 1;
                                let left = l.m.borrow().save();
                                let e = match got {
                                    Err(e) => Some(format!("panicked: {e}")),
                                    Ok(Ok(_)) => Some("succeeded".into()),
                                    Ok(Err(_)) if !prefixes.contains(&left) => Some("left something else than part of what was asked for".into()),
                                    Ok(Err(_)) if matches!(a, Act::Find { .. }) => {
                                        l.reset(&left);
                                        match guarded(|| ask(&l)) {
                                            Err(e) => Some(format!("panicked when asked again: {e}")),
                                            Ok(Err(e)) => Some(format!("failed when asked again: {e:?}")),
                                            Ok(Ok(_)) if l.m.borrow().save() != want => Some("leaves other accounts when asked again".into()),
                                            _ => None,
                                        }
                                    }
                                    _ => None,
                                };
                                if let Some(e) = e {
                                    fail(format!("{a:?} with request {k} lost (served: {served}): {e}"));
                                    break 'all;
                                }
                            }
                        }
                    }
                    if ok && d < depth && seen.insert(state_hash(&want)) {
                        next.push((want, n, [path.clone(), vec![a]].concat()));
                    }
                }
            }
        }
        c.depth = d as u64 + 1;
        layer = next;
    }
    sim::set_node(None);
    (c, bad)
}

/// Every kind of market.
fn markets() -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad = vec![];
    let w = World::new(Cfg { second_market: true, ..Default::default() });
    let m2 = w.ids.m2.clone().unwrap();
    let mut accts = w.image.accts.clone();
    for i in [m2.market, m2.bvault, m2.qvault] {
        accts[i] = Acct::empty(accts[i].key, accts[i].cap.max(accts[i].data.len()));
    }
    for i in [m2.bids, m2.asks, m2.heap] {
        accts[i].data.fill(0);
    }
    let mut w = w.clone();
    w.image = Arc::new(Image::new(accts));
    let mut r = w.machine();
    w.start = r.save();
    let l = Ledger::new(&w);
    sim::set_node(Some(l.clone() as Rc<dyn sim::Node>));
    'all: for admins in 0..8u8 {
        for oracles in 0..3u8 {
            for (name_of, base_lot, quote_lot, fees, expiry, conf, stale) in [
                (0, 10, 10, (0, 0), 0, 0.1f32, None),
                (1, 1, 1_000, (-100, 200), 1 << 40, 0.25, Some(0u32)),
                (2, i64::MAX, 1, (300, 400), -1, 0.0, Some(77)),
                (0, 0, 10, (0, 0), 0, 0.1, None),
                (0, 10, 10, (0, -5), 0, 0.1, None),
                (0, 10, 10, (-10, 5), 0, 0.1, None),
            ] {
                w.cfg.oo_admin = admins & 1 != 0;
                w.cfg.consume_admin = admins & 2 != 0;
                w.cfg.close_admin = admins & 4 != 0;
                w.cfg.oracles = oracles;
                w.cfg.base_lot = base_lot;
                w.cfg.quote_lot = quote_lot;
                w.cfg.maker_fee = fees.0;
                w.cfg.taker_fee = fees.1;
                w.cfg.time_expiry = expiry;
                w.cfg.conf_filter = conf;
                w.cfg.max_staleness = stale;
                let _ = name_of;
                let mut ix = w.ix_create_market(&m2);
                ix.metas[5].acct = w.ids.stranger;
                for (payer, signs) in [("second_market", true), ("payer", false)] {
                    let setup = Setup { payer: Some(payer), price: Some(3), timeout: None, level: 2 };
                    r.load(&w.start);
                    let ok = signs && r.exec(&ix).ok;
                    let want = r.save();
                    l.reset(&w.start);
                    let k = |i: usize| w.k(i);
                    let on = |b: bool, i: usize| b.then(|| w.k(i));
                    let client =
                        ob::OpenBookClient::new_detail(setup.client(OWNER), k(w.ids.oo[0]), Arc::new(pair(OWNER)), Arc::new(ob::RpcAccountFetcher { rpc: setup.client(OWNER).rpc_async() }))
                            .unwrap();
                    let g = &w.cfg;
                    let got = guarded(|| {
                        sim::block_on(client.create_market(
                            k(m2.market),
                            k(m2.authority),
                            k(m2.bids),
                            k(m2.asks),
                            k(m2.heap),
                            k(w.ids.bmint),
                            k(w.ids.qmint),
                            on(oracles >= 1, w.ids.oracle_a),
                            on(oracles >= 2, w.ids.oracle_b),
                            k(w.ids.fee_admin),
                            on(g.oo_admin, w.ids.oo_admin),
                            on(g.consume_admin, w.ids.consume_admin),
                            on(g.close_admin, w.ids.close_admin),
                            k(w.ids.event_authority),
                            "TEST".to_string(),
                            st::OracleConfigParams { conf_filter: conf, max_staleness_slots: stale },
                            base_lot,
                            quote_lot,
                            fees.0,
                            fees.1,
                            expiry,
                        ))
                    });
                    c.states += 1;
                    sample(|| format!("market with lots {base_lot} {quote_lot}, fees {fees:?}, admins {admins}, oracles {oracles}"));
                    c.transitions += 1;
                    c.compared += 1;
                    match crate::tx::judge(&l, &setup, pair(payer).pubkey(), ok, &want, &w.start, got) {
                        Ok(true) => c.ok += 1,
                        Ok(false) => c.failed += 1,
                        Err(e) => {
                            let what = format!("creating a market, lots {base_lot} {quote_lot}, fees {fees:?}, admins {admins}, oracles {oracles}: {e}");
                            bad.push(Violation { plan: "markets".into(), seed: String::new(), ops: vec![], what, known: None });
                            break 'all;
                        }
                    }
                }
            }
        }
    }
    sim::set_node(None);
    (c, bad)
}

pub fn parts(t: Tier) -> Vec<Part> {
    let d = t.pick(2, 3);
    vec![
        Part::Custom("accounts of one owner".into(), Box::new(move || on_thread(move || histories(d)))),
        Part::Custom("markets".into(), Box::new(move || on_thread(markets))),
    ]
}

/// With a stack as large as the client needs.
pub fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| match s.spawn(f).join() {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    })
}
