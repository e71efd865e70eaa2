//! Every call of the client library that sends a transaction, in every state
//! of small markets, compared with the instruction it stands for.

use crate::ledger::*;
use anchor_client::Cluster;
use obmc::alpha;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::*;
use obmc::view::*;
use obmc::world::*;
use openbook_v2::state as st;
use openbook_v2_client as ob;
use solana_sdk::commitment_config::CommitmentConfig;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::Signature;
use solana_sdk::signer::Signer;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// How the client is set up.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Setup {
    /// whose key pays the fees; the owner's when not given
    pub payer: Option<&'static str>,
    pub price: Option<u64>,
    pub timeout: Option<u64>,
    pub level: u8,
}
const PLAIN: Setup = Setup { payer: Some("payer"), price: None, timeout: None, level: 0 };
const URL: &str = "http://node.test:8899";

impl Setup {
    fn commitment(&self) -> CommitmentConfig {
        match self.level {
            0 => CommitmentConfig::processed(),
            1 => CommitmentConfig::confirmed(),
            _ => CommitmentConfig::finalized(),
        }
    }
    pub fn client(&self, owner: &str) -> ob::Client {
        ob::Client::new(
            Cluster::Custom(URL.to_string(), "ws://node.test:8900".to_string()),
            self.commitment(),
            Arc::new(pair(self.payer.unwrap_or(owner))),
            self.timeout.map(Duration::from_secs),
            ob::TransactionBuilderConfig { prioritization_micro_lamports: self.price },
        )
    }
}

fn side(s: Side) -> st::Side {
    match s {
        Side::Bid => st::Side::Bid,
        Side::Ask => st::Side::Ask,
    }
}
fn otype(t: OType) -> st::PlaceOrderType {
    match t {
        OType::Limit => st::PlaceOrderType::Limit,
        OType::Ioc => st::PlaceOrderType::ImmediateOrCancel,
        OType::PostOnly => st::PlaceOrderType::PostOnly,
        OType::Market => st::PlaceOrderType::Market,
        OType::Slide => st::PlaceOrderType::PostOnlySlide,
        OType::Fok => st::PlaceOrderType::FillOrKill,
    }
}
fn selft(t: SelfTrade) -> st::SelfTradeBehavior {
    match t {
        SelfTrade::Decrement => st::SelfTradeBehavior::DecrementTake,
        SelfTrade::CancelProvide => st::SelfTradeBehavior::CancelProvide,
        SelfTrade::Abort => st::SelfTradeBehavior::AbortTransaction,
    }
}
fn many(l: &[MultiArgs]) -> Vec<openbook_v2::PlaceMultipleOrdersArgs> {
    l.iter()
        .map(|m| openbook_v2::PlaceMultipleOrdersArgs {
            price_lots: m.price,
            max_quote_lots_including_fees: m.quote,
            expiry_timestamp: m.expiry,
        })
        .collect()
}

/// One call: an operation, who makes it and which token accounts it names.
#[derive(Clone, Debug)]
pub struct Ask {
    pub op: Op,
    /// index of the user whose key signs
    pub by: usize,
    /// whose token accounts are passed
    pub tokens: usize,
    /// the token account of the other kind is passed where there is only one
    pub swapped: bool,
}

/// The operation without accounts the client cannot pass.
fn plain(w: &World, v: &View, op: &Op) -> Option<Op> {
    let mut op = op.clone();
    match &mut op {
        Op::Place { rem, .. } | Op::Peg { rem, .. } => rem.clear(),
        Op::Many { rem, cancel: true, .. } => rem.clear(),
        // the accounts the events belong to
        Op::Consume { rem, .. } => {
            let mut l = vec![];
            for e in &v.events {
                if let Who::Oo(i) = e.account() {
                    if !l.contains(&i) {
                        l.push(i);
                    }
                }
            }
            let _ = w;
            *rem = l;
        }
        Op::Cancel { .. } | Op::CancelAll { .. } | Op::Deposit { .. } | Op::Settle { .. } => {}
        _ => return None,
    }
    Some(op)
}

fn account_of(op: &Op) -> Option<usize> {
    match op {
        Op::Place { oo, .. }
        | Op::Peg { oo, .. }
        | Op::Many { oo, .. }
        | Op::Cancel { oo, .. }
        | Op::CancelAll { oo, .. }
        | Op::Deposit { oo, .. }
        | Op::Settle { oo, .. } => Some(*oo),
        _ => None,
    }
}

/// The instruction the call stands for.
fn reference(w: &World, a: &Ask) -> Ix {
    let mut ix = w.ix(&a.op).unwrap();
    let i = &w.ids;
    let u = &i.users[a.tokens];
    let me = i.users[a.by].wallet;
    let owner = account_of(&a.op).map(|oo| i.oo_owner[oo]);
    let swap = |m: &mut Meta, to: usize| m.acct = to;
    match &a.op {
        Op::Place { a: p, .. } => {
            swap(&mut ix.metas[0], me);
            let bid = (p.side == Side::Bid) != a.swapped;
            swap(&mut ix.metas[3], if bid { u.quote } else { u.base });
        }
        Op::Peg { a: p, .. } => {
            swap(&mut ix.metas[0], me);
            let bid = (p.side == Side::Bid) != a.swapped;
            swap(&mut ix.metas[3], if bid { u.quote } else { u.base });
        }
        Op::Many { .. } => {
            swap(&mut ix.metas[0], me);
            swap(&mut ix.metas[3], if a.swapped { u.base } else { u.quote });
            swap(&mut ix.metas[4], if a.swapped { u.quote } else { u.base });
        }
        Op::Cancel { .. } | Op::CancelAll { .. } => swap(&mut ix.metas[0], me),
        Op::Deposit { .. } => {
            swap(&mut ix.metas[0], me);
            swap(&mut ix.metas[1], if a.swapped { u.quote } else { u.base });
            swap(&mut ix.metas[2], if a.swapped { u.base } else { u.quote });
        }
        Op::Settle { .. } => {
            swap(&mut ix.metas[0], me);
            swap(&mut ix.metas[1], me);
            swap(&mut ix.metas[7], if a.swapped { u.quote } else { u.base });
            swap(&mut ix.metas[8], if a.swapped { u.base } else { u.quote });
        }
        _ => {}
    }
    let _ = owner;
    ix
}

fn user_tag(u: usize) -> String {
    format!("user{u}")
}

/// Make the call through the client.
fn call(w: &World, c: &ob::OpenBookClient, market: st::Market, a: &Ask) -> anyhow::Result<Signature> {
    let i = &w.ids;
    let k = |n: usize| w.k(n);
    let m = k(i.m.market);
    let u = &i.users[a.tokens];
    let (ub, uq) = if a.swapped { (k(u.quote), k(u.base)) } else { (k(u.base), k(u.quote)) };
    let (vb, vq) = (k(i.m.bvault), k(i.m.qvault));
    let of = |s: Side| match s {
        Side::Bid => (uq, vq),
        Side::Ask => (ub, vb),
    };
    sim::block_on(async {
        match &a.op {
            Op::Place { a, .. } => {
                let (ua, va) = of(a.side);
                c.place_order(
                    market, m, side(a.side), a.price, a.base, a.quote, a.cid, otype(a.otype), a.expiry, a.limit, ua, va,
                    selft(a.st),
                )
                .await
            }
            Op::Peg { a, .. } => {
                let (ua, va) = of(a.side);
                c.place_order_pegged(
                    market, m, side(a.side), a.offset, a.peg_limit, a.base, a.quote, a.cid, otype(a.otype), a.expiry,
                    a.limit, ua, va, selft(a.st),
                )
                .await
            }
            Op::Many { otype: t, bids, asks, limit, .. } => {
                c.cancel_all_and_place_orders(market, m, ub, uq, otype(*t), many(bids), many(asks), *limit).await
            }
            Op::Cancel { id, .. } => c.cancel_order(market, m, *id).await,
            Op::CancelAll { side: s, limit, .. } => c.cancel_all_orders(market, m, s.map(side), *limit).await,
            Op::Deposit { base, quote, .. } => c.deposit(m, *base, *quote, ub, uq, vb, vq).await,
            Op::Settle { referrer, .. } => {
                c.settle_funds(market, m, ub, uq, vb, vq, if *referrer { Some(k(i.referrer)) } else { None }).await
            }
            Op::Consume { limit, .. } => c.consume_events(market, m, *limit as usize).await,
            other => panic!("no call for {other:?}"),
        }
    })
}

/// What holds for every request, whatever the call.
pub fn check_requests(l: &Ledger, s: &Setup, payer: Pubkey) -> Result<(), String> {
    for c in l.calls.borrow().iter() {
        if c.url != URL {
            return Err(format!("a request went to {}", c.url));
        }
        if c.timeout != s.timeout.map(Duration::from_secs) {
            return Err(format!("a request has time limit {:?}", c.timeout));
        }
        if c.commitment != s.commitment() {
            return Err(format!("a request is for commitment {:?}", c.commitment));
        }
    }
    if let Some(m) = l.malformed.borrow().first() {
        return Err(format!("sent a transaction that is {m}"));
    }
    for tx in l.sent.borrow().iter() {
        let keys = tx.message.static_account_keys();
        if keys[0] != payer {
            return Err("the fees are not paid by the fee payer".into());
        }
        let prices: Vec<&Vec<u8>> = tx
            .message
            .instructions()
            .iter()
            .filter(|i| solana_sdk::compute_budget::check_id(&keys[i.program_id_index as usize]))
            .map(|i| &i.data)
            .collect();
        let want: Vec<Vec<u8>> = s
            .price
            .iter()
            .map(|p| solana_sdk::compute_budget::ComputeBudgetInstruction::set_compute_unit_price(*p).data)
            .collect();
        if prices.len() != want.len() || prices.iter().zip(&want).any(|(a, b)| *a != b) {
            return Err(format!("the transaction offers {prices:?} for its priority, asked for {:?}", s.price));
        }
    }
    Ok(())
}

/// The outcome of one call against that of the instruction it stands for.
pub fn judge(
    l: &Ledger,
    s: &Setup,
    payer: Pubkey,
    want_ok: bool,
    want: &State,
    before: &State,
    got: Result<anyhow::Result<Signature>, String>,
) -> Result<bool, String> {
    let after = l.m.borrow().save();
    let got = got.map_err(|p| format!("panicked: {p}"))?;
    check_requests(l, s, payer)?;
    match got {
        Ok(sig) => {
            if !want_ok {
                return Err("succeeded, the instruction it stands for does not".into());
            }
            if after != *want {
                return Err(format!("leaves another state than the instruction it stands for: {}", differ(l, &after, want)));
            }
            let sent = l.sent.borrow();
            if sent.len() != 1 || sent[0].signatures[0] != sig {
                return Err(format!("{} transactions sent, signature {sig} returned", sent.len()));
            }
            Ok(true)
        }
        Err(e) => {
            if want_ok {
                return Err(format!("failed with \"{e:?}\", the instruction it stands for succeeds"));
            }
            if after != *before {
                return Err("failed and changed the ledger".into());
            }
            if let Some((err, logs)) = &*l.refused.borrow() {
                match e.downcast_ref::<ob::OpenBookClientError>() {
                    Some(ob::OpenBookClientError::SendTransactionPreflightFailure { err: e, logs: g })
                        if e.as_ref() == Some(err) && g == logs => {}
                    _ => return Err(format!("refused with {err:?} and {logs:?}, reported as \"{e:?}\"")),
                }
            }
            Ok(false)
        }
    }
}

fn differ(l: &Ledger, a: &State, b: &State) -> String {
    let m = l.m.borrow();
    let find = |s: &State, i: u16| s.diffs.iter().find(|d| d.idx == i).cloned();
    let mut ids: Vec<u16> = a.diffs.iter().chain(&b.diffs).map(|d| d.idx).collect();
    ids.sort_unstable();
    ids.dedup();
    ids.into_iter()
        .filter(|i| find(a, *i) != find(b, *i))
        .map(|i| m.key(i as usize).to_string())
        .collect::<Vec<_>>()
        .join(", ")
}

pub fn state_hash(s: &State) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (s.now.ts, s.now.slot).hash(&mut h);
    for d in &s.diffs {
        (d.idx, d.lamports, d.owner, d.len).hash(&mut h);
        for b in &d.blocks {
            b.hash(&mut h);
        }
    }
    h.finish()
}

struct Job {
    name: String,
    world: World,
    seed: (String, Vec<Op>),
    depth: usize,
    setups: Vec<Setup>,
    gen: fn(&World, &View) -> Vec<Op>,
    probe: fn(&World, &View) -> Vec<Op>,
    /// delegates and foreign token accounts as well
    strangers: bool,
    /// every request of every call is lost once
    lossy: bool,
}

#[derive(Default)]
struct Tally {
    c: Counts,
    seen: HashSet<u64>,
}

fn asks(w: &World, v: &View, op: &Op, strangers: bool) -> Vec<Ask> {
    let op = match plain(w, v, op) {
        Some(o) => o,
        None => return vec![],
    };
    let owner = match account_of(&op) {
        Some(oo) => w.ids.oo_owner[oo],
        None => 0,
    };
    let mut l = vec![Ask { op: op.clone(), by: owner, tokens: owner, swapped: false }];
    if strangers && account_of(&op).is_some() {
        let other = (owner + 1) % w.cfg.users;
        for (by, tokens, swapped) in
            [(other, other, false), (other, owner, false), (owner, other, false), (owner, owner, true)]
        {
            l.push(Ask { op: op.clone(), by, tokens, swapped });
        }
    }
    l
}

fn run(j: &Job, t: &mut Tally) -> Result<(), Violation> {
    let w = &j.world;
    let p = Parser::new(w);
    let l = Ledger::new(w);
    sim::set_node(Some(l.clone() as Rc<dyn sim::Node>));
    let mut r = w.machine();
    let mut layer: Vec<(State, Vec<Op>)> = vec![];
    for op in &j.seed.1 {
        let o = w.run(&mut r, op);
        if !o.ok {
            panic!("setup of \"{}\" failed at {op:?}: {}", j.seed.0, o.err);
        }
    }
    layer.push((r.save(), j.seed.1.clone()));
    t.seen.insert(state_hash(&layer[0].0));
    let mut markets: BTreeMap<u64, st::Market> = BTreeMap::new();
    for d in 0..=j.depth {
        let mut next = vec![];
        for (s, path) in &layer {
            t.c.states += 1;
            sample(|| format!("every call after {path:?}"));
            r.load(s);
            let v = match p.parse(w, &r) {
                Ok(v) => v,
                Err(e) => panic!("state not readable: {e}"),
            };
            let market = {
                l.reset(s);
                let c = PLAIN.client("user0");
                let k = w.k(w.ids.m.market);
                let m: st::Market = sim::block_on(c.rpc_anchor_account(&k)).map_err(|e| Violation {
                    plan: j.name.clone(),
                    seed: j.seed.0.clone(),
                    ops: path.clone(),
                    what: format!("reading the market failed: {e:?}"),
                    known: None,
                })?;
                markets.clear();
                markets.insert(0, m);
                m
            };
            let moves = (j.gen)(w, &v);
            let n_moves = moves.len();
            for (n, op) in moves.into_iter().chain((j.probe)(w, &v)).enumerate() {
                for a in asks(w, &v, &op, j.strangers) {
                    r.load(s);
                    let ix = reference(w, &a);
                    for (si, setup) in j.setups.iter().enumerate() {
                        if si > 0 && n >= n_moves && d > 0 {
                            break;
                        }
                        let tag = user_tag(a.by);
                        let payer = pair(setup.payer.unwrap_or(&tag)).pubkey();
                        r.load(s);
                        let signers = [w.k(w.ids.users[a.by].wallet), payer];
                        let can_sign = ix.metas.iter().all(|m| !m.signer || signers.contains(&w.k(m.acct)));
                        let o = if can_sign { r.exec(&ix) } else { Outcome::default() };
                        let want = r.save();
                        l.reset(s);
                        let oo = account_of(&a.op).map(|k| w.ids.oo[k]).unwrap_or(w.ids.oo[0]);
                        let client = ob::OpenBookClient::new_detail(
                            setup.client(&tag),
                            w.k(oo),
                            Arc::new(pair(&tag)),
                            Arc::new(ob::RpcAccountFetcher { rpc: setup.client(&tag).rpc_async() }),
                        )
                        .unwrap();
                        let got = guarded(|| call(w, &client, market, &a));
                        let mut res = judge(&l, setup, payer, o.ok, &want, s, got);
                        if j.lossy && res.is_ok() {
                            let n = l.calls.borrow().len();
                            for k in 0..2 * n {
                                let (k, served) = (k / 2, k % 2 == 1);
                                l.reset(s);
                                l.fail_at.set(Some((k, served)));
                                let got = guarded(|| call(w, &client, market, &a));
                                t.c.extra_runs += 1;
                                let left = l.m.borrow().save();
                                let what = match got {
                                    Err(e) => format!("panicked: {e}"),
                                    Ok(Ok(_)) => "succeeded".to_string(),
                                    Ok(Err(_)) if left == *s || served && o.ok && left == want => continue,
                                    Ok(Err(_)) => "changed the ledger".to_string(),
                                };
                                res = Err(format!("with request {k} lost (served: {served}) it {what}"));
                                break;
                            }
                        }
                        t.c.transitions += 1;
                        t.c.compared += 1;
                        let e = t.c.by_op.entry(format!("{:?}", a.op).split([' ', '{']).next().unwrap().to_string()).or_default();
                        match &res {
                            Ok(true) => {
                                e.0 += 1;
                                t.c.ok += 1;
                            }
                            _ => {
                                e.1 += 1;
                                t.c.failed += 1;
                            }
                        }
                        match res {
                            Err(what) => {
                                return Err(Violation {
                                    plan: j.name.clone(),
                                    seed: j.seed.0.clone(),
                                    ops: path.clone(),
                                    what: format!("{what}: {a:?} with {setup:?}"),
                                    known: None,
                                })
                            }
                            Ok(true) if si == 0 && d < j.depth && n < n_moves => {
                                if t.seen.insert(state_hash(&want)) {
                                    next.push((want, [path.clone(), vec![a.op.clone()]].concat()));
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        t.c.depth = t.c.depth.max(d as u64 + 1);
        layer = next;
    }
    sim::set_node(None);
    Ok(())
}

/// Every operation's instruction, alone and in pairs, handed to the client to
/// be sent in each of the ways there are.
fn pass_on(j: &Job, t: &mut Tally) -> Result<(), Violation> {
    let w = &j.world;
    let p = Parser::new(w);
    let l = Ledger::new(w);
    sim::set_node(Some(l.clone() as Rc<dyn sim::Node>));
    let mut r = w.machine();
    for op in &j.seed.1 {
        let o = w.run(&mut r, op);
        if !o.ok {
            panic!("setup of \"{}\" failed at {op:?}: {}", j.seed.0, o.err);
        }
    }
    let s = r.save();
    t.c.states += 1;
    t.c.depth = 1;
    t.seen.insert(state_hash(&s));
    let v = p.parse(w, &r).unwrap_or_else(|e| panic!("state not readable: {e}"));
    let ops: Vec<Op> = (j.gen)(w, &v).into_iter().chain((j.probe)(w, &v)).filter_map(|o| plain(w, &v, &o)).collect();
    let after = [Op::CancelAll { oo: 0, side: None, limit: 8 }, Op::Settle { oo: 0, referrer: false }];
    let mut lists: Vec<Vec<Op>> = vec![];
    for op in &ops {
        lists.push(vec![op.clone()]);
        lists.push(vec![op.clone(), op.clone()]);
        for a in &after {
            lists.push(vec![op.clone(), a.clone()]);
            lists.push(vec![a.clone(), op.clone()]);
        }
    }
    for list in &lists {
        let ixs: Vec<Ix> = list.iter().map(|o| w.ix(o).unwrap()).collect();
        let wire: Vec<solana_sdk::instruction::Instruction> = ixs
            .iter()
            .map(|ix| solana_sdk::instruction::Instruction {
                program_id: openbook_v2::ID,
                accounts: ix
                    .metas
                    .iter()
                    .map(|m| solana_sdk::instruction::AccountMeta {
                        pubkey: w.k(m.acct),
                        is_signer: m.signer,
                        is_writable: m.writable,
                    })
                    .collect(),
                data: ix.data.clone(),
            })
            .collect();
        r.load(&s);
        let ok = ixs.iter().all(|ix| r.exec(ix).ok);
        if !ok {
            r.load(&s);
        }
        let want = r.save();
        let owner = account_of(&list[0]).map(|oo| w.ids.oo_owner[oo]).unwrap_or(0);
        let tag = user_tag(owner);
        let oo = account_of(&list[0]).map(|k| w.ids.oo[k]).unwrap_or(w.ids.oo[0]);
        for setup in &j.setups {
            let payer = pair(setup.payer.unwrap_or(&tag));
            let mut keys = vec![payer.pubkey()];
            for m in ixs.iter().flat_map(|ix| &ix.metas) {
                if m.signer && !keys.contains(&w.k(m.acct)) {
                    keys.push(w.k(m.acct));
                }
            }
            let pairs: Vec<_> = keys.iter().filter_map(|k| NAMES.iter().map(|n| pair(n)).find(|x| x.pubkey() == *k)).collect();
            assert_eq!(pairs.len(), keys.len());
            let mut orders: Vec<Vec<&solana_sdk::signature::Keypair>> = vec![pairs.iter().collect(), pairs.iter().rev().collect()];
            orders.push(pairs.iter().chain(&pairs).collect());
            for way in 0..5 {
                for signers in &orders {
                    let mut c = setup.client(&tag);
                    if way == 1 {
                        if !ok {
                            continue;
                        }
                        c.rpc_send_transaction_config.skip_preflight = true;
                        c.rpc_send_transaction_config.preflight_commitment = Some(c.commitment.commitment);
                    }
                    let mine = pair(&tag).pubkey();
                    if way >= 3 && (signers.as_ptr() != orders[0].as_ptr()
                        || way == 3 && keys.iter().any(|k| *k != mine && *k != payer.pubkey())
                        || way == 3 && !keys.contains(&mine)
                        || way == 4 && keys.len() > 1)
                    {
                        continue;
                    }
                    l.reset(&s);
                    let got = guarded(|| {
                        sim::block_on(async {
                            if way >= 3 {
                                let c = ob::OpenBookClient::new_detail(
                                    c.clone(),
                                    w.k(oo),
                                    Arc::new(pair(&tag)),
                                    Arc::new(ob::RpcAccountFetcher { rpc: c.rpc_async() }),
                                )?;
                                return if way == 3 {
                                    c.send_and_confirm_owner_tx(wire.clone()).await
                                } else {
                                    c.send_and_confirm_permissionless_tx(wire.clone()).await
                                };
                            }
                            let b = ob::TransactionBuilder {
                                instructions: wire.clone(),
                                address_lookup_tables: vec![],
                                signers: signers.clone(),
                                payer: payer.pubkey(),
                                config: c.transaction_builder_config,
                            };
                            if way == 2 {
                                b.send_and_confirm(&c).await
                            } else {
                                b.send(&c).await
                            }
                        })
                    });
                    let mut res = judge(&l, setup, payer.pubkey(), ok, &want, &s, got);
                    if way == 1 {
                        let set = l.calls.borrow().iter().any(|x| matches!(&x.req, sim::Req::Send { skip_preflight: true, preflight, .. }
                            if *preflight == Some(setup.commitment().commitment)));
                        if !set && res.is_ok() {
                            res = Err("not sent with the settings for sending".into());
                        }
                    }
                    t.c.transitions += 1;
                    t.c.compared += 1;
                    let name = ["sent", "sent with settings", "sent and confirmed", "passed on for the owner", "passed on for anyone"][way];
                    let e = t.c.by_op.entry(name.to_string()).or_default();
                    match res {
                        Ok(true) => {
                            e.0 += 1;
                            t.c.ok += 1;
                        }
                        Ok(false) => {
                            e.1 += 1;
                            t.c.failed += 1;
                        }
                        Err(what) => {
                            return Err(Violation {
                                plan: j.name.clone(),
                                seed: j.seed.0.clone(),
                                ops: j.seed.1.clone(),
                                what: format!("{what}: {list:?} {name}, {} signers, with {setup:?}", signers.len()),
                                known: None,
                            })
                        }
                    }
                }
            }
        }
    }
    sim::set_node(None);
    Ok(())
}

fn part(name: &str, jobs: impl Fn() -> Vec<Job> + 'static) -> Part {
    part_by(name, jobs, run)
}
fn part_by(
    name: &str,
    jobs: impl Fn() -> Vec<Job> + 'static,
    run: fn(&Job, &mut Tally) -> Result<(), Violation>,
) -> Part {
    Part::Custom(
        name.to_string(),
        Box::new(move || {
            let jobs = jobs();
            let next = AtomicUsize::new(0);
            let out = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
            let died: Mutex<Option<String>> = Mutex::new(None);
            std::thread::scope(|s| {
                for _ in 0..8 {
                    s.spawn(|| loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= jobs.len() || !out.lock().unwrap().1.is_empty() {
                            break;
                        }
                        let mut t = Tally::default();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&jobs[i], &mut t)));
                        let mut o = out.lock().unwrap();
                        o.0.merge(&t.c);
                        match r {
                            Ok(Ok(())) => {}
                            Ok(Err(v)) => o.1.push(v),
                            Err(e) => {
                                let m = e.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic".into());
                                *died.lock().unwrap() = Some(m);
                                break;
                            }
                        }
                    });
                }
            });
            if let Some(m) = died.into_inner().unwrap() {
                panic!("{m}");
            }
            out.into_inner().unwrap()
        }),
    )
}

fn no_ops(_: &World, _: &View) -> Vec<Op> {
    vec![]
}
/// Every argument of the calls varied.
fn grid(w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    for s in Side::both() {
        for t in ALL_TYPES {
            for (price, base, quote) in [(3, 1, 1_000_000), (4, 2, 9), (5, 3, 1)] {
                for (cid, expiry, limit, st) in [
                    (0, 0, 10, SelfTrade::Decrement),
                    (u64::MAX, 1001, 1, SelfTrade::CancelProvide),
                    (7, 999, 10, SelfTrade::Abort),
                    (8, 1_000_000, 0, SelfTrade::CancelProvide),
                    (1 << 40, 70_000, 255, SelfTrade::Abort),
                ] {
                    let mut a = PlaceArgs::limit_order(s, price, base);
                    a.quote = quote;
                    a.otype = t;
                    a.cid = cid;
                    a.expiry = expiry;
                    a.limit = limit;
                    a.st = st;
                    l.push(Op::Place { oo: 0, a, rem: vec![] });
                }
                for (off, peg_limit, cid, expiry, limit, st) in [
                    (0, -1, 0, 0, 10, SelfTrade::Decrement),
                    (-1, 12, 9, 1001, 1, SelfTrade::CancelProvide),
                    (1, 9, u64::MAX, 999, 255, SelfTrade::Abort),
                ] {
                    let a = PegArgs { side: s, offset: off, peg_limit, base, quote, cid, otype: t, expiry, st, limit };
                    l.push(Op::Peg { oo: 0, a, rem: vec![] });
                }
            }
        }
        for limit in 0..4 {
            l.push(Op::CancelAll { oo: 0, side: Some(s), limit });
            l.push(Op::CancelAll { oo: 0, side: None, limit });
        }
        for o in v.book(s) {
            l.push(Op::Cancel { oo: 0, id: o.key });
            l.push(Op::Cancel { oo: 0, id: o.key ^ 1 });
        }
    }
    for base in [0, 1, 15, u64::MAX] {
        for quote in [0, 1, 25, u64::MAX] {
            l.push(Op::Deposit { user: 0, oo: 0, base, quote });
        }
    }
    for referrer in [false, true] {
        for oo in 0..2 {
            l.push(Op::Settle { oo, referrer });
        }
    }
    for limit in [0, 1, 2, 3, 8, 100] {
        l.push(Op::Consume { limit, rem: vec![] });
    }
    let m = |price, quote, expiry| MultiArgs { price, quote, expiry };
    let lists = [vec![], vec![m(3, 7, 0)], vec![m(3, 7, 1001), m(2, 9, 0)], vec![m(4, 8, 70_000), m(5, 1, 999)]];
    for bids in &lists {
        for asks in &lists {
            for (t, limit) in [(OType::Limit, 5), (OType::PostOnly, 1), (OType::Ioc, 2), (OType::Fok, 5)] {
                l.push(Op::Many { oo: 0, cancel: true, otype: t, bids: bids.clone(), asks: asks.clone(), limit, rem: vec![] });
            }
        }
    }
    // through the whole book of the others
    for (s, price) in [(Side::Bid, 6), (Side::Ask, 1)] {
        for limit in [0, 1, 2, 3, 4, 255] {
            for t in ALL_TYPES {
                let mut a = PlaceArgs::limit_order(s, price, 9);
                a.otype = t;
                a.limit = limit;
                l.push(Op::Place { oo: 0, a, rem: vec![] });
                let one = vec![m(price, 60, 0)];
                let (bids, asks) = if s == Side::Bid { (one, vec![]) } else { (vec![], one) };
                l.push(Op::Many { oo: 0, cancel: true, otype: t, bids, asks, limit, rem: vec![] });
            }
        }
    }
    let _ = w;
    l
}
/// Several orders of the other user on both sides.
fn deep() -> (String, Vec<Op>) {
    use Side::*;
    let others = [(Ask, 4), (Ask, 4), (Ask, 5), (Bid, 3), (Bid, 3), (Bid, 2)];
    let mut l: Vec<Op> = others.into_iter().map(|(s, p)| alpha::lim(1, s, p, 1)).collect();
    l.extend([alpha::lim(0, Ask, 6, 1), alpha::lim(0, Bid, 1, 1), alpha::lim(0, Bid, 1, 2), alpha::lim(0, Bid, 1, 1)]);
    ("several orders on both sides".into(), l)
}
fn some_pegs(w: &World, v: &View) -> Vec<Op> {
    alpha::peg_ops(w, v).into_iter().filter(|o| !matches!(o, Op::Oracle { .. })).collect()
}

fn seeds(pegged: bool) -> Vec<(String, Vec<Op>)> {
    let l = if pegged { alpha::peg_seeds() } else { alpha::market_seeds() };
    l.into_iter().map(|(a, b)| (a.to_string(), b)).collect()
}

fn all_setups() -> Vec<Setup> {
    let mut l = vec![];
    for payer in [Some("payer"), None, Some("stranger")] {
        for price in [None, Some(0), Some(77)] {
            for (timeout, level) in [(None, 0), (Some(3), 1), (Some(60), 2)] {
                l.push(Setup { payer, price, timeout, level });
            }
        }
    }
    l
}

pub fn c44(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    l.push(part("trading, sequences of calls", move || {
        seeds(false)
            .into_iter()
            .map(|seed| Job {
                name: "trading, sequences of calls".into(),
                world: World::new(alpha::cfg(alpha::FEES3[2])),
                seed,
                depth: t.pick(1, 2),
                setups: vec![PLAIN],
                gen: alpha::market_ops,
                probe: alpha::market_probes,
                strangers: false,
                lossy: false,
            })
            .collect()
    }));
    l.push(part("every argument varied", move || {
        let mut j = vec![];
        for pegged in [false, true] {
            for fees in [alpha::FEES3[1], alpha::FEES3[2]] {
                for seed in seeds(pegged).into_iter().chain((!pegged).then(deep)) {
                    let mut c = alpha::cfg(fees);
                    if pegged {
                        c.oracles = 1;
                        c.quote_decimals = 3;
                    }
                    j.push(Job {
                        name: "every argument varied".into(),
                        world: World::new(c),
                        seed,
                        depth: 0,
                        setups: vec![PLAIN],
                        gen: grid,
                        probe: no_ops,
                        strangers: false,
                lossy: false,
                    });
                }
            }
        }
        j
    }));
    l.push(part("pegged orders, sequences of calls", move || {
        let mut j = vec![];
        for oracles in [1, 2] {
            for seed in seeds(true) {
                let mut c = alpha::cfg(alpha::FEES3[2]);
                c.oracles = oracles;
                c.quote_decimals = 3;
                j.push(Job {
                    name: "pegged orders, sequences of calls".into(),
                    world: World::new(c),
                    seed,
                    depth: t.pick(1, 2),
                    setups: vec![PLAIN],
                    gen: some_pegs,
                    probe: alpha::peg_probes,
                    strangers: false,
                lossy: false,
                });
            }
        }
        j
    }));
    l.push(part("delegates, other users, other token accounts", move || {
        let mut j = vec![];
        for seed in seeds(false) {
            for delegate in [None, Some(1), Some(2)] {
                let mut s = seed.clone();
                s.1.push(Op::SetDelegate { oo: 0, delegate });
                j.push(Job {
                    name: "delegates, other users, other token accounts".into(),
                    world: World::new(alpha::cfg(alpha::FEES3[2])),
                    seed: s,
                    depth: 0,
                    setups: vec![PLAIN],
                    gen: alpha::market_ops,
                    probe: alpha::market_probes,
                    strangers: true,
                lossy: false,
                });
            }
        }
        j
    }));
    l.push(part("restricted markets", move || {
        let mut j = vec![];
        for (oo_admin, consume_admin) in [(true, false), (false, true), (true, true)] {
            for seed in seeds(false) {
                let mut c = alpha::cfg(alpha::FEES3[2]);
                c.oo_admin = oo_admin;
                c.consume_admin = consume_admin;
                j.push(Job {
                    name: "restricted markets".into(),
                    world: World::new(c),
                    seed,
                    depth: 0,
                    setups: ["oo_admin", "consume_admin", "payer"]
                        .into_iter()
                        .map(|p| Setup { payer: Some(p), ..PLAIN })
                        .collect(),
                    gen: alpha::market_ops,
                    probe: alpha::market_probes,
                    strangers: false,
                lossy: false,
                });
            }
        }
        j
    }));
    l.push(part("every setup of the client", move || {
        seeds(false)
            .into_iter()
            .map(|seed| Job {
                name: "every setup of the client".into(),
                world: World::new(alpha::cfg(alpha::FEES3[2])),
                seed,
                depth: 0,
                setups: all_setups(),
                gen: alpha::market_ops,
                probe: alpha::market_probes,
                strangers: false,
                lossy: false,
            })
            .collect()
    }));
    l.push(part("books and events in larger accounts", move || {
        seeds(false)
            .into_iter()
            .map(|seed| Job {
                name: "books and events in larger accounts".into(),
                world: World::new(Cfg { larger: 16, ..alpha::cfg(alpha::FEES3[2]) }),
                seed,
                depth: 0,
                setups: vec![PLAIN],
                gen: alpha::market_ops,
                probe: alpha::market_probes,
                strangers: false,
                lossy: false,
            })
            .collect()
    }));
    l.push(part_by(
        "instructions passed on",
        move || {
            seeds(false)
                .into_iter()
                .map(|seed| Job {
                    name: "instructions passed on".into(),
                    world: World::new(alpha::cfg(alpha::FEES3[2])),
                    seed,
                    depth: 0,
                    setups: [(Some("payer"), None, None, 0), (None, Some(77), Some(3), 1), (Some("stranger"), Some(0), None, 2)]
                        .into_iter()
                        .map(|(payer, price, timeout, level)| Setup { payer, price, timeout, level })
                        .collect(),
                    gen: alpha::market_ops,
                    probe: alpha::market_probes,
                    strangers: false,
                    lossy: false,
                })
                .collect()
        },
        pass_on,
    ));
    l.push(part("requests lost", move || {
        seeds(false)
            .into_iter()
            .map(|seed| Job {
                name: "requests lost".into(),
                world: World::new(alpha::cfg(alpha::FEES3[2])),
                seed,
                depth: 0,
                setups: vec![PLAIN],
                gen: alpha::market_ops,
                probe: alpha::market_probes,
                strangers: false,
                lossy: true,
            })
            .collect()
    }));
    l
}
