//! Exhaustive bounded exploration of the real program, every transition
//! compared with the reference model.

use crate::model::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;

pub mod facet {
    pub const RES: u32 = 1;
    pub const BOOK: u32 = 2;
    pub const FREE: u32 = 4;
    pub const LOCK: u32 = 8;
    pub const FEES: u32 = 16;
    pub const VOL: u32 = 32;
    pub const SLOTS: u32 = 64;
    pub const EV: u32 = 128;
    pub const TOK: u32 = 256;
    pub const TOT: u32 = 512;
    pub const SOL: u32 = 1024;
    pub const RET: u32 = 2048;
    pub const LOG: u32 = 4096;
    pub const META: u32 = 8192;
    pub const EXP: u32 = 16384;
    pub const SEQ: u32 = 32768;
    pub const STRUCT: u32 = 65536;
    pub const MON: u32 = 1 << 20;
    pub const NAMES: [&str; 17] = [
        "result", "book", "free", "locked", "fees", "volume", "slots", "events", "tokens", "totals", "lamports",
        "return", "logs", "identity", "expiry", "seq", "structure",
    ];
    pub const FUNDS: u32 = FREE | LOCK | FEES | TOK | TOT;
    pub const ALL: u32 = (1 << 17) - 1;
}
use facet::*;

pub type Gen = Box<dyn Fn(&World, &View) -> Vec<Op> + Sync + Send>;

/// What happened on one transition.
pub struct Step<'a> {
    pub w: &'a World,
    pub p: &'a Parser,
    pub pre: &'a View,
    pub op: &'a Op,
    pub out: &'a Outcome,
    /// present when the instruction succeeded and the result parsed
    pub post: Option<&'a View>,
    /// what the model expects
    pub want: &'a Result<(View, Effects), E>,
}
pub type StepMon = Box<dyn Fn(&Step) -> Result<(), String> + Sync + Send>;
/// Monitor that may run further instructions on a scratch machine.
pub type StateMon = Box<dyn Fn(&World, &Parser, &mut Machine, &State, &View) -> Result<u64, String> + Sync + Send>;

pub struct Plan {
    pub name: String,
    pub world: World,
    pub seeds: Vec<(String, Vec<Op>)>,
    /// operations whose results are explored further
    pub gen: Gen,
    /// operations executed and judged in every state, results not explored
    pub probe: Option<Gen>,
    pub depth: usize,
    pub mask: u32,
    pub step_mon: Option<StepMon>,
    pub state_mon: Option<StateMon>,
    /// also distinguish states by the arrangement of tree nodes and event slots
    pub physical: bool,
}

impl Plan {
    pub fn new(name: &str, world: World, mask: u32, depth: usize, gen: Gen) -> Plan {
        Plan {
            name: name.into(),
            world,
            seeds: vec![("start".into(), vec![])],
            gen,
            probe: None,
            depth,
            mask,
            step_mon: None,
            state_mon: None,
            physical: false,
        }
    }
    pub fn seeds(mut self, s: Vec<(&str, Vec<Op>)>) -> Plan {
        self.seeds = s.into_iter().map(|(a, b)| (a.to_string(), b)).collect();
        self
    }
    pub fn probe(mut self, g: Gen) -> Plan {
        self.probe = Some(g);
        self
    }
    pub fn step_mon(mut self, m: StepMon) -> Plan {
        self.step_mon = Some(m);
        self
    }
    pub fn physical(mut self) -> Plan {
        self.physical = true;
        self
    }
    fn hash(&self, m: &Machine, v: &View) -> u128 {
        let h = canon(&self.world, v);
        if self.physical {
            h ^ arrangement(&self.world, m)
        } else {
            h
        }
    }
    pub fn state_mon(mut self, m: StateMon) -> Plan {
        self.state_mon = Some(m);
        self
    }
}

#[derive(Default, Clone, Debug)]
pub struct Counts {
    pub states: u64,
    pub transitions: u64,
    pub ok: u64,
    pub failed: u64,
    pub compared: u64,
    pub extra_runs: u64,
    pub depth: u64,
    pub by_op: BTreeMap<String, (u64, u64)>,
    pub exhausted: bool,
    pub outcomes: u64,
}
impl Counts {
    pub fn merge(&mut self, o: &Counts) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.ok += o.ok;
        self.failed += o.failed;
        self.compared += o.compared;
        self.extra_runs += o.extra_runs;
        self.depth = self.depth.max(o.depth);
        self.outcomes += o.outcomes;
        for (k, v) in &o.by_op {
            let e = self.by_op.entry(k.clone()).or_default();
            e.0 += v.0;
            e.1 += v.1;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub plan: String,
    pub seed: String,
    pub ops: Vec<Op>,
    pub what: String,
    pub known: Option<String>,
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::Place { .. } => "place_order",
        Op::Peg { .. } => "place_order_pegged",
        Op::Edit { .. } => "edit_order",
        Op::EditPeg { .. } => "edit_order_pegged",
        Op::Many { cancel: false, .. } => "place_orders",
        Op::Many { .. } => "cancel_all_and_place_orders",
        Op::Take { .. } => "place_take_order",
        Op::Cancel { .. } => "cancel_order",
        Op::CancelCid { .. } => "cancel_order_by_client_order_id",
        Op::CancelAll { .. } => "cancel_all_orders",
        Op::Consume { .. } => "consume_events",
        Op::ConsumeGiven { .. } => "consume_given_events",
        Op::Deposit { .. } => "deposit",
        Op::Refill { .. } => "refill",
        Op::Settle { .. } => "settle_funds",
        Op::SettleExpired { .. } => "settle_funds_expired",
        Op::Sweep => "sweep_fees",
        Op::Prune { .. } => "prune_orders",
        Op::SetExpired => "set_market_expired",
        Op::CloseMarket => "close_market",
        Op::CloseOo { .. } => "close_open_orders_account",
        Op::SetDelegate { .. } => "set_delegate",
        Op::Advance { .. } => "clock advance",
        Op::Oracle { .. } => "oracle update",
    }
}

struct H2(DefaultHasher, DefaultHasher);
impl H2 {
    fn new() -> Self {
        let mut b = DefaultHasher::new();
        0x9e3779b97f4a7c15u64.hash(&mut b);
        H2(DefaultHasher::new(), b)
    }
    fn put<T: Hash>(&mut self, t: &T) {
        t.hash(&mut self.0);
        t.hash(&mut self.1);
    }
    fn done(self) -> u128 {
        (self.0.finish() as u128) << 64 | self.1.finish() as u128
    }
}

/// Hash of the behaviour-relevant part of a state: sequence numbers are
/// replaced by ranks, absolute times by distances, statistics are dropped.
pub fn canon(w: &World, v: &View) -> u128 {
    let mut h = H2::new();
    let mut seqs: Vec<u64> = v.bids.iter().chain(v.asks.iter()).map(|o| o.seq()).collect();
    for o in v.oo.iter().flatten() {
        for e in &o.orders {
            let low = e.id as u64;
            seqs.push(if e.side == Side::Bid { !low } else { low });
        }
    }
    seqs.sort_unstable();
    seqs.dedup();
    let rank = |s: u64| seqs.binary_search(&s).map(|x| x as u32).unwrap_or(u32::MAX);
    let now = v.now.ts;
    for s in Side::both() {
        for o in v.book(s) {
            h.put(&(s, o.pegged, o.level(), rank(o.seq()), o.owner, o.qty, o.peg_limit, o.cid));
            if o.tif > 0 {
                h.put(&(o.ts as i64 - now, o.tif));
            }
        }
        h.put(&77u8);
    }
    for e in &v.events {
        match e {
            Ev::Fill { taker_side, out, maker, slot, taker, price, peg_limit, qty, .. } => {
                h.put(&(0u8, *taker_side, *out, *maker, *taker, *price, *peg_limit, *qty));
                if *out {
                    h.put(slot);
                }
            }
            Ev::Out { side, owner, slot, qty, .. } => h.put(&(1u8, *side, *owner, *slot, *qty)),
        }
    }
    for o in &v.oo {
        match o {
            None => h.put(&0u8),
            Some(o) => {
                h.put(&(
                    o.bids_base, o.asks_base, o.bids_quote, o.base_free, o.quote_free, o.locked_fees, o.rebates,
                    o.penalty > 0, o.delegate,
                ));
                for e in &o.orders {
                    let low = e.id as u64;
                    let sq = if e.side == Side::Bid { !low } else { low };
                    h.put(&(e.cid, e.locked_price, e.side, e.pegged, rank(sq)));
                }
            }
        }
    }
    match &v.mkt {
        None => h.put(&0u8),
        Some(m) => {
            let rel = if m.time_expiry == 0 { 1i64 << 40 } else { (m.time_expiry - now).max(-1) };
            h.put(&(rel, m.rebates_accrued, m.fees_available, m.base_total, m.quote_total));
        }
    }
    h.put(&(v.oracle, v.oracle_ok));
    if w.cfg.base_balance < 1_000_000 || w.cfg.quote_balance < 1_000_000 {
        h.put(&v.wallets);
    }
    h.done()
}

/// Hash of how tree nodes and event slots are linked, independent of sequence
/// numbers and times.
pub fn arrangement(w: &World, m: &Machine) -> u128 {
    let mut h = H2::new();
    if m.data(w.ids.m.market).is_empty() {
        return 0;
    }
    for a in [w.ids.m.bids, w.ids.m.asks] {
        let d = m.data(a);
        let bump = u32a(d, 316) as usize;
        h.put(&(bump, &d[8..24], &d[320..328]));
        let mut keys: Vec<u128> = vec![];
        for i in 0..bump {
            if d[840 + i * 88] == 2 {
                keys.push(u128a(d, 840 + i * 88 + 8));
            }
        }
        keys.sort_unstable();
        for i in 0..bump {
            let b = &d[840 + i * 88..840 + i * 88 + 88];
            match b[0] {
                1 => h.put(&(1u8, &b[4..8], &b[24..32])),
                2 => h.put(&(2u8, keys.binary_search(&u128a(b, 8)).unwrap())),
                t => h.put(&(t, &b[4..8])),
            }
        }
    }
    let d = m.data(w.ids.m.heap);
    h.put(&&d[8..14]);
    // slots beyond the ones ever used are linked in their initial order
    for i in 0..64usize {
        let b = &d[24 + i * 152..24 + i * 152 + 4];
        h.put(&b);
    }
    h.done()
}

/// Facets in which two normalised views differ.
pub fn diff(a: &View, b: &View) -> Vec<(u32, String)> {
    let mut out = vec![];
    let mut d = |f: u32, c: bool, s: String| {
        if c {
            out.push((f, s))
        }
    };
    d(BOOK, a.bids != b.bids, format!("bids: expected {:?} got {:?}", short(&a.bids), short(&b.bids)));
    d(BOOK, a.asks != b.asks, format!("asks: expected {:?} got {:?}", short(&a.asks), short(&b.asks)));
    d(EV, a.events != b.events, format!("events: expected {:?} got {:?}", a.events, b.events));
    d(TOK, a.wallets != b.wallets, format!("wallets: expected {:?} got {:?}", a.wallets, b.wallets));
    d(
        TOK,
        (a.bvault, a.qvault, a.fee_receiver, a.referrer) != (b.bvault, b.qvault, b.fee_receiver, b.referrer),
        format!(
            "token accounts (base vault, quote vault, fee receiver, referrer): expected {:?} got {:?}",
            (a.bvault, a.qvault, a.fee_receiver, a.referrer),
            (b.bvault, b.qvault, b.fee_receiver, b.referrer)
        ),
    );
    d(SOL, a.sol != b.sol, format!("lamports: expected {:?} got {:?}", a.sol, b.sol));
    match (&a.mkt, &b.mkt) {
        (Some(x), Some(y)) => {
            d(EXP, x.time_expiry != y.time_expiry, format!("market expiry {} got {}", x.time_expiry, y.time_expiry));
            d(SEQ, x.seq != y.seq, format!("sequence number {} got {}", x.seq, y.seq));
            let fx = (x.fees_accrued, x.fees_to_referrers, x.rebates_accrued, x.fees_available);
            let fy = (y.fees_accrued, y.fees_to_referrers, y.rebates_accrued, y.fees_available);
            d(FEES, fx != fy, format!("market fees (accrued, to referrers, rebates accrued, available): expected {fx:?} got {fy:?}"));
            let vx = (x.maker_vol, x.taker_vol);
            let vy = (y.maker_vol, y.taker_vol);
            d(VOL, vx != vy, format!("market volume: expected {vx:?} got {vy:?}"));
            let tx = (x.base_total, x.quote_total);
            let ty = (y.base_total, y.quote_total);
            d(TOT, tx != ty, format!("deposit totals: expected {tx:?} got {ty:?}"));
            d(META, x.fixed != y.fixed, "market parameters changed".into());
        }
        (x, y) => d(RES, x.is_some() != y.is_some(), format!("market open: expected {} got {}", x.is_some(), y.is_some())),
    }
    for (k, (x, y)) in a.oo.iter().zip(b.oo.iter()).enumerate() {
        match (x, y) {
            (Some(x), Some(y)) => {
                if x == y {
                    continue;
                }
                let fx = (x.base_free, x.quote_free);
                let fy = (y.base_free, y.quote_free);
                d(FREE, fx != fy, format!("account {k} free balances: expected {fx:?} got {fy:?}"));
                let fx = (x.bids_base, x.bids_quote, x.asks_base, x.locked_fees);
                let fy = (y.bids_base, y.bids_quote, y.asks_base, y.locked_fees);
                d(LOCK, fx != fy, format!("account {k} locked (bids base, bids quote, asks base, fees): expected {fx:?} got {fy:?}"));
                d(FEES, x.rebates != y.rebates, format!("account {k} rebates: expected {} got {}", x.rebates, y.rebates));
                d(SOL, x.penalty != y.penalty, format!("account {k} penalties: expected {} got {}", x.penalty, y.penalty));
                let fx = (x.maker_vol, x.taker_vol);
                let fy = (y.maker_vol, y.taker_vol);
                d(VOL, fx != fy, format!("account {k} volume: expected {fx:?} got {fy:?}"));
                d(SLOTS, x.orders != y.orders, format!("account {k} orders: expected {:?} got {:?}", x.orders, y.orders));
                d(
                    META,
                    (x.owner, x.market, x.delegate, x.num, x.version) != (y.owner, y.market, y.delegate, y.num, y.version),
                    format!("account {k} identity fields changed"),
                );
            }
            (x, y) => d(RES, x.is_some() != y.is_some(), format!("account {k} open: expected {} got {}", x.is_some(), y.is_some())),
        }
    }
    out
}

fn short(l: &[Order]) -> Vec<String> {
    l.iter()
        .take(6)
        .map(|o| format!("{}{}x{}#{}@{:?}", if o.pegged { "peg" } else { "" }, o.level(), o.qty, o.seq(), o.owner))
        .collect()
}

/// Compare one executed transition with the model.  Returns the masked
/// differences and the accepted expectation.
pub fn conform(
    w: &World,
    p: &Parser,
    pre: &View,
    op: &Op,
    out: &Outcome,
    post: Result<&View, &String>,
    mask: u32,
) -> (Vec<String>, Result<(View, Effects), E>) {
    let mut ch = Choice::default();
    let mut first: Option<(Vec<String>, Result<(View, Effects), E>)> = None;
    let mut npost: Option<View> = None;
    loop {
        let mut m = Model::new(w, p, pre, ch);
        let r = m.apply(op);
        let used = m.ch.clone();
        let mut errs = vec![];
        let want = match r {
            Err(e) => {
                if out.ok && mask & RES != 0 {
                    errs.push(format!("instruction succeeded but must be rejected ({e})"));
                }
                Err(e)
            }
            Ok(()) => {
                let mut ev = m.v;
                let fx = m.fx;
                if !out.ok {
                    if mask & RES != 0 {
                        errs.push(format!("instruction failed ({}) but must succeed", out.err));
                    }
                } else if let Ok(pv) = post {
                    if npost.is_none() {
                        let mut n = pv.clone();
                        normalise(&mut n);
                        npost = Some(n);
                    }
                    normalise(&mut ev);
                    for (f, s) in diff(&ev, npost.as_ref().unwrap()) {
                        if f & mask != 0 {
                            errs.push(s);
                        }
                    }
                    if mask & RET != 0 && fx.ret != out.ret && !matches!(op, Op::Advance { .. } | Op::Oracle { .. }) {
                        errs.push(format!("return data: expected {:?} got {:?}", fx.ret, out.ret));
                    }
                    if mask & LOG != 0 {
                        let mut a = fx.logs.clone();
                        let mut b = out.logs.clone();
                        a.sort();
                        b.sort();
                        if a != b {
                            errs.push(format!(
                                "emitted logs differ: expected {} records, got {}; missing {:?}, unexpected {:?}",
                                a.len(),
                                b.len(),
                                a.iter().filter(|x| !b.contains(x)).map(|x| log_name(x)).collect::<Vec<_>>(),
                                b.iter().filter(|x| !a.contains(x)).map(|x| log_name(x)).collect::<Vec<_>>()
                            ));
                        }
                    }
                }
                Ok((ev, fx))
            }
        };
        if errs.is_empty() {
            return (errs, want);
        }
        if first.is_none() {
            first = Some((errs, want));
        }
        match used.next() {
            Some(c) => ch = c,
            None => return first.unwrap(),
        }
    }
}

pub fn log_name(d: &[u8]) -> String {
    for n in [
        "DepositLog",
        "FillLog",
        "TakerSignatureLog",
        "TotalOrderFillEvent",
        "SetDelegateLog",
        "SettleFundsLog",
        "SweepFeesLog",
        "OpenOrdersPositionLog",
        "MarketMetaDataLog",
    ] {
        if d.len() >= 8 && d[..8] == disc("event", n) {
            return n.to_string();
        }
    }
    "unknown".into()
}

/// Execute and judge one operation.  The machine holds the post state after.
pub fn judge(
    plan: &Plan,
    p: &Parser,
    m: &mut Machine,
    st: &State,
    pre: &View,
    op: &Op,
) -> (Outcome, Option<View>, Vec<String>) {
    m.load(st);
    let out = plan.world.run(m, op);
    let mut errs = vec![];
    let post: Result<View, String> = if out.ok { p.parse(&plan.world, m) } else { Err(String::new()) };
    let (e, want) = conform(&plan.world, p, pre, op, &out, post.as_ref(), plan.mask);
    errs.extend(e);
    if out.ok {
        match &post {
            Err(s) => errs.push(format!("account data malformed: {s}")),
            Ok(v) => {
                if plan.mask & STRUCT != 0 && v.mkt.is_some() {
                    if let Err(s) = coherence(v) {
                        errs.push(s);
                    }
                }
            }
        }
    }
    if let Some(mon) = &plan.step_mon {
        let s = Step { w: &plan.world, p, pre, op, out: &out, post: post.as_ref().ok(), want: &want };
        if let Err(x) = mon(&s) {
            errs.push(x);
        }
    }
    (out, post.ok(), errs)
}

struct Found {
    state: usize,
    op: usize,
    hash: u128,
    st: State,
}

pub fn explore(plan: &Plan, stop: &AtomicBool) -> (Counts, Vec<Violation>) {
    let w = &plan.world;
    let mut counts = Counts { exhausted: true, ..Default::default() };
    let mut viols: Vec<Violation> = vec![];
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let parser = Parser::new(w);
    // (parent, op) of every state for reconstruction; roots have parent = MAX
    let mut links: Vec<(u32, Op)> = vec![];
    let mut seen: HashSet<u128> = HashSet::new();
    let mut frontier: Vec<(usize, State)> = vec![];
    let mut root_of: HashMap<usize, usize> = HashMap::new();
    {
        let mut m = w.machine();
        for (si, (name, ops)) in plan.seeds.iter().enumerate() {
            let mut st = w.start.clone();
            m.load(&st);
            let mut pre = match parser.parse(w, &m) {
                Ok(v) => v,
                Err(e) => {
                    viols.push(Violation {
                        plan: plan.name.clone(),
                        seed: name.clone(),
                        ops: vec![],
                        what: format!("account data malformed: {e}"),
                        known: None,
                    });
                    return (counts, viols);
                }
            };
            let mut bad = false;
            for (i, op) in ops.iter().enumerate() {
                let (out, post, errs) = judge(plan, &parser, &mut m, &st, &pre, op);
                counts.transitions += 1;
                counts.compared += 1;
                if !errs.is_empty() {
                    viols.push(Violation {
                        plan: plan.name.clone(),
                        seed: name.clone(),
                        ops: ops[..=i].to_vec(),
                        what: errs.join("; "),
                        known: None,
                    });
                    bad = true;
                    break;
                }
                if out.ok {
                    counts.ok += 1;
                    st = m.save();
                    pre = post.unwrap();
                } else {
                    counts.failed += 1;
                    if std::env::var("OBMC_SEEDS").is_ok() {
                        eprintln!("seed step failed: {} / {name} step {i}: {}", plan.name, out.err);
                    }
                }
            }
            if bad {
                continue;
            }
            let h = plan.hash(&m, &pre);
            if seen.insert(h) {
                let id = links.len();
                links.push((u32::MAX, Op::Sweep));
                root_of.insert(id, si);
                frontier.push((id, st));
            }
        }
    }
    counts.states = frontier.len() as u64;
    let path = |links: &Vec<(u32, Op)>, mut id: usize| -> (usize, Vec<Op>) {
        let mut ops = vec![];
        while links[id].0 != u32::MAX {
            ops.push(links[id].1.clone());
            id = links[id].0 as usize;
        }
        ops.reverse();
        (root_of[&id], ops)
    };
    let all_outcomes: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    for level in 0..=plan.depth {
        if frontier.is_empty() || !viols.is_empty() {
            break;
        }
        if stop.load(Ordering::Relaxed) {
            counts.exhausted = false;
            break;
        }
        let last = level == plan.depth;
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<Found>> = Mutex::new(vec![]);
        let bad: Mutex<Vec<(usize, Vec<Op>, String)>> = Mutex::new(vec![]);
        let total: Mutex<Counts> = Mutex::new(Counts::default());
        let fr = &frontier;
        let seen_ref = &seen;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(|| {
                    let mut m = w.machine();
                    let mut local: Vec<Found> = vec![];
                    let mut lseen: HashSet<u128> = HashSet::new();
                    let mut c = Counts::default();
                    let mut outcomes: HashSet<u64> = HashSet::new();
                    let mut by_op: HashMap<&'static str, (u64, u64)> = HashMap::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= fr.len() {
                            break;
                        }
                        if !bad.lock().unwrap().is_empty() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let st = &fr[i].1;
                        m.load(st);
                        let pre = parser.parse(w, &m).expect("state parsed before");
                        if let Some(sm) = &plan.state_mon {
                            match sm(w, &parser, &mut m, st, &pre) {
                                Ok(n) => c.extra_runs += n,
                                Err(e) => {
                                    bad.lock().unwrap().push((i, vec![], e));
                                    continue;
                                }
                            }
                        }
                        let ops = (plan.gen)(w, &pre);
                        let mut probes = vec![];
                        if let Some(g) = &plan.probe {
                            probes = g(w, &pre);
                        }
                        let n_exp = if last { 0 } else { ops.len() };
                        // on the last level the expansion alphabet is still judged
                        for (k, op) in ops.iter().chain(probes.iter()).enumerate() {
                            let (out, post, errs) = judge(plan, &parser, &mut m, st, &pre, op);
                            c.transitions += 1;
                            c.compared += 1;
                            let e = by_op.entry(op_name(op)).or_default();
                            if out.ok {
                                c.ok += 1;
                                e.0 += 1;
                            } else {
                                c.failed += 1;
                                e.1 += 1;
                                let mut h = DefaultHasher::new();
                                (op_name(op), &out.err).hash(&mut h);
                                outcomes.insert(h.finish());
                            }
                            if !errs.is_empty() {
                                bad.lock().unwrap().push((i, vec![op.clone()], errs.join("; ")));
                                break;
                            }
                            if out.ok {
                                if let Some(v) = post {
                                    let h = plan.hash(&m, &v);
                                    let mut hh = DefaultHasher::new();
                                    (op_name(op), v.bids.len(), v.asks.len(), v.events.len(), h as u64 & 0xff).hash(&mut hh);
                                    outcomes.insert(hh.finish());
                                    if k < n_exp && !seen_ref.contains(&h) && lseen.insert(h) {
                                        local.push(Found { state: i, op: k, hash: h, st: m.save() });
                                    }
                                }
                            }
                        }
                    }
                    results.lock().unwrap().extend(local);
                    all_outcomes.lock().unwrap().extend(outcomes);
                    for (k, v) in by_op {
                        let e = c.by_op.entry(k.to_string()).or_default();
                        e.0 += v.0;
                        e.1 += v.1;
                    }
                    total.lock().unwrap().merge(&c);
                });
            }
        });
        counts.merge(&total.into_inner().unwrap());
        let mut bad = bad.into_inner().unwrap();
        bad.sort_by_key(|x| x.0);
        for (i, ops, what) in bad.into_iter().take(3) {
            let (root, mut pth) = path(&links, fr[i].0);
            pth.extend(ops);
            let mut full = plan.seeds[root].1.clone();
            full.extend(pth);
            viols.push(Violation {
                plan: plan.name.clone(),
                seed: plan.seeds[root].0.clone(),
                ops: full,
                what,
                known: None,
            });
        }
        if !viols.is_empty() {
            break;
        }
        counts.depth = level as u64;
        if last {
            break;
        }
        let mut res = results.into_inner().unwrap();
        res.sort_by_key(|f| (f.state, f.op));
        let mut nf = vec![];
        // operations are regenerated once per parent to keep the links small
        let mut cur: Option<(usize, Vec<Op>)> = None;
        let mut m = w.machine();
        for f in res {
            if !seen.insert(f.hash) {
                continue;
            }
            if cur.as_ref().map(|c| c.0) != Some(f.state) {
                m.load(&fr[f.state].1);
                let pre = parser.parse(w, &m).unwrap();
                cur = Some((f.state, (plan.gen)(w, &pre)));
            }
            let op = cur.as_ref().unwrap().1[f.op].clone();
            let id = links.len();
            links.push((fr[f.state].0 as u32, op));
            nf.push((id, f.st));
        }
        counts.states += nf.len() as u64;
        frontier = nf;
    }
    counts.outcomes = all_outcomes.into_inner().unwrap().len() as u64;
    (counts, viols)
}

/// Re-execute a list of operations from the start of the world, judging each.
pub fn replay(plan: &Plan, ops: &[Op]) -> Vec<String> {
    let w = &plan.world;
    let p = Parser::new(w);
    let mut m = w.machine();
    let mut st = w.start.clone();
    m.load(&st);
    let mut lines = vec![];
    let mut pre = match p.parse(w, &m) {
        Ok(v) => v,
        Err(e) => return vec![format!("malformed start: {e}")],
    };
    for (i, op) in ops.iter().enumerate() {
        let (out, post, errs) = judge(plan, &p, &mut m, &st, &pre, op);
        lines.push(format!("step {i}: {op:?}\n    -> {}", if out.ok { "ok".into() } else { out.err.clone() }));
        for e in &errs {
            lines.push(format!("    !! {e}"));
        }
        if !out.ok {
            continue;
        }
        match post {
            None => break,
            Some(v) => {
                pre = v;
                m.load(&st);
                plan.world.run(&mut m, op);
                st = m.save();
            }
        }
    }
    if let Some(sm) = &plan.state_mon {
        if let Err(e) = sm(w, &p, &mut m, &st, &pre) {
            lines.push(format!("    !! final state: {e}"));
        }
    }
    lines
}
