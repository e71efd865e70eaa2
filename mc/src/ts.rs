//! The TypeScript client of the repository, run by node against the accounts
//! of every explored state and judged by the program itself.

use crate::alpha::*;
use crate::checks::world_part;
use crate::explore::*;
use crate::report::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use Side::*;

struct Node {
    child: Arc<Mutex<Child>>,
    to: BufWriter<ChildStdin>,
    from: BufReader<ChildStdout>,
    image: Option<Arc<Image>>,
}
static POOL: Mutex<Vec<Node>> = Mutex::new(vec![]);

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Node {
    fn start() -> Node {
        let host = std::env::var("OBMC_TS").unwrap_or_else(|_| "/verif/target/ts/host.mjs".into());
        let mut child = Command::new("node")
            .arg("--stack-size=4000")
            .arg("--max-old-space-size=1800")
            .arg(host)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("node starts");
        let to = BufWriter::new(child.stdin.take().unwrap());
        let from = BufReader::new(child.stdout.take().unwrap());
        Node { child: Arc::new(Mutex::new(child)), to, from, image: None }
    }
    fn image(&mut self, im: &Arc<Image>) -> std::io::Result<()> {
        if let Some(i) = &self.image {
            if Arc::ptr_eq(i, im) {
                return Ok(());
            }
        }
        writeln!(self.to, "image {}", im.accts.len())?;
        for a in &im.accts {
            write!(self.to, "{} {} {} {}", hex(a.key.as_ref()), hex(a.owner.as_ref()), a.lamports, a.data.len())?;
            for (k, c) in a.data.chunks(BLK).enumerate() {
                if c.iter().any(|x| *x != 0) {
                    write!(self.to, " {}:{}", k * BLK, hex(c))?;
                }
            }
            writeln!(self.to)?;
        }
        self.image = Some(im.clone());
        Ok(())
    }
    fn state(&mut self, st: &State) -> std::io::Result<()> {
        writeln!(self.to, "state {} {} {}", st.now.ts, st.now.slot, st.diffs.len())?;
        for d in &st.diffs {
            write!(self.to, "{} {} {} {}", d.idx, d.lamports, hex(d.owner.as_ref()), d.len)?;
            for (k, b) in &d.blocks {
                write!(self.to, " {}:{}", *k as usize * BLK, hex(b))?;
            }
            writeln!(self.to)?;
        }
        Ok(())
    }
    fn answer(&mut self) -> std::io::Result<Vec<String>> {
        let mut l = vec![];
        loop {
            let mut s = String::new();
            if self.from.read_line(&mut s)? == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "client ended"));
            }
            let s = s.trim_end_matches('\n');
            if s == "." {
                return Ok(l);
            }
            l.push(s.to_string());
        }
    }
}
impl Drop for Node {
    fn drop(&mut self) {
        let mut c = self.child.lock().unwrap();
        let _ = c.kill();
        let _ = c.wait();
    }
}

/// Ends all client processes.
pub fn shutdown() {
    POOL.lock().unwrap().clear();
}

/// Processes that owe an answer, and until when.
static OWED: Mutex<Vec<(Arc<Mutex<Child>>, Instant)>> = Mutex::new(vec![]);
static HUNG: AtomicBool = AtomicBool::new(false);
/// Ends a client's process that does not answer in time.
struct Owed(Arc<Mutex<Child>>);
impl Owed {
    fn new(n: &Node, secs: u64) -> Owed {
        static START: std::sync::Once = std::sync::Once::new();
        START.call_once(|| {
            std::thread::spawn(|| loop {
                std::thread::sleep(Duration::from_secs(1));
                for (c, t) in OWED.lock().unwrap().iter() {
                    if Instant::now() > *t {
                        HUNG.store(true, Relaxed);
                        let _ = c.lock().unwrap().kill();
                    }
                }
            });
        });
        OWED.lock().unwrap().push((n.child.clone(), Instant::now() + Duration::from_secs(secs)));
        Owed(n.child.clone())
    }
}
impl Drop for Owed {
    fn drop(&mut self) {
        OWED.lock().unwrap().retain(|x| !Arc::ptr_eq(&x.0, &self.0));
    }
}

/// Ask the client several questions about one state.
fn ask(im: &Arc<Image>, st: &State, questions: &[String]) -> Result<Vec<Vec<String>>, String> {
    if HUNG.load(Relaxed) {
        return Err("the client does not answer".into());
    }
    let mut n = POOL.lock().unwrap().pop().unwrap_or_else(Node::start);
    let long = questions.iter().any(|q| ["units", "sending", "creating"].iter().any(|x| q.starts_with(x)));
    let owed = Owed::new(&n, if long { 700 } else { 60 });
    let r = (|| {
        n.image(im)?;
        n.state(st)?;
        let mut out = vec![];
        // bounded batches keep the pipes from filling up
        for c in questions.chunks(16) {
            for q in c {
                writeln!(n.to, "{q}")?;
            }
            n.to.flush()?;
            for _ in c {
                out.push(n.answer()?);
            }
        }
        Ok(out)
    })();
    drop(owed);
    match r {
        Ok(o) => {
            POOL.lock().unwrap().push(n);
            Ok(o)
        }
        Err(e) => {
            let e: std::io::Error = e;
            if HUNG.load(Relaxed) {
                return Err("the client does not answer".into());
            }
            Err(format!("the client's process failed: {e}"))
        }
    }
}

fn list<T: std::fmt::Display>(l: impl IntoIterator<Item = T>, sep: &str) -> String {
    l.into_iter().map(|x| x.to_string()).collect::<Vec<_>>().join(sep)
}
fn quoted<T: std::fmt::Display>(l: impl IntoIterator<Item = T>) -> String {
    list(l.into_iter().map(|x| format!("\"{x}\"")), ",")
}
fn side_name(s: Side) -> &'static str {
    if s == Bid {
        "bid"
    } else {
        "ask"
    }
}
fn who(w: &World, x: Who) -> Pubkey {
    match x {
        Who::Oo(i) => w.k(w.ids.oo[i]),
        Who::User(i) => w.k(w.ids.users[i].wallet),
        Who::Other => Pubkey::default(),
    }
}

/// Same text, where fields expected as `~x` are numbers compared approximately.
fn same_text(want: &str, got: &str) -> bool {
    let sep = |c: char| c == ' ' || c == ',' || c == ';';
    let (a, b): (Vec<&str>, Vec<&str>) = (want.split(sep).collect(), got.split(sep).collect());
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| match x.strip_prefix('~') {
            Some(x) => match (x.parse::<f64>(), y.parse::<f64>()) {
                (Ok(x), Ok(y)) => (x - y).abs() <= 1e-12 * x.abs().max(y.abs()),
                _ => false,
            },
            None => x == y,
        })
}

// ---------------------------------------------------------------- reading

fn orders_text(w: &World, l: &[Order], t: u64) -> String {
    let (tick, lot) = (tick(w), base_lot(w));
    list(
        l.iter().map(|o| {
            format!(
                "{},{},{},{},{},{},~{},~{},{},{}",
                o.level(),
                o.seq(),
                o.qty,
                who(w, o.owner),
                o.cid,
                o.expired(t),
                o.level() as f64 * tick,
                o.qty as f64 * lot,
                side_name(o.side),
                o.key
            )
        }),
        ";",
    )
}
fn tick(w: &World) -> f64 {
    let c = &w.cfg;
    10f64.powi(c.base_decimals as i32 - c.quote_decimals as i32) * c.quote_lot as f64 / c.base_lot as f64
}
fn base_lot(w: &World) -> f64 {
    w.cfg.base_lot as f64 / 10f64.powi(w.cfg.base_decimals as i32)
}

fn expected_picture(w: &World, m: &Machine, v: &View, times: &[u64], oos: &[usize]) -> Vec<String> {
    let mut l = vec![];
    for t in times {
        for s in Side::both() {
            l.push(format!("orders {} {t} {}", side_name(s), orders_text(w, v.book(s), *t)));
        }
    }
    for s in Side::both() {
        let n = side_name(s);
        l.push(format!("best {n} {}", v.book(s).first().map(|o| o.key.to_string()).unwrap_or("-".into())));
        let mut levels: Vec<(i64, i64)> = vec![];
        for o in v.book(s) {
            match levels.last_mut() {
                Some(x) if x.0 == o.level() => x.1 += o.qty,
                _ => levels.push((o.level(), o.qty)),
            }
        }
        for d in [0usize, 1, 2, 3, 100] {
            let t = levels.iter().take(d).map(|(p, q)| format!("~{},~{},{p},{q}", *p as f64 * tick(w), *q as f64 * base_lot(w)));
            l.push(format!("levels {n} {d} {}", list(t, ";")));
        }
    }
    let ev = v.events.iter().map(|e| match e {
        Ev::Fill { taker_side, out, maker, slot, ts, seq, maker_ts, taker, taker_cid, price, peg_limit, qty, maker_cid } => format!(
            "fill,{},{},{slot},{ts},{seq},{},{maker_ts},{},{taker_cid},{price},{peg_limit},{qty},{maker_cid}",
            taker_side.code(),
            *out as u8,
            who(w, *maker),
            who(w, *taker)
        ),
        Ev::Out { side, owner, slot, ts, qty } => format!("out,{},{slot},{ts},{},{qty}", side.code(), who(w, *owner)),
    });
    l.push(format!("events {}", list(ev, ";")));
    for (i, k) in oos.iter().enumerate() {
        let o = v.o(*k);
        l.push(format!(
            "account {i} {},{},{},{},{},{},{},{},{},{},{},{},{},{}",
            o.owner, o.market, o.delegate, o.num, o.bids_base, o.bids_quote, o.asks_base, o.base_free, o.quote_free, o.locked_fees, o.rebates, o.penalty, o.maker_vol, o.taker_vol
        ));
        let mut keys: Vec<String> = v.bids.iter().chain(&v.asks).filter(|x| x.owner == Who::Oo(*k)).map(|x| x.key.to_string()).collect();
        keys.sort();
        l.push(format!("owned {i} {}", keys.join(";")));
    }
    let d = m.data(w.ids.m.market);
    l.push(format!(
        "market {},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{},{}",
        d[9],
        d[10],
        i64a(d, 48),
        pka(d, 200),
        pka(d, 232),
        pka(d, 264),
        i64a(d, 448),
        i64a(d, 456),
        u64a(d, 464),
        i64a(d, 480),
        i64a(d, 488),
        u64a(d, 536),
        pka(d, 576),
        pka(d, 608),
        pka(d, 640),
        u64a(d, 672),
        pka(d, 680),
        u64a(d, 712)
    ));
    l
}

fn existing(v: &View) -> Vec<usize> {
    (0..v.oo.len()).filter(|k| v.oo[*k].is_some()).collect()
}

fn read_mon(w: &World, _p: &Parser, m: &mut Machine, st: &State, v: &View) -> Result<u64, String> {
    m.load(st);
    // closed accounts are not followed
    if v.mkt.is_none() || v.oo.iter().any(|o| o.is_none()) {
        return Ok(0);
    }
    let mut times: BTreeSet<u64> = [0, v.now.ts as u64].into();
    for o in v.bids.iter().chain(&v.asks) {
        if o.tif > 0 {
            times.extend([o.expiry() - 1, o.expiry(), o.expiry() + 1]);
        }
    }
    let times: Vec<u64> = times.into_iter().collect();
    let oos = existing(v);
    let q = format!(
        "read {{\"wallet\":\"{}\",\"market\":\"{}\",\"oos\":[{}],\"times\":[{}]}}",
        w.k(w.ids.users[0].wallet),
        w.k(w.ids.m.market),
        quoted(oos.iter().map(|k| w.k(w.ids.oo[*k]))),
        list(&times, ",")
    );
    let got = &ask(&w.image, st, &[q])?[0];
    let want = expected_picture(w, m, v, &times, &oos);
    for (i, x) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("client shows nothing for: {x}")),
            Some(g) if !same_text(x, g) => return Err(format!("client shows: {g}\n  on chain: {x}")),
            _ => {}
        }
    }
    if let Some(x) = got.get(want.len()) {
        return Err(format!("client reads the same accounts differently: {x}"));
    }
    Ok(want.len() as u64)
}

fn ts_cfg(f: (i64, i64)) -> Cfg {
    Cfg { base_decimals: 3, quote_decimals: 2, ..cfg(f) }
}

/// Deep books with equal prices, long sequences of insertions and removals.
fn deep_seeds() -> Vec<(&'static str, Vec<Op>)> {
    let mut l = vec![];
    for (name, n, stride) in [("twelve orders", 12i64, 5i64), ("twenty orders", 20, 7)] {
        let mut ops = vec![];
        for i in 0..n {
            ops.push(limc((i % 2) as usize, Bid, 10 + (i * stride) % 6, 1 + i % 3, i as u64));
            ops.push(limc(((i + 1) % 2) as usize, Ask, 20 + (i * stride) % 6, 1 + i % 2, 100 + i as u64));
        }
        l.push((name, ops));
    }
    l
}
fn deep_ops(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![];
    if !live(v) {
        return l;
    }
    l.extend(cancels(v));
    for s in Side::both() {
        for p in if s == Bid { [9, 12, 16] } else { [19, 22, 26] } {
            l.push(lim(0, s, p, 1));
        }
        for b in [1, 3, 9] {
            l.push(take(2, s, b, vec![]));
        }
    }
    if !v.events.is_empty() {
        l.push(Op::Consume { limit: 1, rem: vec![0, 1] });
        l.push(Op::Consume { limit: 8, rem: vec![0, 1] });
        for s in v.ev_slots.iter().take(3) {
            l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
        }
    }
    l
}

type Mon = fn(&World, &Parser, &mut Machine, &State, &View) -> Result<u64, String>;

fn with_mon(name: String, w: World, depth: usize, gen: Gen, seeds: Vec<(&'static str, Vec<Op>)>, mon: Mon) -> Plan {
    Plan::new(&name, w, 0, depth, gen).seeds(seeds).state_mon(Box::new(mon))
}

fn fixed_price_plans(mon: Mon, md: [usize; 3], td: usize, dd: usize) -> Vec<Part> {
    let mut l = vec![];
    for (f, md) in FEES3.into_iter().zip(md) {
        l.push(world_part(move || with_mon(format!("market {}", fees_name(f)), World::new(ts_cfg(f)), md, Box::new(market_ops), market_seeds(), mon)));
    }
    l.push(world_part(move || with_mon("expiring orders".into(), World::new(ts_cfg(FEES3[1])), td, Box::new(timed_ops), timed_seeds(false), mon)));
    l.push(world_part(move || with_mon("deep books".into(), World::new(Cfg { larger: 24, ..ts_cfg(FEES3[1]) }), dd, Box::new(deep_ops), deep_seeds(), mon)));
    l
}

pub fn c39(tier: Tier) -> Vec<Part> {
    fixed_price_plans(read_mon, tier.pick([1, 2, 1], [2, 2, 2]), tier.pick(2, 3), tier.pick(1, 2))
}

// ---------------------------------------------------------------- balances

fn balance_mon(w: &World, p: &Parser, m: &mut Machine, st: &State, v: &View) -> Result<u64, String> {
    if v.mkt.is_none() || v.oo.iter().any(|o| o.is_none()) {
        return Ok(0);
    }
    let q = format!(
        "balance {{\"wallet\":\"{}\",\"market\":\"{}\",\"oos\":[{}]}}",
        w.k(w.ids.users[0].wallet),
        w.k(w.ids.m.market),
        quoted(w.ids.oo.iter().map(|k| w.k(*k)))
    );
    let got = ask(&w.image, st, &[q])?.remove(0);
    // what the accounts really own, with everything processed
    m.load(st);
    for _ in 0..100 {
        if p.parse(w, m)?.events.is_empty() {
            break;
        }
        let o = w.run(m, &Op::Consume { limit: 8, rem: (0..w.ids.oo.len()).collect() });
        if !o.ok {
            return Ok(0);
        }
    }
    let end = p.parse(w, m)?;
    let mut want = vec![];
    for k in 0..w.ids.oo.len() {
        let owned = |o: &Oo| {
            let base = o.asks_base as u64 * w.cfg.base_lot as u64 + o.base_free;
            let quote = o.bids_quote as u64 * w.cfg.quote_lot as u64 + o.quote_free + o.locked_fees;
            (base, quote)
        };
        let ((base, quote), then) = (owned(v.o(k)), owned(end.o(k)));
        want.push(format!(
            "{},{},{base},{quote},~{},~{}",
            then.0,
            then.1,
            base as f64 / 10f64.powi(w.cfg.base_decimals as i32),
            quote as f64 / 10f64.powi(w.cfg.quote_decimals as i32)
        ));
    }
    if want.len() != got.len() || want.iter().zip(&got).any(|(a, b)| !same_text(a, b)) {
        return Err(format!("client counts: {}\n  on chain: {}", got.join(" | "), want.join(" | ")));
    }
    Ok(want.len() as u64)
}

pub fn c40(tier: Tier) -> Vec<Part> {
    let mut l = fixed_price_plans(balance_mon, tier.pick([2; 3], [3; 3]), tier.pick(2, 4), tier.pick(1, 2));
    let d = tier.pick(2, 3);
    l.push(world_part(move || with_mon("pegged orders".into(), World::new(Cfg { oracles: 1, quote_decimals: 3, ..ts_cfg(FEES3[1]) }), d, Box::new(peg_ops), peg_seeds(), balance_mon)));
    l
}

// ---------------------------------------------------------------- searches

fn indexed(m: &Machine, i: usize) -> Option<Vec<Pubkey>> {
    let d = m.data(i);
    if d.len() < 17 {
        return None;
    }
    Some((0..u32a(d, 13) as usize).map(|k| pka(d, 17 + 32 * k)).collect())
}

fn search_mon(w: &World, p: &Parser, m: &mut Machine, st: &State, v: &View) -> Result<u64, String> {
    m.load(st);
    if v.mkt.is_none() {
        return Ok(0);
    }
    let mut markets = vec![w.k(w.ids.m.market)];
    markets.extend(w.ids.m2.as_ref().map(|x| w.k(x.market)));
    let mut owners: Vec<(Pubkey, Option<Vec<Pubkey>>)> = w.ids.users.iter().map(|u| (w.k(u.wallet), indexed(m, u.indexer))).collect();
    owners.push((w.k(w.ids.stranger), None));
    let wallet = w.k(w.ids.users[0].wallet);
    let mk = w.k(w.ids.m.market);
    let existing: Vec<usize> = existing(v);
    let mints = [w.k(w.ids.bmint), w.k(w.ids.qmint), w.k(w.ids.stranger)];
    let pairs: Vec<(Pubkey, Pubkey)> = mints.iter().flat_map(|a| mints.iter().map(|b| (*a, *b))).collect();
    let mut qs = vec![
        format!("accounts {{\"wallet\":\"{wallet}\",\"owners\":[{}],\"markets\":[{}]}}", quoted(owners.iter().map(|x| x.0)), quoted(&markets)),
        format!("events {{\"wallet\":\"{wallet}\",\"market\":\"{mk}\",\"oos\":[{}]}}", quoted(existing.iter().map(|k| w.k(w.ids.oo[*k])))),
        format!("bymints {{\"wallet\":\"{wallet}\",\"pairs\":[{}]}}", list(pairs.iter().map(|(a, b)| format!("[\"{a}\",\"{b}\"]")), ",")),
        format!("build {{\"op\":\"consumeListed\",\"wallet\":\"{wallet}\",\"market\":\"{mk}\",\"limit\":\"8\"}}"),
    ];
    for k in &existing {
        qs.push(format!("build {{\"op\":\"consumeFor\",\"wallet\":\"{wallet}\",\"market\":\"{mk}\",\"oo\":\"{}\"}}", w.k(w.ids.oo[*k])));
    }
    let got = ask(&w.image, st, &qs)?;
    // accounts of an owner
    let mut want = vec![];
    for (o, l) in &owners {
        let all = l.clone().unwrap_or_default();
        let market_of = |k: &Pubkey| w.image.index.get(k).map(|i| pka(m.data(*i), 8 + 32)).unwrap_or_default();
        want.push(format!("all {o} {}", list(&all, ",")));
        if l.is_some() {
            let t = all.iter().map(|k| {
                let i = w.image.index[k];
                let mut orders: Vec<String> = vec![];
                if let Some(j) = w.ids.oo.iter().position(|x| *x == i) {
                    orders = v.bids.iter().chain(&v.asks).filter(|x| x.owner == Who::Oo(j)).map(|x| x.key.to_string()).collect();
                }
                orders.sort();
                format!("{k}:{}:{o}:{}", market_of(k), orders.join("+"))
            });
            want.push(format!("loaded {o} {}", list(t, ",")));
        }
        for mk in &markets {
            let here: Vec<Pubkey> = all.iter().filter(|k| market_of(k) == *mk).cloned().collect();
            want.push(format!("formarket {o} {mk} {}", list(&here, ",")));
            want.push(format!("first {o} {mk} {}", here.first().map(|k| k.to_string()).unwrap_or("-".into())));
        }
    }
    if want != got[0] {
        let i = (0..want.len().max(got[0].len())).find(|i| want.get(*i) != got[0].get(*i)).unwrap();
        return Err(format!("client finds: {:?}\n  on chain: {:?}", got[0].get(i), want.get(i)));
    }
    // events of an account
    let of = |e: &Ev| match e {
        Ev::Fill { maker, .. } => *maker,
        Ev::Out { owner, .. } => *owner,
    };
    for (n, k) in existing.iter().enumerate() {
        let mut a: Vec<String> = v.events.iter().zip(&v.ev_slots).filter(|(e, _)| of(e) == Who::Oo(*k)).map(|(_, s)| s.to_string()).collect();
        a.sort();
        let line = got[1].get(n).cloned().unwrap_or_default();
        let mut b: Vec<String> = line.rsplit(' ').next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
        b.sort();
        if a != b || !line.starts_with("slots") {
            return Err(format!("client wants to process slots {b:?} for account {k}, its events are in {a:?} ({line})"));
        }
    }
    let mut a: Vec<String> = vec![];
    for e in &v.events {
        let k = who(w, of(e)).to_string();
        if !a.contains(&k) {
            a.push(k);
        }
    }
    a.sort();
    let line = got[1].last().cloned().unwrap_or_default();
    let mut b: Vec<String> = line.strip_prefix("accounts ").unwrap_or("?").split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    b.sort();
    if a != b {
        return Err(format!("client lists the accounts {b:?} for the queue, its events concern {a:?}"));
    }
    // markets of two tokens
    for (n, (a, b)) in pairs.iter().enumerate() {
        let mut l: Vec<String> = if *a == mints[0] && *b == mints[1] { markets.iter().map(|m| m.to_string()).collect() } else { vec![] };
        l.sort();
        let want = format!("{a} {b} {}", l.join(","));
        if got[2].get(n) != Some(&want) {
            return Err(format!("client finds markets {:?}\n  on chain: {want}", got[2].get(n)));
        }
    }
    // processing of what was found
    let mut n = (got[0].len() + got[1].len() + got[2].len()) as u64;
    n += same_effect(w, m, st, &[w.ix(&Op::Consume { limit: 8, rem: existing.clone() }).unwrap()], &got[3], wallet, &[], "processing with the listed accounts")?;
    for (i, k) in existing.iter().enumerate() {
        let slots = v.events.iter().zip(&v.ev_slots).filter(|(e, _)| of(e) == Who::Oo(*k)).map(|(_, s)| *s as u64).collect();
        let r = w.ix(&Op::ConsumeGiven { slots, rem: vec![*k] }).unwrap();
        n += same_effect(w, m, st, &[r], &got[4 + i], wallet, &[], &format!("processing for account {k}"))?;
    }
    let _ = p;
    Ok(n)
}

fn search_ops(w: &World, v: &View) -> Vec<Op> {
    let mut l = market_ops(w, v);
    if live(v) {
        for oo in 0..w.ids.oo.len() {
            if v.oo[oo].is_some() {
                l.push(Op::CloseOo { oo });
            }
        }
    }
    l.retain(|o| match o {
        Op::Place { oo, rem, .. } => v.oo[*oo].is_some() && rem.iter().all(|k| v.oo[*k].is_some()),
        Op::Take { rem, .. } | Op::Consume { rem, .. } => rem.iter().all(|k| v.oo[*k].is_some()),
        Op::Settle { oo, .. } => v.oo[*oo].is_some(),
        _ => true,
    });
    l
}

/// Queues with many events of one account before those of another.
fn queue_seeds() -> Vec<(&'static str, Vec<Op>)> {
    let mut ops = vec![];
    for _ in 0..22 {
        ops.push(lim(0, Ask, 3, 1));
    }
    ops.push(lim(1, Ask, 4, 2));
    for _ in 0..3 {
        ops.push(Op::Take { user: 2, a: TakeArgs { side: Bid, price: 9, base: 8, quote: 1_000_000, otype: OType::Market, limit: 8 }, rem: vec![] });
    }
    let mut part = ops.clone();
    part.push(Op::Consume { limit: 8, rem: vec![0] });
    part.push(lim(1, Ask, 3, 1));
    part.push(take(2, Bid, 1, vec![]));
    vec![("a long queue", ops), ("a reused queue", part)]
}
fn consume_ops(_w: &World, v: &View) -> Vec<Op> {
    let mut l = vec![lim(1, Ask, 3, 1), take(2, Bid, 1, vec![])];
    for s in &v.ev_slots {
        l.push(Op::ConsumeGiven { slots: vec![*s as u64], rem: vec![0, 1] });
    }
    l
}

fn market_history(n: usize, kinds: &[char], data: &[u8]) -> (String, Vec<usize>) {
    let mut l = vec![];
    let mut made = vec![];
    for i in 0..n {
        let k = kinds[i % kinds.len()];
        if k == 'm' {
            made.push(i);
        }
        l.push(format!("{{\"kind\":\"{k}\",\"data\":\"{}\"}}", hex(data)));
    }
    (l.join(","), made)
}

fn all_markets(most: usize) -> (Counts, Vec<Violation>) {
    let w = World::new(Cfg { second_market: true, ..ts_cfg((0, 0)) });
    let (mut c, mut bad) = (Counts { exhausted: true, ..Default::default() }, vec![]);
    // the event as the program reports it
    let m2 = w.ids.m2.clone().unwrap();
    let mut accts = w.image.accts.clone();
    for i in [m2.market, m2.bvault, m2.qvault] {
        accts[i] = Acct::empty(accts[i].key, accts[i].cap.max(accts[i].data.len()));
    }
    for i in [m2.bids, m2.asks, m2.heap] {
        accts[i].data.fill(0);
    }
    let mut fresh = Machine::new(Arc::new(Image::new(accts)), w.start.now);
    let o = fresh.exec(&w.ix_create_market(&m2));
    let (Some(data), true) = (o.logs.first().cloned(), o.ok) else {
        panic!("second market cannot be created: {}", o.err);
    };
    let mut histories: Vec<(usize, Vec<char>)> = vec![];
    for n in 0..=most {
        histories.push((n, vec!['m']));
        histories.push((n, "mxof".chars().collect()));
    }
    for n in 1..=4u32 {
        for c in 0..4u32.pow(n) {
            histories.push((n as usize, (0..n).map(|i| ['m', 'x', 'o', 'f'][(c / 4u32.pow(i) % 4) as usize]).collect()));
        }
    }
    for (n, kinds) in histories {
        let (l, made) = market_history(n, &kinds, &data);
        let q = format!("allmarkets {{\"wallet\":\"{}\",\"list\":[{l}]}}", w.k(w.ids.users[0].wallet));
        c.transitions += 1;
        c.extra_runs += 1;
        c.states += 1;
        let want: Vec<String> = made.iter().map(|i| format!("{},{},{},TEST,{i}", w.k(m2.market), w.k(w.ids.bmint), w.k(w.ids.qmint))).collect();
        let what = match ask(&w.image, &w.start, &[q]) {
            Ok(g) if g[0] == want => continue,
            Ok(g) => {
                let i = (0..g[0].len().max(want.len())).find(|i| g[0].get(*i) != want.get(*i)).unwrap();
                format!("entry {i} of {} is {:?} instead of {:?}", want.len(), g[0].get(i), want.get(i))
            }
            Err(e) => e,
        };
        bad.push(violation("list of markets", format!("{n} transactions {}: {what}", kinds.iter().collect::<String>())));
        break;
    }
    (c, bad)
}
fn violation(plan: &str, what: String) -> Violation {
    Violation { plan: plan.into(), seed: String::new(), ops: vec![], what, known: None }
}

pub fn c42(tier: Tier) -> Vec<Part> {
    let d = tier.pick(1, 2);
    vec![
        world_part(move || with_mon("two accounts of one owner, two markets".into(), World::new(Cfg { second_market: true, oo_owners: vec![0, 0, 1], ..ts_cfg(FEES3[1]) }), d, Box::new(search_ops), market_seeds(), search_mon)),
        world_part(move || with_mon("market with event processing restricted".into(), World::new(Cfg { consume_admin: true, ..ts_cfg(FEES3[1]) }), d, Box::new(search_ops), market_seeds(), search_mon)),
        world_part(move || with_mon("long queues".into(), World::new(ts_cfg(FEES3[1])), d, Box::new(consume_ops), queue_seeds(), search_mon)),
        Part::Custom("list of all markets".into(), Box::new(move || all_markets(tier.pick(160, 400)))),
    ]
}

// ---------------------------------------------------------------- instructions

struct Built {
    program: Pubkey,
    data: Vec<u8>,
    keys: Vec<(Pubkey, bool, bool)>,
}
struct Answer {
    ixs: Vec<Built>,
    signers: Option<Vec<Pubkey>>,
    signed: Option<Vec<Pubkey>>,
    created: Vec<Pubkey>,
}
fn pk_hex(s: &str) -> Pubkey {
    Pubkey::try_from(&unhex(s)[..]).unwrap()
}
fn parse_answer(l: &[String]) -> Result<Answer, String> {
    let mut a = Answer { ixs: vec![], signers: None, signed: None, created: vec![] };
    let keys = |s: &str| s.split(',').filter(|x| !x.is_empty()).map(pk_hex).collect::<Vec<_>>();
    for x in l {
        let (kind, rest) = x.split_once(' ').unwrap_or((x, ""));
        match kind {
            "ix" => {
                let t: Vec<&str> = rest.split(' ').collect();
                a.ixs.push(Built {
                    program: pk_hex(t[0]),
                    data: if t[1] == "-" { vec![] } else { unhex(t[1]) },
                    keys: t[2].split(',').filter(|x| !x.is_empty()).map(|k| (pk_hex(&k[..64]), k[64..].contains('s'), k[64..].contains('w'))).collect(),
                });
            }
            "signers" => a.signers = Some(keys(rest)),
            "signed" => a.signed = Some(keys(rest)),
            "created" => a.created.push(rest.parse().map_err(|_| format!("bad address {rest}"))?),
            _ => return Err(format!("client answers: {x}")),
        }
    }
    Ok(a)
}

/// Run a transaction; its effect is the final state, or nothing at all.
fn run_ref(m: &mut Machine, st: &State, ixs: &[Ix]) -> (Option<State>, String) {
    m.load(st);
    for ix in ixs {
        let o = m.exec(ix);
        if !o.ok {
            return (None, o.err);
        }
    }
    (Some(m.save()), String::new())
}
fn run_built(im: &Image, m: &mut Machine, st: &State, ixs: &[Built]) -> Result<(Option<State>, String), String> {
    m.load(st);
    for b in ixs {
        let mut metas = vec![];
        let known = [anchor_spl::associated_token::ID, sys(), prog()].contains(&b.program);
        if !known {
            // compute budget requests
            if b.keys.is_empty() {
                continue;
            }
            return Err(format!("instruction for unexpected program {}", b.program));
        }
        if b.program == anchor_spl::associated_token::ID {
            // nothing to do when the account is there
            let want = anchor_spl::associated_token::get_associated_token_address(&b.keys[2].0, &b.keys[3].0);
            let there = im.index.get(&b.keys[1].0).map_or(false, |i| m.data(*i).len() == 165);
            if want != b.keys[1].0 || b.data != [1] || !b.keys[0].1 || !there {
                return Err("unexpected creation of a token account".into());
            }
            continue;
        }
        for (k, s, wr) in &b.keys {
            let Some(i) = im.index.get(k) else {
                return Err(format!("instruction names unknown account {k}"));
            };
            metas.push(Meta { acct: *i, signer: *s, writable: *wr });
        }
        if b.program == prog() {
            let o = m.exec(&Ix { metas, data: b.data.clone() });
            if !o.ok {
                return Ok((None, o.err));
            }
        } else {
            system_create(m, b, &metas)?;
        }
    }
    Ok((Some(m.save()), String::new()))
}
fn system_create(m: &mut Machine, b: &Built, metas: &[Meta]) -> Result<(), String> {
    if b.data.len() != 52 || u32a(&b.data, 0) != 0 || metas.len() != 2 {
        return Err("unexpected system instruction".into());
    }
    let (lamports, space, owner) = (u64a(&b.data, 4), u64a(&b.data, 12) as usize, pka(&b.data, 20));
    let (from, new) = (metas[0].acct, metas[1].acct);
    if !metas.iter().all(|x| x.signer && x.writable) || !m.data(new).is_empty() || m.lamports(new) != 0 {
        return Err("account creation would fail".into());
    }
    if lamports < rent_min(space) {
        return Err(format!("account of {space} bytes created with {lamports} lamports, below the rent minimum"));
    }
    m.poke_lamports(from, m.lamports(from) - lamports);
    m.poke_lamports(new, lamports);
    m.poke_data(new, &vec![0; space]);
    m.poke_owner(new, owner);
    Ok(())
}

/// Compare a built transaction with reference instructions in one state.
fn same_effect(w: &World, m: &mut Machine, st: &State, reference: &[Ix], answer: &[String], wallet: Pubkey, may_sign: &[Pubkey], what: &str) -> Result<u64, String> {
    // the same request built from the second description of the interface
    let mut parts: Vec<&[String]> = answer.split(|x| x == "description").collect();
    if parts.len() > 2 {
        parts.truncate(2);
    }
    let want = run_ref(m, st, reference);
    let mut n = 0;
    for (i, p) in parts.iter().enumerate() {
        let who = if i == 0 { "" } else { " from the interface description" };
        // where the operation cannot succeed the client may refuse
        let a = match parse_answer(p) {
            Ok(a) => a,
            Err(_) if want.0.is_none() => continue,
            Err(e) => return Err(format!("{what}{who}: {e}, the operation would succeed")),
        };
        let got = run_built(&w.image, m, st, &a.ixs).map_err(|e| format!("{what}{who}: {e}"))?;
        n += 1;
        if want.0.is_some() != got.0.is_some() {
            let t = |x: &(Option<State>, String)| if x.0.is_some() { "succeeds".to_string() } else { format!("fails with {}", x.1) };
            return Err(format!("{what}{who}: built instruction {}, the operation {}", t(&got), t(&want)));
        }
        if let (Some(a), Some(b)) = (&want.0, &got.0) {
            if a != b {
                let d: Vec<String> = (0..w.image.accts.len())
                    .filter(|i| a.diffs.iter().find(|d| d.idx as usize == *i) != b.diffs.iter().find(|d| d.idx as usize == *i))
                    .map(|i| w.k(i).to_string())
                    .collect();
                return Err(format!("{what}{who}: built instruction leaves other contents in {}", d.join(", ")));
            }
        }
        let required: BTreeSet<Pubkey> = a.ixs.iter().flat_map(|b| b.keys.iter().filter(|k| k.1).map(|k| k.0)).collect();
        if let Some(s) = &a.signers {
            let admins = [w.ids.oo_admin, w.ids.consume_admin].map(|i| w.k(i));
            for r in &required {
                if !s.contains(r) && *r != wallet && !admins.contains(r) && !may_sign.contains(r) {
                    return Err(format!("{what}{who}: signature of {r} is needed but not announced"));
                }
            }
            for x in s {
                if !required.contains(x) {
                    return Err(format!("{what}{who}: announced signer {x} is not part of the instruction"));
                }
            }
        }
        if let Some(s) = &a.signed {
            let admins = [w.ids.oo_admin].map(|i| w.k(i));
            for r in &required {
                if !s.contains(r) && !admins.contains(r) {
                    return Err(format!("{what}{who}: transaction sent without the signature of {r}"));
                }
            }
        }
    }
    Ok(n)
}

struct Q(String);
impl Q {
    fn new(op: &str, wallet: Pubkey, market: Pubkey) -> Q {
        Q(format!("build {{\"op\":\"{op}\",\"wallet\":\"{wallet}\",\"market\":\"{market}\""))
    }
    fn s(mut self, k: &str, v: impl std::fmt::Display) -> Q {
        write!(self.0, ",\"{k}\":\"{v}\"").unwrap();
        self
    }
    fn o(self, k: &str, v: Option<Pubkey>) -> Q {
        match v {
            Some(v) => self.s(k, v),
            None => self.n(k, "null"),
        }
    }
    fn n(mut self, k: &str, v: impl std::fmt::Display) -> Q {
        write!(self.0, ",\"{k}\":{v}").unwrap();
        self
    }
    fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}

fn tname(t: OType) -> &'static str {
    match t {
        OType::Limit => "limit",
        OType::Ioc => "ioc",
        OType::PostOnly => "post",
        OType::Market => "market",
        OType::Slide => "slide",
        OType::Fok => "fok",
    }
}
fn sname(s: SelfTrade) -> &'static str {
    match s {
        SelfTrade::Decrement => "decrement",
        SelfTrade::CancelProvide => "cancel",
        SelfTrade::Abort => "abort",
    }
}
fn pubkeys(w: &World, l: &[usize]) -> String {
    format!("[{}]", quoted(l.iter().map(|k| w.k(w.ids.oo[*k]))))
}
fn place_q(q: Q, a: &PlaceArgs) -> Q {
    q.s("side", side_name(a.side))
        .s("price", a.price)
        .s("base", a.base)
        .s("quote", a.quote)
        .s("cid", a.cid)
        .s("type", tname(a.otype))
        .s("expiry", a.expiry)
        .s("self", sname(a.st))
        .n("limit", a.limit)
}
fn peg_q(q: Q, a: &PegArgs) -> Q {
    q.s("side", side_name(a.side))
        .s("offset", a.offset)
        .s("pegLimit", a.peg_limit)
        .s("base", a.base)
        .s("quote", a.quote)
        .s("cid", a.cid)
        .s("type", tname(a.otype))
        .s("expiry", a.expiry)
        .s("self", sname(a.st))
        .n("limit", a.limit)
}
fn multi(l: &[MultiArgs]) -> String {
    format!("[{}]", list(l.iter().map(|x| format!("[\"{}\",\"{}\",\"{}\"]", x.price, x.quote, x.expiry)), ","))
}

/// The same instruction issued by a delegate: the signature is theirs, and for
/// placing the tokens are theirs as well.
fn by_delegate(w: &World, ix: &mut Ix, owner: usize, d: usize, tokens: bool) {
    let (o, d) = (&w.ids.users[owner], &w.ids.users[d]);
    for m in &mut ix.metas {
        if m.acct == o.wallet && m.signer {
            m.acct = d.wallet;
        }
        if tokens && m.acct == o.base {
            m.acct = d.base;
        }
        if tokens && m.acct == o.quote {
            m.acct = d.quote;
        }
    }
}

type Request = (String, Vec<Ix>, Pubkey, String);

/// The requests of the client's typed interface for one operation.
fn client_requests(w: &World, v: &View, op: &Op, l: &mut Vec<Request>) {
    let i = &w.ids;
    let mk = w.k(i.m.market);
    let admin = w.cfg.oo_admin.then(|| w.k(i.oo_admin));
    let reference = vec![w.ix(op).unwrap()];
    let name = format!("{op:?}");
    // the owner, or the delegate of the account
    let mut actors: Vec<(usize, Option<usize>)> = vec![];
    // with the delegate's wallet, or with the owner's and the delegate's key
    let oo = match op {
        Op::Place { oo, .. } | Op::Peg { oo, .. } | Op::Many { oo, .. } | Op::Cancel { oo, .. } | Op::CancelCid { oo, .. } | Op::CancelAll { oo, .. } | Op::Settle { oo, .. } | Op::Prune { oo, .. } | Op::CloseOo { oo } | Op::Deposit { oo, .. } => Some(*oo),
        _ => None,
    };
    let owner = oo.map(|k| i.oo_owner[k]).unwrap_or(0);
    actors.push((owner, None));
    if let Some(k) = oo {
        if v.oo[k].is_none() {
            return;
        }
        if let Some(d) = i.users.iter().position(|u| w.k(u.wallet) == v.o(k).delegate) {
            actors.push((d, Some(d)));
            actors.push((owner, Some(d)));
        }
    }
    let ook = |k: usize| w.k(i.oo[k]);
    for (a, d) in actors {
        let u = &i.users[a];
        let wallet = w.k(u.wallet);
        let (base, quote) = (w.k(u.base), w.k(u.quote));
        let dk = d.map(|d| w.k(i.users[d].wallet));
        let mut r = reference.clone();
        let q = |op: &str| Q::new(op, wallet, mk).o("delegate", dk);
        let mut tokens = false;
        let question = match op {
            Op::Place { oo, a, rem } => {
                tokens = true;
                let t = if a.side == Bid { quote } else { base };
                place_q(q("place").s("oo", ook(*oo)).s("token", t).n("rem", pubkeys(w, rem)), a)
            }
            Op::Peg { oo, a, rem } => {
                tokens = true;
                let t = if a.side == Bid { quote } else { base };
                peg_q(q("peg").s("oo", ook(*oo)).s("token", t).o("admin", admin).n("rem", pubkeys(w, rem)), a)
            }
            Op::Many { oo, cancel, otype, bids, asks, limit, rem } if rem.is_empty() => {
                tokens = true;
                q("many").s("oo", ook(*oo)).n("cancel", cancel).s("baseToken", base).s("quoteToken", quote).o("admin", admin).s("type", tname(*otype)).n("bids", multi(bids)).n("asks", multi(asks)).n("limit", limit)
            }
            Op::Take { user, a, rem } => {
                let u = &i.users[*user];
                Q::new("take", w.k(u.wallet), mk)
                    .s("baseToken", w.k(u.base))
                    .s("quoteToken", w.k(u.quote))
                    .o("admin", admin)
                    .s("side", side_name(a.side))
                    .s("price", a.price)
                    .s("base", a.base)
                    .s("quote", a.quote)
                    .s("type", tname(a.otype))
                    .n("limit", a.limit)
                    .n("rem", pubkeys(w, rem))
            }
            Op::Cancel { oo, id } => q("cancel").s("oo", ook(*oo)).s("id", id),
            Op::CancelCid { oo, cid } => q("cancelCid").s("oo", ook(*oo)).s("cid", cid),
            Op::CancelAll { oo, side, limit } => {
                let q = q("cancelAll").s("oo", ook(*oo)).n("limit", limit);
                match side {
                    Some(s) => q.s("side", side_name(*s)),
                    None => q.n("side", "null"),
                }
            }
            Op::Settle { oo, referrer } => {
                let o = &i.users[owner];
                q("settle").s("oo", ook(*oo)).s("baseToken", w.k(o.base)).s("quoteToken", w.k(o.quote)).o("referrer", referrer.then(|| w.k(i.referrer))).s("payer", dk.unwrap_or(wallet))
            }
            Op::Deposit { user, oo, base, quote } if d.is_none() && *user == owner => {
                let u = &i.users[*user];
                q("deposit").s("oo", ook(*oo)).s("baseToken", w.k(u.base)).s("quoteToken", w.k(u.quote)).s("base", base).s("quote", quote)
            }
            Op::Consume { limit, rem } => q("consume").s("limit", limit).n("rem", pubkeys(w, rem)),
            Op::ConsumeGiven { slots, rem } => q("consumeGiven").n("slots", format!("[{}]", quoted(slots))).n("rem", pubkeys(w, rem)),
            Op::Prune { oo, limit } if d.is_none() => q("prune").s("oo", ook(*oo)).n("limit", limit).s("closeAdmin", w.k(i.close_admin)),
            Op::CloseMarket => q("closeMarket").s("solDestination", w.k(i.sol_dest)).s("closeAdmin", w.k(i.close_admin)),
            Op::CloseOo { oo } if d.is_none() => q("closeOo").s("oo", ook(*oo)).s("owner", wallet).s("solDestination", w.k(i.sol_dest)),
            _ => return,
        };
        let signer = match op {
            Op::Take { user, .. } => w.k(i.users[*user].wallet),
            _ => wallet,
        };
        if let Some(d) = d {
            by_delegate(w, &mut r[0], owner, d, tokens && a == d);
        }
        let by = if d.is_some() { " by the delegate" } else { "" };
        l.push((question.end(), r.clone(), signer, format!("{name}{by}")));
        // the same through the account object, which does not know the price of pegged orders
        let pegs = v.bids.iter().chain(&v.asks).any(|o| o.pegged);
        let ui = match op {
            _ if pegs => None,
            Op::Place { oo, a: args, .. } if args.cid != 0 && [args.cid, args.expiry].iter().all(|x| *x < 1 << 53) && [args.price, args.base].iter().all(|x| (1..1 << 40).contains(x)) && ((1..1 << 40).contains(&args.quote) || args.quote == i64::MAX) => {
                // without a limit on what is paid, everything the market can express
                let limit = (args.quote != i64::MAX).then_some(args.quote);
                let most = PlaceArgs { quote: limit.unwrap_or(i64::MAX / w.cfg.quote_lot), ..args.clone() };
                r = vec![w.ix(&Op::Place { oo: *oo, a: most, rem: vec![] }).unwrap()];
                if let Some(d) = d {
                    by_delegate(w, &mut r[0], owner, d, tokens && a == d);
                }
                Some(place_q(q("placeUi").s("oo", ook(*oo)), args).n("quoteLimit", limit.map(|x| x.to_string()).unwrap_or("null".into())))
            }
            Op::Cancel { oo, id } => Some(q("cancelUi").s("oo", ook(*oo)).s("id", id)),
            // numbers of the scripting language
            Op::CancelCid { oo, cid } if *cid < 1 << 53 => Some(q("cancelCidUi").s("oo", ook(*oo)).s("cid", cid)),
            Op::CancelAll { oo, side, limit: 24 } => {
                let q = q("cancelAllUi").s("oo", ook(*oo)).n("side", side.map(|s| format!("\"{}\"", side_name(s))).unwrap_or("null".into()));
                // followed by a settlement with or without referrer
                for referrer in [false, true] {
                    let mut s = w.ix(&Op::Settle { oo: *oo, referrer }).unwrap();
                    if let Some(d) = d {
                        by_delegate(w, &mut s, owner, d, a == d);
                    }
                    let mut seq = r.clone();
                    seq.push(s);
                    let q = Q(q.0.clone()).o("referrerWallet", referrer.then(|| key("referrer_owner")));
                    l.push((q.end(), seq, signer, format!("{name} and settling{by}")));
                }
                None
            }
            _ => None,
        };
        if let Some(q) = ui {
            l.push((q.end(), r, signer, format!("{name}{by} in user units")));
        }
    }
}

fn place_json(a: &PlaceArgs) -> String {
    format!(
        "{{\"side\":{{\"{}\":{{}}}},\"priceLots\":{{\"bn\":\"{}\"}},\"maxBaseLots\":{{\"bn\":\"{}\"}},\"maxQuoteLotsIncludingFees\":{{\"bn\":\"{}\"}},\"clientOrderId\":{{\"bn\":\"{}\"}},\"orderType\":{{\"{}\":{{}}}},\"expiryTimestamp\":{{\"bn\":\"{}\"}},\"selfTradeBehavior\":{{\"{}\":{{}}}},\"limit\":{}}}",
        side_name(a.side), a.price, a.base, a.quote, a.cid, variant(a.otype), a.expiry, self_variant(a.st), a.limit
    )
}
fn peg_json(a: &PegArgs) -> String {
    format!(
        "{{\"side\":{{\"{}\":{{}}}},\"priceOffsetLots\":{{\"bn\":\"{}\"}},\"pegLimit\":{{\"bn\":\"{}\"}},\"maxBaseLots\":{{\"bn\":\"{}\"}},\"maxQuoteLotsIncludingFees\":{{\"bn\":\"{}\"}},\"clientOrderId\":{{\"bn\":\"{}\"}},\"orderType\":{{\"{}\":{{}}}},\"expiryTimestamp\":{{\"bn\":\"{}\"}},\"selfTradeBehavior\":{{\"{}\":{{}}}},\"limit\":{}}}",
        side_name(a.side), a.offset, a.peg_limit, a.base, a.quote, a.cid, variant(a.otype), a.expiry, self_variant(a.st), a.limit
    )
}
fn variant(t: OType) -> &'static str {
    match t {
        OType::Limit => "limit",
        OType::Ioc => "immediateOrCancel",
        OType::PostOnly => "postOnly",
        OType::Market => "market",
        OType::Slide => "postOnlySlide",
        OType::Fok => "fillOrKill",
    }
}
fn self_variant(s: SelfTrade) -> &'static str {
    match s {
        SelfTrade::Decrement => "decrementTake",
        SelfTrade::CancelProvide => "cancelProvide",
        SelfTrade::Abort => "abortTransaction",
    }
}

/// Every operation straight from the published interface descriptions.
fn described_request(w: &World, v: &View, op: &Op) -> Option<Request> {
    let i = &w.ids;
    let m = &i.m;
    let bn = |x: String| format!("{{\"bn\":\"{x}\"}}");
    let mut acc: Vec<(&str, Option<usize>)> = vec![];
    let on = |b: bool, k: usize| b.then_some(k);
    let book = [("market", Some(m.market)), ("bids", Some(m.bids)), ("asks", Some(m.asks))];
    let oracles = [("oracleA", on(w.cfg.oracles >= 1, i.oracle_a)), ("oracleB", on(w.cfg.oracles >= 2, i.oracle_b))];
    let vaults = [("marketBaseVault", Some(m.bvault)), ("marketQuoteVault", Some(m.qvault))];
    let place = |oo: usize, side: Side| {
        let u = &i.users[i.oo_owner[oo]];
        let mut l = vec![
            ("signer", Some(u.wallet)),
            ("openOrdersAccount", Some(i.oo[oo])),
            ("openOrdersAdmin", on(w.cfg.oo_admin, i.oo_admin)),
            ("userTokenAccount", Some(if side == Bid { u.quote } else { u.base })),
            ("eventHeap", Some(m.heap)),
            ("marketVault", Some(if side == Bid { m.qvault } else { m.bvault })),
            ("tokenProgram", Some(i.token_program)),
        ];
        l.extend(book);
        l.extend(oracles);
        l
    };
    let cancel = |oo: usize| {
        let mut l = vec![("signer", Some(i.users[i.oo_owner[oo]].wallet)), ("openOrdersAccount", Some(i.oo[oo]))];
        l.extend(book);
        l
    };
    let consume = || vec![("consumeEventsAdmin", on(w.cfg.consume_admin, i.consume_admin)), ("market", Some(m.market)), ("eventHeap", Some(m.heap))];
    let deposit = |user: usize, oo: usize| {
        let u = &i.users[user];
        let mut l = vec![("owner", Some(u.wallet)), ("userBaseAccount", Some(u.base)), ("userQuoteAccount", Some(u.quote)), ("openOrdersAccount", Some(i.oo[oo])), ("market", Some(m.market)), ("tokenProgram", Some(i.token_program))];
        l.extend(vaults);
        l
    };
    let settle = |oo: usize, referrer: bool, by: Option<usize>| {
        let u = &i.users[i.oo_owner[oo]];
        let mut l = vec![
            ("owner", Some(by.unwrap_or(u.wallet))),
            ("penaltyPayer", Some(by.unwrap_or(u.wallet))),
            ("openOrdersAccount", Some(i.oo[oo])),
            ("market", Some(m.market)),
            ("marketAuthority", Some(m.authority)),
            ("userBaseAccount", Some(u.base)),
            ("userQuoteAccount", Some(u.quote)),
            ("referrerAccount", on(referrer, i.referrer)),
            ("tokenProgram", Some(i.token_program)),
            ("systemProgram", Some(i.system_program)),
        ];
        l.extend(vaults);
        l
    };
    let mut none = vec![];
    let (name, args, rem): (&str, Vec<String>, &Vec<usize>) = match op {
        Op::Place { oo, a, rem } => {
            acc = place(*oo, a.side);
            ("placeOrder", vec![place_json(a)], rem)
        }
        Op::Peg { oo, a, rem } => {
            acc = place(*oo, a.side);
            ("placeOrderPegged", vec![peg_json(a)], rem)
        }
        Op::Edit { oo, cancel_cid, expected, a, rem } => {
            acc = place(*oo, a.side);
            ("editOrder", vec![bn(cancel_cid.to_string()), bn(expected.to_string()), place_json(a)], rem)
        }
        Op::EditPeg { oo, cancel_cid, expected, a, rem } => {
            acc = place(*oo, a.side);
            ("editOrderPegged", vec![bn(cancel_cid.to_string()), bn(expected.to_string()), peg_json(a)], rem)
        }
        Op::Many { oo, cancel, otype, bids, asks, limit, rem } => {
            acc = place(*oo, Bid);
            acc.retain(|x| !["userTokenAccount", "marketVault"].contains(&x.0));
            let u = &i.users[i.oo_owner[*oo]];
            acc.extend(vaults);
            acc.extend([("userBaseAccount", Some(u.base)), ("userQuoteAccount", Some(u.quote))]);
            let side = |l: &[MultiArgs]| {
                format!("[{}]", list(l.iter().map(|x| format!("{{\"priceLots\":{{\"bn\":\"{}\"}},\"maxQuoteLotsIncludingFees\":{{\"bn\":\"{}\"}},\"expiryTimestamp\":{{\"bn\":\"{}\"}}}}", x.price, x.quote, x.expiry)), ","))
            };
            (if *cancel { "cancelAllAndPlaceOrders" } else { "placeOrders" }, vec![format!("{{\"{}\":{{}}}}", variant(*otype)), side(bids), side(asks), limit.to_string()], rem)
        }
        Op::Take { user, a, rem } => {
            let u = &i.users[*user];
            acc.extend(book);
            acc.extend(oracles);
            acc.extend(vaults);
            acc.extend([
                ("signer", Some(u.wallet)),
                ("penaltyPayer", Some(u.wallet)),
                ("marketAuthority", Some(m.authority)),
                ("eventHeap", Some(m.heap)),
                ("userBaseAccount", Some(u.base)),
                ("userQuoteAccount", Some(u.quote)),
                ("tokenProgram", Some(i.token_program)),
                ("systemProgram", Some(i.system_program)),
                ("openOrdersAdmin", on(w.cfg.oo_admin, i.oo_admin)),
            ]);
            let a = format!(
                "{{\"side\":{{\"{}\":{{}}}},\"priceLots\":{{\"bn\":\"{}\"}},\"maxBaseLots\":{{\"bn\":\"{}\"}},\"maxQuoteLotsIncludingFees\":{{\"bn\":\"{}\"}},\"orderType\":{{\"{}\":{{}}}},\"limit\":{}}}",
                side_name(a.side), a.price, a.base, a.quote, variant(a.otype), a.limit
            );
            ("placeTakeOrder", vec![a], rem)
        }
        Op::Cancel { oo, id } => {
            acc = cancel(*oo);
            ("cancelOrder", vec![bn(id.to_string())], &none)
        }
        Op::CancelCid { oo, cid } => {
            acc = cancel(*oo);
            ("cancelOrderByClientOrderId", vec![bn(cid.to_string())], &none)
        }
        Op::CancelAll { oo, side, limit } => {
            acc = cancel(*oo);
            ("cancelAllOrders", vec![side.map(|s| format!("{{\"{}\":{{}}}}", side_name(s))).unwrap_or("null".into()), limit.to_string()], &none)
        }
        Op::Consume { limit, rem } => {
            acc = consume();
            ("consumeEvents", vec![bn(limit.to_string())], rem)
        }
        Op::ConsumeGiven { slots, rem } => {
            acc = consume();
            ("consumeGivenEvents", vec![format!("[{}]", list(slots.iter().map(|s| bn(s.to_string())), ","))], rem)
        }
        Op::Deposit { user, oo, base, quote } => {
            acc = deposit(*user, *oo);
            ("deposit", vec![bn(base.to_string()), bn(quote.to_string())], &none)
        }
        Op::Refill { user, oo, base, quote } => {
            acc = deposit(*user, *oo);
            ("refill", vec![bn(base.to_string()), bn(quote.to_string())], &none)
        }
        Op::Settle { oo, referrer } => {
            acc = settle(*oo, *referrer, None);
            ("settleFunds", vec![], &none)
        }
        Op::SettleExpired { oo, referrer } => {
            acc = settle(*oo, *referrer, Some(i.close_admin));
            acc.push(("closeMarketAdmin", Some(i.close_admin)));
            ("settleFundsExpired", vec![], &none)
        }
        Op::Sweep => {
            acc = vec![("collectFeeAdmin", Some(i.fee_admin)), ("market", Some(m.market)), ("marketAuthority", Some(m.authority)), ("marketQuoteVault", Some(m.qvault)), ("tokenReceiverAccount", Some(i.fee_receiver)), ("tokenProgram", Some(i.token_program))];
            ("sweepFees", vec![], &none)
        }
        Op::Prune { oo, limit } => {
            acc = vec![("closeMarketAdmin", Some(i.close_admin)), ("openOrdersAccount", Some(i.oo[*oo]))];
            acc.extend(book);
            ("pruneOrders", vec![limit.to_string()], &none)
        }
        Op::SetExpired => {
            acc = vec![("closeMarketAdmin", Some(i.close_admin)), ("market", Some(m.market))];
            ("setMarketExpired", vec![], &none)
        }
        Op::CloseMarket => {
            acc = vec![("closeMarketAdmin", Some(i.close_admin)), ("eventHeap", Some(m.heap)), ("solDestination", Some(i.sol_dest)), ("tokenProgram", Some(i.token_program))];
            acc.extend(book);
            ("closeMarket", vec![], &none)
        }
        Op::CloseOo { oo } => {
            let u = &i.users[i.oo_owner[*oo]];
            acc = vec![("owner", Some(u.wallet)), ("openOrdersIndexer", Some(u.indexer)), ("openOrdersAccount", Some(i.oo[*oo])), ("solDestination", Some(i.sol_dest)), ("systemProgram", Some(i.system_program))];
            ("closeOpenOrdersAccount", vec![], &none)
        }
        Op::SetDelegate { oo, delegate } => {
            acc = vec![("owner", Some(i.users[i.oo_owner[*oo]].wallet)), ("openOrdersAccount", Some(i.oo[*oo])), ("delegateAccount", delegate.map(|u| i.users[u].wallet))];
            ("setDelegate", vec![], &none)
        }
        Op::Advance { .. } | Op::Oracle { .. } => return None,
    };
    let wallet = w.k(i.users[0].wallet);
    let accounts = list(acc.iter().map(|(n, k)| format!("\"{n}\":{}", k.map(|k| format!("\"{}\"", w.k(k))).unwrap_or("null".into()))), ",");
    let q = Q::new("raw", wallet, w.k(m.market)).s("name", name).n("args", format!("[{}]", args.join(","))).n("accounts", format!("{{{accounts}}}")).n("rem", pubkeys(w, rem));
    none.clear();
    let _ = v;
    Some((q.end(), vec![w.ix(op)?], wallet, format!("{op:?} as described")))
}

fn build_mon(ops: fn(&World, &View) -> Vec<Op>) -> StateMon {
    Box::new(move |w, _p, m, st, v| {
        if v.mkt.is_none() {
            return Ok(0);
        }
        let mut l: Vec<Request> = vec![];
        let mut asked: Vec<Option<Op>> = vec![];
        for op in ops(w, v) {
            if w.ix(&op).is_none() {
                continue;
            }
            client_requests(w, v, &op, &mut l);
            l.extend(described_request(w, v, &op));
            asked.resize(l.len(), Some(op));
        }
        for (u, x) in w.ids.users.iter().enumerate() {
            let mut r = w.ix_close_indexer(u);
            r.metas[2].acct = x.wallet;
            let wallet = w.k(x.wallet);
            l.push((Q::new("closeIndexer", wallet, w.k(w.ids.m.market)).s("owner", wallet).end(), vec![r], wallet, format!("closing the indexer of user {u}")));
        }
        asked.resize(l.len(), None);
        let qs: Vec<String> = l.iter().map(|x| x.0.clone()).collect();
        let got = ask(&w.image, st, &qs)?;
        let mut n = 0;
        for (((_, r, wallet, what), g), op) in l.iter().zip(&got).zip(&asked) {
            let mut r = r.clone();
            // orders placed through the account object carry the makers the client knows
            if what.ends_with("in user units") && what.starts_with("Place") {
                if let Ok(a) = parse_answer(g) {
                    if let Some(b) = a.ixs.iter().find(|b| b.program == prog()) {
                        r[0].metas.truncate(12);
                        makers_listed(w, v, &b.keys, op).map_err(|e| format!("{what}: {e}"))?;
                        r[0].metas.extend(b.keys.iter().skip(12).filter_map(|k| w.image.index.get(&k.0)).filter(|i| w.ids.oo.contains(i)).map(|i| Meta { acct: *i, signer: false, writable: true }));
                    }
                }
            }
            n += same_effect(w, m, st, &r, g, *wallet, &[], what)?;
        }
        Ok(n)
    })
}

/// Of the orders that would be met first, at least the owners of the best three are handed to the program.
fn makers_listed(w: &World, v: &View, keys: &[(Pubkey, bool, bool)], op: &Option<Op>) -> Result<(), String> {
    let Some(Op::Place { a, .. }) = op else { return Ok(()) };
    if matches!(a.otype, OType::PostOnly | OType::Slide) {
        return Ok(());
    }
    let mut best: Vec<Pubkey> = vec![];
    for o in if a.side == Bid { &v.asks } else { &v.bids } {
        if let Who::Oo(k) = o.owner {
            let k = w.k(w.ids.oo[k]);
            if !best.contains(&k) && best.len() < 3 {
                best.push(k);
            }
        }
    }
    match best.iter().find(|k| !keys.iter().skip(12).any(|x| x.0 == **k && x.2)) {
        Some(k) => Err(format!("account {k} with an order among the first on the other side is not handed over")),
        None => Ok(()),
    }
}

fn build_ops(w: &World, v: &View) -> Vec<Op> {
    let mut l = market_ops(w, v);
    l.extend(market_probes(w, v));
    for oo in 0..2 {
        for side in [None, Some(Bid), Some(Ask)] {
            l.push(Op::CancelAll { oo, side, limit: 24 });
        }
        for side in Side::both() {
            for otype in ALL_TYPES {
                for (price, base, limit, quote) in [(3, 2, 10u8, i64::MAX), (4, 5, 16, i64::MAX), (1, 1, 1, i64::MAX), (4, 5, 16, 9)] {
                    let st = [SelfTrade::Decrement, SelfTrade::CancelProvide, SelfTrade::Abort][(price as usize + base as usize) % 3];
                    l.push(Op::Place { oo, a: PlaceArgs { side, price, base, quote, cid: 7, otype, expiry: if base == 1 { 1500 } else { 0 }, st, limit }, rem: vec![] });
                }
            }
        }
        l.push(Op::CancelCid { oo, cid: 7 });
        l.push(Op::CancelCid { oo, cid: u64::MAX });
        l.push(Op::Prune { oo, limit: 3 });
        l.push(Op::SettleExpired { oo, referrer: oo == 0 });
        l.push(Op::SetDelegate { oo, delegate: Some(1 - oo) });
        l.push(Op::SetDelegate { oo, delegate: None });
        l.push(Op::Deposit { user: oo, oo, base: 1 << 29, quote: 1 });
        // every byte of every argument counts
        for x in [0x0123_4567_89ab_cdefi64, -1, i64::MIN, i64::MAX] {
            let mut a = PlaceArgs::limit_order(Bid, 2, 1);
            a.price = x;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            a.price = 2;
            a.base = x;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            a.base = 1;
            a.quote = x;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            a.quote = 1_000_000;
            a.cid = x as u64;
            l.push(Op::Place { oo, a: a.clone(), rem: vec![] });
            a.cid = 5;
            a.expiry = x as u64;
            l.push(Op::Place { oo, a, rem: vec![] });
        }
    }
    l.push(Op::SetExpired);
    l.push(Op::CloseMarket);
    l
}
fn build_peg_ops(w: &World, v: &View) -> Vec<Op> {
    let mut l = peg_ops(w, v);
    l.extend(peg_probes(w, v));
    for x in [0x0123_4567_89ab_cdefi64, -1, i64::MIN, i64::MAX] {
        let a = pega(Bid, -2, 12, 1);
        l.push(Op::Peg { oo: 0, a: PegArgs { offset: x, ..a.clone() }, rem: vec![] });
        l.push(Op::Peg { oo: 0, a: PegArgs { peg_limit: x, ..a.clone() }, rem: vec![] });
        l.push(Op::Peg { oo: 0, a: PegArgs { cid: x as u64, ..a.clone() }, rem: vec![] });
        l.push(Op::EditPeg { oo: 0, cancel_cid: x as u64, expected: x, a, rem: vec![] });
    }
    l
}
fn delegated(l: Vec<(&'static str, Vec<Op>)>) -> Vec<(&'static str, Vec<Op>)> {
    l.into_iter()
        .map(|(n, mut ops)| {
            ops.push(Op::SetDelegate { oo: 0, delegate: Some(2) });
            (n, ops)
        })
        .collect()
}
fn expired_seeds(l: Vec<(&'static str, Vec<Op>)>) -> Vec<(&'static str, Vec<Op>)> {
    l.into_iter()
        .map(|(n, mut ops)| {
            ops.push(Op::SetExpired);
            ops.push(Op::Advance { dt: 10 });
            (n, ops)
        })
        .collect()
}

pub fn c41(tier: Tier) -> Vec<Part> {
    let d = tier.pick(1, 2);
    let base = || Cfg { ata: true, ..ts_cfg(FEES3[1]) };
    vec![
        world_part(move || Plan::new("market", World::new(base()), 0, d, Box::new(market_ops)).seeds(delegated(market_seeds())).state_mon(build_mon(build_ops))),
        world_part(move || Plan::new("market with administrators", World::new(Cfg { oo_admin: true, consume_admin: true, ..base() }), 0, d, Box::new(market_ops)).seeds(market_seeds()).state_mon(build_mon(build_ops))),
        world_part(move || Plan::new("market past its expiry", World::new(base()), 0, d, Box::new(market_ops)).seeds(expired_seeds(market_seeds())).state_mon(build_mon(build_ops))),
        world_part(move || Plan::new("market with one oracle", World::new(Cfg { oracles: 1, quote_decimals: 3, ..base() }), 0, d, Box::new(peg_ops)).seeds(delegated(peg_seeds())).state_mon(build_mon(build_peg_ops))),
        world_part(move || Plan::new("market with two oracles", World::new(Cfg { oracles: 2, quote_decimals: 3, ..base() }), 0, d, Box::new(peg_ops)).seeds(peg_seeds()).state_mon(build_mon(build_peg_ops))),
        Part::Custom("creation of accounts".into(), Box::new(move || create_accounts(tier.pick(4, 6)))),
        Part::Custom("creation of markets".into(), Box::new(create_markets)),
    ]
}

/// Two users create and close trading accounts in every order.
fn create_accounts(depth: usize) -> (Counts, Vec<Violation>) {
    let w = World::new(Cfg { oo_owners: vec![], users: 2, ata: true, ..ts_cfg((0, 0)) });
    let m = w.machine();
    let extra: Vec<Acct> = (0..2).flat_map(|u| (1..=depth as u32 + 1).map(move |n| (u, n))).map(|(u, n)| Acct::empty(oo_key(&key(&format!("user{u}")), n), OO_LEN)).collect();
    let (w, ids) = w.freeze(&m, extra);
    let mut m = w.machine();
    let of = |u: usize, n: usize| ids[u * (depth + 1) + n];
    let (mut c, mut bad) = (Counts { exhausted: true, ..Default::default() }, vec![]);
    // per user: number of accounts ever created, and which of them exist
    let mut level: Vec<(State, [(bool, usize, Vec<usize>); 2])> = vec![];
    let mk = w.k(w.ids.m.market);
    for first in [true, false] {
        // with and without the index created at the start
        m.load(&w.start);
        if !first {
            for u in 0..2 {
                let o = m.exec(&w.ix_close_indexer(u));
                assert!(o.ok, "{}", o.err);
            }
        }
        level.push((m.save(), [(first, 0, vec![]), (first, 0, vec![])]));
    }
    for _ in 0..depth {
        let mut next = vec![];
        for (st, users) in &level {
            c.states += 1;
            for u in 0..2 {
                let (has, n, live) = &users[u];
                let owner = w.k(w.ids.users[u].wallet);
                let other = w.ids.users[1 - u].wallet;
                for (payer, delegate, op) in [(u, None, "createOo"), (1 - u, Some(other), "createOo"), (u, None, "createOoUi"), (1 - u, Some(other), "createOoUi")] {
                    let pw = w.ids.users[payer].wallet;
                    let mut seq = vec![];
                    if !has {
                        let mut ix = w.ix_create_indexer(u);
                        ix.metas[0].acct = pw;
                        seq.push(ix);
                    }
                    let mut ix = w.ix_create_oo(u, of(u, *n), &w.ids.m, delegate);
                    ix.metas[0].acct = pw;
                    seq.push(ix);
                    let q = Q::new(op, w.k(pw), mk).s("name", "acct").s("owner", owner).o("delegate", delegate.map(|d| w.k(d)));
                    let r = ask(&w.image, st, &[q.end()]).and_then(|g| {
                        c.transitions += 1;
                        let what = format!("creation of account {n} of user {u}");
                        let k = same_effect(&w, &mut m, st, &seq, &g[0], w.k(pw), &[], &what)?;
                        match parse_answer(&g[0]) {
                            Ok(a) if a.created == [w.k(of(u, *n))] => Ok(k),
                            _ => Err(format!("{what}: announced address is not that of the account")),
                        }
                    });
                    match r {
                        Ok(k) => c.extra_runs += k,
                        Err(e) => {
                            bad.push(violation("creation of accounts", e));
                            return (c, bad);
                        }
                    }
                    if op == "createOo" && delegate.is_none() {
                        let (Some(s), _) = run_ref(&mut m, st, &seq) else { panic!("account cannot be created") };
                        let mut y = users.clone();
                        let mut l = live.clone();
                        l.push(*n);
                        y[u] = (true, n + 1, l);
                        next.push((s, y));
                    }
                }
                for x in live {
                    m.load(st);
                    let o = m.exec(&w.ix_close_oo(u, of(u, *x)));
                    if !o.ok {
                        continue;
                    }
                    let mut y = users.clone();
                    y[u].2.retain(|z| z != x);
                    next.push((m.save(), y));
                }
            }
        }
        level = next;
    }
    (c, bad)
}

fn fresh_key(n: usize) -> Pubkey {
    Pubkey::new_from_array(solana_program::hash::hash(format!("fresh:{n}").as_bytes()).to_bytes())
}

/// Markets with every combination of oracles and administrators.
fn create_markets() -> (Counts, Vec<Violation>) {
    let w0 = World::new(Cfg { oo_owners: vec![], users: 1, ata: true, ..ts_cfg((0, 0)) });
    let mk = key("fresh_market");
    let auth = Pubkey::find_program_address(&[b"Market", mk.as_ref()], &prog()).0;
    let mut extra = vec![Acct::empty(mk, MARKET_LEN), Acct::empty(auth, 0)];
    for mint in [w0.ids.bmint, w0.ids.qmint] {
        extra.push(Acct::empty(anchor_spl::associated_token::get_associated_token_address(&auth, &w0.k(mint)), 165));
    }
    for n in 0..4 {
        extra.push(Acct::empty(fresh_key(n), HEAP_LEN.max(BOOK_LEN)));
    }
    let mut m0 = w0.machine();
    // enough for the large accounts
    m0.poke_lamports(w0.ids.payer, 1 << 50);
    let (w, n) = w0.freeze(&m0, extra);
    let mut m = w.machine();
    let (mut c, mut bad) = (Counts { exhausted: true, ..Default::default() }, vec![]);
    for v in 0..3 * 16 * 4 {
        let (oracles, admins, kind) = (v % 3, v / 3 % 16, v / 48);
        let mut cw = w.clone();
        cw.cfg = Cfg {
            oracles: oracles as u8,
            oo_admin: admins & 1 != 0,
            consume_admin: admins & 2 != 0,
            close_admin: admins & 4 != 0,
            conf_filter: [0.1, 0.25, 0.5, 1.0][kind],
            max_staleness: [None, Some(0), Some(77), Some(u32::MAX)][kind],
            quote_lot: [1, 10, 1 << 40, 0x0102_0304_0506][kind],
            base_lot: [1, 1000, 0x0605_0403_0201, 7][kind],
            maker_fee: [0, 200, -200, 123_456][kind],
            taker_fee: [0, 400, 300, 234_567][kind],
            time_expiry: [0, 5000, i64::MAX, 1 << 40][kind],
            ..cw.cfg
        };
        let fee_admin = if admins & 8 != 0 { cw.ids.fee_admin } else { cw.ids.payer };
        let on = |b: bool, i: usize| b.then(|| w.k(i));
        let i = cw.ids.clone();
        let g = &cw.cfg;
        let payer = w.k(i.payer);
        let q = Q::new("createMarket", payer, mk)
            .s("payer", payer)
            .s("name", "TEST")
            .s("quoteMint", w.k(i.qmint))
            .s("baseMint", w.k(i.bmint))
            .s("quoteLot", g.quote_lot)
            .s("baseLot", g.base_lot)
            .s("makerFee", g.maker_fee)
            .s("takerFee", g.taker_fee)
            .s("expiry", g.time_expiry)
            .o("oracleA", on(oracles >= 1, i.oracle_a))
            .o("oracleB", on(oracles >= 2, i.oracle_b))
            .o("ooAdmin", on(g.oo_admin, i.oo_admin))
            .o("consumeAdmin", on(g.consume_admin, i.consume_admin))
            .o("closeAdmin", on(g.close_admin, i.close_admin))
            .n("confFilter", g.conf_filter)
            .n("maxStaleness", g.max_staleness.map(|x| x.to_string()).unwrap_or("null".into()))
            .o("feeAdmin", on(admins & 8 != 0, i.fee_admin));
        c.states += 1;
        c.transitions += 1;
        let r = ask(&w.image, &w.start, &[q.end()]).and_then(|l| {
            let what = format!("creation of market {v}");
            let a = parse_answer(l[0].split(|x| x == "description").next().unwrap()).map_err(|e| format!("{what}: {e}"))?;
            let Some(b) = a.ixs.iter().find(|b| b.program == prog()) else {
                return Err(format!("{what}: no creation"));
            };
            let at = |p: usize| b.keys.get(p).and_then(|k| w.image.index.get(&k.0)).copied().unwrap_or(0);
            cw.ids.m = MarketIds { market: n[0], authority: n[1], bids: at(2), asks: at(3), heap: at(4), bvault: n[2], qvault: n[3] };
            let mut ix = cw.ix_create_market(&cw.ids.m);
            ix.metas[15].acct = fee_admin;
            // the accounts are created as the client asks; the rest is compared
            m.load(&w.start);
            for b in a.ixs.iter().filter(|b| b.program == sys()) {
                let metas: Vec<Meta> = b.keys.iter().map(|k| Meta { acct: w.image.index[&k.0], signer: k.1, writable: k.2 }).collect();
                system_create(&mut m, b, &metas)?;
            }
            let o = m.exec(&ix);
            let want = o.ok.then(|| m.save());
            let got = run_built(&w.image, &mut m, &w.start, &a.ixs)?;
            if want.is_none() {
                return Err(format!("{what}: not possible: {}", o.err));
            }
            if got.0 != want {
                return Err(format!("{what}: another market is created {}", got.1));
            }
            let required: BTreeSet<Pubkey> = a.ixs.iter().flat_map(|b| b.keys.iter().filter(|k| k.1).map(|k| k.0)).collect();
            let s = a.signers.unwrap_or_default();
            if required.iter().any(|r| *r != payer && !s.contains(r)) || s.iter().any(|x| !required.contains(x)) {
                return Err(format!("{what}: signers are not announced"));
            }
            if l[0].iter().any(|x| x == "description") {
                return Err(format!("{what}: interface descriptions disagree"));
            }
            Ok(())
        });
        match r {
            Ok(()) => c.extra_runs += 1,
            Err(e) => {
                bad.push(violation("creation of markets", e));
                break;
            }
        }
    }
    (c, bad)
}

// ---------------------------------------------------------------- units

fn units(decimals: &[u8], lots: &[u64]) -> (Counts, Vec<Violation>) {
    let w = World::new(ts_cfg((0, 0)));
    let (mut c, mut bad) = (Counts { exhausted: true, ..Default::default() }, vec![]);
    let sizes: Vec<u64> = vec![1, 2, 3, 5, 7, 10, 50, 64, 100, 125, 999, 1000, 1024, 5000, 10_000, 100_000, 1_000_000, 10_000_000, 100_000_000, 1_000_000_000];
    let wallet = w.k(w.ids.users[0].wallet);
    let jobs: Vec<(u8, u64)> = decimals.iter().flat_map(|d| sizes.iter().map(move |s| (*d, *s))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = Mutex::new((0u64, vec![]));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some((d, b)) = jobs.get(k) else { break };
                let q = format!("units {{\"wallet\":\"{wallet}\",\"baseDecimals\":[{d}],\"quoteDecimals\":[{}],\"baseLots\":[{b}],\"quoteLots\":[{}],\"lots\":[{}]}}", list(decimals, ","), list(&sizes, ","), list(lots, ","));
                sample(|| q.clone());
                let r = ask(&w.image, &w.start, &[q]);
                let mut o = out.lock().unwrap();
                match r {
                    Ok(l) => {
                        for x in &l[0] {
                            match x.strip_prefix("n ") {
                                Some(n) => o.0 += n.parse::<u64>().unwrap(),
                                None => o.1.push(x.clone()),
                            }
                        }
                    }
                    Err(e) => o.1.push(e),
                }
            });
        }
    });
    let (n, l) = out.into_inner().unwrap();
    c.states = n;
    c.transitions = 3 * n;
    c.compared = 2 * n;
    for x in l.into_iter().take(3) {
        bad.push(violation("units", x));
    }
    (c, bad)
}

pub fn c43(tier: Tier) -> Vec<Part> {
    let d = tier.pick(vec![0, 1, 5, 6, 8, 9], (0..=12).collect());
    let mut lots: Vec<u64> = (0..tier.pick(40, 200)).collect();
    lots.extend([99, 100, 101, 123, 255, 256, 999, 1000, 1001, 4095, 9_999, 12_345, 65_537, 99_999, 123_457, 1_000_001, 7_654_321, 123_456_789, 1 << 33, 98_765_432_101, 1 << 45]);
    vec![Part::Custom("conversions".into(), Box::new(move || units(&d, &lots)))]
}

// ---------------------------------------------------------------- sending

/// Transactions sent under every configuration (`dims`) and course of answers.
fn sending(what: &str, dims: Option<&str>) -> (Counts, Vec<Violation>) {
    let w = World::new(ts_cfg((0, 0)));
    let (mut c, mut bad) = (Counts { exhausted: true, ..Default::default() }, vec![]);
    let jobs: Vec<String> = match dims {
        Some(d) => (0..16).map(|k| format!("sending {{\"part\":{k},\"parts\":16,\"dims\":{d}}}")).collect(),
        None => vec!["creating {\"sizes\":[0,1,8,165,90952,91288,10240000]}".into()],
    };
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = Mutex::new(([0u64; 4], vec![]));
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(q) = jobs.get(k) else { break };
                sample(|| q.clone());
                let r = ask(&w.image, &w.start, &[q.clone()]);
                let mut o = out.lock().unwrap();
                match r {
                    Ok(l) => {
                        for x in &l[0] {
                            match x.strip_prefix("n ") {
                                Some(n) => n.split(' ').zip(o.0.iter_mut()).for_each(|(n, t)| *t += n.parse::<u64>().unwrap()),
                                None => o.1.push(x.clone()),
                            }
                        }
                    }
                    Err(e) => o.1.push(e),
                }
            });
        }
    });
    let ([n, asked, ok, failed], l) = out.into_inner().unwrap();
    c.states = n;
    c.transitions = asked;
    c.compared = n;
    c.ok = ok;
    c.failed = failed;
    for x in l.into_iter().take(3) {
        bad.push(violation(what, x));
    }
    (c, bad)
}

pub fn c51(tier: Tier) -> Vec<Part> {
    let more = |q: &'static str, t: &'static str| tier.pick(q, t);
    let settings = format!(
        r#"{{"wallet":["node","same","copy"],"moved":[false,true],"clientFee":["-",0,7],"clientCommitment":["-","confirmed"],"providerCommitment":["-","finalized"],"providerPreflight":["-","confirmed"],"clientCallback":["-","calls","throws"],"fee":["-",null,0,9],"commitment":["-",{}],"preflight":["-","processed"],"blockhash":["-","given","bare"],"signers":[{}],"callback":["-",null,"calls","throws"],"instructions":[1]}}"#,
        more(r#""finalized""#, r#""finalized","processed""#),
        more("3", r#""-",3"#),
    );
    let contents = format!(
        r#"{{"wallet":["node","same","copy"],"moved":[false,true],"clientFee":["-",0,7],"fee":["-",null,0,1,9,1099511627776],"blockhash":["-","given","bare"],"signers":["-",0,1,2,3,4,5,6,7],"alts":["-",[],["a"],["a","b"]],"bank":["-",true],"instructions":[0,1,2,3{}]}}"#,
        more("", ",4,5,6,7,8"),
    );
    vec![
        Part::Custom("settings".into(), Box::new(move || sending("settings", Some(&settings)))),
        Part::Custom("contents".into(), Box::new(move || sending("contents", Some(&contents)))),
        Part::Custom("created accounts".into(), Box::new(|| sending("created accounts", None))),
    ]
}
