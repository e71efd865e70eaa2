//! Validity and value of oracle prices, for every kind of oracle account.

use crate::alpha::*;
use crate::checks::*;
use crate::explore::*;
use crate::report::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use Side::*;

/// What an oracle account says.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Quote {
    pub price: f64,
    pub dev: f64,
    /// None: never goes stale
    pub slot: Option<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Stub,
    /// aggregate price is being traded
    Pyth,
    /// aggregate price not available, the previous one counts
    PythPrev,
    SwitchboardV2,
    SwitchboardV1,
    Raydium,
}

fn put(d: &mut [u8], off: usize, b: &[u8]) {
    d[off..off + b.len()].copy_from_slice(b);
}

const EXPO: i32 = -10;

/// Raw account (owner, data), or none if the kind cannot express the quote.
pub fn account(k: Kind, q: &Quote) -> Option<(Pubkey, Vec<u8>)> {
    let pk = |s: &str| Pubkey::from_str(s).unwrap();
    match k {
        Kind::Stub => Some((prog(), stub_oracle(q.price, q.slot.unwrap_or(0), q.dev))),
        Kind::Pyth | Kind::PythPrev => {
            let mut d = vec![0u8; 3312];
            put(&mut d, 0, &0xa1b2c3d4u32.to_le_bytes());
            put(&mut d, 4, &2u32.to_le_bytes());
            put(&mut d, 8, &3u32.to_le_bytes());
            put(&mut d, 12, &3312u32.to_le_bytes());
            put(&mut d, 20, &EXPO.to_le_bytes());
            let sc = |x: f64| -> i64 { (x * 1e10).round() as i64 };
            let slot = q.slot?;
            let good = (sc(q.price), sc(q.dev) as u64, slot);
            // the other of the two prices must not be used
            let other = (sc(q.price) * 3 + 1, 0u64, slot + 1000);
            let (agg, prev) = if k == Kind::Pyth { (good, other) } else { (other, good) };
            put(&mut d, 176, &prev.2.to_le_bytes());
            put(&mut d, 184, &prev.0.to_le_bytes());
            put(&mut d, 192, &prev.1.to_le_bytes());
            put(&mut d, 208, &agg.0.to_le_bytes());
            put(&mut d, 216, &agg.1.to_le_bytes());
            put(&mut d, 224, &(if k == Kind::Pyth { 1u32 } else { 2u32 }).to_le_bytes());
            put(&mut d, 232, &agg.2.to_le_bytes());
            Some((key("pyth"), d))
        }
        Kind::SwitchboardV2 => {
            let mut d = vec![0u8; 8 + 3843];
            put(&mut d, 0, &[217, 230, 65, 101, 201, 162, 27, 125]);
            let r = 8 + 228 + 4 + 101;
            put(&mut d, 8 + 228, &1u32.to_le_bytes());
            put(&mut d, r, &3u32.to_le_bytes());
            put(&mut d, r + 9, &q.slot?.to_le_bytes());
            let dec = |x: f64| -> Vec<u8> {
                let mut v = ((x * 1e12).round() as i128).to_le_bytes().to_vec();
                v.extend(12u32.to_le_bytes());
                v
            };
            put(&mut d, r + 25, &dec(q.price));
            put(&mut d, r + 45, &dec(q.dev));
            Some((key("switchboard"), d))
        }
        Kind::SwitchboardV1 => {
            let mut d = vec![0u8; 128];
            let r = 33;
            put(&mut d, r, &3i32.to_le_bytes());
            put(&mut d, r + 8, &q.price.to_le_bytes());
            put(&mut d, r + 16, &q.slot?.to_le_bytes());
            put(&mut d, r + 32, &(q.price - q.dev / 2.0).to_le_bytes());
            put(&mut d, r + 40, &(q.price + q.dev / 2.0).to_le_bytes());
            Some((pk("DtmE9D2CSB4L5D6A15mraeEjrGMm6auWVzgaD8hK2tZM"), d))
        }
        Kind::Raydium => {
            if q.dev != 0.0 || q.slot.is_some() {
                return None;
            }
            let mut d = vec![0u8; 8 + 1536];
            put(&mut d, 0, &disc("account", "PoolState"));
            let o = 8 + 1 + 7 * 32;
            // pool of two mints with 9 and 6 decimals
            d[o] = 9;
            d[o + 1] = 6;
            let root = (q.price / 1000.0).sqrt();
            put(&mut d, o + 2 + 2 + 16, &((root * 18446744073709551616.0) as u128).to_le_bytes());
            Some((pk("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK"), d))
        }
    }
}

#[derive(Clone, Copy)]
struct Setting {
    decimals: (u8, u8),
    lots: (i64, i64),
    conf: f32,
    stale: Option<u32>,
}

fn valid(s: &Setting, now: u64, a: &Quote, b: Option<&Quote>) -> bool {
    let fresh = |q: &Quote| match (s.stale, q.slot) {
        (Some(n), Some(t)) => t + n as u64 >= now,
        _ => true,
    };
    let c = s.conf as f64;
    match b {
        None => fresh(a) && a.dev <= c * a.price,
        Some(b) => {
            let (x, y) = (a.dev / a.price, b.dev / b.price);
            fresh(a) && fresh(b) && x * x + y * y <= c * c
        }
    }
}

/// Price in lots; the interval covers binary rounding.
fn lots(s: &Setting, a: &Quote, b: Option<&Quote>) -> (i64, i64) {
    let p = match b {
        None => a.price,
        Some(b) => a.price / b.price,
    };
    let x = p * 10f64.powi(s.decimals.1 as i32 - s.decimals.0 as i32) * s.lots.0 as f64 / s.lots.1 as f64;
    // conversions go through a format with 48 fractional bits before scaling
    let unit = (s.lots.0 as f64 / s.lots.1 as f64) / (1u64 << 48) as f64;
    let e = x * 1e-11 + 2.0 * unit + 1e-13;
    ((x - e).floor().max(-1.0) as i64, (x + e).floor() as i64)
}

fn grid(kinds: (Kind, Option<Kind>), s: Setting, tier: Tier) -> (Counts, Vec<Violation>) {
    let two = kinds.1.is_some();
    let big = 1u64 << 60;
    let w = World::new(Cfg {
        base_lot: s.lots.0,
        quote_lot: s.lots.1,
        base_decimals: s.decimals.0,
        quote_decimals: s.decimals.1,
        oracles: if two { 2 } else { 1 },
        conf_filter: s.conf,
        max_staleness: s.stale,
        oo_owners: vec![0, 1, 2],
        users: 3,
        base_balance: big,
        quote_balance: big,
        ..cfg((0, 0))
    });
    let now = w.start.now.slot;
    let limit = 1i64 << 40;
    // resting: a pegged bid, a fixed bid at the lowest price
    let mut m = w.machine();
    m.poke_data(w.ids.oracle_a, &stub_oracle(10f64.powi(s.decimals.0 as i32 - s.decimals.1 as i32) * s.lots.1 as f64 / s.lots.0 as f64 * 50.0, 0, 0.0));
    let wide = |a: PegArgs| PegArgs { quote: limit * 4, ..a };
    let pegged = wide(pega(Bid, 0, limit, 1));
    for op in [Op::Peg { oo: 0, a: PegArgs { cid: 5, base: 2, ..pegged.clone() }, rem: vec![] }, lim(1, Bid, 1, 2)] {
        let o = w.run(&mut m, &op);
        if !o.ok {
            panic!("oracle scene setup failed at {op:?}: {}", o.err);
        }
    }
    let (w, _) = w.freeze(&m, vec![]);
    // room for the largest oracle account
    let mut accts = w.image.accts.clone();
    for i in [w.ids.oracle_a, w.ids.oracle_b] {
        accts[i].cap = 4096;
    }
    let mut w = w;
    w.image = Arc::new(Image::new(accts));
    let w = w;
    let scale = 10f64.powi(s.decimals.0 as i32 - s.decimals.1 as i32) * s.lots.1 as f64 / s.lots.0 as f64;
    // prices that are 4, 0.5, 129.5 ... lots
    let pl: &[f64] = t_pick(tier, &[4.0, 0.5, 129.5, 1.0], &[4.0, 0.5, 129.5, 1.0, 0.999, 3.999, 77777.25, 1.0e8 + 0.5]);
    let devs: &[f64] = &[0.0, 0.5, 0.5625, 0.75, 1.0, 1.0009765625, 1.5];
    let slots: Vec<Option<u64>> = {
        let n = s.stale.unwrap_or(3) as u64;
        vec![None, Some(now), Some(now - n), Some(now - n - 1), Some(now + 1), Some(1)]
    };
    let mut qa = vec![];
    for p in pl {
        for d in devs {
            for sl in &slots {
                let price = p * scale;
                qa.push(Quote { price, dev: price * d * s.conf as f64, slot: *sl });
            }
        }
    }
    let qb: Vec<Option<Quote>> = if two {
        let mut l = vec![];
        for p in t_pick(tier, &[1.0, 0.25][..], &[1.0, 0.25, 3.0, 1e-3][..]) {
            for d in t_pick(tier, &[0.0, 0.5, 0.75, 1.0, 1.5][..], devs) {
                for sl in slots.iter().take(4) {
                    l.push(Some(Quote { price: *p, dev: p * d * s.conf as f64, slot: *sl }));
                }
            }
        }
        l
    } else {
        vec![None]
    };
    let total: Mutex<(Counts, Vec<Violation>)> = Mutex::new((Counts { exhausted: true, ..Default::default() }, vec![]));
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| {
                let p = Parser::new(&w);
                let mut m = w.machine();
                let mut c = Counts::default();
                let mut v: Vec<Violation> = vec![];
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= qa.len() || v.len() > 2 {
                        break;
                    }
                    let a = &qa[i];
                    let acc_a = match account(kinds.0, a) {
                        Some(x) => x,
                        None => continue,
                    };
                    for b in &qb {
                        let acc_b = match b {
                            None => None,
                            Some(q) => match account(kinds.1.unwrap(), q) {
                                Some(x) => Some(x),
                                None => continue,
                            },
                        };
                        let ok = valid(&s, now, a, b.as_ref());
                        // a quote within rounding distance of a limit that is not exactly representable
                        if kinds != (Kind::Stub, kinds.1) || two {
                            let nudge = |f: f64| {
                                let g = |q: &Quote| Quote { dev: q.dev * f, ..*q };
                                valid(&s, now, &g(a), b.as_ref().map(g).as_ref())
                            };
                            if nudge(1.0 + 1e-5) != nudge(1.0 - 1e-5) {
                                continue;
                            }
                        }
                        let (lo, hi) = lots(&s, a, b.as_ref());
                        c.states += 1;
                        let mut ops: Vec<(Op, &str)> = vec![
                            (Op::Peg { oo: 2, a: pegged.clone(), rem: vec![] }, "peg"),
                            (
                                Op::EditPeg { oo: 0, cancel_cid: 5, expected: 2, a: pegged.clone(), rem: vec![] },
                                "peg",
                            ),
                            (lim(2, Bid, 1, 1), "fixed"),
                            (
                                Op::Take {
                                    user: 2,
                                    a: TakeArgs { side: Ask, price: 1, base: 1, quote: limit, otype: OType::Market, limit: 10 },
                                    rem: vec![],
                                },
                                "take",
                            ),
                        ];
                        let a_lim = PlaceArgs { quote: limit, ..PlaceArgs::limit_order(Ask, 1, 1) };
                        ops.push((Op::Place { oo: 2, a: a_lim, rem: vec![] }, "take"));
                        for (op, kind) in &ops {
                            m.load(&w.start);
                            m.poke_data(w.ids.oracle_a, &acc_a.1);
                            m.poke_owner(w.ids.oracle_a, acc_a.0);
                            if let Some(x) = &acc_b {
                                m.poke_data(w.ids.oracle_b, &x.1);
                                m.poke_owner(w.ids.oracle_b, x.0);
                            }
                            let o = w.run(&mut m, op);
                            c.transitions += 1;
                            c.compared += 1;
                            let e = c.by_op.entry(op_name(op).to_string()).or_default();
                            if o.ok {
                                c.ok += 1;
                                e.0 += 1;
                            } else {
                                c.failed += 1;
                                e.1 += 1;
                            }
                            let mut bad = |what: String| {
                                v.push(Violation {
                                    plan: format!("{kinds:?} decimals {:?} lots {:?}", s.decimals, s.lots),
                                    seed: format!("oracles {a:?} {b:?}, slot {now}, filter {}, staleness {:?}", s.conf, s.stale),
                                    ops: vec![op.clone()],
                                    what: format!("{what}; oracles {a:?} {b:?}"),
                                    known: None,
                                })
                            };
                            match *kind {
                                "peg" => {
                                    let may = ok && hi >= 1;
                                    let must = ok && lo >= 1;
                                    if o.ok && !may {
                                        bad("pegged order accepted without a usable oracle price".into());
                                    }
                                    if !o.ok && must {
                                        bad(format!("pegged order refused: {}", o.err));
                                    }
                                }
                                "fixed" => {
                                    if !o.ok {
                                        bad(format!("fixed price order refused: {}", o.err));
                                    }
                                }
                                _ => {
                                    if !o.ok {
                                        bad(format!("taker refused: {}", o.err));
                                        continue;
                                    }
                                    // the program skips its own broken oracle data, so the
                                    // view is read with a neutral oracle account
                                    m.poke_data(w.ids.oracle_a, &stub_oracle(1.0, 0, 0.0));
                                    let view = match p.parse(&w, &m) {
                                        Ok(x) => x,
                                        Err(e) => {
                                            bad(e);
                                            continue;
                                        }
                                    };
                                    let fill = view.events.iter().find_map(|e| match e {
                                        Ev::Fill { maker, price, .. } => Some((*maker, *price)),
                                        _ => None,
                                    });
                                    let usable = |x: i64| ok && (1..=limit).contains(&x);
                                    let fits = match fill {
                                        None => false,
                                        Some((Who::Oo(0), pr)) => (lo..=hi).any(usable) && pr >= lo && pr <= hi && pr >= 1,
                                        Some((Who::Oo(1), pr)) => pr == 1 && !(lo..=hi).all(|x| usable(x) && x >= 1),
                                        _ => false,
                                    };
                                    if !fits {
                                        bad(format!(
                                            "traded with {fill:?}, usable price: {}",
                                            if ok { format!("{lo}..{hi} lots") } else { "none".into() }
                                        ));
                                    }
                                }
                            }
                        }
                    }
                }
                let mut g = total.lock().unwrap();
                g.0.merge(&c);
                g.1.extend(v);
            });
        }
    });
    let (c, mut v) = total.into_inner().unwrap();
    v.truncate(3);
    (c, v)
}

fn t_pick<T>(t: Tier, a: T, b: T) -> T {
    if t == Tier::Thorough {
        b
    } else {
        a
    }
}

pub fn c14(t: Tier) -> Vec<Part> {
    let mut l = vec![];
    let base = [
        Setting { decimals: (0, 0), lots: (10, 10), conf: 0.125, stale: Some(5) },
        Setting { decimals: (9, 6), lots: (1_000_000, 1), conf: 0.1, stale: None },
        Setting { decimals: (6, 9), lots: (1, 100), conf: 0.03, stale: Some(0) },
        Setting { decimals: (6, 6), lots: (100, 1), conf: 0.125, stale: Some(100) },
        Setting { decimals: (2, 8), lots: (1, 1000), conf: 0.5, stale: Some(5) },
    ];
    let ones = [Kind::Stub, Kind::Pyth, Kind::PythPrev, Kind::SwitchboardV2, Kind::SwitchboardV1, Kind::Raydium];
    for k in ones {
        for s in base {
            l.push(Part::Custom(
                format!("one oracle {k:?}, decimals {:?}, lots {:?}, filter {}, staleness {:?}", s.decimals, s.lots, s.conf, s.stale),
                Box::new(move || grid((k, None), s, t)),
            ));
        }
    }
    let twos: &[(Kind, Kind)] = &[
        (Kind::Stub, Kind::Stub),
        (Kind::Pyth, Kind::Pyth),
        (Kind::SwitchboardV2, Kind::SwitchboardV2),
        (Kind::SwitchboardV1, Kind::SwitchboardV1),
        (Kind::Pyth, Kind::PythPrev),
    ];
    for &(a, b) in twos {
        for s in base.into_iter().take(t.pick(3, 5)) {
            l.push(Part::Custom(
                format!("two oracles {a:?} {b:?}, decimals {:?}, lots {:?}, filter {}, staleness {:?}", s.decimals, s.lots, s.conf, s.stale),
                Box::new(move || grid((a, Some(b)), s, t)),
            ));
        }
    }
    l.extend(pegged(t, facet::RES | facet::BOOK, plain));
    l
}
