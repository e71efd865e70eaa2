//! Sizes turned into lots by the market context.

use obmc::alpha;
use obmc::explore::{Counts, Violation};
use obmc::report::*;
use obmc::rt::guarded;
use obmc::world::*;
use openbook_v2::state as st;
use openbook_v2_client::MarketContext;

fn grid(wide: bool) -> (Counts, Vec<Violation>) {
    let mut c = Counts { exhausted: true, ..Default::default() };
    let mut bad: Vec<Violation> = vec![];
    let w = World::new(alpha::cfg(alpha::FEES3[2]));
    let m = w.machine();
    let mut base: st::Market = unsafe { std::ptr::read_unaligned(m.data(w.ids.m.market)[8..].as_ptr() as *const st::Market) };
    let lots: &[i64] = &[1, 2, 3, 7, 10, 100, 999, 1_000_000, 1_000_000_007];
    let fees: &[i64] = &[-1_000_000, -500, -1, 0, 1, 200, 9_999, 500_000, 999_999, 1_000_000];
    let decimals: &[u8] = &[0, 1, 2, 6, 9, 11];
    let top = if wide { 3000 } else { 600 };
    let mut sizes: Vec<u64> = (0..top).collect();
    for e in [1_000u64, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1 << 53, 1 << 61] {
        sizes.extend([e - 1, e, e + 1, e * 3 / 2]);
    }
    'all: for &bl in lots {
        for &ql in lots {
            for &taker in fees.iter().filter(|f| **f >= 0) {
                for &maker in fees.iter().filter(|f| -**f <= taker) {
                    // base sizes only depend on lots and decimals, quote sizes on lots and fees
                    base.base_lot_size = bl;
                    base.quote_lot_size = ql;
                    base.taker_fee = taker;
                    base.maker_fee = maker;
                    let first = taker == 0 && maker == 0;
                    for &d in if first { decimals } else { &decimals[3..4] } {
                        base.base_decimals = d;
                        // the decimals of the quote token are not used, dollars have six
                        base.quote_decimals = 9 - d.min(9);
                        let ctx = MarketContext { address: Default::default(), market: base };
                        for &s in &sizes {
                            c.states += 1;
                            sample(|| format!("size {s}, lots {bl} {ql}, decimals {d}, fees {taker} {maker}"));
                            c.transitions += 6;
                            if let Err(what) = one(&ctx, s, &mut c) {
                                bad.push(Violation {
                                    plan: "sizes".into(),
                                    seed: String::new(),
                                    ops: vec![],
                                    what: format!("{what}: size {s}, lots {bl} {ql}, decimals {d}, fees {taker} {maker}"),
                                    known: None,
                                });
                                if bad.len() > 2 {
                                    break 'all;
                                }
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    (c, bad)
}

fn one(ctx: &MarketContext, s: u64, c: &mut Counts) -> Result<(), String> {
    let m = &ctx.market;
    let (bl, ql) = (m.base_lot_size as i128, m.quote_lot_size as i128);
    let (t, k) = (m.taker_fee as i128, (m.maker_fee as i128).max(0));
    let mil = 1_000_000i128;
    let mut judge = |what: &str, got: Result<u64, String>, lo: i128, hi: i128| -> Result<(), String> {
        c.compared += 1;
        match got {
            Ok(g) if (lo..=hi).contains(&(g as i128)) => Ok(()),
            g => Err(format!("{what} gives {g:?} lots instead of {lo} to {hi}")),
        }
    };
    // what the size contains of fees, and what they are on top of it
    let taker = |q: i128| ((q + q * t / (mil + t)) / ql, (q + (q * t + mil - 1) / mil) / ql);
    let maker = |q: i128| ((q + q * k / mil) / ql, (q + (q * k + mil - 1) / mil) / ql);
    let q = s as i128;
    judge("base size", guarded(|| ctx.max_base_lots(s)), q / bl, q / bl)?;
    let (lo, hi) = taker(q);
    judge("quote size with taker fees", guarded(|| ctx.max_quote_lots_including_taker_fees(s)), lo, hi)?;
    let (lo, hi) = maker(q);
    judge("quote size with maker fees", guarded(|| ctx.max_quote_lots_including_maker_fees(s)), lo, hi)?;
    // whole tokens
    if let Some(b) = 10u64.checked_pow(m.base_decimals as u32).and_then(|p| s.checked_mul(p)) {
        let b = b as i128;
        judge("whole base tokens", guarded(|| ctx.max_base_lots_from_usd(s)), b / bl, b / bl)?;
    }
    if s < 1 << 42 {
        let q = q * mil;
        let (lo, hi) = taker(q);
        judge("dollars with taker fees", guarded(|| ctx.max_quote_lots_including_taker_fees_from_usd(s)), lo, hi)?;
        let (lo, hi) = maker(q);
        judge("dollars with maker fees", guarded(|| ctx.max_quote_lots_including_maker_fees_from_usd(s)), lo, hi)?;
    }
    Ok(())
}

pub fn parts(t: Tier) -> Vec<Part> {
    let wide = t.pick(0, 1) == 1;
    vec![Part::Custom("sizes, lots, fees and decimals".into(), Box::new(move || grid(wide)))]
}
