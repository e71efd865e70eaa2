//! Signatures, roles and account substitution: every instruction is first
//! executed as intended and then with every account, signature and group of
//! accounts replaced.

use crate::alpha::*;
use crate::checks::*;
use crate::explore::*;
use crate::report::*;
use crate::rt::*;
use crate::view::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::collections::HashSet;
use Side::*;

/// One correct instruction with named account positions.
#[derive(Clone)]
pub struct Act {
    pub name: &'static str,
    pub ix: Ix,
    pub pos: Vec<&'static str>,
}

const PLACE: &[&str] = &[
    "signer", "oo", "oo_admin", "user_token", "market", "bids", "asks", "heap", "vault", "oracle_a", "oracle_b", "token",
];
const MANY: &[&str] = &[
    "signer", "oo", "oo_admin", "user_quote", "user_base", "market", "bids", "asks", "heap", "qvault", "bvault", "oracle_a",
    "oracle_b", "token",
];
const TAKE: &[&str] = &[
    "signer", "penalty_payer", "market", "authority", "bids", "asks", "bvault", "qvault", "heap", "user_base", "user_quote",
    "oracle_a", "oracle_b", "token", "system", "oo_admin",
];
const CANCEL: &[&str] = &["signer", "oo", "market", "bids", "asks"];
const CONSUME: &[&str] = &["consume_admin", "market", "heap"];
const DEPOSIT: &[&str] = &["payer", "user_base", "user_quote", "oo", "market", "bvault", "qvault", "token"];
const SETTLE: &[&str] = &[
    "signer", "penalty_payer", "oo", "market", "authority", "bvault", "qvault", "user_base", "user_quote", "referrer", "token",
    "system",
];
const SETTLE_EXPIRED: &[&str] = &[
    "close_admin", "any_signer", "penalty_payer", "oo", "market", "authority", "bvault", "qvault", "user_base", "user_quote",
    "referrer", "token", "system",
];
const SWEEP: &[&str] = &["fee_admin", "market", "authority", "qvault", "receiver", "token"];
const PRUNE: &[&str] = &["close_admin", "oo", "market", "bids", "asks"];
const SET_EXPIRED: &[&str] = &["close_admin", "market"];
const CLOSE_MARKET: &[&str] = &["close_admin", "market", "bids", "asks", "heap", "sol_dest", "token"];
const CLOSE_OO: &[&str] = &["owner", "indexer", "oo", "sol_dest", "system"];
const CLOSE_IDX: &[&str] = &["owner", "indexer", "sol_dest", "token"];
const CREATE_OO: &[&str] = &["payer", "owner", "delegate", "indexer", "new", "market", "system"];
const CREATE_IDX: &[&str] = &["payer", "owner", "new", "system"];
const DELEGATE: &[&str] = &["owner", "oo", "delegate"];
const OSET: &[&str] = &["oracle_owner", "oracle"];
const OCLOSE: &[&str] = &["oracle_owner", "oracle", "sol_dest", "token"];
const OCREATE: &[&str] = &["payer", "owner", "new", "mint", "system"];

pub fn act(w: &World, op: &Op) -> Act {
    let pos: &[&'static str] = match op {
        Op::Place { .. } | Op::Peg { .. } | Op::Edit { .. } | Op::EditPeg { .. } => PLACE,
        Op::Many { .. } => MANY,
        Op::Take { .. } => TAKE,
        Op::Cancel { .. } | Op::CancelCid { .. } | Op::CancelAll { .. } => CANCEL,
        Op::Consume { .. } | Op::ConsumeGiven { .. } => CONSUME,
        Op::Deposit { .. } | Op::Refill { .. } => DEPOSIT,
        Op::Settle { .. } => SETTLE,
        Op::SettleExpired { .. } => SETTLE_EXPIRED,
        Op::Sweep => SWEEP,
        Op::Prune { .. } => PRUNE,
        Op::SetExpired => SET_EXPIRED,
        Op::CloseMarket => CLOSE_MARKET,
        Op::CloseOo { .. } => CLOSE_OO,
        Op::SetDelegate { .. } => DELEGATE,
        Op::Advance { .. } | Op::Oracle { .. } => &[],
    };
    named(op_name(op), w.ix(op).unwrap(), pos)
}

fn named(name: &'static str, ix: Ix, pos: &[&'static str]) -> Act {
    let mut pos = pos.to_vec();
    while pos.len() < ix.metas.len() {
        pos.push("maker");
    }
    Act { name, ix, pos }
}

/// A world in which something can be stolen, and the instructions to attack.
pub struct Scene {
    pub name: String,
    pub w: World,
    pub w2: World,
    pub acts: Vec<Act>,
    /// accounts an attacker may bring along
    pub extra: Vec<usize>,
}

const T0: i64 = 1000;

fn base_cfg(oracles: u8) -> Cfg {
    Cfg {
        maker_fee: 123_457,
        taker_fee: 234_567,
        oracles,
        oo_owners: vec![0, 1, 0],
        users: 4,
        second_market: true,
        time_expiry: T0 + 100,
        ..Default::default()
    }
}

fn run_all(w: &World, m: &mut Machine, ops: &[Op]) {
    for op in ops {
        let o = w.run(m, op);
        if !o.ok {
            panic!("scene setup failed at {op:?}: {}", o.err);
        }
    }
}

/// Token accounts of a stranger, delegated and foreign-mint ones, fakes of
/// market accounts under another program, and zeroed accounts of the program.
fn extras(w: &World, m: &Machine) -> Vec<Acct> {
    let bm = w.k(w.ids.bmint);
    let qm = w.k(w.ids.qmint);
    let st = w.k(w.ids.stranger);
    let tok = |t: &str, mint: &Pubkey, owner: &Pubkey, n: u64| {
        Acct::new(key(t), spl_token::id(), rent_min(165), token_account(mint, owner, n))
    };
    let mut l = vec![
        tok("stranger_base", &bm, &st, 5_000),
        tok("stranger_quote", &qm, &st, 5_000),
        tok("user0_base_b", &bm, &key("user0"), 5_000),
        tok("user0_quote_b", &qm, &key("user0"), 5_000),
        tok("other_mint_user0", &key("third_mint"), &key("user0"), 5_000),
        tok("authority_quote_b", &qm, &w.k(w.ids.m.authority), 5_000),
        tok("authority_base_b", &bm, &w.k(w.ids.m.authority), 5_000),
        Acct::new(key("third_mint"), spl_token::id(), rent_min(82), mint_account(0, 1 << 40)),
        Acct::new(key("zero_book"), prog(), rent_min(BOOK_LEN), vec![0; BOOK_LEN]),
        Acct::new(key("zero_heap"), prog(), rent_min(HEAP_LEN), vec![0; HEAP_LEN]),
    ];
    for (t, i) in [
        ("fake_market", w.ids.m.market),
        ("fake_bids", w.ids.m.bids),
        ("fake_asks", w.ids.m.asks),
        ("fake_heap", w.ids.m.heap),
        ("fake_oo", w.ids.oo[0]),
        ("fake_oracle", w.ids.oracle_a),
        ("fake_vault", w.ids.m.qvault),
        ("fake_indexer", w.ids.users[0].indexer),
    ] {
        l.push(Acct::new(key(t), key("evil_program"), 1 << 30, m.data(i).to_vec()));
    }
    l
}

fn trading_scene(oracles: u8, admins: (bool, bool)) -> Scene {
    let w = World::new(Cfg { oo_admin: admins.0, consume_admin: admins.1, ..base_cfg(oracles) });
    let w2 = w.other_market();
    let mut m = w.machine();
    // both markets: resting orders on both sides, queued events, free
    // balances, fees, penalties; user 2 is delegate of account 0
    run_all(
        &w,
        &mut m,
        &[
            Op::Deposit { user: 0, oo: 0, base: 500, quote: 5000 },
            Op::Deposit { user: 1, oo: 1, base: 500, quote: 5000 },
            Op::Deposit { user: 0, oo: 2, base: 50, quote: 500 },
            Op::SetDelegate { oo: 0, delegate: Some(2) },
            limc(0, Bid, 9, 3, 7),
            limc(0, Ask, 12, 2, 8),
            limc(1, Ask, 11, 3, 9),
            limc(1, Bid, 8, 2, 10),
            limc(2, Bid, 7, 1, 7),
            take(2, Ask, 1, vec![]),
            take(2, Bid, 1, vec![]),
            lim(1, Ask, 9, 1),
        ],
    );
    run_all(
        &w2,
        &mut m,
        &[
            Op::Deposit { user: 0, oo: 0, base: 300, quote: 3000 },
            limc(0, Bid, 9, 3, 7),
            limc(0, Ask, 12, 2, 8),
            take(2, Ask, 1, vec![]),
            take(2, Bid, 1, vec![]),
        ],
    );
    let pv = Parser::new(&w).parse(&w, &m).expect("scene");
    let (fw, extra) = w.freeze(&m, extras(&w, &m));
    let mut ops = vec![
        // funded from the free balance and from the wallet
        lim(0, Bid, 10, 2),
        lim(0, Bid, 10, 100),
        lim(0, Ask, 13, 2),
        lim(0, Ask, 13, 100),
        limr(0, Bid, 11, 1, vec![1]),
        Op::Edit { oo: 0, cancel_cid: 7, expected: 2, a: PlaceArgs::limit_order(Bid, 10, 2), rem: vec![] },
        Op::Many {
            oo: 0,
            cancel: false,
            otype: OType::Limit,
            bids: vec![MultiArgs { price: 9, quote: 2000, expiry: 0 }],
            asks: vec![MultiArgs { price: 12, quote: 2000, expiry: 0 }],
            limit: 5,
            rem: vec![1],
        },
        Op::Many {
            oo: 0,
            cancel: true,
            otype: OType::Limit,
            bids: vec![MultiArgs { price: 9, quote: 20, expiry: 0 }],
            asks: vec![],
            limit: 5,
            rem: vec![],
        },
        take(3, Bid, 2, vec![]),
        take(3, Bid, 2, vec![1]),
        take(3, Ask, 2, vec![0]),
        Op::Cancel { oo: 0, id: pv.o(0).orders[0].id },
        Op::CancelCid { oo: 0, cid: 7 },
        Op::CancelAll { oo: 0, side: None, limit: 9 },
        Op::Consume { limit: 8, rem: vec![0, 1] },
        Op::ConsumeGiven { slots: vec![pv.ev_slots[0] as u64], rem: vec![0, 1] },
        Op::Deposit { user: 0, oo: 0, base: 20, quote: 30 },
        Op::Refill { user: 0, oo: 0, base: 2000, quote: 30000 },
        Op::Settle { oo: 0, referrer: true },
        Op::Settle { oo: 1, referrer: false },
        Op::Sweep,
        Op::SetExpired,
        Op::SetDelegate { oo: 0, delegate: Some(3) },
        Op::SetDelegate { oo: 0, delegate: None },
    ];
    if oracles > 0 {
        ops.push(peg(0, Bid, -1, 20, 2));
        ops.push(Op::EditPeg { oo: 0, cancel_cid: 7, expected: 2, a: pega(Bid, -1, 20, 2), rem: vec![] });
    }
    let mut acts: Vec<Act> = ops.iter().map(|o| act(&fw, o)).collect();
    // creation of a further account and oracle administration
    let n = 4u32;
    let new_oo = Acct::empty(oo_key(&key("user0"), n), OO_LEN);
    let ok = Pubkey::find_program_address(&[b"StubOracle", key("user0").as_ref(), fw.k(fw.ids.bmint).as_ref()], &prog()).0;
    let new_orc = Acct::empty(ok, ORACLE_LEN);
    let oracle_owner = Acct::new(key("oracle_owner"), sys(), WALLET_SOL, vec![]);
    let (fw, more) = fw.freeze(&fw.machine(), vec![new_oo, new_orc, oracle_owner]);
    acts.push(named("create_open_orders_account", fw.ix_create_oo(0, more[0], &fw.ids.m, None), CREATE_OO));
    acts.push(named(
        "stub_oracle_create",
        Ix {
            metas: vec![
                sw(fw.ids.payer),
                sg(fw.ids.users[0].wallet),
                rw(more[1]),
                ro(fw.ids.bmint),
                ro(fw.ids.system_program),
            ],
            data: Enc::ix("stub_oracle_create").f64(3.0).0,
        },
        OCREATE,
    ));
    acts.push(named(
        "stub_oracle_set",
        Ix { metas: vec![sg(more[2]), rw(fw.ids.oracle_a)], data: Enc::ix("stub_oracle_set").f64(3.0).0 },
        OSET,
    ));
    acts.push(named(
        "stub_oracle_close",
        Ix {
            metas: vec![sg(more[2]), rw(fw.ids.oracle_a), rw(fw.ids.sol_dest), ro(fw.ids.token_program)],
            data: Enc::ix("stub_oracle_close").0,
        },
        OCLOSE,
    ));
    let w2 = fw.other_market();
    let mut extra = extra;
    extra.extend(more);
    Scene {
        name: format!(
            "trading, {oracles} oracles{}{}",
            if admins.0 { ", order administrator" } else { "" },
            if admins.1 { ", event administrator" } else { "" }
        ),
        w: fw,
        w2,
        acts,
        extra,
    }
}

fn expired_scene() -> Scene {
    let w = World::new(base_cfg(1));
    let w2 = w.other_market();
    let mut m = w.machine();
    let setup = |w: &World, k: usize| {
        let mut l = vec![
            Op::Deposit { user: 0, oo: 0, base: 500, quote: 5000 },
            limc(0, Bid, 9, 3, 7),
            limc(0, Ask, 12, 2, 8),
            take(2, Ask, 1, vec![]),
        ];
        if k > 1 {
            l.push(Op::Deposit { user: 1, oo: 1, base: 500, quote: 5000 });
            l.push(lim(1, Ask, 11, 2));
            l.push(Op::SetDelegate { oo: 0, delegate: Some(2) });
        }
        let _ = w;
        l
    };
    run_all(&w, &mut m, &setup(&w, 3));
    run_all(&w2, &mut m, &setup(&w2, 1));
    m.now.ts += 200;
    m.now.slot += 200;
    let (fw, extra) = w.freeze(&m, extras(&w, &m));
    let acts = [
        Op::Prune { oo: 0, limit: 5 },
        Op::SettleExpired { oo: 0, referrer: true },
        Op::SettleExpired { oo: 1, referrer: false },
        Op::Settle { oo: 0, referrer: true },
        Op::CancelAll { oo: 0, side: None, limit: 9 },
        Op::Consume { limit: 8, rem: vec![0, 1] },
        Op::Sweep,
    ]
    .iter()
    .map(|o| act(&fw, o))
    .collect();
    let w2 = fw.other_market();
    Scene { name: "expired market".into(), w: fw, w2, acts, extra }
}

/// Everything empty: accounts, index and market can be closed.
fn empty_scene() -> Scene {
    let w = World::new(Cfg { oo_owners: vec![0, 1, 2], ..base_cfg(0) });
    let mut m = w.machine();
    run_all(&w, &mut m, &[Op::CloseOo { oo: 2 }, lim(0, Bid, 9, 1), lim(1, Ask, 9, 1), Op::Consume { limit: 8, rem: vec![0, 1] }]);
    run_all(
        &w,
        &mut m,
        &[
            Op::Settle { oo: 0, referrer: false },
            Op::Settle { oo: 1, referrer: false },
            Op::Sweep,
            Op::SetDelegate { oo: 0, delegate: Some(2) },
        ],
    );
    m.now.ts += 200;
    m.now.slot += 200;
    let (fw, extra) = w.freeze(&m, extras(&w, &m));
    // user 3 never had an account; user 2 closed theirs
    let mut acts: Vec<Act> = [Op::CloseOo { oo: 0 }, Op::CloseMarket].iter().map(|o| act(&fw, o)).collect();
    acts.push(named("close_open_orders_indexer", fw.ix_close_indexer(2), CLOSE_IDX));
    let mut mm = fw.machine();
    let o = mm.exec(&fw.ix_close_indexer(3));
    assert!(o.ok, "{}", o.err);
    let (fw, _) = fw.freeze(&mm, vec![]);
    acts.push(named("create_open_orders_indexer", fw.ix_create_indexer(3), CREATE_IDX));
    let w2 = fw.other_market();
    Scene { name: "empty market".into(), w: fw, w2, acts, extra }
}

pub fn scenes(t: Tier) -> Vec<Scene> {
    let mut l = vec![trading_scene(1, (false, false)), trading_scene(2, (true, true)), expired_scene(), empty_scene()];
    if t == Tier::Thorough {
        l.push(trading_scene(0, (true, false)));
        l.push(trading_scene(0, (false, true)));
    }
    l
}

// ------------------------------------------------------------ judging

/// Rights read from the raw open orders account, if it is one.
fn oo_rights(m: &Machine, a: usize) -> Option<(Pubkey, Pubkey, Pubkey)> {
    let d = m.data(a);
    if m.owner(a) == prog() && d.len() == OO_LEN && d[..8] == disc("account", "OpenOrdersAccount") {
        Some((pka(d, 8), pka(d, 104), pka(d, 40)))
    } else {
        None
    }
}
fn token_of(m: &Machine, a: usize) -> Option<(Pubkey, Pubkey, u64)> {
    let d = m.data(a);
    if m.owner(a) == spl_token::id() && d.len() == 165 {
        Some((pka(d, 0), pka(d, 32), u64a(d, 64)))
    } else {
        None
    }
}

/// Derived addresses and programs can never sign a message.
fn cannot_sign(s: &Scene, pre: &Machine, ix: &Ix) -> bool {
    let w = &s.w;
    ix.metas.iter().filter(|m| m.signer).any(|m| {
        let i = m.acct;
        pre.owner(i) != sys()
            || !pre.data(i).is_empty()
            || w.image.accts[i].executable
            || w.image.accts[i].cap > 0
            || w.k(i) == sys()
            || [s.w.ids.m.authority, s.w2.ids.m.authority, w.ids.event_authority].contains(&i)
    })
}

/// Everything that must hold after an instruction that succeeded, whatever
/// accounts it was given.
fn safe(s: &Scene, a: &Act, ix: &Ix, pre: &Machine, post: &Machine) -> Result<(), String> {
    let w = &s.w;
    let signed: HashSet<Pubkey> = ix.metas.iter().filter(|m| m.signer).map(|m| w.k(m.acct)).collect();
    let at = |n: &str| a.pos.iter().position(|p| *p == n).map(|i| ix.metas[i].acct);
    let vaults: Vec<usize> = [&s.w.ids.m, &s.w2.ids.m].iter().flat_map(|m| [m.bvault, m.qvault]).collect();
    let market_of = |v: usize| if v == s.w.ids.m.bvault || v == s.w.ids.m.qvault { s.w.ids.m.market } else { s.w2.ids.m.market };
    let mut inflow = 0i128;
    for i in 0..w.image.accts.len() {
        let (x, y) = (token_of(pre, i), token_of(post, i));
        if let (Some((mint, owner, n)), Some((mint2, owner2, n2))) = (x, y) {
            if mint != mint2 || owner != owner2 {
                return Err(format!("token account {i} changed hands"));
            }
            if n2 < n && !vaults.contains(&i) && !signed.contains(&owner) {
                return Err(format!("{} tokens left account {i} without its owner's signature", n - n2));
            }
            if vaults.contains(&i) && n2 < n && at("market") != Some(market_of(i)) {
                return Err(format!("vault {i} changed by an instruction on another market"));
            }
            inflow += n2 as i128 - n as i128;
            let _ = mint;
        } else if x.is_some() != y.is_some() {
            return Err(format!("token account {i} appeared or vanished"));
        }
        let closing: Vec<&str> = match a.name {
            "close_open_orders_account" => vec!["oo", "indexer"],
            "close_open_orders_indexer" => vec!["indexer"],
            "close_market" => vec!["market", "bids", "asks", "heap"],
            "stub_oracle_close" => vec!["oracle"],
            _ => vec![],
        };
        let closes = closing.iter().any(|n| at(n) == Some(i));
        if post.lamports(i) < pre.lamports(i) && !signed.contains(&w.k(i)) && !closes {
            return Err(format!("lamports left account {i} without its signature"));
        }
        // open orders accounts
        if let Some((owner, delegate, market)) = oo_rights(pre, i) {
            let changed = pre.data(i) != post.data(i);
            let consent = signed.contains(&owner) || (delegate != Pubkey::default() && signed.contains(&delegate));
            if changed && at("market").is_some() && Some(market) != at("market").map(|x| w.k(x)) && a.name != "create_open_orders_account" {
                return Err(format!("account {i} of another market changed"));
            }
            if changed && !consent {
                let named = at("oo") == Some(i);
                let ok = match a.name {
                    "prune_orders" | "settle_funds_expired" => named,
                    "deposit" | "refill" => named,
                    "consume_events" | "consume_given_events" | "place_take_order" | "place_order" | "place_order_pegged"
                    | "edit_order" | "edit_order_pegged" | "place_orders" | "cancel_all_and_place_orders" => !named,
                    _ => false,
                };
                if !ok {
                    return Err(format!("account {i} changed without the signature of owner or delegate"));
                }
            }
            if changed {
                match oo_rights(post, i) {
                    None => {
                        if a.name != "close_open_orders_account" || !signed.contains(&owner) {
                            return Err(format!("account {i} closed by somebody else"));
                        }
                    }
                    Some((o2, d2, m2)) => {
                        if o2 != owner || m2 != market {
                            return Err(format!("owner or market of account {i} changed"));
                        }
                        if d2 != delegate && !(a.name == "set_delegate" && signed.contains(&owner)) {
                            return Err(format!("delegate of account {i} changed without the owner"));
                        }
                    }
                }
            }
        }
    }
    if inflow != 0 {
        return Err(format!("token supply changed by {inflow}"));
    }
    // settlement destinations
    if a.name == "settle_funds" || a.name == "settle_funds_expired" {
        if let Some((owner, _, _)) = at("oo").and_then(|i| oo_rights(pre, i)) {
            if a.name == "settle_funds_expired" || !signed.contains(&owner) {
                for n in ["user_base", "user_quote"] {
                    if token_of(pre, at(n).unwrap()).map(|t| t.1) != Some(owner) {
                        return Err("balances settled to an account the trader does not own".into());
                    }
                }
            }
        }
    }
    // roles recorded in the market that was used
    if let Some(mk) = at("market") {
        let d = pre.data(mk);
        let role = |off: usize| -> Pubkey { pka(d, off) };
        if d.len() == MARKET_LEN {
            let need: Option<(&str, Pubkey)> = match a.name {
                "sweep_fees" => Some(("collecting fees", w.k(w.ids.fee_admin))),
                "set_market_expired" | "prune_orders" | "settle_funds_expired" | "close_market" => {
                    Some(("closing", w.k(w.ids.close_admin)))
                }
                "consume_events" | "consume_given_events" if w.cfg.consume_admin => {
                    Some(("event processing", w.k(w.ids.consume_admin)))
                }
                "place_order" | "place_order_pegged" | "edit_order" | "edit_order_pegged" | "place_orders"
                | "cancel_all_and_place_orders" | "place_take_order"
                    if w.cfg.oo_admin =>
                {
                    Some(("order", w.k(w.ids.oo_admin)))
                }
                _ => None,
            };
            let _ = role;
            if let Some((n, k)) = need {
                if !signed.contains(&k) {
                    return Err(format!("succeeded without the {n} administrator's signature"));
                }
            }
        }
    }
    // both markets still owe no more than they hold
    for x in [&s.w, &s.w2] {
        if post.data(x.ids.m.market).len() == MARKET_LEN {
            let v = Parser::new(x).parse(x, post).map_err(|e| format!("account data malformed: {e}"))?;
            if v.mkt.is_some() {
                let (b, q) = owed(x, &v);
                if b > v.bvault as i128 || q > v.qvault as i128 {
                    return Err(format!("market owes {b}/{q} but holds {}/{}", v.bvault, v.qvault));
                }
            }
        }
    }
    Ok(())
}

/// Positions in which nothing but the market's own account is acceptable.
const FIXED: &[&str] = &[
    "authority", "bids", "asks", "heap", "bvault", "qvault", "vault", "oracle_a", "oracle_b", "token", "system", "oo_admin",
    "consume_admin", "indexer", "fee_admin", "close_admin", "oracle_owner", "new", "mint",
];

struct Tally {
    c: Counts,
    v: Vec<Violation>,
    name: String,
}
impl Tally {
    fn new(name: &str) -> Tally {
        Tally { c: Counts { exhausted: true, ..Default::default() }, v: vec![], name: name.into() }
    }
    fn run(&mut self, a: &Act, ok: bool) {
        self.c.transitions += 1;
        self.c.compared += 1;
        sample(|| format!("{} with an account among {:?} varied: {}", a.name, a.pos, if ok { "accepted" } else { "rejected" }));
        let e = self.c.by_op.entry(a.name.to_string()).or_default();
        if ok {
            self.c.ok += 1;
            e.0 += 1;
        } else {
            self.c.failed += 1;
            e.1 += 1;
        }
    }
    fn bad(&mut self, a: &Act, how: &str, what: String) {
        if self.v.len() < 3 {
            self.v.push(Violation {
                plan: self.name.clone(),
                seed: format!("{}: {}", a.name, how),
                ops: vec![],
                what: format!("{} with {how}: {what}", a.name),
                known: None,
            });
        }
    }
}

fn label(w: &World, i: usize) -> String {
    let d = &w.ids;
    let m = |x: &MarketIds, p: &str| -> Option<String> {
        for (n, k) in [
            ("market", x.market),
            ("authority", x.authority),
            ("bids", x.bids),
            ("asks", x.asks),
            ("heap", x.heap),
            ("base vault", x.bvault),
            ("quote vault", x.qvault),
        ] {
            if k == i {
                return Some(format!("{p}{n}"));
            }
        }
        None
    };
    if let Some(s) = m(&d.m, "") {
        return s;
    }
    if let Some(s) = d.m2.as_ref().and_then(|x| m(x, "second ")) {
        return s;
    }
    for (u, x) in d.users.iter().enumerate() {
        for (n, k) in [("wallet", x.wallet), ("base", x.base), ("quote", x.quote), ("index", x.indexer)] {
            if k == i {
                return format!("user {u} {n}");
            }
        }
    }
    if let Some(k) = d.oo.iter().position(|x| *x == i) {
        return format!("account {k}");
    }
    if d.oo_m2 == Some(i) {
        return "account on second market".into();
    }
    for (n, k) in [
        ("oracle a", d.oracle_a),
        ("oracle b", d.oracle_b),
        ("payer", d.payer),
        ("fee administrator", d.fee_admin),
        ("order administrator", d.oo_admin),
        ("event administrator", d.consume_admin),
        ("closing administrator", d.close_admin),
        ("stranger", d.stranger),
        ("referrer", d.referrer),
        ("fee receiver", d.fee_receiver),
        ("program", d.program),
        ("token program", d.token_program),
        ("system program", d.system_program),
    ] {
        if k == i {
            return n.into();
        }
    }
    format!("extra account {i}")
}

/// Every signature taken away, every signer replaced by every other wallet.
fn signatures(s: &Scene) -> (Counts, Vec<Violation>) {
    let mut t = Tally::new(&s.name);
    let w = &s.w;
    let pre = w.machine();
    let mut m = w.machine();
    let d = &w.ids;
    let mut wallets: Vec<usize> = d.users.iter().map(|u| u.wallet).collect();
    wallets.extend([d.stranger, d.payer, d.fee_admin, d.oo_admin, d.consume_admin, d.close_admin]);
    for a in &s.acts {
        m.load(&w.start);
        let o = m.exec(&a.ix);
        t.run(a, o.ok);
        if !o.ok {
            t.bad(a, "the right accounts and signatures", format!("failed: {}", o.err));
            continue;
        }
        if let Err(e) = safe(s, a, &a.ix, &pre, &m) {
            t.bad(a, "the right accounts and signatures", e);
        }
        // each signature missing
        let mut signers: Vec<usize> = a.ix.metas.iter().filter(|x| x.signer).map(|x| x.acct).collect();
        signers.dedup();
        for sgn in signers {
            let mut ix = a.ix.clone();
            for x in ix.metas.iter_mut().filter(|x| x.acct == sgn) {
                x.signer = false;
            }
            m.load(&w.start);
            let o = m.exec(&ix);
            t.run(a, o.ok);
            if o.ok {
                t.bad(a, &format!("{} not signing", label(w, sgn)), "succeeded".into());
            }
        }
        // every pair of signer positions replaced by every wallet, also both
        let pos: Vec<usize> = (0..a.ix.metas.len()).filter(|i| a.ix.metas[*i].signer).collect();
        for set in 1..(1usize << pos.len()) {
            for &x in &wallets {
                let mut ix = a.ix.clone();
                for (k, p) in pos.iter().enumerate() {
                    if set >> k & 1 == 1 {
                        ix.metas[*p].acct = x;
                    }
                }
                if ix.metas.iter().map(|x| x.acct).eq(a.ix.metas.iter().map(|x| x.acct)) {
                    continue;
                }
                m.load(&w.start);
                let o = m.exec(&ix);
                t.run(a, o.ok);
                if o.ok {
                    let how = format!("{} signing instead", label(w, x));
                    if let Err(e) = safe(s, a, &ix, &pre, &m) {
                        t.bad(a, &how, e);
                    }
                    for (k, p) in pos.iter().enumerate() {
                        if set >> k & 1 == 1 && a.ix.metas[*p].acct != x {
                            if let Err(e) = role_ok(s, a, &ix, *p, &pre) {
                                t.bad(a, &how, e);
                            }
                        }
                    }
                }
            }
        }
        t.c.states += 1;
    }
    (t.c, t.v)
}

/// May the account now in position `p` play that role?
fn role_ok(s: &Scene, a: &Act, ix: &Ix, p: usize, pre: &Machine) -> Result<(), String> {
    let w = &s.w;
    let x = ix.metas[p].acct;
    let at = |n: &str| a.pos.iter().position(|q| *q == n).map(|i| ix.metas[i].acct);
    match a.pos[p] {
        "signer" if a.name != "place_take_order" => {
            let (o, d, _) = at("oo").and_then(|i| oo_rights(pre, i)).ok_or("not a trading account")?;
            if w.k(x) != o && (d == Pubkey::default() || w.k(x) != d) {
                return Err("signer is neither owner nor delegate".into());
            }
            Ok(())
        }
        "owner" => match a.name {
            "create_open_orders_indexer" | "create_open_orders_account" | "stub_oracle_create" => {
                Err("derived address does not belong to this owner".into())
            }
            "close_open_orders_indexer" => Err("index of somebody else closed".into()),
            _ => {
                let (o, _, _) = at("oo").and_then(|i| oo_rights(pre, i)).ok_or("not a trading account")?;
                if w.k(x) != o {
                    return Err("signer is not the owner".into());
                }
                Ok(())
            }
        },
        // the all-zero address stands for "none" in the market's record
        n if n.starts_with("oracle_") && a.ix.metas[p].acct == w.ids.program && w.k(x) == sys() => Ok(()),
        n if FIXED.contains(&n) => Err(format!("{n} replaced by {}", label(w, x))),
        _ => Ok(()),
    }
}

/// Every account position replaced by every account there is.
fn substitutions(s: &Scene) -> (Counts, Vec<Violation>) {
    let mut t = Tally::new(&s.name);
    let w = &s.w;
    let pre = w.machine();
    let mut m = w.machine();
    for a in &s.acts {
        for p in 0..a.pos.len() {
            for x in 0..w.image.accts.len() {
                if x == a.ix.metas[p].acct {
                    continue;
                }
                let mut ix = a.ix.clone();
                ix.metas[p].acct = x;
                if cannot_sign(s, &pre, &ix) {
                    continue;
                }
                m.load(&w.start);
                let o = m.exec(&ix);
                t.run(a, o.ok);
                if !o.ok {
                    continue;
                }
                let how = format!("{} replaced by {}", a.pos[p], label(w, x));
                if let Err(e) = safe(s, a, &ix, &pre, &m).and_then(|_| accepted(s, a, &ix, p, &pre)) {
                    t.bad(a, &how, e);
                }
            }
        }
        t.c.states += 1;
    }
    (t.c, t.v)
}

/// Every pair of positions replaced together, by the accounts the instruction
/// itself uses or by all accounts there are.
fn pairs(s: &Scene, all: bool) -> (Counts, Vec<Violation>) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(Tally::new(&s.name));
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| {
                let w = &s.w;
                let pre = w.machine();
                let mut m = w.machine();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    let a = match s.acts.get(i) {
                        Some(a) => a,
                        None => break,
                    };
                    let mut t = Tally::new(&s.name);
                    let mut own: Vec<usize> = if all {
                        (0..w.image.accts.len()).collect()
                    } else {
                        a.ix.metas.iter().map(|x| x.acct).chain([w.ids.stranger, w.ids.program]).collect()
                    };
                    own.sort_unstable();
                    own.dedup();
                    for p in 0..a.pos.len() {
                        for q in 0..p {
                            for &x in &own {
                                for &y in &own {
                                    if x == a.ix.metas[p].acct || y == a.ix.metas[q].acct {
                                        continue;
                                    }
                                    let mut ix = a.ix.clone();
                                    ix.metas[p].acct = x;
                                    ix.metas[q].acct = y;
                                    if cannot_sign(s, &pre, &ix) {
                                        continue;
                                    }
                                    m.load(&w.start);
                                    let o = m.exec(&ix);
                                    t.run(a, o.ok);
                                    if !o.ok {
                                        continue;
                                    }
                                    let r = safe(s, a, &ix, &pre, &m);
                                    if r.is_ok() && moved(s, a, &ix) {
                                        continue;
                                    }
                                    let r = r
                                        .and_then(|_| accepted(s, a, &ix, p, &pre))
                                        .and_then(|_| accepted(s, a, &ix, q, &pre));
                                    if let Err(e) = r {
                                        let how = format!(
                                            "{} replaced by {} and {} by {}",
                                            a.pos[p],
                                            label(w, x),
                                            a.pos[q],
                                            label(w, y)
                                        );
                                        t.bad(a, &how, e);
                                    }
                                }
                            }
                        }
                    }
                    let mut g = out.lock().unwrap();
                    g.c.merge(&t.c);
                    g.v.extend(t.v);
                    g.c.states += 1;
                }
            });
        }
    });
    let t = out.into_inner().unwrap();
    (t.c, t.v)
}
/// Was the instruction consistently moved to the second market or to another
/// owner's index?
fn moved(s: &Scene, a: &Act, ix: &Ix) -> bool {
    let w = &s.w;
    let (m1, m2) = (&s.w.ids.m, &s.w2.ids.m);
    let at = |n: &str| a.pos.iter().position(|q| *q == n).map(|i| ix.metas[i].acct);
    if at("market") == Some(m2.market) {
        return !ix.metas.iter().any(|x| {
            [m1.market, m1.authority, m1.bids, m1.asks, m1.heap, m1.bvault, m1.qvault].contains(&x.acct)
        });
    }
    if let (Some(o), Some(i)) = (at("owner"), at("indexer").or(at("new"))) {
        return w.k(i) == indexer_key(&w.k(o));
    }
    false
}
fn pairs_own(s: &Scene) -> (Counts, Vec<Violation>) {
    pairs(s, false)
}
fn pairs_all(s: &Scene) -> (Counts, Vec<Violation>) {
    pairs(s, true)
}

/// May position `p` hold the account it now holds in a successful instruction?
fn accepted(s: &Scene, a: &Act, ix: &Ix, p: usize, pre: &Machine) -> Result<(), String> {
    let w = &s.w;
    let x = ix.metas[p].acct;
    let n = a.pos[p];
    match n {
        "market" => {
            let ok = matches!(a.name, "set_market_expired" | "create_open_orders_account") && x == s.w2.ids.m.market;
            if ok {
                Ok(())
            } else {
                Err("accepted as market".into())
            }
        }
        "oo" => {
            let (_, _, mk) = oo_rights(pre, x).ok_or("accepted although no trading account")?;
            let at = a.pos.iter().position(|q| *q == "market").map(|i| w.k(ix.metas[i].acct));
            if at.is_some() && at != Some(mk) {
                return Err("account of another market accepted".into());
            }
            // rights of the signer over the new account are judged like a
            // replaced signer
            if let Some(sp) = a.pos.iter().position(|q| *q == "signer" || *q == "owner") {
                role_ok(s, a, ix, sp, pre)?;
            }
            Ok(())
        }
        "user_base" | "user_quote" | "user_token" | "referrer" | "receiver" => {
            if n == "referrer" && x == w.ids.program {
                return Ok(());
            }
            let (mint, _, _) = token_of(pre, x).ok_or("accepted although no token account")?;
            let o = a.ix.metas[p].acct;
            let want = if o == w.ids.program { w.k(w.ids.qmint) } else { token_of(pre, o).unwrap().0 };
            if mint != want {
                return Err("token account of another mint accepted".into());
            }
            Ok(())
        }
        "oracle" if x == w.ids.oracle_b => Ok(()), // same owner
        "oracle" => Err("another oracle was accepted".into()),
        _ => role_ok(s, a, ix, p, pre),
    }
}

/// Groups of accounts replaced together: any subset of the market's accounts
/// by their counterparts of the second market, combined with any subset of the
/// trader's accounts by those of another trader.
fn groups(s: &Scene) -> (Counts, Vec<Violation>) {
    let mut t = Tally::new(&s.name);
    let w = &s.w;
    let pre = w.machine();
    let mut m = w.machine();
    let (a1, a2) = (&s.w.ids.m, &s.w2.ids.m);
    let twin = |n: &str, i: usize| -> Option<usize> {
        let r = match n {
            "market" => a2.market,
            "authority" => a2.authority,
            "bids" => a2.bids,
            "asks" => a2.asks,
            "heap" => a2.heap,
            "bvault" => a2.bvault,
            "qvault" => a2.qvault,
            "vault" => {
                if i == a1.bvault {
                    a2.bvault
                } else {
                    a2.qvault
                }
            }
            "oo" => w.ids.oo_m2?,
            _ => return None,
        };
        Some(r)
    };
    let u = |n: &str| -> Option<usize> {
        let x = &w.ids.users[1];
        Some(match n {
            "signer" | "owner" | "payer" | "penalty_payer" => x.wallet,
            "oo" => w.ids.oo[1],
            "user_base" => x.base,
            "user_quote" => x.quote,
            "indexer" => x.indexer,
            _ => return None,
        })
    };
    for a in &s.acts {
        let mpos: Vec<usize> = (0..a.pos.len()).filter(|p| twin(a.pos[*p], a.ix.metas[*p].acct).is_some()).collect();
        let upos: Vec<usize> = (0..a.pos.len()).filter(|p| u(a.pos[*p]).is_some() || a.pos[*p] == "user_token").collect();
        for ms in 0..(1usize << mpos.len()) {
            for us in 0..(1usize << upos.len()) {
                if ms == 0 && us == 0 {
                    continue;
                }
                let mut ix = a.ix.clone();
                for (k, p) in mpos.iter().enumerate() {
                    if ms >> k & 1 == 1 {
                        ix.metas[*p].acct = twin(a.pos[*p], a.ix.metas[*p].acct).unwrap();
                    }
                }
                for (k, p) in upos.iter().enumerate() {
                    if us >> k & 1 == 1 {
                        ix.metas[*p].acct = if a.pos[*p] == "user_token" {
                            if ix.metas[*p].acct == w.ids.users[0].base {
                                w.ids.users[1].base
                            } else {
                                w.ids.users[1].quote
                            }
                        } else {
                            u(a.pos[*p]).unwrap()
                        };
                    }
                }
                m.load(&w.start);
                let o = m.exec(&ix);
                t.run(a, o.ok);
                if !o.ok {
                    continue;
                }
                let how = format!(
                    "accounts {:?}",
                    (0..a.pos.len())
                        .filter(|p| ix.metas[*p].acct != a.ix.metas[*p].acct)
                        .map(|p| format!("{}={}", a.pos[p], label(w, ix.metas[p].acct)))
                        .collect::<Vec<_>>()
                );
                if let Err(e) = safe(s, a, &ix, &pre, &m) {
                    t.bad(a, &how, e);
                }
                // all market accounts must belong together
                let on2 = |p: &usize| twin(a.pos[*p], a.ix.metas[*p].acct) == Some(ix.metas[*p].acct);
                let core: Vec<&usize> = mpos.iter().filter(|p| a.pos[**p] != "oo").collect();
                let n2 = core.iter().filter(|p| on2(p)).count();
                if n2 != 0 && n2 != core.len() {
                    t.bad(a, &how, "accounts of two markets accepted together".into());
                }
                for p in 0..a.pos.len() {
                    if matches!(a.pos[p], "signer" | "owner") {
                        if let Err(e) = role_or_own(s, a, &ix, p, &pre) {
                            t.bad(a, &how, e);
                        }
                    }
                    if a.pos[p] == "oo" && a.pos.contains(&"market") {
                        let mk = ix.metas[a.pos.iter().position(|q| *q == "market").unwrap()].acct;
                        match oo_rights(&pre, ix.metas[p].acct) {
                            Some((_, _, k)) if k == w.k(mk) => {}
                            _ => t.bad(a, &how, "account of another market accepted".into()),
                        }
                    }
                }
            }
        }
        t.c.states += 1;
    }
    (t.c, t.v)
}

/// Like `role_ok`, also accepting consistently replaced derived addresses.
fn role_or_own(s: &Scene, a: &Act, ix: &Ix, p: usize, pre: &Machine) -> Result<(), String> {
    let w = &s.w;
    let x = w.k(ix.metas[p].acct);
    let at = |n: &str| a.pos.iter().position(|q| *q == n).map(|i| ix.metas[i].acct);
    match a.name {
        "close_open_orders_indexer" | "create_open_orders_account" => {
            if at("indexer").map(|i| w.k(i)) == Some(indexer_key(&x)) {
                Ok(())
            } else {
                Err("index of somebody else accepted".into())
            }
        }
        "create_open_orders_indexer" => {
            if at("new").map(|i| w.k(i)) == Some(indexer_key(&x)) {
                Ok(())
            } else {
                Err("index of somebody else created".into())
            }
        }
        "stub_oracle_create" => Ok(()),
        _ => role_ok(s, a, ix, p, pre),
    }
}

fn scene_parts(t: Tier, what: &'static str, f: fn(&Scene) -> (Counts, Vec<Violation>)) -> Vec<Part> {
    let n = if t == Tier::Thorough { 6 } else { 4 };
    (0..n)
        .map(|i| {
            Part::Custom(
                format!("{what}, scene {i}"),
                Box::new(move || {
                    let s = &scenes(t)[i];
                    f(s)
                }),
            )
        })
        .collect()
}

pub fn c25(t: Tier) -> Vec<Part> {
    let mut l = scene_parts(t, "signatures", signatures);
    l.push(Part::Custom("no closing administrator configured".into(), Box::new(unconfigured)));
    l
}
pub fn c27(t: Tier) -> Vec<Part> {
    let mut l = scene_parts(t, "each account by every other", substitutions);
    l.extend(scene_parts(t, "groups of accounts", groups));
    l.extend(scene_parts(t, "pairs of accounts by accounts of the instruction", pairs_own));
    // scene 1 differs from scene 0 only by the administrators
    let all = scene_parts(t, "pairs of accounts by all pairs", pairs_all);
    l.extend(all.into_iter().enumerate().filter(|(i, _)| t == Tier::Thorough || *i != 1).map(|(_, p)| p));
    l
}

fn unconfigured() -> (Counts, Vec<Violation>) {
    let mut t = Tally::new("no closing administrator");
    let w = World::new(Cfg { close_admin: false, time_expiry: T0 + 100, ..cfg((0, 1000)) });
    let mut m = w.machine();
    run_all(&w, &mut m, &[lim(0, Bid, 9, 1), lim(1, Ask, 11, 1)]);
    for late in [false, true] {
        if late {
            m.now.ts += 200;
        }
        for empty in [false, true] {
            if empty {
                run_all(
                    &w,
                    &mut m,
                    &[
                        Op::CancelAll { oo: 0, side: None, limit: 5 },
                        Op::CancelAll { oo: 1, side: None, limit: 5 },
                        Op::Settle { oo: 0, referrer: false },
                        Op::Settle { oo: 1, referrer: false },
                    ],
                );
            }
            let st = m.save();
            for op in [
                Op::Prune { oo: 0, limit: 5 },
                Op::SettleExpired { oo: 0, referrer: false },
                Op::SetExpired,
                Op::CloseMarket,
            ] {
                let a = act(&w, &op);
                for x in 0..w.image.accts.len() {
                    let mut ix = a.ix.clone();
                    for (p, n) in a.pos.iter().enumerate() {
                        if matches!(*n, "close_admin" | "any_signer" | "penalty_payer") {
                            ix.metas[p].acct = x;
                        }
                    }
                    let mut mm = w.machine();
                    mm.load(&st);
                    // only ordinary wallets and accounts can sign
                    if w.k(x) == sys() {
                        continue;
                    }
                    let o = mm.exec(&ix);
                    t.run(&a, o.ok);
                    if o.ok {
                        t.bad(&a, &format!("{} signing", label(&w, x)), "succeeded although nobody is entitled".into());
                    }
                }
            }
            m.load(&st);
        }
    }
    t.c.states = 4;
    (t.c, t.v)
}

// ------------------------------------------------------------ delegates

/// All histories of delegate changes up to a length; after each every wallet
/// tries every action of owner and delegate.
pub fn c26(t: Tier) -> Vec<Part> {
    let depth = t.pick(5, 6);
    vec![
        Part::Custom("histories of delegate changes".into(), Box::new(move || delegates(depth))),
        Part::Custom(
            "signatures, delegate set".into(),
            Box::new(move || signatures(&trading_scene(1, (false, false)))),
        ),
    ]
}

fn delegates(depth: usize) -> (Counts, Vec<Violation>) {
    let mut t = Tally::new("histories of delegate changes");
    let w0 = World::new(Cfg { oracles: 1, oo_owners: vec![0, 1], users: 4, ..cfg((0, 1000)) });
    let mut m0 = w0.machine();
    run_all(
        &w0,
        &mut m0,
        &[
            Op::Deposit { user: 0, oo: 0, base: 500, quote: 5000 },
            limc(0, Bid, 9, 3, 7),
            limc(0, Ask, 12, 2, 8),
            Op::Deposit { user: 1, oo: 1, base: 500, quote: 5000 },
            limc(1, Bid, 8, 3, 7),
        ],
    );
    let (w, _) = w0.freeze(&m0, vec![]);
    let p = Parser::new(&w);
    let mut m = w.machine();
    // None = cleared, Some(u) = user u
    let choices: [Option<usize>; 4] = [None, Some(1), Some(2), Some(0)];
    let mut level: Vec<(Vec<Option<usize>>, State)> = vec![(vec![], w.start.clone())];
    for d in 0..=depth {
        let mut next = vec![];
        for (hist, st) in &level {
            t.c.states += 1;
            m.load(st);
            let v = p.parse(&w, &m).expect("delegate scene");
            let cur: Option<usize> = hist.last().cloned().flatten();
            let want = cur.map_or(Pubkey::default(), |u| w.k(w.ids.users[u].wallet));
            if v.o(0).delegate != want {
                let a = act(&w, &Op::SetDelegate { oo: 0, delegate: cur });
                t.bad(&a, &format!("history {hist:?}"), format!("recorded delegate is {}", v.o(0).delegate));
            }
            let ops: Vec<Op> = vec![
                lim(0, Bid, 10, 2),
                lim(0, Ask, 11, 2),
                lim(0, Bid, 10, 1000),
                peg(0, Bid, -1, 20, 1),
                Op::Edit { oo: 0, cancel_cid: 7, expected: 3, a: PlaceArgs::limit_order(Bid, 10, 2), rem: vec![] },
                Op::Many {
                    oo: 0,
                    cancel: true,
                    otype: OType::Limit,
                    bids: vec![MultiArgs { price: 9, quote: 20, expiry: 0 }],
                    asks: vec![],
                    limit: 5,
                    rem: vec![],
                },
                Op::CancelCid { oo: 0, cid: 7 },
                Op::CancelAll { oo: 0, side: None, limit: 5 },
                Op::Settle { oo: 0, referrer: false },
                Op::Settle { oo: 0, referrer: true },
                Op::SetDelegate { oo: 0, delegate: Some(3) },
                Op::SetDelegate { oo: 0, delegate: None },
                Op::CloseOo { oo: 0 },
                Op::CancelAll { oo: 1, side: None, limit: 5 },
                Op::Settle { oo: 1, referrer: false },
            ];
            for op in &ops {
                let a = act(&w, op);
                let oo = a.pos.iter().position(|n| *n == "oo").unwrap();
                let k = w.ids.oo.iter().position(|x| *x == a.ix.metas[oo].acct).unwrap();
                for who in 0..4usize {
                    // whose token accounts are named
                    for dest in 0..4usize {
                        for dest2 in 0..4usize {
                            let mut ix = a.ix.clone();
                            let mut uses = false;
                            for (i, n) in a.pos.iter().enumerate() {
                                match *n {
                                    "signer" | "owner" | "penalty_payer" => ix.metas[i].acct = w.ids.users[who].wallet,
                                    "user_base" => {
                                        ix.metas[i].acct = w.ids.users[dest].base;
                                        uses = true;
                                    }
                                    "user_quote" => ix.metas[i].acct = w.ids.users[dest2].quote,
                                    "user_token" => {
                                        ix.metas[i].acct = if a.ix.metas[i].acct == w.ids.users[0].base {
                                            w.ids.users[dest].base
                                        } else {
                                            w.ids.users[dest].quote
                                        };
                                    }
                                    _ => {}
                                }
                            }
                            if !uses && dest2 > 0 {
                                break;
                            }
                            m.load(st);
                            let o = m.exec(&ix);
                            t.run(&a, o.ok);
                            let how = format!("delegates set {hist:?}, signed by user {who}, token accounts of {dest}/{dest2}");
                            let owner = w.ids.oo_owner[k] == who;
                            let delegate = k == 0 && cur == Some(who);
                            let may = match op {
                                Op::SetDelegate { .. } => owner,
                                Op::CloseOo { .. } => false, // not empty
                                Op::Settle { .. } => {
                                    let own_dest = dest == w.ids.oo_owner[k] && dest2 == w.ids.oo_owner[k];
                                    if delegate {
                                        own_dest
                                    } else {
                                        owner
                                    }
                                }
                                // tokens needed beyond the free balance come from the signer
                                Op::Place { a, .. } if a.base == 1000 => (owner || delegate) && dest == who,
                                _ => owner || delegate,
                            };
                            if o.ok != may {
                                t.bad(&a, &how, if o.ok { "succeeded".into() } else { format!("failed: {}", o.err) });
                            }
                            if o.ok {
                                let v2 = match p.parse(&w, &m) {
                                    Ok(v) => v,
                                    Err(e) => {
                                        t.bad(&a, &how, e);
                                        continue;
                                    }
                                };
                                for u in 0..4 {
                                    if u != who && (v2.wallets[u].0 < v.wallets[u].0 || v2.wallets[u].1 < v.wallets[u].1) {
                                        t.bad(&a, &how, format!("tokens of user {u} taken"));
                                    }
                                    if delegate && u != w.ids.oo_owner[k] && (v2.wallets[u].0 > v.wallets[u].0 || v2.wallets[u].1 > v.wallets[u].1) {
                                        t.bad(&a, &how, format!("delegate sent tokens to user {u}"));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if d < depth {
                for c in choices {
                    m.load(st);
                    let op = Op::SetDelegate { oo: 0, delegate: c };
                    let o = w.run(&mut m, &op);
                    let a = act(&w, &op);
                    t.run(&a, o.ok);
                    if !o.ok {
                        t.bad(&a, &format!("history {hist:?}"), o.err);
                        continue;
                    }
                    let mut h = hist.clone();
                    h.push(c);
                    next.push((h, m.save()));
                }
            }
        }
        level = next;
        t.c.depth = d as u64;
    }
    (t.c, t.v)
}

// ------------------------------------------------------------ gatekeepers

pub fn c28(_t: Tier) -> Vec<Part> {
    let mut l = vec![];
    for (x, y) in [(false, false), (false, true), (true, false), (true, true)] {
        l.push(Part::Custom(
            format!("order administrator {x}, event administrator {y}"),
            Box::new(move || gates(x, y)),
        ));
    }
    l
}

fn gates(oo_admin: bool, consume_admin: bool) -> (Counts, Vec<Violation>) {
    let s = trading_scene(1, (oo_admin, consume_admin));
    let mut t = Tally::new(&s.name);
    let w = &s.w;
    let mut m = w.machine();
    let d = &w.ids;
    let mut who: Vec<usize> = d.users.iter().map(|u| u.wallet).collect();
    who.extend([d.stranger, d.payer, d.fee_admin, d.oo_admin, d.consume_admin, d.close_admin, d.program, d.event_authority]);
    for a in &s.acts {
        for (gate, on, right) in [("oo_admin", oo_admin, d.oo_admin), ("consume_admin", consume_admin, d.consume_admin)] {
            let p = a.pos.iter().position(|n| *n == gate);
            match p {
                Some(p) => {
                    for &x in &who {
                        for signer in [true, false] {
                            if x == d.program && signer {
                                continue;
                            }
                            let mut ix = a.ix.clone();
                            ix.metas[p] = Meta { acct: x, signer, writable: false };
                            // a wallet that signs elsewhere in the message signs here too
                            let signs = signer || ix.metas.iter().any(|q| q.acct == x && q.signer);
                            m.load(&w.start);
                            let o = m.exec(&ix);
                            t.run(a, o.ok);
                            let may = if on { x == right && signs } else { x == d.program };
                            if o.ok != may {
                                t.bad(
                                    a,
                                    &format!("{} ({}signing) as {gate}", label(w, x), if signs { "" } else { "not " }),
                                    if o.ok { "succeeded".into() } else { format!("failed: {}", o.err) },
                                );
                            }
                        }
                    }
                }
                None => {
                    // never needed here
                    m.load(&w.start);
                    let o = m.exec(&a.ix);
                    t.run(a, o.ok);
                    if !o.ok {
                        t.bad(a, "no administrator involved", o.err);
                    }
                }
            }
        }
        t.c.states += 1;
    }
    (t.c, t.v)
}

// ------------------------------------------------------------ settlement

/// Settlement by owner, delegate and administrator to every token account.
pub fn settle_destinations(_t: Tier) -> Vec<Part> {
    vec![Part::Custom(
        "administrator's settlement to every pair of token accounts".into(),
        Box::new(|| {
            let s = expired_scene();
            let mut t = Tally::new(&s.name);
            let w = &s.w;
            let pre = w.machine();
            let mut m = w.machine();
            for a in s.acts.iter().filter(|a| a.name.starts_with("settle")) {
                let (pb, pq) = (
                    a.pos.iter().position(|n| *n == "user_base").unwrap(),
                    a.pos.iter().position(|n| *n == "user_quote").unwrap(),
                );
                let toks: Vec<usize> = (0..w.image.accts.len()).filter(|i| token_of(&pre, *i).is_some()).collect();
                for &x in &toks {
                    for &y in &toks {
                        let mut ix = a.ix.clone();
                        ix.metas[pb].acct = x;
                        ix.metas[pq].acct = y;
                        m.load(&w.start);
                        let o = m.exec(&ix);
                        t.run(a, o.ok);
                        if o.ok {
                            if let Err(e) = safe(&s, a, &ix, &pre, &m) {
                                t.bad(a, &format!("destinations {} and {}", label(w, x), label(w, y)), e);
                            }
                        }
                    }
                }
                t.c.states += 1;
            }
            (t.c, t.v)
        }),
    )]
}
