//! Construction of a market world (accounts, users) through the real
//! instructions, and encoding of operations as real instructions.

use crate::rt::*;
use solana_program::pubkey::Pubkey;
use std::sync::Arc;

static KEYS: std::sync::OnceLock<std::collections::HashMap<String, Pubkey>> = std::sync::OnceLock::new();
/// Use these addresses, whose keys are at hand, in all worlds of this process.
pub fn use_keys(keys: std::collections::HashMap<String, Pubkey>) {
    KEYS.set(keys).expect("set once, before any world is built");
}
pub fn key(tag: &str) -> Pubkey {
    if let Some(k) = KEYS.get().and_then(|m| m.get(tag)) {
        return *k;
    }
    Pubkey::new_from_array(solana_program::hash::hash(format!("obmc:{tag}").as_bytes()).to_bytes())
}
pub fn disc(ns: &str, name: &str) -> [u8; 8] {
    solana_program::hash::hash(format!("{ns}:{name}").as_bytes()).to_bytes()[..8]
        .try_into()
        .unwrap()
}
pub fn sys() -> Pubkey {
    solana_program::system_program::id()
}
pub fn prog() -> Pubkey {
    openbook_v2::ID
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Side {
    Bid,
    Ask,
}
impl Side {
    pub fn inv(self) -> Side {
        match self {
            Side::Bid => Side::Ask,
            Side::Ask => Side::Bid,
        }
    }
    pub fn code(self) -> u8 {
        self as u8
    }
    pub fn both() -> [Side; 2] {
        [Side::Bid, Side::Ask]
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum OType {
    Limit = 0,
    Ioc = 1,
    PostOnly = 2,
    Market = 3,
    Slide = 4,
    Fok = 5,
}
pub const ALL_TYPES: [OType; 6] = [
    OType::Limit,
    OType::Ioc,
    OType::PostOnly,
    OType::Market,
    OType::Slide,
    OType::Fok,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SelfTrade {
    Decrement = 0,
    CancelProvide = 1,
    Abort = 2,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub base_lot: i64,
    /// 0: different from the base lot, unless prices have to be those of an oracle
    pub quote_lot: i64,
    /// bytes by which the accounts of the books and events exceed their contents
    pub larger: usize,
    pub maker_fee: i64,
    pub taker_fee: i64,
    pub time_expiry: i64,
    pub base_decimals: u8,
    pub quote_decimals: u8,
    pub oo_admin: bool,
    pub consume_admin: bool,
    pub close_admin: bool,
    /// 0 none, 1 one stub oracle, 2 two stub oracles
    pub oracles: u8,
    pub conf_filter: f32,
    pub max_staleness: Option<u32>,
    /// open orders accounts: owning user of each
    pub oo_owners: Vec<usize>,
    pub users: usize,
    pub base_balance: u64,
    pub quote_balance: u64,
    pub start_ts: i64,
    pub start_slot: u64,
    pub second_market: bool,
    /// users hold their tokens at associated addresses
    pub ata: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            base_lot: 10,
            quote_lot: 0,
            larger: 0,
            maker_fee: 0,
            taker_fee: 0,
            time_expiry: 0,
            base_decimals: 0,
            quote_decimals: 0,
            oo_admin: false,
            consume_admin: false,
            close_admin: true,
            oracles: 0,
            conf_filter: 0.1,
            max_staleness: None,
            oo_owners: vec![0, 1, 2],
            users: 3,
            base_balance: 1_000_000_000,
            quote_balance: 1_000_000_000,
            start_ts: 1000,
            start_slot: 1000,
            second_market: false,
            ata: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct User {
    pub wallet: usize,
    pub base: usize,
    pub quote: usize,
    pub indexer: usize,
}

#[derive(Clone, Debug, Default)]
pub struct MarketIds {
    pub market: usize,
    pub authority: usize,
    pub bids: usize,
    pub asks: usize,
    pub heap: usize,
    pub bvault: usize,
    pub qvault: usize,
}

#[derive(Clone, Debug)]
pub struct Ids {
    pub m: MarketIds,
    pub m2: Option<MarketIds>,
    pub bmint: usize,
    pub qmint: usize,
    pub oracle_a: usize,
    pub oracle_b: usize,
    pub program: usize,
    pub token_program: usize,
    pub system_program: usize,
    pub ata_program: usize,
    pub event_authority: usize,
    pub payer: usize,
    pub fee_admin: usize,
    pub oo_admin: usize,
    pub consume_admin: usize,
    pub close_admin: usize,
    pub fee_receiver: usize,
    pub referrer: usize,
    pub sol_dest: usize,
    pub stranger: usize,
    pub users: Vec<User>,
    /// open orders accounts on market 1
    pub oo: Vec<usize>,
    pub oo_owner: Vec<usize>,
    /// open orders account of user 0 on market 2
    pub oo_m2: Option<usize>,
}

#[derive(Clone)]
pub struct World {
    pub cfg: Cfg,
    pub ids: Ids,
    pub image: Arc<Image>,
    pub start: State,
}

pub const WALLET_SOL: u64 = 1_000_000_000_000;
pub const BOOK_LEN: usize = 90952;
pub const HEAP_LEN: usize = 91288;
pub const MARKET_LEN: usize = 848;
pub const OO_LEN: usize = 1264;
pub const ORACLE_LEN: usize = 208;

pub fn stub_oracle(price: f64, slot: u64, deviation: f64) -> Vec<u8> {
    let mut d = vec![0u8; ORACLE_LEN];
    d[..8].copy_from_slice(&disc("account", "StubOracle"));
    d[8..40].copy_from_slice(key("oracle_owner").as_ref());
    d[72..80].copy_from_slice(&price.to_le_bytes());
    d[88..96].copy_from_slice(&slot.to_le_bytes());
    d[96..104].copy_from_slice(&deviation.to_le_bytes());
    d
}

struct B {
    ata: bool,
    v: Vec<Acct>,
}
impl B {
    fn add(&mut self, a: Acct) -> usize {
        self.v.push(a);
        self.v.len() - 1
    }
    fn wallet(&mut self, tag: &str) -> usize {
        self.add(Acct::new(key(tag), sys(), WALLET_SOL, vec![]))
    }
    fn token(&mut self, tag: &str, mint: &Pubkey, owner: &Pubkey, amount: u64) -> usize {
        let at = match self.ata {
            true => anchor_spl::associated_token::get_associated_token_address(owner, mint),
            false => key(tag),
        };
        self.add(Acct::new(
            at,
            spl_token::id(),
            rent_min(165),
            token_account(mint, owner, amount),
        ))
    }
    fn executable(&mut self, k: Pubkey) -> usize {
        let mut a = Acct::new(k, key("loader"), 1, vec![]);
        a.executable = true;
        self.add(a)
    }
    fn zeroed(&mut self, tag: &str, len: usize) -> usize {
        self.add(Acct::new(key(tag), prog(), rent_min(len), vec![0; len]))
    }
}

pub fn indexer_key(owner: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(&[b"OpenOrdersIndexer", owner.as_ref()], &prog()).0
}
pub fn oo_key(owner: &Pubkey, num: u32) -> Pubkey {
    Pubkey::find_program_address(
        &[b"OpenOrders", owner.as_ref(), &num.to_le_bytes()],
        &prog(),
    )
    .0
}

pub fn sg(acct: usize) -> Meta {
    Meta { acct, signer: true, writable: false }
}
pub fn sw(acct: usize) -> Meta {
    Meta { acct, signer: true, writable: true }
}
pub fn rw(acct: usize) -> Meta {
    Meta { acct, signer: false, writable: true }
}
pub fn ro(acct: usize) -> Meta {
    Meta { acct, signer: false, writable: false }
}

pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn ix(name: &str) -> Enc {
        Enc(disc("global", name).to_vec())
    }
    pub fn u8(mut self, v: u8) -> Self {
        self.0.push(v);
        self
    }
    pub fn u32(mut self, v: u32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u64(mut self, v: u64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn i64(mut self, v: i64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn u128(mut self, v: u128) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn f32(mut self, v: f32) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn f64(mut self, v: f64) -> Self {
        self.0.extend_from_slice(&v.to_le_bytes());
        self
    }
    pub fn str(mut self, v: &str) -> Self {
        self.0.extend_from_slice(&(v.len() as u32).to_le_bytes());
        self.0.extend_from_slice(v.as_bytes());
        self
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PlaceArgs {
    pub side: Side,
    pub price: i64,
    pub base: i64,
    pub quote: i64,
    pub cid: u64,
    pub otype: OType,
    pub expiry: u64,
    pub st: SelfTrade,
    pub limit: u8,
}
impl PlaceArgs {
    pub fn limit_order(side: Side, price: i64, base: i64) -> Self {
        PlaceArgs {
            side,
            price,
            base,
            quote: 1_000_000,
            cid: 0,
            otype: OType::Limit,
            expiry: 0,
            st: SelfTrade::Decrement,
            limit: 10,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct PegArgs {
    pub side: Side,
    pub offset: i64,
    pub peg_limit: i64,
    pub base: i64,
    pub quote: i64,
    pub cid: u64,
    pub otype: OType,
    pub expiry: u64,
    pub st: SelfTrade,
    pub limit: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TakeArgs {
    pub side: Side,
    pub price: i64,
    pub base: i64,
    pub quote: i64,
    pub otype: OType,
    pub limit: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct MultiArgs {
    pub price: i64,
    pub quote: i64,
    pub expiry: u64,
}

/// Operation of the alphabet.  `oo` indexes the open orders accounts; `rem`
/// is the list of open orders accounts passed as remaining accounts.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Place { oo: usize, a: PlaceArgs, rem: Vec<usize> },
    Peg { oo: usize, a: PegArgs, rem: Vec<usize> },
    Edit { oo: usize, cancel_cid: u64, expected: i64, a: PlaceArgs, rem: Vec<usize> },
    EditPeg { oo: usize, cancel_cid: u64, expected: i64, a: PegArgs, rem: Vec<usize> },
    Many {
        oo: usize,
        cancel: bool,
        otype: OType,
        bids: Vec<MultiArgs>,
        asks: Vec<MultiArgs>,
        limit: u8,
        rem: Vec<usize>,
    },
    Take { user: usize, a: TakeArgs, rem: Vec<usize> },
    Cancel { oo: usize, id: u128 },
    CancelCid { oo: usize, cid: u64 },
    CancelAll { oo: usize, side: Option<Side>, limit: u8 },
    Consume { limit: u64, rem: Vec<usize> },
    /// heap slots
    ConsumeGiven { slots: Vec<u64>, rem: Vec<usize> },
    Deposit { user: usize, oo: usize, base: u64, quote: u64 },
    Refill { user: usize, oo: usize, base: u64, quote: u64 },
    Settle { oo: usize, referrer: bool },
    SettleExpired { oo: usize, referrer: bool },
    Sweep,
    Prune { oo: usize, limit: u8 },
    SetExpired,
    CloseMarket,
    CloseOo { oo: usize },
    SetDelegate { oo: usize, delegate: Option<usize> },
    // environment
    Advance { dt: i64 },
    Oracle { price: u64 },
}

impl World {
    pub fn new(mut cfg: Cfg) -> World {
        if cfg.quote_lot == 0 {
            cfg.quote_lot = if cfg.oracles == 0 { 7 } else { cfg.base_lot };
        }
        let mut b = B { ata: cfg.ata, v: vec![] };
        let bm = key("base_mint");
        let qm = key("quote_mint");
        let bmint = b.add(Acct::new(bm, spl_token::id(), rent_min(82), mint_account(cfg.base_decimals, 1 << 62)));
        let qmint = b.add(Acct::new(qm, spl_token::id(), rent_min(82), mint_account(cfg.quote_decimals, 1 << 62)));
        let program = b.executable(prog());
        let token_program = b.executable(spl_token::id());
        let system_program = b.executable(sys());
        let ata_program = b.executable(anchor_spl::associated_token::ID);
        let ev = Pubkey::find_program_address(&[b"__event_authority"], &prog()).0;
        let event_authority = b.add(Acct::empty(ev, 0));
        let payer = b.wallet("payer");
        let fee_admin = b.wallet("fee_admin");
        let oo_admin = b.wallet("oo_admin");
        let consume_admin = b.wallet("consume_admin");
        let close_admin = b.wallet("close_admin");
        let sol_dest = b.wallet("sol_dest");
        let stranger = b.wallet("stranger");
        let fee_receiver = b.token("fee_receiver", &qm, &key("fee_admin"), 0);
        let referrer = b.token("referrer", &qm, &key("referrer_owner"), 0);
        let oracle_a = b.add(Acct::new(key("oracle_a"), prog(), rent_min(ORACLE_LEN), stub_oracle(10.0, 0, 0.0)));
        let oracle_b = b.add(Acct::new(key("oracle_b"), prog(), rent_min(ORACLE_LEN), stub_oracle(1.0, 0, 0.0)));
        let mk = |b: &mut B, t: &str| {
            let mkey = key(&format!("{t}market"));
            let auth = Pubkey::find_program_address(&[b"Market", mkey.as_ref()], &prog()).0;
            let market = b.add(Acct::empty(mkey, MARKET_LEN));
            let authority = b.add(Acct::empty(auth, 0));
            let bids = b.zeroed(&format!("{t}bids"), BOOK_LEN + cfg.larger);
            let asks = b.zeroed(&format!("{t}asks"), BOOK_LEN + cfg.larger);
            let heap = b.zeroed(&format!("{t}heap"), HEAP_LEN + cfg.larger);
            let bvault = b.add(Acct::empty(
                anchor_spl::associated_token::get_associated_token_address(&auth, &bm),
                165,
            ));
            let qvault = b.add(Acct::empty(
                anchor_spl::associated_token::get_associated_token_address(&auth, &qm),
                165,
            ));
            MarketIds { market, authority, bids, asks, heap, bvault, qvault }
        };
        let m = mk(&mut b, "");
        let m2 = if cfg.second_market { Some(mk(&mut b, "second_")) } else { None };
        let mut users = vec![];
        for u in 0..cfg.users {
            let wallet = b.wallet(&format!("user{u}"));
            let wk = key(&format!("user{u}"));
            let base = b.token(&format!("user{u}base"), &bm, &wk, cfg.base_balance);
            let quote = b.token(&format!("user{u}quote"), &qm, &wk, cfg.quote_balance);
            let indexer = b.add(Acct::empty(indexer_key(&wk), 8 + 1 + 4 + 4 + 32 * 8));
            users.push(User { wallet, base, quote, indexer });
        }
        let mut num = vec![0u32; cfg.users];
        let mut oo = vec![];
        for &u in &cfg.oo_owners {
            num[u] += 1;
            oo.push(b.add(Acct::empty(oo_key(&key(&format!("user{u}")), num[u]), OO_LEN)));
        }
        let oo_m2 = if cfg.second_market {
            num[0] += 1;
            Some(b.add(Acct::empty(oo_key(&key("user0"), num[0]), OO_LEN)))
        } else {
            None
        };
        let ids = Ids {
            m,
            m2,
            bmint,
            qmint,
            oracle_a,
            oracle_b,
            program,
            token_program,
            system_program,
            ata_program,
            event_authority,
            payer,
            fee_admin,
            oo_admin,
            consume_admin,
            close_admin,
            fee_receiver,
            referrer,
            sol_dest,
            stranger,
            users,
            oo,
            oo_owner: cfg.oo_owners.clone(),
            oo_m2,
        };
        let now = Now { ts: cfg.start_ts, slot: cfg.start_slot };
        let image = Arc::new(Image::new(b.v));
        let mut w = World {
            cfg,
            ids,
            image: image.clone(),
            start: State { now, diffs: vec![] },
        };
        let mut mach = Machine::new(image, now);
        let run = |mach: &mut Machine, ix: Ix, what: &str| {
            let o = mach.exec(&ix);
            if !o.ok {
                panic!("world setup failed at {what}: {}", o.err);
            }
        };
        run(&mut mach, w.ix_create_market(&w.ids.m), "create_market");
        if let Some(m2) = &w.ids.m2 {
            run(&mut mach, w.ix_create_market(m2), "create_market 2");
        }
        for u in 0..w.cfg.users {
            run(&mut mach, w.ix_create_indexer(u), "create_indexer");
        }
        for k in 0..w.ids.oo.len() {
            run(&mut mach, w.ix_create_oo(w.ids.oo_owner[k], w.ids.oo[k], &w.ids.m, None), "create_oo");
        }
        if let (Some(o), Some(m2)) = (w.ids.oo_m2, &w.ids.m2) {
            run(&mut mach, w.ix_create_oo(0, o, m2, None), "create_oo m2");
        }
        // freeze the result as the new base image
        let mut accts = w.image.accts.clone();
        for (i, a) in accts.iter_mut().enumerate() {
            a.cap = a.cap.max(a.data.len());
            a.data = mach.data(i).to_vec();
            a.owner = mach.owner(i);
            a.lamports = mach.lamports(i);
        }
        w.image = Arc::new(Image::new(accts));
        w.start = State { now, diffs: vec![] };
        w
    }

    pub fn machine(&self) -> Machine {
        let mut m = Machine::new(self.image.clone(), self.start.now);
        m.load(&self.start);
        m
    }

    pub fn k(&self, i: usize) -> Pubkey {
        self.image.accts[i].key
    }

    fn opt(&self, on: bool, m: Meta) -> Meta {
        if on {
            m
        } else {
            ro(self.ids.program)
        }
    }

    pub fn ix_create_market(&self, m: &MarketIds) -> Ix {
        let i = &self.ids;
        let c = &self.cfg;
        let mut e = Enc::ix("create_market").str("TEST").f32(c.conf_filter);
        e = match c.max_staleness {
            None => e.u8(0),
            Some(v) => e.u8(1).u32(v),
        };
        let data = e
            .i64(c.quote_lot)
            .i64(c.base_lot)
            .i64(c.maker_fee)
            .i64(c.taker_fee)
            .i64(c.time_expiry)
            .0;
        Ix {
            metas: vec![
                sw(m.market),
                ro(m.authority),
                rw(m.bids),
                rw(m.asks),
                rw(m.heap),
                sw(i.payer),
                rw(m.bvault),
                rw(m.qvault),
                ro(i.bmint),
                ro(i.qmint),
                ro(i.system_program),
                ro(i.token_program),
                ro(i.ata_program),
                self.opt(c.oracles >= 1, ro(i.oracle_a)),
                self.opt(c.oracles >= 2, ro(i.oracle_b)),
                ro(i.fee_admin),
                self.opt(c.oo_admin, ro(i.oo_admin)),
                self.opt(c.consume_admin, ro(i.consume_admin)),
                self.opt(c.close_admin, ro(i.close_admin)),
                ro(i.event_authority),
                ro(i.program),
            ],
            data,
        }
    }
    pub fn ix_create_indexer(&self, u: usize) -> Ix {
        let i = &self.ids;
        Ix {
            metas: vec![
                sw(i.payer),
                sg(i.users[u].wallet),
                rw(i.users[u].indexer),
                ro(i.system_program),
            ],
            data: Enc::ix("create_open_orders_indexer").0,
        }
    }
    pub fn ix_close_indexer(&self, u: usize) -> Ix {
        let i = &self.ids;
        Ix {
            metas: vec![
                sg(i.users[u].wallet),
                rw(i.users[u].indexer),
                rw(i.sol_dest),
                ro(i.token_program),
            ],
            data: Enc::ix("close_open_orders_indexer").0,
        }
    }
    pub fn ix_create_oo(&self, u: usize, oo: usize, m: &MarketIds, delegate: Option<usize>) -> Ix {
        let i = &self.ids;
        Ix {
            metas: vec![
                sw(i.payer),
                sg(i.users[u].wallet),
                match delegate {
                    Some(d) => ro(d),
                    None => ro(i.program),
                },
                rw(i.users[u].indexer),
                rw(oo),
                ro(m.market),
                ro(i.system_program),
            ],
            data: Enc::ix("create_open_orders_account").str("acct").0,
        }
    }
    pub fn ix_close_oo(&self, u: usize, oo: usize) -> Ix {
        let i = &self.ids;
        Ix {
            metas: vec![
                sg(i.users[u].wallet),
                rw(i.users[u].indexer),
                rw(oo),
                rw(i.sol_dest),
                ro(i.system_program),
            ],
            data: Enc::ix("close_open_orders_account").0,
        }
    }

    fn enc_place(e: Enc, a: &PlaceArgs) -> Enc {
        e.u8(a.side.code())
            .i64(a.price)
            .i64(a.base)
            .i64(a.quote)
            .u64(a.cid)
            .u8(a.otype as u8)
            .u64(a.expiry)
            .u8(a.st as u8)
            .u8(a.limit)
    }
    fn enc_peg(e: Enc, a: &PegArgs) -> Enc {
        e.u8(a.side.code())
            .i64(a.offset)
            .i64(a.peg_limit)
            .i64(a.base)
            .i64(a.quote)
            .u64(a.cid)
            .u8(a.otype as u8)
            .u64(a.expiry)
            .u8(a.st as u8)
            .u8(a.limit)
    }

    fn place_metas(&self, oo: usize, side: Side, rem: &[usize]) -> Vec<Meta> {
        let i = &self.ids;
        let m = &i.m;
        let u = &i.users[i.oo_owner[oo]];
        let mut v = vec![
            sg(u.wallet),
            rw(i.oo[oo]),
            self.opt(self.cfg.oo_admin, sg(i.oo_admin)),
            rw(match side {
                Side::Bid => u.quote,
                Side::Ask => u.base,
            }),
            rw(m.market),
            rw(m.bids),
            rw(m.asks),
            rw(m.heap),
            rw(match side {
                Side::Bid => m.qvault,
                Side::Ask => m.bvault,
            }),
            self.opt(self.cfg.oracles >= 1, ro(i.oracle_a)),
            self.opt(self.cfg.oracles >= 2, ro(i.oracle_b)),
            ro(i.token_program),
        ];
        for &r in rem {
            v.push(rw(i.oo[r]));
        }
        v
    }

    /// Encode an operation.  Environment operations return None.
    pub fn ix(&self, op: &Op) -> Option<Ix> {
        let i = &self.ids;
        let m = &i.m;
        let remv = |mut v: Vec<Meta>, rem: &[usize]| {
            for &r in rem {
                v.push(rw(i.oo[r]));
            }
            v
        };
        Some(match op {
            Op::Place { oo, a, rem } => Ix {
                metas: self.place_metas(*oo, a.side, rem),
                data: Self::enc_place(Enc::ix("place_order"), a).0,
            },
            Op::Peg { oo, a, rem } => Ix {
                metas: self.place_metas(*oo, a.side, rem),
                data: Self::enc_peg(Enc::ix("place_order_pegged"), a).0,
            },
            Op::Edit { oo, cancel_cid, expected, a, rem } => Ix {
                metas: self.place_metas(*oo, a.side, rem),
                data: Self::enc_place(Enc::ix("edit_order").u64(*cancel_cid).i64(*expected), a).0,
            },
            Op::EditPeg { oo, cancel_cid, expected, a, rem } => Ix {
                metas: self.place_metas(*oo, a.side, rem),
                data: Self::enc_peg(Enc::ix("edit_order_pegged").u64(*cancel_cid).i64(*expected), a).0,
            },
            Op::Many { oo, cancel, otype, bids, asks, limit, rem } => {
                let u = &i.users[i.oo_owner[*oo]];
                let metas = vec![
                    sg(u.wallet),
                    rw(i.oo[*oo]),
                    self.opt(self.cfg.oo_admin, sg(i.oo_admin)),
                    rw(u.quote),
                    rw(u.base),
                    rw(m.market),
                    rw(m.bids),
                    rw(m.asks),
                    rw(m.heap),
                    rw(m.qvault),
                    rw(m.bvault),
                    self.opt(self.cfg.oracles >= 1, ro(i.oracle_a)),
                    self.opt(self.cfg.oracles >= 2, ro(i.oracle_b)),
                    ro(i.token_program),
                ];
                let mut e = Enc::ix(if *cancel { "cancel_all_and_place_orders" } else { "place_orders" })
                    .u8(*otype as u8);
                for l in [bids, asks] {
                    e = e.u32(l.len() as u32);
                    for x in l {
                        e = e.i64(x.price).i64(x.quote).u64(x.expiry);
                    }
                }
                Ix { metas: remv(metas, rem), data: e.u8(*limit).0 }
            }
            Op::Take { user, a, rem } => {
                let u = &i.users[*user];
                let metas = vec![
                    sw(u.wallet),
                    sw(u.wallet),
                    rw(m.market),
                    ro(m.authority),
                    rw(m.bids),
                    rw(m.asks),
                    rw(m.bvault),
                    rw(m.qvault),
                    rw(m.heap),
                    rw(u.base),
                    rw(u.quote),
                    self.opt(self.cfg.oracles >= 1, ro(i.oracle_a)),
                    self.opt(self.cfg.oracles >= 2, ro(i.oracle_b)),
                    ro(i.token_program),
                    ro(i.system_program),
                    self.opt(self.cfg.oo_admin, sg(i.oo_admin)),
                ];
                Ix {
                    metas: remv(metas, rem),
                    data: Enc::ix("place_take_order")
                        .u8(a.side.code())
                        .i64(a.price)
                        .i64(a.base)
                        .i64(a.quote)
                        .u8(a.otype as u8)
                        .u8(a.limit)
                        .0,
                }
            }
            Op::Cancel { oo, id } => Ix {
                metas: self.cancel_metas(*oo),
                data: Enc::ix("cancel_order").u128(*id).0,
            },
            Op::CancelCid { oo, cid } => Ix {
                metas: self.cancel_metas(*oo),
                data: Enc::ix("cancel_order_by_client_order_id").u64(*cid).0,
            },
            Op::CancelAll { oo, side, limit } => {
                let e = Enc::ix("cancel_all_orders");
                let e = match side {
                    None => e.u8(0),
                    Some(s) => e.u8(1).u8(s.code()),
                };
                Ix { metas: self.cancel_metas(*oo), data: e.u8(*limit).0 }
            }
            Op::Consume { limit, rem } => Ix {
                metas: remv(self.consume_metas(), rem),
                data: Enc::ix("consume_events").u64(*limit).0,
            },
            Op::ConsumeGiven { slots, rem } => {
                let mut e = Enc::ix("consume_given_events").u32(slots.len() as u32);
                for s in slots {
                    e = e.u64(*s);
                }
                Ix { metas: remv(self.consume_metas(), rem), data: e.0 }
            }
            Op::Deposit { user, oo, base, quote } => Ix {
                metas: self.deposit_metas(*user, *oo),
                data: Enc::ix("deposit").u64(*base).u64(*quote).0,
            },
            Op::Refill { user, oo, base, quote } => Ix {
                metas: self.deposit_metas(*user, *oo),
                data: Enc::ix("refill").u64(*base).u64(*quote).0,
            },
            Op::Settle { oo, referrer } => Ix {
                metas: self.settle_metas(*oo, *referrer),
                data: Enc::ix("settle_funds").0,
            },
            Op::SettleExpired { oo, referrer } => {
                let mut v = vec![sg(i.close_admin)];
                v.extend(self.settle_metas(*oo, *referrer));
                // the `owner` slot is only a writable signer here
                v[1] = sw(i.close_admin);
                v[2] = sw(i.close_admin);
                Ix { metas: v, data: Enc::ix("settle_funds_expired").0 }
            }
            Op::Sweep => Ix {
                metas: vec![
                    sg(i.fee_admin),
                    rw(m.market),
                    ro(m.authority),
                    rw(m.qvault),
                    rw(i.fee_receiver),
                    ro(i.token_program),
                ],
                data: Enc::ix("sweep_fees").0,
            },
            Op::Prune { oo, limit } => Ix {
                metas: vec![
                    sg(i.close_admin),
                    rw(i.oo[*oo]),
                    ro(m.market),
                    rw(m.bids),
                    rw(m.asks),
                ],
                data: Enc::ix("prune_orders").u8(*limit).0,
            },
            Op::SetExpired => Ix {
                metas: vec![sg(i.close_admin), rw(m.market)],
                data: Enc::ix("set_market_expired").0,
            },
            Op::CloseMarket => Ix {
                metas: vec![
                    sg(i.close_admin),
                    rw(m.market),
                    rw(m.bids),
                    rw(m.asks),
                    rw(m.heap),
                    rw(i.sol_dest),
                    ro(i.token_program),
                ],
                data: Enc::ix("close_market").0,
            },
            Op::CloseOo { oo } => self.ix_close_oo(i.oo_owner[*oo], i.oo[*oo]),
            Op::SetDelegate { oo, delegate } => Ix {
                metas: vec![
                    sw(i.users[i.oo_owner[*oo]].wallet),
                    rw(i.oo[*oo]),
                    match delegate {
                        Some(u) => ro(i.users[*u].wallet),
                        None => ro(i.program),
                    },
                ],
                data: Enc::ix("set_delegate").0,
            },
            Op::Advance { .. } | Op::Oracle { .. } => return None,
        })
    }

    fn cancel_metas(&self, oo: usize) -> Vec<Meta> {
        let i = &self.ids;
        vec![
            sg(i.users[i.oo_owner[oo]].wallet),
            rw(i.oo[oo]),
            ro(i.m.market),
            rw(i.m.bids),
            rw(i.m.asks),
        ]
    }
    fn consume_metas(&self) -> Vec<Meta> {
        let i = &self.ids;
        vec![
            self.opt(self.cfg.consume_admin, sg(i.consume_admin)),
            rw(i.m.market),
            rw(i.m.heap),
        ]
    }
    fn deposit_metas(&self, user: usize, oo: usize) -> Vec<Meta> {
        let i = &self.ids;
        let u = &i.users[user];
        vec![
            sg(u.wallet),
            rw(u.base),
            rw(u.quote),
            rw(i.oo[oo]),
            rw(i.m.market),
            rw(i.m.bvault),
            rw(i.m.qvault),
            ro(i.token_program),
        ]
    }
    fn settle_metas(&self, oo: usize, referrer: bool) -> Vec<Meta> {
        let i = &self.ids;
        let u = &i.users[i.oo_owner[oo]];
        vec![
            sg(u.wallet),
            sw(u.wallet),
            rw(i.oo[oo]),
            rw(i.m.market),
            ro(i.m.authority),
            rw(i.m.bvault),
            rw(i.m.qvault),
            rw(u.base),
            rw(u.quote),
            if referrer { rw(i.referrer) } else { ro(i.program) },
            ro(i.token_program),
            ro(i.system_program),
        ]
    }

    /// Apply any operation (including environment operations).
    pub fn run(&self, mach: &mut Machine, op: &Op) -> Outcome {
        match op {
            Op::Advance { dt } => {
                mach.now.ts += dt;
                mach.now.slot += *dt as u64;
                Outcome { ok: true, ..Default::default() }
            }
            Op::Oracle { price } => {
                // u64::MAX stands for "price too uncertain to be used"
                if *price == u64::MAX {
                    mach.poke(self.ids.oracle_a, 96, &1e18f64.to_le_bytes());
                } else {
                    mach.poke(self.ids.oracle_a, 72, &(*price as f64).to_le_bytes());
                    mach.poke(self.ids.oracle_a, 96, &0f64.to_le_bytes());
                }
                Outcome { ok: true, ..Default::default() }
            }
            _ => mach.exec(&self.ix(op).unwrap()),
        }
    }
}

impl World {
    /// The current contents of a machine as a new world, with further accounts.
    pub fn freeze(&self, m: &Machine, extra: Vec<Acct>) -> (World, Vec<usize>) {
        let mut accts = self.image.accts.clone();
        for (i, a) in accts.iter_mut().enumerate() {
            a.cap = a.cap.max(a.data.len());
            a.data = m.data(i).to_vec();
            a.owner = m.owner(i);
            a.lamports = m.lamports(i);
        }
        let first = accts.len();
        let n = extra.len();
        accts.extend(extra);
        let mut w = self.clone();
        w.image = Arc::new(Image::new(accts));
        w.start = State { now: m.now, diffs: vec![] };
        (w, (first..first + n).collect())
    }

    /// The same accounts seen from the second market.
    pub fn other_market(&self) -> World {
        let mut w = self.clone();
        let m2 = w.ids.m2.clone().unwrap();
        w.ids.m2 = Some(std::mem::replace(&mut w.ids.m, m2));
        w.ids.oo = vec![self.ids.oo_m2.unwrap()];
        w.ids.oo_owner = vec![0];
        w
    }
}
