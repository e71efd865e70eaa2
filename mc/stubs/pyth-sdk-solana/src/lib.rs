//! Stand-in for `pyth-sdk-solana` (not available offline): the v2 price account
//! layout, and nothing else.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

pub mod state {
    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    pub const ACCOUNT_TYPE_PRICE: u32 = 3;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[repr(transparent)]
    pub struct PriceStatus(pub u32);
    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: PriceStatus = PriceStatus(0);
        pub const Trading: PriceStatus = PriceStatus(1);
        pub const Halted: PriceStatus = PriceStatus(2);
        pub const Auction: PriceStatus = PriceStatus(3);
        pub const Ignored: PriceStatus = PriceStatus(4);
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u32,
        pub pub_slot: u64,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: [u8; 32],
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct SolanaPriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u32,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: [u8; 32],
        pub next: [u8; 32],
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }

    #[derive(Debug)]
    pub enum PythError {
        InvalidAccountData,
        BadVersionNumber,
        WrongAccountType,
    }

    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, PythError> {
        if data.len() < std::mem::size_of::<SolanaPriceAccount>()
            || (data.as_ptr() as usize) % std::mem::align_of::<SolanaPriceAccount>() != 0
        {
            return Err(PythError::InvalidAccountData);
        }
        // every bit pattern is a valid value of this struct
        let acc = unsafe { &*(data.as_ptr() as *const SolanaPriceAccount) };
        if acc.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if acc.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if acc.atype != ACCOUNT_TYPE_PRICE {
            return Err(PythError::WrongAccountType);
        }
        Ok(acc)
    }
}
