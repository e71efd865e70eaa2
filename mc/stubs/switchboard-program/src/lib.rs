//! Stand-in for `switchboard-program` (not available offline): the fast round
//! result account.

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}

pub const FAST_RESULT_OFFSET: usize = 1 + 32;

impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, &'static str> {
        let at = |off: usize| -> Result<[u8; 8], &'static str> {
            data.get(FAST_RESULT_OFFSET + off..FAST_RESULT_OFFSET + off + 8)
                .map(|s| s.try_into().unwrap())
                .ok_or("account too small")
        };
        let counts = at(0)?;
        Ok(Self {
            parent: data[1..33].try_into().unwrap(),
            result: FastRoundResult {
                num_success: i32::from_le_bytes(counts[0..4].try_into().unwrap()),
                num_error: i32::from_le_bytes(counts[4..8].try_into().unwrap()),
                result: f64::from_le_bytes(at(8)?),
                round_open_slot: u64::from_le_bytes(at(16)?),
                round_open_timestamp: i64::from_le_bytes(at(24)?),
                min_response: f64::from_le_bytes(at(32)?),
                max_response: f64::from_le_bytes(at(40)?),
            },
        })
    }
}
