//! Stand-in for `switchboard-solana` (not available offline): the aggregator
//! account, reduced to the fields that openbook-v2 reads.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C, packed)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
}

#[derive(Debug)]
pub struct SwitchboardError(pub &'static str);
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> {
        if self.scale > 28 {
            return Err(SwitchboardError("DecimalConversionError"));
        }
        Ok(self.mantissa as f64 / 10f64.powi(self.scale as i32))
    }
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
    pub min_response: SwitchboardDecimal,
    pub max_response: SwitchboardDecimal,
    pub rest: [u8; 992],
}

#[derive(Clone, Copy)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub head: [u8; 228],
    pub min_oracle_results: u32,
    pub mid: [u8; 101],
    pub latest_confirmed_round: AggregatorRound,
    pub tail1: [u8; 2274],
    pub resolution_mode: u8,
    pub tail2: [u8; 138],
}

// plain bytes, every bit pattern is valid, no padding (packed)
unsafe impl bytemuck::Zeroable for AggregatorAccountData {}
unsafe impl bytemuck::Pod for AggregatorAccountData {}

const _: () = assert!(std::mem::size_of::<AggregatorAccountData>() == 3843);
const _: () = assert!(std::mem::size_of::<AggregatorRound>() == 1097);

impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        let round = self.latest_confirmed_round;
        if self.resolution_mode != 1 && self.min_oracle_results > round.num_success {
            return Err(SwitchboardError("InvalidAggregatorRound"));
        }
        Ok(round.result)
    }
}
