//! The calls of the client library, answered by the node of the thread.
pub mod client_error {
    use solana_sdk::transaction::TransactionError;
    #[derive(Debug)]
    pub enum ClientErrorKind {
        Io(std::io::Error),
        RpcError(super::rpc_request::RpcError),
        SerdeJson(serde_json::Error),
        TransactionError(TransactionError),
        Custom(String),
    }
    #[derive(Debug)]
    pub struct ClientError {
        pub kind: ClientErrorKind,
    }
    pub type Error = ClientError;
    pub type Result<T> = std::result::Result<T, ClientError>;
    impl ClientError {
        pub fn kind(&self) -> &ClientErrorKind {
            &self.kind
        }
        pub fn get_transaction_error(&self) -> Option<TransactionError> {
            match &self.kind {
                ClientErrorKind::TransactionError(e) => Some(e.clone()),
                ClientErrorKind::RpcError(super::rpc_request::RpcError::RpcResponseError {
                    data: super::rpc_request::RpcResponseErrorData::SendTransactionPreflightFailure(s),
                    ..
                }) => s.err.clone(),
                _ => None,
            }
        }
    }
    impl std::fmt::Display for ClientError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "{:?}", self.kind)
        }
    }
    impl std::error::Error for ClientError {}
    impl From<ClientErrorKind> for ClientError {
        fn from(kind: ClientErrorKind) -> Self {
            ClientError { kind }
        }
    }
    impl From<TransactionError> for ClientError {
        fn from(e: TransactionError) -> Self {
            ClientErrorKind::TransactionError(e).into()
        }
    }
    impl From<super::rpc_request::RpcError> for ClientError {
        fn from(e: super::rpc_request::RpcError) -> Self {
            ClientErrorKind::RpcError(e).into()
        }
    }
    impl From<serde_json::Error> for ClientError {
        fn from(e: serde_json::Error) -> Self {
            ClientErrorKind::SerdeJson(e).into()
        }
    }
    impl From<sim::Fail> for ClientError {
        fn from(e: sim::Fail) -> Self {
            use super::rpc_request::*;
            match e {
                sim::Fail::Transport(s) => ClientErrorKind::Custom(s).into(),
                sim::Fail::Transaction(e) => e.into(),
                sim::Fail::Preflight { err, logs } => RpcError::RpcResponseError {
                    code: -32002,
                    message: "Transaction simulation failed".into(),
                    data: RpcResponseErrorData::SendTransactionPreflightFailure(
                        super::rpc_response::RpcSimulateTransactionResult {
                            err,
                            logs,
                            accounts: None,
                            units_consumed: None,
                        },
                    ),
                }
                .into(),
            }
        }
    }
}

pub mod rpc_request {
    #[derive(Debug)]
    pub enum RpcResponseErrorData {
        Empty,
        SendTransactionPreflightFailure(super::rpc_response::RpcSimulateTransactionResult),
        NodeUnhealthy { num_slots_behind: Option<u64> },
    }
    #[derive(Debug)]
    pub enum RpcError {
        RpcRequestError(String),
        RpcResponseError { code: i64, message: String, data: RpcResponseErrorData },
        ParseError(String),
        ForUser(String),
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum RpcRequest {
        GetAccountInfo,
        GetEpochInfo,
        GetMultipleAccounts,
        GetProgramAccounts,
        GetSlot,
    }
    impl RpcRequest {
        pub fn name(&self) -> &'static str {
            match self {
                RpcRequest::GetAccountInfo => "getAccountInfo",
                RpcRequest::GetEpochInfo => "getEpochInfo",
                RpcRequest::GetMultipleAccounts => "getMultipleAccounts",
                RpcRequest::GetProgramAccounts => "getProgramAccounts",
                RpcRequest::GetSlot => "getSlot",
            }
        }
    }
}

pub mod rpc_config {
    use serde::{Deserialize, Serialize};
    use solana_account_decoder::{UiAccountEncoding, UiDataSliceConfig};
    use solana_sdk::commitment_config::{CommitmentConfig, CommitmentLevel};
    #[derive(Serialize, Deserialize, Clone, Copy, Debug, Default, PartialEq, Eq)]
    #[serde(rename_all = "camelCase")]
    pub enum UiTransactionEncoding {
        #[default]
        Base64,
        Base58,
    }
    #[derive(Serialize, Deserialize, Clone, Copy, Debug, Default, PartialEq, Eq)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcSendTransactionConfig {
        #[serde(default)]
        pub skip_preflight: bool,
        pub preflight_commitment: Option<CommitmentLevel>,
        pub encoding: Option<UiTransactionEncoding>,
        pub max_retries: Option<usize>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcAccountInfoConfig {
        pub encoding: Option<UiAccountEncoding>,
        pub data_slice: Option<UiDataSliceConfig>,
        #[serde(flatten)]
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, Default, PartialEq)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcProgramAccountsConfig {
        pub filters: Option<Vec<super::rpc_filter::RpcFilterType>>,
        #[serde(flatten)]
        pub account_config: RpcAccountInfoConfig,
        pub with_context: Option<bool>,
    }
    #[derive(Serialize, Deserialize, Clone, Copy, Debug, Default, PartialEq, Eq)]
    #[serde(rename_all = "camelCase")]
    pub struct RpcContextConfig {
        #[serde(flatten)]
        pub commitment: Option<CommitmentConfig>,
        pub min_context_slot: Option<u64>,
    }
}

pub mod rpc_filter {
    use serde::{Deserialize, Serialize};
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    #[serde(rename_all = "camelCase")]
    pub enum RpcFilterType {
        DataSize(u64),
        Memcmp(Memcmp),
        TokenAccountState,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    #[serde(rename_all = "camelCase")]
    pub enum MemcmpEncodedBytes {
        Base58(String),
        Base64(String),
        Bytes(Vec<u8>),
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct Memcmp {
        offset: usize,
        bytes: MemcmpEncodedBytes,
    }
    impl Memcmp {
        pub fn new(offset: usize, bytes: MemcmpEncodedBytes) -> Self {
            Memcmp { offset, bytes }
        }
        pub fn new_raw_bytes(offset: usize, bytes: Vec<u8>) -> Self {
            Memcmp { offset, bytes: MemcmpEncodedBytes::Bytes(bytes) }
        }
        pub fn plain(&self) -> (usize, Vec<u8>) {
            match &self.bytes {
                MemcmpEncodedBytes::Bytes(b) => (self.offset, b.clone()),
                other => panic!("encoding of a filter not supported: {other:?}"),
            }
        }
    }
}

pub mod rpc_response {
    use serde::{Deserialize, Serialize};
    use solana_account_decoder::UiAccount;
    use solana_sdk::commitment_config::CommitmentConfig;
    use solana_sdk::transaction::TransactionError;
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct RpcResponseContext {
        pub slot: u64,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct Response<T> {
        pub context: RpcResponseContext,
        pub value: T,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    #[serde(untagged)]
    pub enum OptionalContext<T> {
        Context(Response<T>),
        NoContext(T),
    }
    #[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
    pub struct RpcKeyedAccount {
        pub pubkey: String,
        pub account: UiAccount,
    }
    #[derive(Clone, Debug)]
    pub struct RpcSimulateTransactionResult {
        pub err: Option<TransactionError>,
        pub logs: Option<Vec<String>>,
        pub accounts: Option<Vec<Option<UiAccount>>>,
        pub units_consumed: Option<u64>,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum TransactionConfirmationStatus {
        Processed,
        Confirmed,
        Finalized,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct TransactionStatus {
        pub slot: u64,
        pub confirmations: Option<usize>,
        pub status: Result<(), TransactionError>,
        pub err: Option<TransactionError>,
        pub confirmation_status: Option<TransactionConfirmationStatus>,
    }
    impl TransactionStatus {
        pub fn satisfies_commitment(&self, c: CommitmentConfig) -> bool {
            if c.is_finalized() {
                self.confirmations.is_none()
            } else if c.is_confirmed() {
                match &self.confirmation_status {
                    Some(s) => *s != TransactionConfirmationStatus::Processed,
                    None => self.confirmations.map_or(true, |n| n > 1),
                }
            } else {
                true
            }
        }
        pub fn confirmation_status(&self) -> TransactionConfirmationStatus {
            match &self.confirmation_status {
                Some(s) => s.clone(),
                None if self.confirmations.is_none() => TransactionConfirmationStatus::Finalized,
                None if self.confirmations.unwrap() > 0 => TransactionConfirmationStatus::Confirmed,
                None => TransactionConfirmationStatus::Processed,
            }
        }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct SlotTransactionStats {
        pub num_transaction_entries: u64,
        pub num_successful_transactions: u64,
        pub num_failed_transactions: u64,
        pub max_transactions_per_entry: u64,
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum SlotUpdate {
        FirstShredReceived { slot: u64, timestamp: u64 },
        Completed { slot: u64, timestamp: u64 },
        CreatedBank { slot: u64, parent: u64, timestamp: u64 },
        Frozen { slot: u64, timestamp: u64, stats: SlotTransactionStats },
        Dead { slot: u64, timestamp: u64, err: String },
        OptimisticConfirmation { slot: u64, timestamp: u64 },
        Root { slot: u64, timestamp: u64 },
    }
}

mod common {
    use super::client_error::{ClientErrorKind, Result};
    use super::rpc_response::*;
    use sim::{Ans, Fail};
    pub fn odd<T>(a: Ans) -> Result<T> {
        Err(ClientErrorKind::Custom(format!("unexpected answer {a:?}")).into())
    }
    pub fn context<T>(slot: u64, value: T) -> Response<T> {
        Response { context: RpcResponseContext { slot }, value }
    }
    pub fn no_account<T>(k: &solana_sdk::pubkey::Pubkey) -> Result<T> {
        Err(super::rpc_request::RpcError::ForUser(format!("AccountNotFound: pubkey={k}")).into())
    }
    pub fn status(s: sim::Status) -> TransactionStatus {
        TransactionStatus {
            slot: s.slot,
            confirmations: s.confirmations,
            status: match &s.err {
                None => Ok(()),
                Some(e) => Err(e.clone()),
            },
            err: s.err,
            confirmation_status: s.level.map(|l| match l {
                0 => TransactionConfirmationStatus::Processed,
                1 => TransactionConfirmationStatus::Confirmed,
                _ => TransactionConfirmationStatus::Finalized,
            }),
        }
    }
    pub fn filters(c: &super::rpc_config::RpcProgramAccountsConfig) -> Vec<sim::Filter> {
        c.filters
            .iter()
            .flatten()
            .map(|f| match f {
                super::rpc_filter::RpcFilterType::DataSize(n) => sim::Filter::Size(*n),
                super::rpc_filter::RpcFilterType::Memcmp(m) => {
                    let (o, b) = m.plain();
                    sim::Filter::Bytes(o, b)
                }
                other => panic!("filter not supported: {other:?}"),
            })
            .collect()
    }
    pub type Got = std::result::Result<Ans, Fail>;
}

/// The same calls for callers that wait and for tasks.
macro_rules! calls {
    ($($asy:ident)? ; $ask:path ; $($aw:tt)*) => {
        use crate::client_error::{ClientErrorKind, Result};
        use crate::common::{self, context, odd};
        use crate::rpc_config::*;
        use crate::rpc_response::{Response, TransactionStatus};
        use sim::{Ans, Call, Req};
        use solana_account_decoder::UiAccountEncoding;
        use solana_sdk::{
            account::Account,
            commitment_config::{CommitmentConfig, CommitmentLevel},
            hash::Hash,
            pubkey::Pubkey,
            signature::Signature,
            transaction::VersionedTransaction,
        };
        use std::time::Duration;

        #[derive(Clone, Debug)]
        pub struct RpcClient {
            url: String,
            commitment: CommitmentConfig,
            timeout: Option<Duration>,
        }
        pub trait Wire {
            fn wire(&self) -> VersionedTransaction;
        }
        impl Wire for VersionedTransaction {
            fn wire(&self) -> VersionedTransaction {
                self.clone()
            }
        }
        impl Wire for solana_sdk::transaction::Transaction {
            fn wire(&self) -> VersionedTransaction {
                self.clone().into()
            }
        }
        impl RpcClient {
            pub fn new(url: impl ToString) -> Self {
                Self::new_with_commitment(url, CommitmentConfig::default())
            }
            pub fn new_with_commitment(url: impl ToString, commitment: CommitmentConfig) -> Self {
                RpcClient { url: url.to_string(), commitment, timeout: None }
            }
            pub fn new_with_timeout(url: impl ToString, timeout: Duration) -> Self {
                Self::new_with_timeout_and_commitment(url, timeout, CommitmentConfig::default())
            }
            pub fn new_with_timeout_and_commitment(
                url: impl ToString,
                timeout: Duration,
                commitment: CommitmentConfig,
            ) -> Self {
                RpcClient { url: url.to_string(), commitment, timeout: Some(timeout) }
            }
            pub fn url(&self) -> String {
                self.url.clone()
            }
            pub fn commitment(&self) -> CommitmentConfig {
                self.commitment
            }
            fn call(&self, commitment: CommitmentConfig, req: Req) -> Call {
                Call { url: self.url.clone(), commitment, timeout: self.timeout, req }
            }
            pub $($asy)? fn get_account_with_commitment(
                &self,
                k: &Pubkey,
                c: CommitmentConfig,
            ) -> Result<Response<Option<Account>>> {
                let r: common::Got = $ask(self.call(c, Req::Account(*k))) $($aw)*;
                match r? {
                    Ans::Account(slot, a) => Ok(context(slot, a)),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_account(&self, k: &Pubkey) -> Result<Account> {
                match self.get_account_with_commitment(k, self.commitment) $($aw)*?.value {
                    Some(a) => Ok(a),
                    None => common::no_account(k),
                }
            }
            pub $($asy)? fn get_account_data(&self, k: &Pubkey) -> Result<Vec<u8>> {
                Ok(self.get_account(k) $($aw)*?.data)
            }
            pub $($asy)? fn get_multiple_accounts_with_commitment(
                &self,
                k: &[Pubkey],
                c: CommitmentConfig,
            ) -> Result<Response<Vec<Option<Account>>>> {
                let r: common::Got = $ask(self.call(c, Req::Accounts(k.to_vec()))) $($aw)*;
                match r? {
                    Ans::Accounts(slot, a) => Ok(context(slot, a)),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_multiple_accounts(&self, k: &[Pubkey]) -> Result<Vec<Option<Account>>> {
                Ok(self.get_multiple_accounts_with_commitment(k, self.commitment) $($aw)*?.value)
            }
            pub $($asy)? fn get_program_accounts_with_config(
                &self,
                program: &Pubkey,
                config: RpcProgramAccountsConfig,
            ) -> Result<Vec<(Pubkey, Account)>> {
                let c = config.account_config.commitment.unwrap_or(self.commitment);
                let req = Req::ProgramAccounts {
                    program: *program,
                    filters: common::filters(&config),
                    slice: config.account_config.data_slice.map(|s| (s.offset, s.length)),
                };
                let r: common::Got = $ask(self.call(c, req)) $($aw)*;
                match r? {
                    Ans::ProgramAccounts(_, l) => {
                        // nodes send nothing longer in the encoding they use unless told otherwise
                        let short = matches!(
                            config.account_config.encoding,
                            None | Some(UiAccountEncoding::Binary) | Some(UiAccountEncoding::Base58)
                        );
                        if short && l.iter().any(|(_, a)| a.data.len() > 128) {
                            return Err(ClientErrorKind::Custom("error: data too large for bs58 encoding".to_string()).into());
                        }
                        Ok(l)
                    }
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_program_accounts(&self, program: &Pubkey) -> Result<Vec<(Pubkey, Account)>> {
                let config = RpcProgramAccountsConfig {
                    account_config: RpcAccountInfoConfig { encoding: Some(UiAccountEncoding::Base64Zstd), ..Default::default() },
                    ..Default::default()
                };
                self.get_program_accounts_with_config(program, config) $($aw)*
            }
            pub $($asy)? fn send_transaction_with_config<T: Wire>(
                &self,
                tx: &T,
                config: RpcSendTransactionConfig,
            ) -> Result<Signature> {
                let req = Req::Send {
                    tx: tx.wire(),
                    skip_preflight: config.skip_preflight,
                    preflight: config.preflight_commitment,
                };
                let r: common::Got = $ask(self.call(self.commitment, req)) $($aw)*;
                match r? {
                    Ans::Signature(s) => Ok(s),
                    a => odd(a),
                }
            }
            pub $($asy)? fn send_transaction<T: Wire>(&self, tx: &T) -> Result<Signature> {
                let config = RpcSendTransactionConfig {
                    preflight_commitment: Some(self.commitment.commitment),
                    ..Default::default()
                };
                self.send_transaction_with_config(tx, config) $($aw)*
            }
            pub $($asy)? fn send_and_confirm_transaction<T: Wire>(&self, tx: &T) -> Result<Signature> {
                let r: common::Got = $ask(self.call(self.commitment, Req::Confirm(tx.wire()))) $($aw)*;
                match r? {
                    Ans::Signature(s) => Ok(s),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_signature_statuses(
                &self,
                s: &[Signature],
            ) -> Result<Response<Vec<Option<TransactionStatus>>>> {
                let r: common::Got = $ask(self.call(self.commitment, Req::Statuses(s.to_vec()))) $($aw)*;
                match r? {
                    Ans::Statuses(slot, l) => {
                        Ok(context(slot, l.into_iter().map(|s| s.map(common::status)).collect()))
                    }
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_latest_blockhash_with_commitment(&self, c: CommitmentConfig) -> Result<(Hash, u64)> {
                let r: common::Got = $ask(self.call(c, Req::LatestBlockhash)) $($aw)*;
                match r? {
                    Ans::Hash(h, n) => Ok((h, n)),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_latest_blockhash(&self) -> Result<Hash> {
                Ok(self.get_latest_blockhash_with_commitment(self.commitment) $($aw)*?.0)
            }
            pub $($asy)? fn is_blockhash_valid(&self, h: &Hash, c: CommitmentConfig) -> Result<bool> {
                let r: common::Got = $ask(self.call(c, Req::BlockhashValid(*h))) $($aw)*;
                match r? {
                    Ans::Bool(b) => Ok(b),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_slot_with_commitment(&self, c: CommitmentConfig) -> Result<u64> {
                let r: common::Got = $ask(self.call(c, Req::Slot)) $($aw)*;
                match r? {
                    Ans::Slot(b) => Ok(b),
                    a => odd(a),
                }
            }
            pub $($asy)? fn get_slot(&self) -> Result<u64> {
                self.get_slot_with_commitment(self.commitment) $($aw)*
            }
            pub $($asy)? fn get_epoch_info_with_commitment(&self, c: CommitmentConfig) -> Result<solana_sdk::epoch_info::EpochInfo> {
                let absolute_slot = self.get_slot_with_commitment(c) $($aw)*?;
                Ok(solana_sdk::epoch_info::EpochInfo {
                    epoch: 0,
                    slot_index: absolute_slot,
                    slots_in_epoch: 432000,
                    absolute_slot,
                    block_height: absolute_slot,
                    transaction_count: None,
                })
            }
            pub $($asy)? fn get_epoch_info(&self) -> Result<solana_sdk::epoch_info::EpochInfo> {
                self.get_epoch_info_with_commitment(self.commitment) $($aw)*
            }
            pub $($asy)? fn get_account_with_config(
                &self,
                k: &Pubkey,
                config: RpcAccountInfoConfig,
            ) -> Result<Response<Option<Account>>> {
                self.get_account_with_commitment(k, config.commitment.unwrap_or(self.commitment)) $($aw)*
            }
            pub $($asy)? fn get_multiple_accounts_with_config(
                &self,
                k: &[Pubkey],
                config: RpcAccountInfoConfig,
            ) -> Result<Response<Vec<Option<Account>>>> {
                self.get_multiple_accounts_with_commitment(k, config.commitment.unwrap_or(self.commitment)) $($aw)*
            }
            pub $($asy)? fn get_signature_status_with_commitment(
                &self,
                s: &Signature,
                c: CommitmentConfig,
            ) -> Result<Option<std::result::Result<(), solana_sdk::transaction::TransactionError>>> {
                let l = self.get_signature_statuses(&[*s]) $($aw)*?.value;
                Ok(l[0].clone().filter(|t| t.satisfies_commitment(c)).map(|t| t.status))
            }
            pub $($asy)? fn get_signature_status(
                &self,
                s: &Signature,
            ) -> Result<Option<std::result::Result<(), solana_sdk::transaction::TransactionError>>> {
                self.get_signature_status_with_commitment(s, self.commitment) $($aw)*
            }
            pub $($asy)? fn confirm_transaction_with_commitment(&self, s: &Signature, c: CommitmentConfig) -> Result<Response<bool>> {
                let r = self.get_signature_statuses(&[*s]) $($aw)*?;
                let ok = r.value[0].as_ref().map_or(false, |t| t.satisfies_commitment(c) && t.status.is_ok());
                Ok(Response { context: r.context, value: ok })
            }
            pub $($asy)? fn confirm_transaction(&self, s: &Signature) -> Result<bool> {
                Ok(self.confirm_transaction_with_commitment(s, self.commitment) $($aw)*?.value)
            }
            pub $($asy)? fn send<T: serde::de::DeserializeOwned>(
                &self,
                request: crate::rpc_request::RpcRequest,
                params: serde_json::Value,
            ) -> Result<T> {
                let req = Req::Raw { method: request.name().to_string(), params };
                let r: common::Got = $ask(self.call(self.commitment, req)) $($aw)*;
                match r? {
                    Ans::Value(v) => Ok(serde_json::from_value(v)?),
                    a => odd(a),
                }
            }
            /// settings of transactions sent without any given
            pub fn preflight(&self) -> CommitmentLevel {
                self.commitment.commitment
            }
            pub fn failed<T>(what: &str) -> Result<T> {
                Err(ClientErrorKind::Custom(what.to_string()).into())
            }
        }
    };
}

pub mod nonblocking {
    pub mod rpc_client {
        calls!(async ; sim::ask ; .await);
    }
}
pub mod rpc_client {
    calls!( ; sim::ask_now ; );
}
