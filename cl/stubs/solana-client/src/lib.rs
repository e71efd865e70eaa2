//! Types only: nothing here is ever called by the checks.
use solana_sdk::{
    commitment_config::CommitmentConfig,
    hash::Hash,
    signature::Signature,
    transaction::{Transaction, TransactionError},
};

pub mod client_error {
    #[derive(Debug)]
    pub struct ClientError(pub String);
    pub type Result<T> = std::result::Result<T, ClientError>;
}
use client_error::{ClientError, Result};
impl From<TransactionError> for ClientError {
    fn from(e: TransactionError) -> Self {
        ClientError(format!("{e:?}"))
    }
}
impl From<rpc_request::RpcError> for ClientError {
    fn from(e: rpc_request::RpcError) -> Self {
        ClientError(format!("{e:?}"))
    }
}

pub mod rpc_request {
    #[derive(Debug)]
    pub enum RpcError {
        ForUser(String),
    }
}

pub struct Response<T> {
    pub value: T,
}

#[derive(Clone)]
pub struct TransactionStatus {
    pub slot: u64,
    pub err: Option<TransactionError>,
}
impl TransactionStatus {
    pub fn satisfies_commitment(&self, _c: CommitmentConfig) -> bool {
        true
    }
}

pub mod rpc_client {
    pub use super::RpcClient;
}
pub struct RpcClient;
impl RpcClient {
    pub fn commitment(&self) -> CommitmentConfig {
        CommitmentConfig::processed()
    }
    pub fn send_transaction(&self, _t: &Transaction) -> Result<Signature> {
        Err(ClientError(String::new()))
    }
    pub fn get_latest_blockhash_with_commitment(&self, _c: CommitmentConfig) -> Result<(Hash, u64)> {
        Err(ClientError(String::new()))
    }
    pub fn get_signature_statuses(&self, _s: &[Signature]) -> Result<Response<Vec<Option<TransactionStatus>>>> {
        Err(ClientError(String::new()))
    }
    pub fn is_blockhash_valid(&self, _h: &Hash, _c: CommitmentConfig) -> Result<bool> {
        Err(ClientError(String::new()))
    }
}
