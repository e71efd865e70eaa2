use std::str::FromStr;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub enum Cluster {
    Testnet,
    Mainnet,
    Devnet,
    #[default]
    Localnet,
    Debug,
    Custom(String, String),
}
impl Cluster {
    pub fn url(&self) -> &str {
        match self {
            Cluster::Devnet => "https://api.devnet.solana.com",
            Cluster::Testnet => "https://api.testnet.solana.com",
            Cluster::Mainnet => "https://api.mainnet-beta.solana.com",
            Cluster::Localnet => "http://127.0.0.1:8899",
            Cluster::Debug => "http://34.90.18.145:8899",
            Cluster::Custom(url, _) => url,
        }
    }
    pub fn ws_url(&self) -> &str {
        match self {
            Cluster::Custom(_, ws) => ws,
            _ => "ws://127.0.0.1:9000",
        }
    }
}
impl FromStr for Cluster {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        Ok(Cluster::Custom(s.to_string(), s.replacen("http", "ws", 1)))
    }
}
#[derive(Debug, thiserror::Error)]
pub enum ClientError {
    #[error("Account not found")]
    AccountNotFound,
    #[error("{0}")]
    SolanaClientError(#[from] solana_client::client_error::ClientError),
    #[error("Unable to parse log: {0}")]
    LogParseError(String),
}
pub use solana_client;
pub use solana_sdk;
