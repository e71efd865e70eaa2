//! Accounts as they travel in answers of a node.
use serde::{Deserialize, Serialize};
use solana_sdk::account::{Account, ReadableAccount, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use std::str::FromStr;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[serde(rename_all = "camelCase")]
pub enum UiAccountEncoding {
    Binary,
    Base58,
    Base64,
    JsonParsed,
    #[serde(rename = "base64+zstd")]
    Base64Zstd,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub struct UiDataSliceConfig {
    pub offset: usize,
    pub length: usize,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
#[serde(untagged)]
pub enum UiAccountData {
    LegacyBinary(String),
    Binary(String, UiAccountEncoding),
}
impl UiAccountData {
    pub fn decode(&self) -> Option<Vec<u8>> {
        match self {
            UiAccountData::Binary(b, UiAccountEncoding::Base64) => base64::decode(b).ok(),
            _ => None,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct UiAccount {
    pub lamports: u64,
    pub data: UiAccountData,
    pub owner: String,
    pub executable: bool,
    pub rent_epoch: u64,
    pub space: Option<u64>,
}
impl UiAccount {
    pub fn encode<T: ReadableAccount>(
        _pubkey: &Pubkey,
        account: &T,
        encoding: UiAccountEncoding,
        _parsed: Option<()>,
        slice: Option<UiDataSliceConfig>,
    ) -> Self {
        let d = account.data();
        let cut = match slice {
            Some(s) => &d[s.offset.min(d.len())..(s.offset + s.length).min(d.len())],
            None => d,
        };
        UiAccount {
            lamports: account.lamports(),
            data: UiAccountData::Binary(base64::encode(cut), encoding),
            owner: account.owner().to_string(),
            executable: account.executable(),
            rent_epoch: account.rent_epoch(),
            space: Some(d.len() as u64),
        }
    }
    pub fn decode<T: WritableAccount>(&self) -> Option<T> {
        let data = self.data.decode()?;
        Some(T::create(self.lamports, data, Pubkey::from_str(&self.owner).ok()?, self.executable, self.rent_epoch))
    }
}
/// so that the plain account type is known to implement the traits used here
pub type PlainAccount = Account;
