//! The part of the interface the client implements.
use anyhow::Result;
use solana_sdk::{account::Account, instruction::AccountMeta, pubkey::Pubkey};
use std::collections::HashMap;

pub type AccountMap = HashMap<Pubkey, Account>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum SwapMode {
    #[default]
    ExactIn,
    ExactOut,
}

#[derive(Debug)]
pub struct QuoteParams {
    pub in_amount: u64,
    pub input_mint: Pubkey,
    pub output_mint: Pubkey,
}

#[derive(Debug, Clone, Default)]
pub struct Quote {
    pub not_enough_liquidity: bool,
    pub min_in_amount: Option<u64>,
    pub min_out_amount: Option<u64>,
    pub in_amount: u64,
    pub out_amount: u64,
    pub fee_amount: u64,
    pub fee_mint: Pubkey,
    pub fee_pct: f64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Side {
    Bid,
    Ask,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Swap {
    Openbook { side: Side },
}

pub struct SwapParams<'a> {
    pub in_amount: u64,
    pub source_mint: Pubkey,
    pub destination_mint: Pubkey,
    pub user_destination_token_account: Pubkey,
    pub user_source_token_account: Pubkey,
    pub user_transfer_authority: Pubkey,
    pub open_order_address: Option<Pubkey>,
    pub quote_mint_to_referrer: Option<&'a HashMap<Pubkey, Pubkey>>,
    pub jupiter_program_id: &'a Pubkey,
}

pub struct SwapAndAccountMetas {
    pub swap: Swap,
    pub account_metas: Vec<AccountMeta>,
}

pub struct KeyedAccount {
    pub key: Pubkey,
    pub account: Account,
    pub params: Option<String>,
}

pub trait Amm {
    fn from_keyed_account(keyed_account: &KeyedAccount) -> Result<Self>
    where
        Self: Sized;
    fn label(&self) -> String;
    fn program_id(&self) -> Pubkey;
    fn key(&self) -> Pubkey;
    fn get_reserve_mints(&self) -> Vec<Pubkey>;
    fn get_accounts_to_update(&self) -> Vec<Pubkey>;
    fn update(&mut self, account_map: &AccountMap) -> Result<()>;
    fn quote(&self, quote_params: &QuoteParams) -> Result<Quote>;
    fn get_swap_and_account_metas(&self, swap_params: &SwapParams) -> Result<SwapAndAccountMetas>;
    fn has_dynamic_accounts(&self) -> bool {
        false
    }
    fn requires_update_for_reserve_mints(&self) -> bool {
        false
    }
    fn supports_exact_out(&self) -> bool {
        false
    }
    fn clone_amm(&self) -> Box<dyn Amm + Send + Sync>;
    fn unidirectional(&self) -> bool {
        false
    }
}
