pub mod rpc {
    pub mod rpc_minimal {
        use jsonrpc_core_client::{RpcChannel, RpcError, RpcResult};
        use solana_client::rpc_config::RpcContextConfig;
        use solana_sdk::epoch_info::EpochInfo;
        #[derive(Clone)]
        pub struct MinimalClient(RpcChannel);
        impl From<RpcChannel> for MinimalClient {
            fn from(c: RpcChannel) -> Self {
                MinimalClient(c)
            }
        }
        impl MinimalClient {
            pub async fn get_epoch_info(&self, c: Option<RpcContextConfig>) -> RpcResult<EpochInfo> {
                let commitment = c.and_then(|c| c.commitment).unwrap_or_default();
                let r = sim::ask(sim::Call { url: self.0 .0.clone(), commitment, timeout: None, req: sim::Req::Slot }).await;
                match r {
                    Ok(sim::Ans::Slot(absolute_slot)) => Ok(EpochInfo {
                        epoch: 0,
                        slot_index: absolute_slot,
                        slots_in_epoch: 432000,
                        absolute_slot,
                        block_height: absolute_slot,
                        transaction_count: None,
                    }),
                    other => Err(RpcError(format!("{other:?}"))),
                }
            }
        }
    }
}
