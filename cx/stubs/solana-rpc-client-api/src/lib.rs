pub use solana_client::{client_error, rpc_config as config, rpc_filter as filter, rpc_request as request, rpc_response as response};
