pub use solana_client::{nonblocking, rpc_client};
