#[derive(Debug, Clone)]
pub struct RpcChannel(pub String);
#[derive(Debug)]
pub struct RpcError(pub String);
pub type RpcResult<T> = Result<T, RpcError>;
pub mod transports {
    pub mod http {
        pub async fn connect<C: From<crate::RpcChannel>>(url: &str) -> crate::RpcResult<C> {
            Ok(crate::RpcChannel(url.to_string()).into())
        }
    }
}
