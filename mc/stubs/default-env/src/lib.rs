//! Stand-in for the `default-env` macro crate (not available offline).
#[macro_export]
macro_rules! default_env {
    ($name:expr, $default:expr) => {
        $default
    };
}
