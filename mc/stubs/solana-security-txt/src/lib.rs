//! Stand-in for `solana-security-txt` (not available offline): the macro only
//! places a text section in the on-chain ELF file.
#[macro_export]
macro_rules! security_txt {
    ($($t:tt)*) => {};
}
