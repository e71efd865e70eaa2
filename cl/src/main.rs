#![allow(dead_code)]
#[path = "/repo/lib/client/src/book.rs"]
mod book;
#[path = "/repo/lib/client/src/chain_data.rs"]
pub mod chain_data;
#[path = "/repo/lib/client/src/jup.rs"]
mod jup;
#[path = "/repo/lib/client/src/util.rs"]
mod util;
pub use book::*;
pub use jup::*;
pub use util::*;

/// Not exercised: only re-exported by the cache module.
mod chain_data_fetcher {
    pub struct AccountFetcher;
}

mod cache;
mod quotes;

use obmc::report::{run_check, Check, Tier};

fn checks() -> Vec<Check> {
    vec![
        Check { id: "C36", parts: quotes::c36 },
        Check { id: "C37", parts: quotes::c37 },
        Check { id: "C38", parts: cache::c38 },
    ]
}

fn main() {
    // the client keeps whole book accounts on the stack
    std::env::set_var("RUST_MIN_STACK", "67108864");
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for c in checks() {
            println!("{}", c.id);
        }
        return;
    }
    let tier = match a.get(3).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match checks().iter().find(|c| Some(c.id) == a.get(2).map(|s| s.as_str())) {
        Some(c) => run_check(c, tier),
        None => {
            eprintln!("usage: obcl check <property> [quick|thorough]");
            2
        }
    };
    std::process::exit(code);
}
