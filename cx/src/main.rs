mod accts;
mod chain;
mod confirm;
mod conv;
mod fetch;
mod ledger;
mod script;
mod snap;
mod tx;

use obmc::report::{run_check, Check, Tier};

fn checks() -> Vec<Check> {
    vec![
        Check { id: "C44", parts: tx::c44 },
        Check { id: "C45", parts: accts::parts },
        Check { id: "C46", parts: fetch::parts },
        Check { id: "C47", parts: chain::parts },
        Check { id: "C48", parts: confirm::parts },
        Check { id: "C49", parts: conv::parts },
        Check { id: "C50", parts: snap::parts },
    ]
}

/// Sleeping and looking at the clock, in made-up time on the threads that live in it.
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if sim::clock::now().is_some() {
        sim::clock::sleep((*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, t, rem) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
    if let Some(n) = sim::clock::now() {
        (*t).tv_sec = (n / 1_000_000_000) as libc::time_t;
        (*t).tv_nsec = (n % 1_000_000_000) as libc::c_long;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, c, t) as libc::c_int
}

fn main() {
    // the client keeps whole book accounts on the stack
    std::env::set_var("RUST_MIN_STACK", "67108864");
    ledger::install_keys();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("list") {
        for c in checks() {
            println!("{}", c.id);
        }
        return;
    }
    let tier = match a.get(3).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match checks().iter().find(|c| Some(c.id) == a.get(2).map(|s| s.as_str())) {
        Some(c) => run_check(c, tier),
        None => {
            eprintln!("usage: obcx check <property> [quick|thorough]");
            2
        }
    };
    std::process::exit(code);
}
