use obmc::{checks, report};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => report::Tier::Thorough,
                _ => report::Tier::Quick,
            };
            match checks::checks().iter().find(|c| Some(c.id) == a.get(2).map(|s| s.as_str())) {
                Some(c) => report::run_check(c, tier),
                None => {
                    eprintln!("unknown property");
                    2
                }
            }
        }
        Some("list") => {
            for c in checks::checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: obmc check <property> [quick|thorough]");
            2
        }
    };
    obmc::ts::shutdown();
    std::process::exit(code);
}
