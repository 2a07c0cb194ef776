#[macro_use]
mod rt;
mod exec;
mod gen;
mod lin;
mod model;
mod orch;
mod scen;
mod worker;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker::main(&a[2], a[3].parse().unwrap()),
        Some("check") => orch::check(&a[2..]),
        Some("replay") => orch::replay(&a[2..]),
        Some("one") => orch::one(&a[2..]),
        Some("selftest") => orch::selftest(&a[2..]),
        _ => {
            eprintln!("usage: indrasim check|replay|one|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
