mod args;
mod db;
mod driver;
mod exec;
mod gen;
mod gen2;
mod interpose;
mod minimise;
mod model;
mod pb;
mod plan;
mod scen_db;
mod scen_http;
mod scen_misc;
mod worker;

fn main() {
    let a = args::own();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("worker") => { worker::main(); 0 }
        Some("check") => driver::check(&a[2]),
        Some("replay") => driver::replay(&a[2], a.iter().any(|x| x == "--log")),
        Some("one") => driver::one(&a[2], a[3].parse().unwrap(), a.iter().any(|x| x == "--log")),
        Some("selftest") => driver::selftest(&a[2], a.get(3).map_or(20, |n| n.parse().unwrap())),
        _ => { eprintln!("usage: harness check ID | replay FILE [--log] | one ID SEED [--log] | selftest ID [N]"); 2 }
    };
    std::process::exit(code);
}
