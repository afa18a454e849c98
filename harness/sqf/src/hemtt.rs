//! The hemtt command line, started exactly as bin/src/main.rs starts it.
use clap::Parser;
fn main() {
    std::panic::set_hook(Box::new(|panic| {
        eprintln!("PANIC {panic}");
        std::process::exit(101);
    }));
    if let Err(e) = hemtt::execute(&hemtt::Cli::parse()) {
        eprintln!("ERROR {e}");
        std::process::exit(1);
    }
}
