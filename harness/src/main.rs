mod api;
mod bulk;
mod clock;
mod model;
mod pool;
mod replay;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    match args.first().map(|s| s.as_str()) {
        Some("replay") => replay::main(&args[1..]),
        Some("bulk") => bulk::main(&args[1..]),
        _ => {
            eprintln!("usage: moka-verif replay FILE...");
            std::process::exit(2);
        }
    }
}
