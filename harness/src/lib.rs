pub mod conv;
pub mod gen;
pub mod out;
pub mod reqs;
pub mod serve;
pub mod srv;
pub mod wire;
pub mod world;
pub mod zonefile;

pub fn arg(n: usize) -> String {
    std::env::args().nth(n).unwrap_or_default()
}

pub fn num(n: usize) -> usize {
    arg(n).parse().unwrap_or(0)
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn deep() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub fn init() {
    if std::env::var("HARNESS_PANICS").is_err() {
        out::quiet_panics();
    }
}
