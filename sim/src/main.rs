mod curve;
mod driver;
mod expr;
mod field;
mod props;
mod protocol;
mod rt;
mod scen;
mod sol;
mod yul;
use driver::Tier;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("ZKPSIM_STDERR").is_some() {
            eprintln!("{}", i);
        }
    }));
    // settle what the standard library initialises once per process, so that a replay starts from the same state
    let _ = std::thread::spawn(|| std::panic::catch_unwind(|| panic!("warm up {}", 1)).is_err()).join();
    let _ = std::collections::hash_map::RandomState::new();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if a.iter().any(|x| x == "thorough") { Tier::Thorough } else { Tier::Quick };
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {}", id));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let build: f64 = std::env::var("ZKPSIM_BUILD_S").ok().and_then(|s| s.parse().ok()).unwrap_or(0.0);
            driver::check(find(&a[2]), tier, seed, build).code
        }
        Some("replay") => driver::replay(&props, &a[2]),
        Some("one") => {
            driver::one(find(&a[2]), tier, seed, a[3].parse().unwrap());
            0
        }
        // the simulated chain against the recorded proofs of the repository's end to end test
        Some("calibrate") => props::onchain::calibrate(),
        _ => {
            eprintln!("zkpsim check ID quick|thorough | replay FILE | one ID CASE");
            2
        }
    };
    std::process::exit(code);
}
