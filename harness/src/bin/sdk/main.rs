#[path = "../core/c04.rs"]
#[allow(dead_code)]
mod c04;
#[path = "../core/gen.rs"]
#[allow(dead_code)]
mod gen;
mod c19;
mod mirror;
use mc::report::Report;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    mc::chain::install_panic_hook();
    mc::chain::start_watchdog(60);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if a.get(2).map(String::as_str) == Some("thorough") || tier == "thorough" { "thorough" } else { "quick" };
    let mut r = Report::new(&a[1], tier);
    match a[1].as_str() {
        "C19" => c19::run(&mut r),
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
