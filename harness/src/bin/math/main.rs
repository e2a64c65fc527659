mod c16;
mod c17;
mod c18;
mod c20;
mod c23;
use mc::report::Report;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    mc::chain::install_panic_hook();
    mc::chain::start_watchdog(60);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if a.get(2).map(String::as_str) == Some("thorough") || tier == "thorough" { "thorough" } else { "quick" };
    let mut r = Report::new(&a[1], tier);
    match a[1].as_str() {
        "C16" => c16::run(&mut r),
        "C20" => c20::run(&mut r),
        "C23" => c23::run(&mut r),
        "C17" => c17::run(&mut r),
        "C18" => c18::run(&mut r),
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
