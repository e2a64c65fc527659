mod c01;
mod c02;
mod c03;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c13;
mod c14;
mod c15;
mod c21;
mod c22;
mod c24;
mod gen;
mod mixed;
mod c04;
mod c12;
use mc::report::Report;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    mc::chain::install_panic_hook();
    mc::chain::start_watchdog(60);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let tier = if a.get(2).map(String::as_str) == Some("thorough") || tier == "thorough" { "thorough" } else { "quick" };
    let mut r = Report::new(&a[1], tier);
    match a[1].as_str() {
        "C01" => c01::run(&mut r),
        "C12" => c12::run(&mut r),
        "C02" => c02::run(&mut r),
        "C03" => c03::run(&mut r),
        "C04" => c04::run(&mut r),
        "C05" => c05::run(&mut r),
        "C06" => c06::run(&mut r),
        "C07" => c07::run(&mut r),
        "C08" => c08::run(&mut r),
        "C09" => c09::run(&mut r),
        "C10" => c10::run(&mut r),
        "C11" => c11::run(&mut r),
        "C13" => c13::run(&mut r),
        "C14" => c14::run(&mut r),
        "C15" => c15::run(&mut r),
        "C21" => c21::run(&mut r),
        "C22" => c22::run(&mut r),
        "C24" => c24::run(&mut r),
        x => panic!("unknown property {x}"),
    }
    r.finish()
}
