#[cfg(feature = "sym")]
fn main() {}
#[cfg(not(feature = "sym"))]
fn main() {
    // replay ENTRY ARGS(comma) INPUTS(comma)
    let a: Vec<String> = std::env::args().collect();
    let p = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    harness::run_native(&a[1], &p(&a[2]), p(&a[3]));
}
