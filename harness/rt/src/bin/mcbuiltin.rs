//! mcbuiltin <tier> [mode]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mode = a.get(2).map(|s| &s[..]).unwrap_or("all");
    mcrt::quiet_panics();
    mcrt::builtin::run(&a[1], mode);
}
