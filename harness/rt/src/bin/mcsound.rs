//! mcsound <tier> types|histories <part> <parts>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    mcrt::sound::main(&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
}
