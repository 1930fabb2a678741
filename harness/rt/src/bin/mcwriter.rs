//! mcwriter <mode> <tier>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let thorough = a.get(2).is_some_and(|t| t == "thorough");
    mcrt::quiet_panics();
    match &a[1][..] {
        "placement" => mcrt::writer::placement(thorough),
        "sizes" => mcrt::writer::sizes(thorough),
        "batches" => mcrt::writer::batches(thorough),
        "dynamic" => mcrt::writer::dynamic(thorough),
        "arrays" => mcrt::writer::arrays(thorough),
        "faults" => mcrt::faults::run(thorough),
        "unwind" => mcrt::unwind::run(thorough),
        "independent" => {
            let n = |i: usize| a.get(i).map_or(0, |x| x.parse().unwrap());
            mcrt::indep::run(thorough, n(3), n(4).max(1))
        },
        "transcript" => mcrt::writer::transcript(),
        m => panic!("mode {m}"),
    }
}
