mod pure;
#[allow(dead_code)]
#[path = "../mc/tx.rs"]
mod tx;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "op" {
        std::process::exit(pure::op_main(a[2].parse().expect("operation number")));
    }
    std::process::exit(harness::engine::run_main(pure::registry()));
}
