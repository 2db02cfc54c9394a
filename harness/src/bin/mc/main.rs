mod auth;
mod codec;
mod text;
mod tx;
mod wallet;
use harness::engine::Registry;

fn main() {
    let mut r: Registry = vec![];
    r.extend(codec::registry());
    r.extend(text::registry());
    r.extend(tx::registry());
    r.extend(auth::registry());
    r.extend(wallet::registry());
    std::process::exit(harness::engine::run_main(r));
}
