//! replay <harness> <args...>: runs one harness concretely against the real crate.
use mh::vx::EXPECT;
use std::sync::atomic::Ordering;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        if EXPECT.load(Ordering::SeqCst) {
            println!("EXPECTED-PANIC");
            std::process::exit(0)
        }
        println!("PANIC {}", i.to_string().replace('\n', " "));
        std::process::exit(3)
    }));
    if !mh::dispatch(&a[0], &a[1..]) {
        println!("UNKNOWN-HARNESS");
        std::process::exit(4)
    }
    if EXPECT.load(Ordering::SeqCst) {
        println!("NO-PANIC");
        std::process::exit(1)
    }
    println!("OK");
}
