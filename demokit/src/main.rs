#![allow(warnings)]
mod act;
mod demo;
mod ledger;
mod mirror;
mod rogue;
mod scenario;
mod st;
mod vm;
mod world;
fn main() {
    vm::install_panic_hook();
    let t = std::thread::Builder::new().stack_size(768 << 20).spawn(|| {
        let w = match world::World::deploy() {
            Ok(w) => w,
            Err(e) => {
                print!("{}", e);
                return 3;
            }
        };
        if std::env::args().any(|a| a == "probe") {
            return 0;
        }
        let mut d = demo::D::new(&w);
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| scenario::run(&mut d))) {
            Ok(()) => {
                println!("demo: as it should be");
                0
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("demo: WRONG: {}", m);
                1
            }
        }
    });
    std::process::exit(t.unwrap().join().unwrap_or(2))
}
