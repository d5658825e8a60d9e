#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;
mod ir;
mod term;
mod poly;
mod flt;
mod prove;
mod interp;
mod models;
mod gen;
mod checks;
use std::ops::ControlFlow;
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("TXA_CRATE").unwrap_or_else(|_| "texpresso".into());
    let (want, bin) = match want.strip_prefix("bin:") {
        Some(w) => (w.to_string(), true),
        None => (want, false),
    };
    let is_target = args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-name" && *b == want)
        && args.iter().zip(args.iter().skip(1)).any(|(a, b)| a == "--crate-type" && *b == "bin") == bin;
    if !is_target {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(101));
    }
    let r = run!(&args, || -> ControlFlow<(), ()> {
        checks::main();
        ControlFlow::Continue(())
    });
    if r.is_err() {
        eprintln!("compilation failed");
        std::process::exit(1);
    }
}
