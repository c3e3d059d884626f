#![allow(clippy::all)]
#[macro_use]
extern crate adapton;
mod coll;
mod macs; mod cycles; mod driver; mod gen; mod graph; mod minimize; mod model; mod names; mod prog; mod props; mod real; mod rng; mod run; mod sx; mod threads; mod tracechk;
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
