//! Monitors of the public library (codecs, addresses and hashes, merkle tree). A program of its own,
//! so that a change of the library's interface cannot keep the contract monitors from building.
#![allow(dead_code)]
mod cli;
mod model;
mod rng;
mod run;
mod sim;
#[path = "lib/c22.rs"]
mod c22;
#[path = "lib/c23.rs"]
mod c23;
#[path = "lib/c31.rs"]
mod c31;

fn main() {
    cli::main(vec![c22::PROP, c23::PROP, c31::PROP])
}
