mod cli;
mod codes;
mod model;
mod props;
mod rng;
mod run;
mod sim;
mod stubs;


fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--record" {
        return std::fs::write(&a[2], props::golden::record()).unwrap();
    }
    cli::main(props::all())
}
