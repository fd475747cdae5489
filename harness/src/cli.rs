//! Command line shared by the two monitor programs.
use crate::run::{run, Opts, Prop, Tier};

pub fn main(all: Vec<Prop>) {
    crate::sim::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut o = Opts {
        base: std::env::var("HPLMON_BASE").unwrap_or_else(|_| ".".into()).into(),
        tier: match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        },
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        only: None,
        cases: None,
    };
    let mut id = String::new();
    let mut i = 1;
    while i < args.len() {
        let nxt = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--seed" => {
                o.seed = nxt.parse().unwrap();
                i += 1
            }
            "--case" => {
                o.only = Some(nxt.parse().unwrap());
                i += 1
            }
            "--cases" => {
                o.cases = Some(nxt.parse().unwrap());
                i += 1
            }
            "--tier" => {
                o.tier = if nxt == "thorough" { Tier::Thorough } else { Tier::Quick };
                i += 1
            }
            "--list" => {
                for p in &all {
                    println!("{}", p.id);
                }
                return;
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let Some(p) = all.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(4);
    };
    // generous wall-clock watchdog: a hang is inconclusive, never a violation
    let lim = if o.tier == Tier::Quick { 500 } else { 860 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(lim));
        println!("INCONCLUSIVE: watchdog");
        std::process::exit(5);
    });
    std::process::exit(run(p, &o));
}
