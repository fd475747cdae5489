//! The same history always has the same effect.
use crate::rng::Rng;
use crate::run::{Case, Out, Prop};
use crate::sim::{Tap, TAP};

pub const PROP: Prop = Prop {
    id: "C32",
    run,
    quick: 12000,
    thorough: 600000,
    rule: "one history executed twice from the start (on fresh chains, in one process, so that hash-map seeds, clocks, addresses and left-over globals differ), the two recordings of every storage write, message, event, answer and outcome compared; nontrivial when the recording has more than 20 entries; distinct by (workload, length of the recording)",
    floors: &["equal", "long", "entries"],
};

fn once(p: &Prop, seed: u64, idx: u64, tier: crate::run::Tier, from: usize) -> Tap {
    TAP.with(|t| *t.borrow_mut() = Some(Tap { text_from: from, ..Default::default() }));
    let mut x = Case { rng: Rng::new(seed, idx), idx: idx + 10, tier, logging: false, out: Out::default() };
    // what the workload's own monitor says is its own property's business
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut x)));
    TAP.with(|t| t.borrow_mut().take()).unwrap()
}

fn run(c: &mut Case) {
    let all: Vec<Prop> = super::all().into_iter().filter(|p| !["C32", "C33", "C34", "C35"].contains(&p.id)).collect();
    let k = c.rng.idx(all.len());
    let p = &all[k];
    let (seed, idx) = (c.rng.next(), c.rng.next() >> 32);
    let a = once(p, seed, idx, c.tier, usize::MAX);
    let b = once(p, seed, idx, c.tier, usize::MAX);
    let n = a.seen.len();
    if a.seen != b.seen {
        let at = a.seen.iter().zip(&b.seen).position(|(x, y)| x != y).unwrap_or(n.min(b.seen.len()));
        let x = once(p, seed, idx, c.tier, at);
        let y = once(p, seed, idx, c.tier, at);
        let x = x.text.first().cloned().unwrap_or_default();
        let y = y.text.first().cloned().unwrap_or_default();
        c.viol("differs", format!("workload of {}: the executions part at step {at} of {n}: {} / {}", p.id, x.chars().take(600).collect::<String>(), y.chars().take(600).collect::<String>()));
    } else {
        c.stat("equal", 1);
    }
    c.stat("entries", n as u64);
    if n > 200 {
        c.stat("long", 1);
    }
    c.eval(format!("{}|{n}", p.id), n > 20);
}
