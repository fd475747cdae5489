//! The gas oracle reports exactly the last valid configuration.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 300000,
    thorough: 12000000,
    rule: "one judged configuration call plus full read-back; nontrivial when it overwrites, repeats a domain inside a batch, or contains an invalid entry; distinct by (call form, batch shape, invalid position, outcome, table size)",
    floors: &["set", "overwritten", "batch", "repeat_in_batch", "zero_rate_refused", "unknown_domain_refused", "atomic_batch"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let owner = ch.user("owner");
    let r = ch.deploy(&ch.user("deployer"), &codes::igp_oracle(), &json!({"owner":owner}));
    let Some(o) = c.must(r, "instantiate") else { return };
    let mut doms: Vec<u32> = (0..4).map(|_| c.rng.dom()).collect();
    let d0 = doms[0];
    doms.push(d0.swap_bytes());
    doms.push(d0 ^ 1);
    let mut t: BTreeMap<u32, (u128, u128)> = BTreeMap::new();
    for step in 0..c.rng.many(4, 12) {
        let single = c.rng.bool();
        let crowd = !single && c.rng.below(200) == 0;
        if crowd {
            for _ in 0..c.rng.range(30, 150) {
                doms.push(c.rng.next() as u32);
            }
        }
        let n = if single { 1 } else if crowd { doms.len() + 20 } else { c.rng.below(5) as usize };
        let mut l: Vec<(u32, u128, u128)> = (0..n).map(|_| (*c.rng.pick(&doms), c.rng.amt().max(1), c.rng.amt())).collect();
        let mut bad = None;
        if n > 0 && c.rng.pct(25) {
            let i = c.rng.idx(n);
            l[i].1 = 0;
            bad = Some(i);
        }
        let cfg: Vec<_> = l.iter().map(|(d, r, p)| json!({"remote_domain":d,"token_exchange_rate":r.to_string(),"gas_price":p.to_string()})).collect();
        let m = if single { json!({"set_remote_gas_data":{"config":cfg[0]}}) } else { json!({"set_remote_gas_data_configs":{"configs":cfg}}) };
        let r = ch.exec(&owner, &o, &m, &[]);
        c.log(|| format!("step {step}: single {single} {l:?} -> {}", brief(&r)));
        let mut over = false;
        if bad.is_some() {
            // a zero exchange rate would price every delivery at zero
            c.check(r.is_err(), "zero-rate-accepted", || format!("single {single}: {l:?}"));
            c.stat("zero_rate_refused", 1);
            if n > 1 {
                c.stat("atomic_batch", 1);
            }
        } else if c.check(r.is_ok(), "valid-refused", || format!("{l:?}: {}", brief(&r))) {
            let mut seen = std::collections::BTreeSet::new();
            for (d, r, p) in &l {
                if !seen.insert(*d) {
                    c.stat("repeat_in_batch", 1);
                    over = true;
                } else if t.contains_key(d) {
                    c.stat("overwritten", 1);
                    over = true;
                }
                t.insert(*d, (*r, *p));
            }
            c.stat(if single { "set" } else { "batch" }, 1);
        }
        for d in &doms {
            let q = ch.query(&o, json!({"oracle":{"get_exchange_rate_and_gas_price":{"dest_domain":d}}}));
            match t.get(d) {
                Some((r, p)) => {
                    c.check(q.as_ref().map(|v| v["exchange_rate"] == json!(r.to_string()) && v["gas_price"] == json!(p.to_string())).unwrap_or(false), "read-back", || format!("domain {d}: {q:?}, configured rate {r} price {p}"));
                }
                None => {
                    c.check(q.is_err(), "invented", || format!("domain {d} was never configured: {q:?}"));
                    c.stat("unknown_domain_refused", 1);
                }
            }
        }
        c.eval(format!("{single}|{n}|{bad:?}|{}|{}|{over}", r.is_ok(), t.len()), over || bad.is_some());
    }
}
