//! Gas quotes are exact.
use super::igpw::*;
use super::util::*;
use crate::model::Big;
use crate::run::{Case, Prop};
use crate::stubs::*;
use serde_json::{json, Value};

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 133300,
    thorough: 5333000,
    rule: "one judged quote; nontrivial when gas, price and rate are all non-zero; distinct by (bit lengths of gas/price/rate/result, source of the gas amount, remainder zero or not, outcome)",
    floors: &["exact", "rounded_down", "default_gas", "domain_gas", "metadata_gas", "no_oracle_refused", "beyond_u64", "overflow", "zero_quote"],
};

fn run(c: &mut Case) {
    let tame = c.rng.pct(30);
    let Some(mut w) = Igp::new(c, tame) else { return };
    for step in 0..c.rng.many(4, 10) {
        if c.rng.pct(40) {
            w.reconfigure(c, tame);
        }
        let d = if c.rng.pct(10) { c.rng.dom() } else { *c.rng.pick(&w.doms) };
        let (md, lim, _) = metadata(&mut c.rng, tame);
        let mut m = { let x = word32(&mut c.rng); random_msg(&mut c.rng, d, x) };
        m.version = *c.rng.pick(&[3, 3, 0]);
        let gas = lim.clone().unwrap_or(Big::from_u128(w.gas(d)));
        let src = if lim.is_some() { "metadata" } else if w.gas_for.contains_key(&d) { "domain" } else { "default" };
        let want = w.price(d, &gas);
        let q = w.ch.query(&w.addr, json!({"igp":{"quote_gas_payment":{"dest_domain":d,"gas_amount":gas.dec()}}}));
        let qd = w.ch.query(&w.addr, json!({"hook":{"quote_dispatch":{"metadata":hexs(&md),"message":hexs(m.encode())}}}));
        let got = q.as_ref().ok().and_then(|v| v["gas_needed"].as_str().map(|s| s.to_string()));
        let fees: Option<Vec<(String, u128)>> = qd.as_ref().ok().and_then(|v| parse_coins(&v["fees"]));
        c.log(|| format!("step {step}: domain {d} gas {} rate {:?} want {:?} -> {q:?} / {qd:?}", gas.dec(), w.rate(d), want.as_ref().map(|(b, f)| (b.dec(), *f))));
        let mut key = format!("{src}|{}|", gas.bits());
        match &want {
            None => {
                c.check(q.is_err() && qd.is_err(), "unpriced-quoted", || format!("domain {d} has no price: {q:?} {qd:?}"));
                c.stat("no_oracle_refused", 1);
            }
            Some((b, fits)) => {
                let (r, p) = w.rate(d).unwrap();
                if let Some(g) = &got {
                    c.check(*g == b.dec(), "payment-quote", || format!("domain {d} gas {} price {p} rate {r}: quoted {g}, exact {}", gas.dec(), b.dec()));
                    c.stat("exact", 1);
                } else {
                    c.check(!fits, "payment-quote-refused", || format!("domain {d} gas {} price {p} rate {r}: {q:?}, exact {}", gas.dec(), b.dec()));
                    c.stat("overflow", 1);
                }
                if let Some(f) = &fees {
                    let exact: Vec<(String, u128)> = match b.to_u128() {
                        Some(0) => vec![],
                        Some(x) => vec![(w.token.to_string(), x)],
                        None => vec![("too large".into(), 0)],
                    };
                    let f: Vec<_> = f.iter().filter(|x| x.1 > 0).cloned().collect();
                    c.check(f == exact, "dispatch-quote", || format!("domain {d} {src} gas {} price {p} rate {r}: quoted {f:?}, exact {exact:?}", gas.dec()));
                    c.stat(match src { "metadata" => "metadata_gas", "domain" => "domain_gas", _ => "default_gas" }, 1);
                    if b.is_zero() {
                        c.stat("zero_quote", 1);
                    }
                    if b.bits() > 64 {
                        c.stat("beyond_u64", 1);
                    }
                } else {
                    c.check(!fits || b.bits() > 128, "dispatch-quote-refused", || format!("domain {d} {src} gas {} price {p} rate {r}: {qd:?}, exact {}", gas.dec(), b.dec()));
                }
                let prod = gas.mul(&Big::from_u128(p)).mul(&Big::from_u128(r));
                let exact_div = b.mul(&Big::from_u128(10_000_000_000)) == prod;
                if !exact_div && got.is_some() {
                    c.stat("rounded_down", 1);
                }
                key += &format!("{}|{}|{}|{exact_div}|{}", Big::from_u128(p).bits() / 4, Big::from_u128(r).bits() / 4, b.bits() / 4, got.is_some());
                let nt = !gas.is_zero() && p > 0;
                c.eval(&key, nt);
                // the paymaster reports the oracle's own figures
                let o = w.ch.query(&w.addr, json!({"oracle":{"get_exchange_rate_and_gas_price":{"dest_domain":d}}}));
                c.check(o.as_ref().map(|v| v["gas_price"] == json!(p.to_string()) && v["exchange_rate"] == json!(r.to_string())).unwrap_or(false), "oracle-relay", || format!("{o:?} want price {p} rate {r}"));
                continue;
            }
        }
        c.eval(&key, false);
    }
    // configuration queries agree with the history
    let q = w.ch.query(&w.addr, json!({"igp":{"default_gas":{}}}));
    c.check(q.as_ref().map(|v| v["gas"] == json!(w.default_gas.to_string())).unwrap_or(false), "default-gas-query", || format!("{q:?} want {}", w.default_gas));
    let q = w.ch.query(&w.addr, json!({"igp":{"list_gas_for_domains":{"offset":null,"limit":30,"order":"asc"}}}));
    let want: Vec<Value> = w.gas_for.iter().take(30).map(|(d, g)| json!([d, g.to_string()])).collect();
    c.check(q.as_ref().map(|v| v["gas"] == json!(want)).unwrap_or(false), "gas-list-query", || format!("{q:?} want {want:?}"));
}
