//! Gas payments: exact charge, exact refund, full claim.
use super::igpw::*;
use super::util::*;
use crate::model::{unpad, Big};
use crate::run::{Case, Prop};
use crate::sim::b32;
use crate::stubs::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 133300,
    thorough: 5333000,
    rule: "one judged payment or claim; nontrivial when a refund is due, the payment is short, the quote is zero, the denomination is wrong or the refund target is unusual; distinct by (entry point, relation of payment to price, refund target form, funds form, outcome)",
    floors: &["exact_payment", "overpaid_refunded", "underpaid_refused", "wrong_denom_refused", "claimed", "zero_quote_paid", "refund_20", "refund_32", "refund_padded", "refund_default", "refund_participant"],
};

fn run(c: &mut Case) {
    let Some(mut w) = Igp::new(c, true) else { return };
    let mut held: u128 = 0;
    let plain = w.ch.user("payer");
    for step in 0..c.rng.many(5, 14) {
        if c.rng.pct(20) {
            w.reconfigure(c, true);
        }
        if c.rng.pct(12) {
            // beneficiary collects everything that was paid, exactly once
            let before = w.ch.balance(&w.ben, w.token);
            let who = if c.rng.pct(30) { w.owner.clone() } else { w.ben.clone() };
            let had = w.ch.balance(&who, w.token);
            let r = w.ch.exec(&who, &w.addr, &json!({"claim":{}}), &[]);
            let gained = w.ch.balance(&w.ben, w.token) - before;
            if who == w.ben && held > 0 {
                c.check(r.is_ok() && gained == held, "claim", || format!("held {held}, beneficiary gained {gained}: {}", brief(&r)));
                c.stat("claimed", 1);
                held = 0;
            } else if who != w.ben {
                c.check(gained == 0 && w.ch.balance(&who, w.token) == had, "foreign-claim", || format!("{who}: {}", brief(&r)));
            }
            c.check(w.ch.balance(&w.addr, w.token) == held, "held", || format!("holds {}, accounted {held}", w.ch.balance(&w.addr, w.token)));
            if c.rng.pct(40) {
                let nb = w.ch.user(&format!("ben{}", c.rng.below(4)));
                let r = w.ch.exec(&w.owner, &w.addr, &json!({"set_beneficiary":{"beneficiary":nb}}), &[]);
                if c.must(r, "set beneficiary").is_some() {
                    w.ben = nb;
                }
            }
            continue;
        }
        let d = if c.rng.pct(5) { c.rng.dom() } else { *c.rng.pick(&w.doms) };
        let (mut md, lim, mut tail) = metadata(&mut c.rng, true);
        // who has a part in the paymaster's configuration, or is the paymaster, may also pay and be refunded
        let special = [plain.clone(), w.ben.clone(), w.owner.clone(), w.addr.clone(), w.oracles[0].clone(), w.ch.user("ben1")];
        let payer = if c.rng.pct(20) { c.rng.pick(&special[1..3]).clone() } else { plain.clone() };
        let sp = crate::sim::unb32(c.rng.pick(&special)).unwrap().1;
        if lim.is_some() && c.rng.pct(30) && [20, 32].contains(&tail.len()) {
            md.truncate(32);
            tail = if sp.len() == 20 && tail.len() == 20 { sp.clone() } else { crate::model::pad32(&sp).to_vec() };
            md.extend(&tail);
            c.stat("refund_participant", 1);
        }
        let direct = c.rng.pct(40);
        let mut sender = c.rng.word();
        if c.rng.pct(25) {
            sender = crate::model::pad32(&sp).to_vec();
        }
        if sender[..12].iter().all(|b| *b == 0) && sender[12..].iter().all(|b| *b == 0) {
            sender[31] = 9;
        }
        let mut m = { let x = word32(&mut c.rng); random_msg(&mut c.rng, d, x) };
        m.sender = sender.clone().try_into().unwrap();
        let (gas, refund, form) = if direct {
            let u = if c.rng.pct(30) { c.rng.pick(&special).clone() } else { w.ch.user(&format!("refund{}", c.rng.below(3))) };
            (Big::from_u128(small_gas(&mut c.rng)), u, "direct")
        } else {
            let (raw, f) = match tail.len() {
                20 if lim.is_some() => (tail.clone(), "refund_20"),
                32 if lim.is_some() => {
                    let u = unpad(&tail);
                    let f = if u.len() == 20 { "refund_padded" } else { "refund_32" };
                    (u, f)
                }
                _ => (unpad(&sender), "refund_default"),
            };
            (lim.clone().unwrap_or(Big::from_u128(w.gas(d))), b32(&w.ch.hrp, &raw), f)
        };
        let price = w.price(d, &gas).and_then(|(b, _)| b.to_u128());
        // what the payer attaches
        let p = price.unwrap_or(1000);
        let look = lookalike(&mut c.rng, w.token);
        let look = if c.rng.bool() { look.as_str() } else { "uother" };
        let (funds, sit): (Vec<(u128, &str)>, &str) = match c.rng.below(10) {
            0 => (vec![], "none"),
            1 if p > 0 => (vec![(p - 1, w.token)], "short"),
            2 => (vec![(p, look)], "wrong"),
            3 => (vec![(p.max(1), w.token), (1, look)], "extra-denom"),
            4 | 5 => (vec![(p + c.rng.range(1, 1000) as u128, w.token)], "over"),
            6 if p > 1 => (vec![(c.rng.u128() % p, w.token)], "short"),
            7 => (vec![(p + c.rng.amt_small(), w.token)], "over"),
            _ => (vec![(p, w.token)], "exact"),
        };
        let funds: Vec<(u128, &str)> = funds.into_iter().filter(|f| f.0 > 0).collect();
        let sit = if funds.is_empty() { "none" } else { sit };
        let f = coins(&funds);
        if !fund(&w.ch, &payer, &f) {
            continue;
        }
        let paid = funds.iter().filter(|x| x.1 == w.token).map(|x| x.0).sum::<u128>();
        let msg = if direct {
            json!({"pay_for_gas":{"message_id":hexs(m.id()),"dest_domain":d,"gas_amount":gas.dec(),"refund_address":refund}})
        } else {
            json!({"post_dispatch":{"metadata":hexs(&md),"message":hexs(m.encode())}})
        };
        let pre = w.ch.all_balances();
        let r = w.ch.exec(&payer, &w.addr, &msg, &f);
        let post = w.ch.all_balances();
        c.log(|| format!("step {step}: {form} domain {d} price {price:?} funds {funds:?} refund {refund} -> {}", brief(&r)));
        let sole = funds.iter().all(|x| x.1 == w.token);
        let enough = price.map(|p| paid >= p).unwrap_or(false);
        if r.is_ok() {
            c.check(price.is_some(), "unpriced-accepted", || format!("domain {d}"));
            c.check(enough, "underpaid-accepted", || format!("{form}: price {price:?}, paid {paid}, {sit}"));
            let Some(p) = price else { continue };
            // every coin accounted for: payer -> paymaster (price) and refund target (rest)
            let mut want = pre.clone();
            for (a, dn) in &funds {
                *want.entry((payer.clone(), dn.to_string())).or_insert(0) -= a;
                if *dn != w.token {
                    // a foreign coin must not be swallowed
                    *want.entry((payer.clone(), dn.to_string())).or_insert(0) += a;
                }
            }
            *want.entry((w.addr.clone(), w.token.into())).or_insert(0) += p.min(paid);
            *want.entry((refund.clone(), w.token.into())).or_insert(0) += paid.saturating_sub(p);
            want.retain(|_, v| *v > 0);
            c.check(post == want, "balances", || {
                let diff: Vec<_> = post.iter().filter(|(k, v)| want.get(k) != Some(v)).chain(want.iter().filter(|(k, v)| post.get(k) != Some(v))).collect();
                format!("{form}: price {p} paid {paid} refund to {refund}: {diff:?}")
            });
            held += if refund == w.addr { paid } else { p.min(paid) };
            if paid > p {
                c.stat("overpaid_refunded", 1);
                c.stat(form, 1);
            } else {
                c.stat("exact_payment", 1);
            }
            if p == 0 {
                c.stat("zero_quote_paid", 1);
            }
        } else {
            c.check(post == pre, "failed-but-moved", || format!("{form} {sit}"));
            if enough && sole {
                c.check(false, "sufficient-refused", || format!("{form}: price {price:?}, paid {paid}: {}", brief(&r)));
            }
            if !sole {
                c.stat("wrong_denom_refused", 1);
            } else if price.is_some() {
                c.stat("underpaid_refused", 1);
            }
        }
        c.check(w.ch.balance(&w.addr, w.token) == held, "held", || format!("holds {}, accounted {held}", w.ch.balance(&w.addr, w.token)));
        c.check(w.ch.balances(&w.addr).iter().all(|x| x.denom == w.token || x.amount.is_zero()), "held-other", || "foreign coins stuck in the paymaster".into());
        let rel = match price { None => "unpriced", Some(0) => "zero", Some(p) if paid < p => "short", Some(p) if paid == p => "exact", _ => "over" };
        c.eval(format!("{direct}|{rel}|{form}|{sit}|{}|{}", r.is_ok(), tail.len()), rel != "exact" || form != "direct");
    }
}
