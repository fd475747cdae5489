//! Dispatch fee flow and quotes.
use super::util::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::{unb32, Kind};
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::json;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 88800,
    thorough: 3555000,
    rule: "one judged dispatch (or quote); nontrivial when fees are non-zero, several denominations, excess, shortfall, custom hook, or a failing hook are involved; distinct by (fee shape, payment relation, hook choice, outcome)",
    floors: &["no_default_needed", "exact", "excess", "short", "custom_hook", "multi_denom", "quote_checked", "failed_refunded", "quoted_twice"],
};

type Map = BTreeMap<String, u128>;

fn fees(c: &mut Case) -> Vec<Coin> {
    let mut d = ["uosmo", "ufee", "ibc/AB", "factory/x/y"].to_vec();
    c.rng.shuffle(&mut d);
    let n = c.rng.pick(&[0usize, 1, 1, 1, 2, 3]).clone();
    let mut v: Vec<Coin> = (0..n).map(|i| coin(c.rng.amt_small(), d[i])).collect();
    if c.rng.pct(10) {
        // a hook may list a denomination it takes nothing in
        v.push(coin(0, d[3]));
    }
    if !v.is_empty() && c.rng.pct(4) {
        // or name one twice, even with the same amount
        let x = c.rng.pick(&v).clone();
        v.push(if c.rng.bool() { x } else { coin(c.rng.amt_small(), &x.denom) });
        c.stat("quoted_twice", 1);
    }
    v
}

fn geq(a: &Map, b: &Map) -> bool {
    b.iter().all(|(k, v)| a.get(k).copied().unwrap_or(0) >= *v)
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    // a mailbox may never be given a default hook: then everybody has to choose one
    let mut no_default = c.rng.pct(15);
    let (dh, rh, da, ra) = if no_default {
        let (d, r) = (HookStub::new(), HookStub::new());
        let (da, ra) = (w.ch.put_stub(d.clone()), w.ch.put_stub(r.clone()));
        w.required_hook(&ra);
        (d, r, da, ra)
    } else {
        w.hooks()
    };
    let ch = HookStub::new();
    let ca = w.ch.put_stub(ch.clone());
    let mut nonce = 0u32;
    // stray money parked in the mailbox must not be spent on anybody's behalf
    let parked = c.rng.pct(40);
    if parked {
        for d in ["uosmo", "ufee", "ibc/AB", "factory/x/y"] {
            w.ch.faucet(&w.mb, d, 1u128 << 110);
        }
    }
    for step in 0..c.rng.many(2, 6) {
        // contracts, the owner and the hooks themselves pay like everybody else
        let sender = match c.rng.below(8) {
            0 => w.owner.clone(),
            1 => c.rng.pick(&[&da, &ra, &ca]).to_string(),
            2 => w.ch.addr_of(&contract_raw(&mut c.rng)),
            _ => w.ch.user(c.rng.pick(&["a", "b"])),
        };
        for h in [&dh, &rh, &ch] {
            *h.quote.borrow_mut() = fees(c);
            *h.exec_mode.borrow_mut() = Mode::Good;
            h.strict.set(false);
        }
        let choice = c.rng.below(5);
        let (hook, sel, sel_a) = match choice {
            0 | 1 => (Some(ca.clone()), &ch, &ca),
            2 => (Some(ra.clone()), &rh, &ra),
            3 => (Some(da.clone()), &dh, &da),
            _ => (None, &dh, &da),
        };
        if no_default && hook.is_none() {
            let u = w.ch.user("undecided");
            w.ch.faucet(&u, "ufee", 1000);
            let before = w.ch.all_balances();
            let r = w.ch.exec(&u, &w.mb, &dispatch_msg(7, &[3; 32], b"", None, None), &[coin(1000, "ufee")]);
            c.check(r.is_err() && w.ch.all_balances() == before, "dispatched-nowhere", || brief(&r).to_string());
            w.default_hook(&da);
            no_default = false;
        }
        c.stat("no_default_needed", no_default as u64);
        let md = if c.rng.bool() { Some(c.rng.blob()) } else { None };
        let rec = c.rng.word();
        let body = c.rng.blob();
        let dest = c.rng.dom();
        let msg = dispatch_msg(dest, &rec, &body, hook.as_deref(), md.as_deref());
        let want_msg = Msg {
            version: 3,
            nonce,
            origin: w.domain,
            sender: pad32(&unb32(&sender).unwrap().1),
            dest,
            recipient: rec.clone().try_into().unwrap(),
            body: body.clone(),
        }
        .encode();
        let want_md = md.clone().unwrap_or_default();
        let qr = coin_map(&rh.quote.borrow());
        let qs = coin_map(&sel.quote.borrow());
        let mut total = qr.clone();
        for (k, v) in &qs {
            *total.entry(k.clone()).or_insert(0) += v;
        }
        // the quote
        let mark = w.ch.mark();
        let q = w.ch.query_traced(&w.mb, json!({"hook":{"quote_dispatch":{"sender":sender,"msg":msg["dispatch"]}}}));
        let asked: Vec<_> = w.ch.evs(mark).into_iter().filter(|e| e.kind == Kind::Query && e.from == w.mb).collect();
        // a hook that names a denomination twice may be found unusable
        let odd = [&rh, sel].iter().any(|h| {
            let q = h.quote.borrow();
            q.iter().enumerate().any(|(i, x)| q[..i].iter().any(|y| y.denom == x.denom))
        });
        let q = if odd && q.is_err() { None } else { c.must(q, "quote") };
        if let Some(q) = q {
            let mut got = Map::new();
            for (d, v) in parse_coins(&q["fees"]).unwrap_or_default() {
                if v > 0 {
                    *got.entry(d).or_insert(0) += v;
                }
            }
            c.check(got == total, "quote-total", || format!("quoted {got:?}, hooks charge {total:?}"));
            let mut to: Vec<String> = asked.iter().map(|e| e.to.clone()).collect();
            to.sort();
            to.dedup();
            let mut want_to = vec![ra.clone(), sel_a.clone()];
            want_to.sort();
            want_to.dedup();
            c.check(to == want_to, "quote-asks", || format!("asked {to:?} want {want_to:?}"));
            for e in &asked {
                let j = e.json();
                let x = &j["hook"]["quote_dispatch"];
                c.check(unhex(&x["message"]) == Some(want_msg.clone()) && unhex(&x["metadata"]) == Some(want_md.clone()), "quote-input", || {
                    format!("hook quoted for {x}, dispatch would be {}", hexs(&want_msg))
                });
            }
            c.stat("quote_checked", 1);
        }
        // the payment
        let mut pay: Map = total.clone();
        let kind = c.rng.below(9);
        let rel = match kind {
            0 | 1 => {
                c.stat("exact", 1);
                "exact"
            }
            2 | 3 => {
                for d in ["uosmo", "ufee", "zzz"] {
                    if c.rng.bool() {
                        *pay.entry(d.into()).or_insert(0) += c.rng.amt_small();
                    }
                }
                c.stat("excess", 1);
                "excess"
            }
            4 => {
                pay = qr.clone();
                "required-only"
            }
            5 | 6 => {
                // one unit short of the required hook's fee in some denomination
                pay = qr.clone();
                if let Some(k) = pay.keys().cloned().collect::<Vec<_>>().get(c.rng.below(3) as usize % qr.len().max(1)) {
                    let v = pay.get_mut(k).unwrap();
                    *v -= 1;
                    if *v == 0 {
                        pay.remove(k);
                    }
                    c.stat("short", 1);
                }
                "short"
            }
            7 => {
                pay.clear();
                "none"
            }
            _ => {
                pay.clear();
                pay.insert("other".into(), c.rng.amt_small());
                // as much as is asked for, in coins that are called almost the same
                for (k, v) in &qr {
                    pay.insert(lookalike(&mut c.rng, k), *v);
                }
                "wrong-denom"
            }
        };
        if hook.is_some() {
            c.stat("custom_hook", 1);
        }
        if pay.len() > 1 {
            c.stat("multi_denom", 1);
        }
        let fail_hook = c.rng.pct(12);
        if fail_hook {
            *c.rng.pick(&[&rh, &sel]).exec_mode.borrow_mut() = Mode::Err;
        } else if rel == "exact" {
            for h in [&dh, &rh, &ch] {
                h.strict.set(true);
            }
        }
        let fv: Vec<Coin> = pay.iter().map(|(d, a)| coin(*a, d)).collect();
        if !fund(&w.ch, &sender, &fv) {
            continue;
        }
        let before = w.ch.all_balances();
        let mark = w.ch.mark();
        let r = w.ch.exec(&sender, &w.mb, &msg, &fv);
        let evs = w.ch.evs(mark);
        c.log(|| format!("step {step} required={qr:?} selected={qs:?} paid={pay:?} ({rel}) -> {}", brief(&r)));
        let enough = geq(&pay, &qr);
        match &r {
            Ok(_) => {
                nonce += 1;
                c.check(enough, "underpaid-accepted", || format!("required {qr:?}, paid {pay:?}"));
                let pd = post_dispatches(&evs, &w.mb);
                let mut rest = pay.clone();
                for (k, v) in &qr {
                    let x = rest.entry(k.clone()).or_insert(0);
                    *x = x.saturating_sub(*v);
                }
                rest.retain(|_, v| *v > 0);
                let mut got: Vec<(String, Map)> = pd.iter().map(|p| (p.to.clone(), coin_map(&p.funds))).collect();
                let mut want = vec![(ra.clone(), qr.clone()), (sel_a.clone(), rest)];
                got.sort();
                want.sort();
                c.check(got == want, "fee-split", || format!("hooks received {got:?}, want {want:?}"));
                for p in &pd {
                    c.check(p.message == want_msg && p.metadata == want_md, "hook-input", || format!("hook {} got other message/metadata", p.to));
                }
                for d in pay.keys() {
                    let b = before.get(&(w.mb.clone(), d.clone())).copied().unwrap_or(0);
                    let a = w.ch.balance(&w.mb, d);
                    c.check(a == b, "mailbox-balance", || format!("mailbox {d} balance {b} -> {a}"));
                }
            }
            Err(_) => {
                c.check(w.ch.all_balances() == before, "failed-not-refunded", || "balances changed by a failed dispatch".into());
                if fail_hook {
                    c.stat("failed_refunded", 1);
                }
                c.check(fail_hook || odd || !enough, "paid-refused", || format!("required {qr:?} paid {pay:?} refused: {}", brief(&r)));
            }
        }
        let key = format!("{}|{}|{rel}|{choice}|{fail_hook}|{}|{}|{parked}|{no_default}", qr.len(), qs.len(), r.is_ok(), qr.keys().any(|k| qs.contains_key(k)));
        c.eval(key, !qr.is_empty() || !qs.is_empty() || rel != "exact");
    }
    let _ = Rc::strong_count(&dh);
}
