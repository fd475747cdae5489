//! Routing hooks: each message reaches exactly the hook configured for it, with its payment.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::sim::{Ev, Kind};
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 60000,
    thorough: 2400000,
    rule: "one judged dispatch through a routing hook after a history of route changes; nontrivial when several hooks are configured, a fee is due or the destination is unrouted; distinct by (variant, which rule selects the hook, table sizes, payment shape, outcome)",
    floors: &["plain", "custom", "fallback", "sel_custom", "sel_route", "sel_fallback", "unrouted_refused", "paid", "overwritten", "cleared", "custom_other_domain", "custom_other_recipient", "via_mailbox", "hook_failure_propagates", "excess"],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Plain,
    Custom,
    Fallback,
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    let v = *c.rng.pick(&[V::Plain, V::Custom, V::Fallback]);
    let code = match v {
        V::Plain => codes::hook_routing(),
        V::Custom => codes::hook_routing_custom(),
        V::Fallback => codes::hook_routing_fallback(),
    };
    c.stat(match v { V::Plain => "plain", V::Custom => "custom", V::Fallback => "fallback" }, 1);
    let r = ch.deploy(&w.owner, &code, &json!({"owner":w.owner}));
    let Some(rt) = c.must(r, "instantiate") else { return };
    let req = HookStub::new();
    let ra = ch.put_stub(req.clone());
    w.required_hook(&ra);
    w.default_hook(&rt);
    let pool: Vec<Rc<HookStub>> = (0..5).map(|_| HookStub::new()).collect();
    let pa: Vec<String> = pool.iter().map(|s| ch.put_stub(s.clone())).collect();
    let mut doms: Vec<u32> = (0..4).map(|_| c.rng.dom()).collect();
    let d0 = doms[0];
    doms.push(d0.swap_bytes());
    doms.push(d0.wrapping_add(1));
    let mut recs: Vec<[u8; 32]> = (0..3).map(|_| word32(&mut c.rng)).collect();
    let mut near = recs[0];
    near[c.rng.idx(32)] ^= 1 << c.rng.below(8);
    recs.push(near);
    let mut table: BTreeMap<u32, usize> = BTreeMap::new();
    let mut custom: BTreeMap<(u32, [u8; 32]), usize> = BTreeMap::new();
    let mut fb: Option<usize> = None;
    let own = |m: Value| ch.exec(&w.owner, &rt, &m, &[]);
    if c.rng.below(60) == 0 {
        // many destinations and recipients, registered in one batch
        let n = c.rng.range(30, 150);
        let l: Vec<(u32, usize)> = (0..n).map(|_| (c.rng.next() as u32, c.rng.idx(5))).collect();
        let r = own(json!({"router":{"set_routes":{"set":l.iter().map(|(d, k)| json!({"domain":d,"route":pa[*k]})).collect::<Vec<_>>()}}}));
        if c.must(r, "set many routes").is_some() {
            for (d, k) in l {
                table.insert(d, k);
                doms.push(d);
            }
        }
        if v == V::Custom {
            let l: Vec<(u32, [u8; 32], usize)> = (0..n).map(|_| (*c.rng.pick(&doms), word32(&mut c.rng), c.rng.idx(5))).collect();
            let r = own(json!({"register_custom_hooks": l.iter().map(|(d, r, k)| json!({"dest_domain":d,"recipient":hexs(r),"hook":pa[*k]})).collect::<Vec<_>>()}));
            if c.must(r, "register many").is_some() {
                for (d, r, k) in l {
                    custom.insert((d, r), k);
                    recs.push(r);
                }
            }
        }
        c.stat("crowd", 1);
    }
    if v == V::Fallback && c.rng.pct(95) {
        let k = c.rng.idx(5);
        let r = own(json!({"set_fallback_hook":{"hook":pa[k]}}));
        if c.must(r, "set fallback").is_some() {
            fb = Some(k);
        }
    }
    for step in 0..c.rng.many(5, 14) {
        for _ in 0..c.rng.below(3) {
            let (d, k, r) = (*c.rng.pick(&doms), c.rng.idx(5), *c.rng.pick(&recs));
            match c.rng.below(if v == V::Plain { 4 } else { 8 }) {
                0 | 1 => {
                    let r = own(json!({"router":{"set_route":{"set":{"domain":d,"route":pa[k]}}}}));
                    if c.must(r, "set route").is_some() && table.insert(d, k).is_some() {
                        c.stat("overwritten", 1);
                    }
                }
                2 => {
                    let (d2, k2) = (*c.rng.pick(&doms), c.rng.idx(5));
                    let r = own(json!({"router":{"set_routes":{"set":[{"domain":d,"route":pa[k]},{"domain":d2,"route":pa[k2]}]}}}));
                    if c.must(r, "set routes").is_some() {
                        table.insert(d, k);
                        table.insert(d2, k2);
                    }
                }
                3 => {
                    let r = own(json!({"router":{"set_route":{"set":{"domain":d,"route":null}}}}));
                    if c.must(r, "unset route").is_some() && table.remove(&d).is_some() {
                        c.stat("cleared", 1);
                    }
                }
                _ if v == V::Fallback => {
                    let r = own(json!({"set_fallback_hook":{"hook":pa[k]}}));
                    if c.must(r, "set fallback").is_some() {
                        fb = Some(k);
                    }
                }
                4 => {
                    let x = own(json!({"register_custom_hook":{"dest_domain":d,"recipient":hexs(r),"hook":pa[k]}}));
                    if c.must(x, "register").is_some() {
                        custom.insert((d, r), k);
                    }
                }
                5 | 6 => {
                    let (d2, k2, r2) = (*c.rng.pick(&doms), c.rng.idx(5), *c.rng.pick(&recs));
                    let x = own(json!({"register_custom_hooks":[{"dest_domain":d,"recipient":hexs(r),"hook":pa[k]},{"dest_domain":d2,"recipient":hexs(r2),"hook":pa[k2]}]}));
                    if c.must(x, "register many").is_some() {
                        custom.insert((d, r), k);
                        custom.insert((d2, r2), k2);
                    }
                }
                _ => {
                    let one = json!({"dest_domain":d,"recipient":hexs(r)});
                    let x = own(if c.rng.bool() { json!({"clear_custom_hook": one}) } else { json!({"clear_custom_hooks": [one]}) });
                    if c.must(x, "clear").is_some() && custom.remove(&(d, r)).is_some() {
                        c.stat("cleared", 1);
                    }
                }
            }
        }
        // a message
        let (d, r) = (*c.rng.pick(&doms), *c.rng.pick(&recs));
        let body = c.rng.blob();
        let md = c.rng.blob();
        let via = c.rng.pct(35);
        let user = c.rng.pick(&[ch.user("u1"), ch.user("u2"), w.owner.clone(), pa[0].clone(), w.mb.clone()]).clone();
        let via = via && user != w.mb;
        let raw = if via {
            crate::model::Msg { version: 3, nonce: w.mailbox().nonce().unwrap_or(0) as u32, origin: w.domain, sender: crate::model::pad32(&crate::sim::unb32(&user).unwrap().1), dest: d, recipient: r, body: body.clone() }.encode()
        } else {
            let mut m = random_msg(&mut c.rng, d, r);
            if c.rng.bool() {
                m.origin = *c.rng.pick(&doms);
            }
            m.version = *c.rng.pick(&[3, 3, 0]);
            m.encode()
        };
        let sel = match v {
            V::Plain => table.get(&d).copied(),
            V::Custom => custom.get(&(d, r)).or(table.get(&d)).copied(),
            V::Fallback => table.get(&d).copied().or(fb),
        };
        let why = match v {
            V::Custom if custom.contains_key(&(d, r)) => "sel_custom",
            _ if table.contains_key(&d) => "sel_route",
            V::Fallback if fb.is_some() => "sel_fallback",
            _ => "none",
        };
        // a fallback router is only fully configured once it has its fallback
        let judge_live = v != V::Fallback || fb.is_some();
        if v == V::Custom && why != "sel_custom" {
            if custom.keys().any(|k| k.1 == r) {
                c.stat("custom_other_domain", 1);
            }
            if custom.keys().any(|k| k.0 == d) {
                c.stat("custom_other_recipient", 1);
            }
        }
        for h in &pool {
            let n = c.rng.below(3) as usize;
            let mut q: Vec<Coin> = vec![];
            for (i, dn) in ["uosmo", "ufee", "ibc/AB"].iter().enumerate() {
                if i < n {
                    q.push(coin(c.rng.amt_small().max(1), dn));
                }
            }
            *h.quote.borrow_mut() = q;
            h.keyed.set(c.rng.bool());
            h.strict.set(true);
            *h.exec_mode.borrow_mut() = if c.rng.pct(8) { Mode::Err } else { Mode::Good };
            *h.quote_mode.borrow_mut() = if c.rng.pct(4) { Mode::Err } else { Mode::Good };
        }
        // quote
        let q = ch.query(&rt, json!({"hook":{"quote_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}}));
        let mut due = BTreeMap::new();
        match sel {
            Some(k) if *pool[k].quote_mode.borrow() == Mode::Good && judge_live => {
                due = coin_map(&pool[k].price(&md, &raw));
                let got = q.as_ref().ok().and_then(|x| parse_coins(&x["fees"])).map(|x| x.into_iter().collect::<BTreeMap<_, _>>());
                c.check(got.as_ref() == Some(&due), "quote", || format!("{v:?} {why} domain {d}: quoted {q:?}, selected hook charges {due:?}"));
            }
            _ if judge_live => {
                c.check(q.is_err(), "quote-without-hook", || format!("{v:?} {why} domain {d}: {q:?}"));
            }
            _ => {}
        }
        // payment: exact, or with something on top
        let mut pay = due.clone();
        let extra = c.rng.pct(20);
        if extra {
            *pay.entry("uosmo".into()).or_insert(0) += c.rng.amt_small().max(1);
            c.stat("excess", 1);
        }
        let funds: Vec<Coin> = pay.iter().map(|(d, a)| coin(*a, d)).collect();
        if !fund(ch, &user, &funds) {
            continue;
        }
        let before = ch.all_balances();
        let mark = ch.mark();
        let res = if via {
            c.stat("via_mailbox", 1);
            ch.exec(&user, &w.mb, &dispatch_msg(d, &r, &body, None, Some(&md)), &funds)
        } else {
            ch.exec(&user, &rt, &json!({"post_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}), &funds)
        };
        let evs = ch.evs(mark);
        c.log(|| format!("step {step} {v:?} domain {d} -> {sel:?} ({why}) via_mailbox={via} pay {pay:?}: {}", brief(&res)));
        let hook_fails = sel.map(|k| *pool[k].exec_mode.borrow() != Mode::Good).unwrap_or(false);
        match &res {
            Ok(_) => {
                let Some(k) = sel else {
                    c.viol("unrouted-accepted", format!("{v:?} domain {d}"));
                    continue;
                };
                c.check(!hook_fails, "hook-failure-swallowed", || format!("{v:?} domain {d} hook {k} failed"));
                let pd: Vec<PostDispatch> = post_dispatches(&evs, &rt).into_iter().filter(|p| p.committed).collect();
                if c.check(pd.len() == 1, "forward-count", || format!("{v:?} forwarded {} times", pd.len())) {
                    let p = &pd[0];
                    c.check(p.to == pa[k], "wrong-hook", || format!("{v:?} {why} domain {d} recipient {}: went to {} instead of {}", hexs(r), p.to, pa[k]));
                    c.check(p.message == raw && p.metadata == md, "altered", || format!("message {} metadata {}", hexs(&p.message), hexs(&p.metadata)));
                    c.check(coin_map(&p.funds) == pay, "payment-forwarded", || format!("paid {pay:?}, hook received {:?}", coin_map(&p.funds)));
                }
                let others: Vec<&Ev> = evs.iter().filter(|e| e.from == rt && e.kind != Kind::Query && e.kind != Kind::Reply).collect();
                c.check(others.len() == 1, "side-effects", || format!("router issued {:?}", others.iter().map(|e| (e.kind.clone(), e.to.clone())).collect::<Vec<_>>()));
                for d in pay.keys() {
                    let b = before.get(&(rt.clone(), d.clone())).copied().unwrap_or(0);
                    c.check(ch.balance(&rt, d) == b, "router-kept", || format!("{d}: {b} -> {}", ch.balance(&rt, d)));
                }
                c.stat(why, 1);
                if !pay.is_empty() {
                    c.stat("paid", 1);
                }
            }
            Err(_) => {
                c.check(ch.all_balances() == before, "failed-not-refunded", || "balances changed".into());
                // the mailbox itself does not ask its default hook for a price
                let live = sel.is_some() && judge_live && !hook_fails;
                c.check(!live || *pool[sel.unwrap()].quote_mode.borrow() != Mode::Good, "routable-refused", || format!("{v:?} {why} domain {d} pay {pay:?}: {}", brief(&res)));
                if sel.is_none() {
                    c.stat("unrouted_refused", 1);
                }
                if hook_fails {
                    c.stat("hook_failure_propagates", 1);
                }
            }
        }
        let n = table.values().chain(custom.values()).chain(fb.iter()).collect::<BTreeSet<_>>().len();
        c.eval(format!("{v:?}|{why}|{}|{}|{}|{extra}|{via}|{}|{hook_fails}", table.len(), custom.len(), due.len(), res.is_ok()), n > 1 || !due.is_empty() || sel.is_none());
    }
    // what the hook reports about its table
    for d in doms.iter().take(40) {
        let q = ch.query(&rt, json!({"router":{"get_route":{"domain":d}}}));
        let want = json!({"domain":d,"route":table.get(d).map(|k| pa[*k].clone())});
        c.check(q.as_ref().map(|x| x["route"] == want).unwrap_or(false), "route-query", || format!("{q:?} want {want}"));
        if v == V::Custom {
            for r in recs.iter().take(20) {
                let q = ch.query(&rt, json!({"custom_routing_hook":{"custom_hook":{"dest_domain":d,"recipient":hexs(r)}}}));
                match custom.get(&(*d, *r)) {
                    Some(k) => c.check(q.as_ref().map(|x| x["hook"] == pa[*k]).unwrap_or(false), "custom-query", || format!("{q:?} want {}", pa[*k])),
                    None => c.check(q.is_err(), "custom-query-unset", || format!("{q:?}")),
                };
            }
        }
    }
    // a custom key must be a full 32-byte recipient
    if v == V::Custom {
        let n = *c.rng.pick(&[0usize, 20, 31, 33]);
        let r = own(json!({"register_custom_hook":{"dest_domain":d0,"recipient":hexs(c.rng.bytes(n)),"hook":pa[0]}}));
        c.check(r.is_err(), "short-recipient-registered", || format!("{n} bytes"));
    }
}
