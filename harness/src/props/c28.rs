//! Connection settings of token routes: the mailbox, security module and hook the owner set are the ones in effect.
use super::util::*;
use super::warpw::*;
use crate::codes;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::{unb32, Kind as K};
use crate::stubs::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C28",
    run,
    quick: 45000,
    thorough: 2300000,
    rule: "one judged setting, delivery or transfer of a token route with two mailboxes, several security modules and hooks around; nontrivial once a setting was made; distinct by (route kind, operation, settings in effect, verdict, call's own hook, outcome)",
    floors: &["native_collateral", "native_bridged", "cw20_collateral", "cw20_bridged", "delivered", "refused_by_own", "default_overruled", "hook_used", "default_hook", "explicit_hook", "stranger_refused", "bad_address_refused", "other_mailbox_refused", "mailbox_set", "replaced", "reported", "with_metadata", "odd_address"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    // a second mailbox on the same chain, for the same domain
    let mb2 = ch.deploy(&w.owner, &codes::mailbox(), &json!({"hrp":ch.hrp,"owner":w.owner,"domain":w.domain})).expect("second mailbox");
    let mbs = [w.mb.clone(), mb2];
    let isms: Vec<_> = (0..4).map(|_| IsmStub::new(Verdict::True)).collect();
    let ia: Vec<String> = isms.iter().map(|i| ch.put_stub(i.clone())).collect();
    let hooks: Vec<_> = (0..5).map(|_| HookStub::new()).collect();
    let ha: Vec<String> = hooks.iter().map(|h| ch.put_stub(h.clone())).collect();
    let req = HookStub::new();
    let ra = ch.put_stub(req);
    // module and hook 0 and 1 are the mailboxes' defaults
    for (k, m) in mbs.iter().enumerate() {
        for j in [json!({"set_default_ism":{"ism":ia[k]}}), json!({"set_default_hook":{"hook":ha[k]}}), json!({"set_required_hook":{"hook":ra}})] {
            ch.exec(&w.owner, m, &j, &[]).expect("mailbox setup");
        }
    }
    let kind = *c.rng.pick(&KINDS);
    c.stat(kind.name(), 1);
    let r = Warp::deploy(ch, &w.owner, &mbs[0], kind, "utok");
    let Some(wp) = c.must(r, "deploy route") else { return };
    let remote = c.rng.dom();
    let router = word32(&mut c.rng);
    if c.must(wp.route(ch, remote, Some(&router)), "enroll").is_none() {
        return;
    }
    let user = ch.user("alice");
    let me = pad32(&unb32(&user).unwrap().1);
    if !kind.bridged {
        wp.give(ch, &user, 1 << 100);
        wp.give(ch, &wp.addr, 1 << 100);
    }
    let (mut mailbox, mut ism, mut hook): (usize, Option<usize>, Option<usize>) = (0, None, None);
    let mut set = false;
    let movable = c.rng.pct(40);
    let mut n = 0u32;
    for step in 0..c.rng.many(6, 16) {
        let op = c.rng.below(10);
        match op {
            0..=2 => {
                let (key, k, addr) = match c.rng.below(if movable { 3 } else { 2 }) {
                    0 => {
                        let k = c.rng.range(1, 3) as usize;
                        ("ism", k, ia[k].clone())
                    }
                    1 => {
                        let k = c.rng.range(1, 4) as usize;
                        ("hook", k, ha[k].clone())
                    }
                    _ => {
                        let k = c.rng.idx(2);
                        ("mailbox", k, mbs[k].clone())
                    }
                };
                let who = if c.rng.pct(25) { c.rng.pick(&[user.clone(), mbs[0].clone(), wp.addr.clone(), wp.token.clone(), ch.user("stranger")]).clone() } else { w.owner.clone() };
                let what = match c.rng.below(10) {
                    0 => "",
                    1 => "nonsense",
                    2 => "osmo1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
                    _ => addr.as_str(),
                };
                let bad = what != addr;
                let r = ch.exec(&who, &wp.addr, &json!({"connection":{format!("set_{key}"):{key:what}}}), &[]);
                c.log(|| format!("step {step} set {key} #{k} ({what}) by {who}: {}", brief(&r)));
                if who != w.owner {
                    if c.check(r.is_err(), "stranger-set", || format!("{key} by {who}")) {
                        c.stat("stranger_refused", 1);
                    }
                } else if bad {
                    if c.check(r.is_err(), "bad-address-set", || format!("{key} {what:?}")) {
                        c.stat("bad_address_refused", 1);
                    }
                } else if c.must(r.map(|_| ()), "set").is_some() {
                    set = true;
                    match key {
                        "ism" => {
                            if ism.replace(k).is_some() {
                                c.stat("replaced", 1);
                            }
                        }
                        "hook" => {
                            if hook.replace(k).is_some() {
                                c.stat("replaced", 1);
                            }
                        }
                        _ => {
                            mailbox = k;
                            c.stat("mailbox_set", 1);
                        }
                    }
                }
                c.eval(format!("{}|set {key}|{}|{bad}|{ism:?}|{hook:?}|{mailbox}", kind.name(), who == w.owner), set);
            }
            3 if c.rng.pct(30) => {
                // an address that has another part to play is an address like any other
                let odd = c.rng.pick(&[mbs[0].clone(), mbs[1].clone(), wp.addr.clone(), w.owner.clone(), wp.token.clone(), ra.clone(), ia[0].clone(), ha[1].clone(), user.clone()]).clone();
                let (key, back) = if c.rng.bool() { ("hook", hook.map(|k| ha[k].clone())) } else { ("ism", ism.map(|k| ia[k].clone())) };
                if (odd == wp.token && !kind.cw20) || back.is_none() {
                    continue;
                }
                let set1 = |a: &str| ch.exec(&w.owner, &wp.addr, &json!({"connection":{format!("set_{key}"):{key:a}}}), &[]).map(|_| ());
                let q = || ch.query(&wp.addr, json!({"connection":{format!("get_{key}"):{}}}));
                c.must(set1(&odd), "set odd");
                let a = q();
                c.check(a.as_ref().map(|v| v[key] == json!(odd)).unwrap_or(false), "odd-reported", || format!("{key}: {a:?}, set {odd}"));
                c.must(set1(&back.clone().unwrap()), "set back");
                let a = q();
                c.check(a.as_ref().map(|v| v[key] == json!(back)).unwrap_or(false), "odd-reported", || format!("{key}: {a:?}, set back {back:?}"));
                c.stat("odd_address", 1);
                c.log(|| format!("step {step} {key} set to {odd} and back"));
            }
            3 => {
                let q = |m: &str| ch.query(&wp.addr, json!({"connection":{m:{}}}));
                let (a, b) = (q("get_ism"), q("get_hook"));
                let (wi, wh) = (ism.map(|k| ia[k].clone()), hook.map(|k| ha[k].clone()));
                c.check(a.as_ref().map(|v| v["ism"] == json!(wi)).unwrap_or(false), "ism-reported", || format!("{a:?}, set {wi:?}"));
                c.check(b.as_ref().map(|v| v["hook"] == json!(wh)).unwrap_or(false), "hook-reported", || format!("{b:?}, set {wh:?}"));
                let s = ch.query(&wp.addr, json!({"ism_specifier":{"interchain_security_module":[]}}));
                c.check(s.as_ref().map(|v| v["ism"] == json!(wi)).unwrap_or(false), "ism-specified", || format!("{s:?}, set {wi:?}"));
                let m = q("get_mailbox");
                match m.as_ref().map(|v| v["mailbox"].clone()) {
                    Ok(v) if v == json!(mbs[mailbox]) => {}
                    Ok(v) if v.is_null() => c.viol("mailbox-not-reported", format!("get_mailbox answers none, the route uses {}", mbs[mailbox])),
                    x => c.viol("mailbox-reported", format!("{x:?}, set {}", mbs[mailbox])),
                }
                c.stat("reported", 1);
                c.eval(format!("{}|query|{ism:?}|{hook:?}|{mailbox}", kind.name()), set);
            }
            4..=6 => {
                // a delivery through one of the mailboxes
                let via = c.rng.idx(2);
                for i in &isms {
                    *i.v.borrow_mut() = c.rng.pick(&[Verdict::True, Verdict::True, Verdict::False, Verdict::Err]).clone();
                }
                let eff = ism.unwrap_or(via);
                let good = *isms[eff].v.borrow() == Verdict::True;
                let v = c.rng.range(1, 1000) as u128;
                let m = Msg { version: 3, nonce: n, origin: remote, sender: router, dest: w.domain, recipient: pad32(&unb32(&wp.addr).unwrap().1), body: body(&me, v, &[]) };
                n += 1;
                let before = wp.ledger(ch);
                let mark = ch.mark();
                let r = ch.exec(&ch.user("relayer"), &mbs[via], &process_msg(&[1], &m.encode()), &[]);
                let evs = ch.evs(mark);
                let asked: Vec<String> = evs.iter().filter(|e| e.kind == K::Query && e.json().pointer("/ism/verify").is_some()).map(|e| e.to.clone()).collect();
                let after = wp.ledger(ch);
                let gain = wp.bal(ch, &user) as i128 - before.0.get(&user).copied().unwrap_or(0) as i128;
                c.log(|| format!("step {step} delivery of {v} via mailbox {via} (trusted {mailbox}), module {eff} says {good}: {} asked {asked:?}", brief(&r)));
                c.check(asked.iter().all(|a| *a == ia[eff]), "wrong-module-asked", || format!("asked {asked:?}, in effect {}", ia[eff]));
                c.check(gain == if r.is_ok() { v as i128 } else { 0 }, "delivery-effect", || format!("{}: {gain} of {v}", brief(&r)));
                c.check(r.is_ok() || before == after, "refused-but-moved", || "ledger changed".into());
                if !good {
                    c.check(r.is_err(), "unapproved", || format!("module {eff} did not approve"));
                    c.stat("refused_by_own", ism.is_some() as u64);
                } else {
                    let (new, old) = (via == mailbox, via == 0);
                    if r.is_ok() == new {
                        if !new {
                            c.stat("other_mailbox_refused", 1);
                        } else {
                            c.stat("delivered", 1);
                            if ism.is_some() && *isms[via].v.borrow() != Verdict::True {
                                c.stat("default_overruled", 1);
                            }
                        }
                    } else if r.is_ok() == old && set {
                        c.viol("set-mailbox-ineffective", format!("delivery via mailbox {via}, set {mailbox}, instantiated with 0: {}", brief(&r)));
                        c.stat("other_mailbox_refused", r.is_err() as u64);
                    } else {
                        c.viol("wrong-mailbox", format!("delivery via {via}, set {mailbox}: {}", brief(&r)));
                    }
                }
                c.eval(format!("{}|deliver {via}|{ism:?}|{mailbox}|{good}|{}", kind.name(), r.is_ok()), set);
            }
            7 if c.rng.bool() => {
                // someone pretending to be the mailbox
                let who = c.rng.pick(&[user.clone(), w.owner.clone(), ia[3].clone(), ha[4].clone(), wp.addr.clone(), ra.clone()]).clone();
                let before = wp.ledger(ch);
                let r = ch.exec(&who, &wp.addr, &json!({"handle":{"origin":remote,"sender":hexs(router),"body":hexs(body(&me, 5, &[]))}}), &[]);
                c.check(r.is_err() && before == wp.ledger(ch), "forged-delivery", || format!("by {who}: {}", brief(&r)));
                c.log(|| format!("step {step} forged delivery by {who}: {}", brief(&r)));
                c.eval(format!("{}|forged|{mailbox}|{}", kind.name(), r.is_ok()), set);
            }
            _ => {
                // a transfer
                let have = wp.bal(ch, &user);
                if have == 0 {
                    continue;
                }
                let v = c.rng.range(1, have.min(1000) as u64) as u128;
                let own = match c.rng.below(3) {
                    0 => Some(c.rng.idx(5)),
                    _ => None,
                };
                let funds = if kind.cw20 {
                    c.must(wp.allow(ch, &user, v), "allow");
                    vec![]
                } else {
                    vec![coin(v, &wp.token)]
                };
                let md = match c.rng.below(4) {
                    0 => json!(hexs(c.rng.blob())),
                    1 => json!(""),
                    _ => json!(null),
                };
                let mark = ch.mark();
                let r = ch.exec(&user, &wp.addr, &json!({"transfer_remote":{"dest_domain":remote,"recipient":hexs(me),"amount":v.to_string(),"hook":own.map(|k| ha[k].clone()),"metadata":md}}), &funds);
                let evs = ch.evs(mark);
                c.log(|| format!("step {step} transfer of {v}, hook set {hook:?}, call's own {own:?}: {}", brief(&r)));
                if c.must(r.map(|_| ()), "transfer").is_none() {
                    continue;
                }
                let by: Vec<usize> = (0..2).filter(|k| !post_dispatches(&evs, &mbs[*k]).is_empty()).collect();
                if by.len() != 1 {
                    c.viol("transfer-mailbox", format!("dispatched by {by:?}"));
                    continue;
                }
                let via = by[0];
                if via != mailbox {
                    if via == 0 && set {
                        c.viol("set-mailbox-ineffective", format!("transfer through mailbox 0, set {mailbox}"));
                    } else {
                        c.viol("wrong-mailbox", format!("transfer through {via}, set {mailbox}"));
                    }
                }
                let want = own.or(hook).unwrap_or(via);
                let mut to: Vec<String> = post_dispatches(&evs, &mbs[via]).into_iter().filter(|p| p.committed).map(|p| p.to).collect();
                to.sort();
                let mut w2 = vec![ra.clone(), ha[want].clone()];
                w2.sort();
                c.check(to == w2, "hook-in-effect", || format!("called {to:?}, want hook {want}"));
                let got: Vec<String> = post_dispatches(&evs, &mbs[via]).into_iter().map(|p| hexs(p.metadata)).collect();
                c.check(got.iter().all(|g| json!(g) == md || (md.is_null() && g.is_empty())), "metadata", || format!("hooks got {got:?}, call's own {md}"));
                if !md.is_null() {
                    c.stat("with_metadata", 1);
                }
                c.stat(if own.is_some() { "explicit_hook" } else if hook.is_some() { "hook_used" } else { "default_hook" }, 1);
                c.eval(format!("{}|transfer|{hook:?}|{own:?}|{mailbox}|{via}", kind.name()), set || own.is_some());
            }
        }
    }
}
