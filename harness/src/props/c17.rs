//! Protocol fee hook: collects the configured fee, keeps it, and pays it out to its owner only.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::sim::Kind;
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 187500,
    thorough: 7500000,
    rule: "one judged fee-hook operation (dispatch, fee change, claim, ownership move); nontrivial for dispatches at, around or off the configured fee and for claims; distinct by (operation, payment relation, fee class, role of the caller, outcome)",
    floors: &["exact", "excess", "short", "wrong_denom", "nothing", "claim_owner", "claim_to_other", "claim_stranger_refused", "claim_many_denoms", "claim_dozens_of_denoms", "fee_changed", "zero_fee", "via_mailbox", "nominated", "new_owner"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    let mut fee: (String, u128) = ("uosmo".into(), if c.rng.pct(10) { 0 } else { c.rng.amt_small().max(1) });
    let fj = |f: &(String, u128)| json!({"denom":f.0,"amount":f.1.to_string()});
    let r = ch.deploy(&w.owner, &codes::hook_fee(), &json!({"owner":w.owner,"fee":fj(&fee)}));
    let Some(hook) = c.must(r, "instantiate") else { return };
    let mut owner = w.owner.clone();
    let mut nominee: Option<String> = None;
    let strangers = [ch.user("s1"), ch.user("s2"), w.owner.clone(), w.mb.clone(), ch.user("next-owner")];
    let rest = HookStub::new();
    w.default_hook(&ch.put_stub(rest));
    w.required_hook(&hook);
    for step in 0..c.rng.many(4, 12) {
        let held = coin_map(&ch.balances(&hook));
        let before = ch.all_balances();
        match c.rng.below(11) {
            0..=4 => {
                // a dispatch pays the fee
                let via = c.rng.pct(35);
                let user = if c.rng.pct(20) { owner.clone() } else { c.rng.pick(&strangers).clone() };
                let via = via && user != w.mb;
                let mut pay: BTreeMap<String, u128> = BTreeMap::new();
                let other = if fee.0 == "uosmo" { "ufee" } else { "uosmo" };
                let other = if c.rng.bool() { lookalike(&mut c.rng, &fee.0) } else { other.to_string() };
                let rel = match c.rng.below(7) {
                    0 | 1 => {
                        pay.insert(fee.0.clone(), fee.1);
                        "exact"
                    }
                    2 => {
                        pay.insert(fee.0.clone(), fee.1 + c.rng.amt_small().max(1));
                        "excess"
                    }
                    3 if fee.1 > 0 => {
                        pay.insert(fee.0.clone(), if c.rng.bool() { fee.1 - 1 } else { fee.1 / 2 });
                        "short"
                    }
                    4 => {
                        pay.insert(other.clone(), fee.1 + c.rng.amt_small().max(1));
                        "wrong_denom"
                    }
                    5 => "nothing",
                    _ => {
                        pay.insert(fee.0.clone(), fee.1);
                        pay.insert(other.clone(), c.rng.amt_small().max(1));
                        "two_denoms"
                    }
                };
                pay.retain(|_, v| *v > 0);
                let funds: Vec<Coin> = pay.iter().map(|(d, a)| coin(*a, d)).collect();
                let q = ch.query(&hook, json!({"hook":{"quote_dispatch":{"metadata":"","message":hexs(random_msg(&mut c.rng, 1, [7; 32]).encode())}}}));
                let got: Option<BTreeMap<String, u128>> = q.as_ref().ok().and_then(|x| parse_coins(&x["fees"])).map(|x| x.into_iter().filter(|y| y.1 > 0).collect());
                let want: BTreeMap<String, u128> = [fee.clone()].into_iter().filter(|x| x.1 > 0).collect();
                c.check(got.as_ref() == Some(&want), "quote", || format!("fee {fee:?} quoted {q:?}"));
                if !fund(ch, &user, &funds) {
                    continue;
                }
                let before = ch.all_balances();
                let mark = ch.mark();
                let res = if via {
                    c.stat("via_mailbox", 1);
                    let r = word32(&mut c.rng);
                    ch.exec(&user, &w.mb, &dispatch_msg(c.rng.dom(), &r, &c.rng.blob(), None, None), &funds)
                } else {
                    let r = word32(&mut c.rng);
                    ch.exec(&user, &hook, &json!({"post_dispatch":{"metadata":hexs(c.rng.blob()),"message":hexs(random_msg(&mut c.rng, 5, r).encode())}}), &funds)
                };
                let evs = ch.evs(mark);
                c.log(|| format!("step {step}: fee {fee:?} paid {pay:?} ({rel}, via mailbox {via}): {}", brief(&res)));
                let enough = pay.get(&fee.0).copied().unwrap_or(0) >= fee.1;
                match &res {
                    Ok(_) => {
                        c.check(enough, "underpaid-accepted", || format!("fee {fee:?} paid {pay:?}"));
                        let mut want = held.clone();
                        let recv = if via { [fee.clone()].into_iter().filter(|x| x.1 > 0).collect() } else { pay.clone() };
                        for (k, v) in &recv {
                            *want.entry(k.clone()).or_insert(0) += v;
                        }
                        let now = coin_map(&ch.balances(&hook));
                        c.check(now == want, "fee-kept", || format!("held {held:?}, received {recv:?}, now {now:?}"));
                        c.check(evs.iter().all(|e| e.from != hook || matches!(e.kind, Kind::Query | Kind::Reply)), "side-effects", || "hook issued messages".into());
                    }
                    Err(_) => {
                        c.check(ch.all_balances() == before, "failed-not-refunded", || "balances changed".into());
                        // paying exactly the quote, or more of the fee's own denomination, must do
                        let live = enough && rel != "two_denoms" && rel != "wrong_denom";
                        c.check(!live, "paid-refused", || format!("fee {fee:?} paid {pay:?}: {}", brief(&res)));
                    }
                }
                c.stat(rel, 1);
                if fee.1 == 0 {
                    c.stat("zero_fee", 1);
                }
                c.eval(format!("pay|{rel}|{via}|{}|{}|{}", fee.0, Big(fee.1), res.is_ok()), true);
            }
            5 => {
                let f = (if c.rng.pct(10) { lookalike(&mut c.rng, &fee.0) } else { c.rng.pick(&["uosmo", "ufee"]).to_string() }, if c.rng.pct(15) { 0 } else { c.rng.amt_small().max(1) });
                let by_owner = c.rng.pct(70);
                let who = if by_owner { owner.clone() } else { c.rng.pick(&strangers).clone() };
                let by_owner = who == owner;
                let res = ch.exec(&who, &hook, &json!({"fee_hook":{"set_fee":{"fee":fj(&f)}}}), &[]);
                if by_owner {
                    if c.must(res.clone(), "set fee").is_some() {
                        fee = f;
                        c.stat("fee_changed", 1);
                    }
                } else {
                    c.check(res.is_err(), "stranger-set-fee", || who.clone());
                }
                let q = ch.query(&hook, json!({"fee_hook":{"fee":{}}}));
                c.check(q.as_ref().map(|x| x["fee"] == fj(&fee)).unwrap_or(false), "fee-query", || format!("{q:?} want {fee:?}"));
                c.eval(format!("set|{by_owner}"), false);
            }
            6..=8 => {
                if c.rng.pct(40) {
                    for d in ["uosmo", "ufee", "uother"] {
                        ch.faucet(&hook, d, c.rng.amt_small());
                    }
                } else if c.rng.pct(8) {
                    // many others have been sent to it over time
                    for i in 0..c.rng.range(4, 70) {
                        ch.faucet(&hook, &format!("factory/x/{i}"), c.rng.amt_small());
                    }
                }
                let held = coin_map(&ch.balances(&hook));
                let before = ch.all_balances();
                let who = if c.rng.pct(65) { owner.clone() } else { c.rng.pick(&strangers).clone() };
                let to = if c.rng.bool() { Some(c.rng.pick(&[ch.user("t1"), ch.user("s1"), ch.user("s2"), owner.clone(), w.owner.clone(), w.mb.clone(), hook.clone()]).clone()) } else { None };
                let by_owner = who == owner;
                let mark = ch.mark();
                let res = ch.exec(&who, &hook, &json!({"fee_hook":{"claim":{"recipient":to}}}), &[]);
                c.log(|| format!("step {step}: claim by owner={by_owner} to {to:?} holding {held:?}: {}", brief(&res)));
                if !by_owner {
                    c.check(res.is_err(), "stranger-claimed", || format!("{held:?}"));
                    c.check(ch.all_balances() == before, "stranger-moved-money", || format!("{held:?}"));
                    c.stat("claim_stranger_refused", 1);
                } else if to.as_ref() == Some(&hook) {
                    // paid to itself: nothing may get lost
                    c.check(ch.all_balances() == before, "self-claim", || "balances changed".into());
                } else if held.is_empty() {
                    // nothing to pay out
                    c.check(ch.all_balances() == before, "empty-claim", || "balances changed".into());
                } else if c.must(res.clone().map(|_| ()), "claim").is_some() {
                    let dest = to.clone().unwrap_or(owner.clone());
                    c.check(ch.balances(&hook).is_empty(), "claim-left-over", || format!("{:?}", ch.balances(&hook)));
                    for (d, v) in &held {
                        let b = before.get(&(dest.clone(), d.clone())).copied().unwrap_or(0);
                        c.check(ch.balance(&dest, d) == b + v, "claim-amount", || format!("{dest} {d}: {b} + {v}, now {}", ch.balance(&dest, d)));
                    }
                    let sends = ch.evs(mark).iter().filter(|e| e.from == hook && e.kind == Kind::BankSend).count();
                    c.check(sends >= 1, "claim-no-send", || "".into());
                    c.stat(if to.is_some() { "claim_to_other" } else { "claim_owner" }, 1);
                    if held.len() > 1 {
                        c.stat("claim_many_denoms", 1);
                    }
                    if held.len() > 30 {
                        c.stat("claim_dozens_of_denoms", 1);
                    }
                }
                c.eval(format!("claim|{by_owner}|{}|{}|{}", to.is_some(), held.len(), res.is_ok()), true);
            }
            _ => {
                // the claim right moves with ownership, and not before the nominee has claimed that
                match &nominee {
                    None => {
                        let n = c.rng.pick(&[ch.user("next-owner"), ch.user("s1"), ch.user("s2"), w.owner.clone(), owner.clone()]).clone();
                        let x = ch.exec(&owner, &hook, &json!({"ownable":{"init_ownership_transfer":{"next_owner":n}}}), &[]);
                        if c.must(x, "init transfer").is_some() {
                            nominee = Some(n);
                            c.stat("nominated", 1);
                        }
                    }
                    Some(_) if c.rng.pct(25) => {
                        let x = ch.exec(&owner, &hook, &json!({"ownable":{"revoke_ownership_transfer":{}}}), &[]);
                        if c.must(x, "revoke transfer").is_some() {
                            nominee = None;
                        }
                    }
                    Some(n) => {
                        let x = ch.exec(n, &hook, &json!({"ownable":{"claim_ownership":{}}}), &[]);
                        if c.must(x, "claim ownership").is_some() {
                            let old = std::mem::replace(&mut owner, n.clone());
                            if old != owner {
                                let res = ch.exec(&old, &hook, &json!({"fee_hook":{"claim":{"recipient":null}}}), &[]);
                                c.check(res.is_err(), "former-owner-claimed", || "".into());
                                c.stat("new_owner", 1);
                            }
                            nominee = None;
                        }
                    }
                }
                c.check(ch.all_balances() == before, "transfer-moved-money", || "".into());
                c.eval("owner", false);
            }
        }
    }
}

struct Big(u128);
impl std::fmt::Display for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", 128 - self.0.leading_zeros())
    }
}
