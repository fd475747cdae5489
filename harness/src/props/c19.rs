//! Token release: only for messages of the enrolled remote router, delivered by the mailbox, exactly once per delivery and exactly as stated.
use super::util::*;
use super::warpw::*;
use crate::run::{Case, Prop};
use crate::sim::unb32;
use crate::stubs::*;
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 88800,
    thorough: 3555000,
    rule: "one judged inbound delivery to a token route; nontrivial for every delivery that is forged in one respect or moves a non-zero amount; distinct by (route kind, which respect is wrong, recipient form, amount class, route history, outcome)",
    floors: &["native_collateral", "native_bridged", "cw20_collateral", "cw20_bridged", "released", "forged_caller_refused", "forged_router_refused", "unenrolled_origin_refused", "removed_origin_refused", "other_origin_router_refused", "oversized_refused", "insolvent_refused", "short_body_refused", "padded_recipient", "full_recipient", "owner_not_mailbox"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let owner = ch.user("owner");
    let mb = ch.user("mailbox");
    let kind = *c.rng.pick(&KINDS);
    c.stat(kind.name(), 1);
    let r = Warp::deploy(&ch, &owner, &mb, kind, "utok");
    let Some(w) = c.must(r, "deploy route") else { return };
    // another token of the same sort that must never move
    ch.faucet(&w.addr, "udecoy", 1 << 100);
    if !kind.bridged {
        let v = c.rng.amt_small();
        w.give(&ch, &w.addr, v);
        w.give(&ch, &ch.user("holder"), 1 << 90);
    }
    let mut doms: Vec<u32> = (0..4).map(|_| c.rng.dom()).collect();
    let d0 = doms[0];
    doms.push(d0.swap_bytes());
    doms.push(d0.wrapping_add(1));
    let mut routers: Vec<Vec<u8>> = (0..3).map(|_| c.rng.word()).collect();
    let mut near = routers[0].clone();
    near[c.rng.idx(32)] ^= 1 << c.rng.below(8);
    routers.push(near);
    if c.rng.pct(25) {
        // enrolled as its bare account form
        let l = *c.rng.pick(&[20usize, 0, 31]);
        routers.push(c.rng.bytes(l));
    }
    let mut table: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    let mut gone: Vec<(u32, Vec<u8>)> = vec![];
    for _ in 0..3 {
        let (d, r) = (*c.rng.pick(&doms), c.rng.pick(&routers).clone());
        if c.must(w.route(&ch, d, Some(&r)), "enroll").is_some() {
            table.insert(d, r);
        }
    }
    let mut people = vec![ch.user("alice"), ch.user("bob"), owner.clone(), mb.clone()];
    if kind.cw20 {
        people.push(w.token.clone());
    }
    if c.rng.below(60) == 0 {
        for _ in 0..c.rng.range(30, 150) {
            let (d, r) = (c.rng.next() as u32, c.rng.word());
            if c.must(w.route(&ch, d, Some(&r)), "enroll").is_some() {
                table.insert(d, r);
                doms.push(d);
            }
        }
        c.stat("crowd", 1);
    }
    for step in 0..c.rng.many(6, 16) {
        if c.rng.pct(20) {
            let (d, r) = (*c.rng.pick(&doms), c.rng.pick(&routers).clone());
            if c.rng.pct(35) {
                if c.must(w.route(&ch, d, None), "unenroll").is_some() {
                    if let Some(r) = table.remove(&d) {
                        gone.push((d, r));
                    }
                }
            } else if c.must(w.route(&ch, d, Some(&r)), "enroll").is_some() {
                if let Some(o) = table.insert(d, r.clone()) {
                    if o != r {
                        gone.push((d, o));
                    }
                }
            }
            gone.retain(|(d, r)| table.get(d) != Some(r));
        }
        if !kind.bridged && c.rng.pct(15) {
            w.give(&ch, &w.addr, c.rng.amt_small());
        }
        // build a delivery: honest, then perhaps wrong in one respect
        let ent: Vec<(u32, Vec<u8>)> = table.iter().map(|(a, b)| (*a, b.clone())).collect();
        let (mut origin, mut sender) = if ent.is_empty() { (d0, routers[0].clone()) } else { c.rng.pick(&ent).clone() };
        let mut caller = mb.clone();
        let mut wrong = "none";
        match c.rng.below(12) {
            0 => {
                let mut l = vec![people[0].clone(), w.addr.clone(), ch.user("x")];
                if kind.cw20 {
                    l.push(w.token.clone());
                }
                if sender.len() == 20 || sender.len() == 32 {
                    // an account that is called like the enrolled router
                    l.push(ch.addr_of(&sender));
                }
                caller = c.rng.pick(&l).clone();
                wrong = "caller";
            }
            1 => {
                caller = owner.clone();
                wrong = "owner";
            }
            2 => {
                sender = match c.rng.below(3) {
                    0 => c.rng.pick(&routers).clone(),
                    1 => {
                        let mut x = sender.clone();
                        if !x.is_empty() {
                            let i = c.rng.idx(x.len());
                            x[i] ^= 1 << c.rng.below(8);
                        }
                        x
                    }
                    _ => {
                        let mut x = sender.clone();
                        x.push(0);
                        x
                    }
                };
                wrong = "router";
            }
            3 => {
                origin = *c.rng.pick(&doms);
                wrong = "origin";
            }
            4 if !gone.is_empty() => {
                let g = c.rng.pick(&gone).clone();
                origin = g.0;
                sender = g.1;
                wrong = "removed";
            }
            5 => {
                origin = c.rng.dom();
                wrong = "origin";
            }
            _ => {}
        }
        let rec = match c.rng.below(6) {
            0 => {
                let a = c.rng.pick(&people).clone();
                crate::model::pad32(&unb32(&a).unwrap().1)
            }
            1 => crate::model::pad32(&unb32(&w.addr).unwrap().1),
            _ => word32(&mut c.rng),
        };
        let to = recipient_addr(&ch.hrp, &rec);
        let held = w.bal(&ch, &w.addr);
        let amount: u128 = match c.rng.below(8) {
            0 => c.rng.amt(),
            1 if !kind.bridged => held,
            2 if !kind.bridged => held.saturating_add(1),
            3 if !kind.bridged && held > 0 => c.rng.u128() % held + 1,
            _ => c.rng.amt_small(),
        };
        let tail = if c.rng.pct(30) { c.rng.blob() } else { vec![] };
        let mut b = body(&rec, amount, &tail);
        let mut over = false;
        if c.rng.pct(8) {
            b[32 + c.rng.idx(16)] |= 1 << c.rng.below(8);
            over = true;
        }
        let mut short = false;
        if c.rng.pct(5) {
            b.truncate(c.rng.idx(64));
            short = true;
        }
        let authentic = caller == mb && table.get(&origin) == Some(&sender);
        let before = w.ledger(&ch);
        let all = ch.all_balances();
        let want = if kind.bridged { moved(&before, None, Some(&to), amount) } else { moved(&before, Some(&w.addr), Some(&to), amount) };
        let valid = authentic && !over && !short && want.is_some();
        let r = ch.exec(&caller, &w.addr, &json!({"handle":{"origin":origin,"sender":hexs(&sender),"body":hexs(&b)}}), &[]);
        let after = w.ledger(&ch);
        c.log(|| format!("step {step} {}: wrong={wrong} origin {origin} amount {amount} over={over} short={short} held {held} -> {}", kind.name(), brief(&r)));
        match &r {
            Ok(_) => {
                if !c.check(authentic, "forged-accepted", || format!("{}: {wrong}: caller is mailbox {}, enrolled {:?}, claimed {} from {origin}", kind.name(), caller == mb, table.get(&origin).map(hexs), hexs(&sender))) {
                    continue;
                }
                c.check(!short && !over, "malformed-accepted", || format!("{}: body {}", kind.name(), hexs(&b)));
                if !short && !over {
                    c.check(want.as_ref() == Some(&after), "release-exact", || format!("{}: {amount} to {to}: ledger {before:?} -> {after:?}", kind.name()));
                }
                let mut rest = ch.all_balances();
                let mut base = all.clone();
                rest.retain(|k, _| k.1 != w.token);
                base.retain(|k, _| k.1 != w.token);
                c.check(rest == base, "other-money", || "another denomination moved".into());
                if amount > 0 {
                    c.stat("released", 1);
                }
                c.stat(if rec[..12].iter().all(|x| *x == 0) { "padded_recipient" } else { "full_recipient" }, 1);
            }
            Err(_) => {
                c.check(after == before && ch.all_balances() == all, "refused-but-moved", || format!("{before:?} -> {after:?}"));
                c.check(!valid || amount == 0, "authentic-refused", || format!("{}: {amount} to {to} held {held}: {}", kind.name(), brief(&r)));
                if !authentic {
                    c.stat(
                        match wrong {
                            "caller" => "forged_caller_refused",
                            "owner" => "owner_not_mailbox",
                            "removed" => "removed_origin_refused",
                            "router" => "forged_router_refused",
                            _ if !table.contains_key(&origin) => "unenrolled_origin_refused",
                            _ => "other_origin_router_refused",
                        },
                        1,
                    );
                } else if short {
                    c.stat("short_body_refused", 1);
                } else if over {
                    c.stat("oversized_refused", 1);
                } else if want.is_none() && !kind.bridged {
                    c.stat("insolvent_refused", 1);
                }
            }
        }
        let rf = if to == w.addr { "self" } else if rec[..12].iter().all(|x| *x == 0) { "padded" } else { "full" };
        c.eval(format!("{}|{wrong}|{authentic}|{rf}|{}|{over}|{short}|{}|{}|{}", kind.name(), 128 - amount.leading_zeros(), table.len(), gone.len().min(4), r.is_ok()), wrong != "none" || amount > 0);
    }
}
