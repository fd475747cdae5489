//! Bridge conservation across chains: circulating synthetic supply plus tokens in flight is always fully backed, and redeemable.
use super::util::*;
use super::warpw::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::{unb32, Chain};
use crate::stubs::*;
use serde_json::json;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 25000,
    thorough: 1000000,
    rule: "one judged step of a three-chain bridge history (conservation and per-account ledgers compared after every step); nontrivial when value is in flight or the step is an attack; distinct by (home kind, remote kinds, step kind, in-flight count, direction, outcome)",
    floors: &["transfer", "delivered", "replay_refused", "wrong_chain_refused", "forged_sender_refused", "tampered_refused", "remote_to_remote", "redeemed_all", "blocked_then_delivered", "donated", "home_native", "home_cw20", "out_of_order", "undispatched_refused", "owner_transfers", "sunk"],
};

struct Side {
    w: Core,
    warp: Warp,
    ok: Rc<RefCell<BTreeSet<Vec<u8>>>>,
    ism: Rc<IsmStub>,
    users: Vec<String>,
}

fn words(a: &str) -> [u8; 32] {
    pad32(&unb32(a).unwrap().1)
}

fn run(c: &mut Case) {
    let mut doms: Vec<u32> = vec![];
    while doms.len() < 3 {
        let d = c.rng.dom();
        if !doms.contains(&d) {
            doms.push(d);
        }
    }
    let home_cw20 = c.rng.bool();
    c.stat(if home_cw20 { "home_cw20" } else { "home_native" }, 1);
    let mut s: Vec<Side> = vec![];
    for i in 0..3 {
        // two chains may well share an address prefix
        let ch = chain(&mut c.rng);
        let w = Core::with(ch, doms[i]);
        let kind = Kind { cw20: if i == 0 { home_cw20 } else { c.rng.bool() }, bridged: i != 0 };
        let ok: Rc<RefCell<BTreeSet<Vec<u8>>>> = Default::default();
        let ism = IsmStub::new(Verdict::Among(ok.clone()));
        let ia = w.ch.put_stub(ism.clone());
        w.default_ism(&ia);
        w.hooks();
        // sometimes the contracts of different chains live at equal addresses
        let r = Warp::deploy(&w.ch, &w.owner, &w.mb, kind, "utok");
        let Some(warp) = c.must(r, "deploy route") else { return };
        if c.rng.bool() {
            let x = warp.own(&w.ch, json!({"connection":{"set_ism":{"ism":ia}}}));
            c.must(x, "set ism");
        }
        let mut users: Vec<String> = (0..2).map(|k| w.ch.user(&format!("user{k}"))).collect();
        // whoever configures the chain may also be a user
        if c.rng.pct(30) {
            users[1] = w.owner.clone();
            c.stat("owner_transfers", 1);
        }
        s.push(Side { w, warp, ok, ism, users });
    }
    for i in 0..3 {
        for j in 0..3 {
            if i != j {
                let r = s[i].warp.route(&s[i].w.ch, doms[j], Some(&words(&s[j].warp.addr)));
                if c.must(r, "enroll").is_none() {
                    return;
                }
            }
        }
    }
    let mut total = 0u128;
    for u in &s[0].users {
        let v = c.rng.amt_small() + 10;
        if s[0].warp.give(&s[0].w.ch, u, v) {
            total += v;
        }
    }
    let mut donated = 0u128;
    // synthetic tokens sent where nobody gets them back, per chain
    let mut sunk = [0u128; 3];
    // model ledgers and messages in flight: raw -> (dest side, amount, recipient)
    let mut led: Vec<Ledger> = s.iter().map(|x| x.warp.ledger(&x.w.ch)).collect();
    let mut flight: BTreeMap<Vec<u8>, (usize, u128, String)> = BTreeMap::new();
    let mut sent_order: Vec<Vec<u8>> = vec![];
    let mut done: Vec<(Vec<u8>, usize)> = vec![];
    let mut blocked: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut evil: Vec<(Vec<u8>, usize)> = vec![];
    let steps = c.rng.many(8, 30);
    for step in 0..steps {
        let k = c.rng.below(20);
        let mut key;
        let mut attack = false;
        match k {
            0..=7 => {
                let i = if c.rng.pct(45) { 0 } else { c.rng.idx(3) };
                let j = (i + 1 + c.rng.idx(2)) % 3;
                let u = c.rng.pick(&s[i].users.clone()).clone();
                let have = led[i].0.get(&u).copied().unwrap_or(0);
                let amt = match c.rng.below(5) {
                    0 => have,
                    1 => have + 1,
                    _ => {
                        if have > 0 {
                            c.rng.u128() % have + 1
                        } else {
                            1
                        }
                    }
                };
                // a transfer of nothing is nobody's money
                let amt = amt.max(1);
                let mut to = c.rng.pick(&s[j].users.clone()).clone();
                if c.rng.pct(10) {
                    // tokens may be sent where nobody gets them back
                    to = c.rng.pick(&[s[j].warp.addr.clone(), s[j].w.mb.clone(), s[j].w.ch.user("sink")]).clone();
                }
                let (ch, wp) = (&s[i].w.ch, &s[i].warp);
                if wp.kind.cw20 && amt > 0 {
                    let _ = wp.allow(ch, &u, amt);
                }
                let nonce = s[i].w.mailbox().nonce().unwrap_or(0) as u32;
                let funds = if wp.kind.cw20 { vec![] } else { vec![coin(amt, &wp.token)] };
                let mark = ch.mark();
                let r = ch.exec(&u, &wp.addr, &json!({"transfer_remote":{"dest_domain":doms[j],"recipient":hexs(words(&to)),"amount":amt.to_string(),"hook":null,"metadata":null}}), &funds);
                c.log(|| format!("step {step}: transfer {amt} of {have} {i}->{j} ({}): {}", wp.kind.name(), brief(&r)));
                let evs = ch.evs(mark);
                if r.is_ok() {
                    let next = if wp.kind.bridged { moved(&led[i], Some(&u), None, amt) } else { moved(&led[i], Some(&u), Some(&wp.addr), amt) };
                    let Some(n) = next else {
                        c.viol("overspent", format!("{amt} of {have}"));
                        return;
                    };
                    led[i] = n;
                    let want = Msg { version: 3, nonce, origin: doms[i], sender: words(&wp.addr), dest: doms[j], recipient: words(&s[j].warp.addr), body: body(&words(&to), amt, &[]) }.encode();
                    let got: BTreeSet<Vec<u8>> = post_dispatches(&evs, &s[i].w.mb).into_iter().filter(|p| p.committed).map(|p| p.message).collect();
                    c.check(got.len() == 1 && got.contains(&want), "dispatched", || format!("{:?} want {}", got.iter().map(hexs).collect::<Vec<_>>(), hexs(&want)));
                    // whatever was dispatched is what the destination's security module vouches for
                    for m in got {
                        s[j].ok.borrow_mut().insert(m.clone());
                        flight.insert(m.clone(), (j, amt, to.clone()));
                        sent_order.push(m);
                    }
                    c.stat("transfer", 1);
                    if i != 0 && j != 0 {
                        c.stat("remote_to_remote", 1);
                    }
                } else {
                    c.check(amt > have || amt == 0, "transfer-refused", || format!("{amt} of {have}: {}", brief(&r)));
                }
                key = format!("t{i}{j}|{}", r.is_ok());
            }
            8..=12 => {
                // relay something in flight, in any order
                if flight.is_empty() {
                    continue;
                }
                let ks: Vec<Vec<u8>> = flight.keys().cloned().collect();
                let m = c.rng.pick(&ks).clone();
                if sent_order.iter().find(|x| flight.contains_key(*x)) != Some(&m) {
                    c.stat("out_of_order", 1);
                }
                let (j, amt, to) = flight[&m].clone();
                let block = c.rng.pct(12);
                if block {
                    *s[j].ism.v.borrow_mut() = Verdict::False;
                }
                let rel = s[j].w.ch.user("relayer");
                let r = s[j].w.process(&rel, &c.rng.blob(), &m);
                *s[j].ism.v.borrow_mut() = Verdict::Among(s[j].ok.clone());
                c.log(|| format!("step {step}: relay {amt} to {j} block={block}: {}", brief(&r)));
                if block {
                    c.check(r.is_err(), "unverified-delivered", || "".into());
                    blocked.insert(m.clone());
                } else if c.must(r.map(|_| ()), "relay").is_some() {
                    flight.remove(&m);
                    credit(c, &s[j], &mut led[j], amt, &to);
                    lost(c, &s[j], j, amt, &to, &mut donated, &mut sunk);
                    if blocked.contains(&m) {
                        c.stat("blocked_then_delivered", 1);
                    }
                    done.push((m, j));
                    c.stat("delivered", 1);
                }
                key = format!("r{j}|{block}");
            }
            13 | 14 => {
                attack = true;
                // replay of a delivered message
                if done.is_empty() {
                    continue;
                }
                let (m, j) = c.rng.pick(&done).clone();
                let rel = s[j].w.ch.user(c.rng.pick(&["relayer", "other"]));
                let r = s[j].w.process(&rel, &c.rng.blob(), &m);
                c.log(|| format!("step {step}: replay on {j}: {}", brief(&r)));
                c.check(r.is_err(), "replay-accepted", || hexs(&m));
                c.stat("replay_refused", 1);
                key = format!("replay{j}");
            }
            15 => {
                attack = true;
                // deliver on another chain, whose module (mistakenly) vouches for it
                let Some(m) = sent_order.last().cloned() else { continue };
                let dest = flight.get(&m).map(|f| f.0).or(done.iter().find(|d| d.0 == m).map(|d| d.1)).unwrap_or(0);
                let j = (dest + 1 + c.rng.idx(2)) % 3;
                *s[j].ism.v.borrow_mut() = Verdict::True;
                let r = s[j].w.process(&s[j].w.ch.user("relayer"), &[], &m);
                *s[j].ism.v.borrow_mut() = Verdict::Among(s[j].ok.clone());
                c.check(r.is_err(), "wrong-chain-accepted", || hexs(&m));
                c.stat("wrong_chain_refused", 1);
                key = format!("wrongchain{j}");
            }
            16 => {
                attack = true;
                // a user dispatches a look-alike transfer message directly
                let (i, j) = { let i = c.rng.idx(3); (i, (i + 1 + c.rng.idx(2)) % 3) };
                let u = s[i].users[0].clone();
                let to = s[j].users[1].clone();
                let mark = s[i].w.ch.mark();
                let r = s[i].w.ch.exec(&u, &s[i].w.mb, &dispatch_msg(doms[j], &words(&s[j].warp.addr), &body(&words(&to), 1 + c.rng.amt_small(), &[]), None, None), &[]);
                if c.must(r.map(|_| ()), "dispatch").is_none() {
                    return;
                }
                for p in post_dispatches(&s[i].w.ch.evs(mark), &s[i].w.mb) {
                    s[j].ok.borrow_mut().insert(p.message.clone());
                    evil.push((p.message, j));
                }
                let (m, j) = evil.last().cloned().unwrap();
                let r = s[j].w.process(&u32r(&s[j]), &[], &m);
                c.log(|| format!("step {step}: look-alike {i}->{j}: {}", brief(&r)));
                c.check(r.is_err(), "forged-sender-accepted", || hexs(&m));
                c.stat("forged_sender_refused", 1);
                key = format!("forge{i}{j}");
            }
            17 => {
                attack = true;
                // alter a genuine message; the module does not vouch for it
                let Some(m) = sent_order.last().cloned() else { continue };
                let mut t = m.clone();
                let i = c.rng.idx(t.len());
                t[i] ^= 1 << c.rng.below(8);
                let mut j = 0;
                for (k, d) in doms.iter().enumerate() {
                    if t[41..45] == d.to_be_bytes() {
                        j = k;
                    }
                }
                if s[j].ok.borrow().contains(&t) {
                    continue;
                }
                let r = s[j].w.process(&u32r(&s[j]), &[], &t);
                c.check(r.is_err(), "tampered-accepted", || format!("byte {i} of {}", hexs(&m)));
                c.stat("tampered_refused", 1);
                key = format!("tamper{}", i / 16);
            }
            18 => {
                attack = true;
                // a message nobody dispatched, from the right router
                let (i, j) = { let i = c.rng.idx(3); (i, (i + 1 + c.rng.idx(2)) % 3) };
                let m = Msg { version: 3, nonce: c.rng.dom() ^ 0x5a5a_0000, origin: doms[i], sender: words(&s[i].warp.addr), dest: doms[j], recipient: words(&s[j].warp.addr), body: body(&words(&s[j].users[0]), c.rng.amt_small(), &[]) }.encode();
                if s[j].ok.borrow().contains(&m) {
                    continue;
                }
                let r = if c.rng.bool() {
                    s[j].w.process(&u32r(&s[j]), &[], &m)
                } else {
                    // or hand it to the route without the mailbox
                    let d = Msg::decode(&m).unwrap();
                    s[j].w.ch.exec(&u32r(&s[j]), &s[j].warp.addr, &json!({"handle":{"origin":d.origin,"sender":hexs(d.sender),"body":hexs(&d.body)}}), &[])
                };
                c.check(r.is_err(), "undispatched-accepted", || hexs(&m));
                c.stat("undispatched_refused", 1);
                key = format!("undispatched{i}{j}");
            }
            _ => {
                let v = c.rng.range(1, 1000) as u128;
                if s[0].warp.give(&s[0].w.ch, &s[0].warp.addr, v) {
                    donated += v;
                    total += v;
                    led[0] = moved(&led[0], None, Some(&s[0].warp.addr), v).unwrap();
                    c.stat("donated", 1);
                }
                key = "donate".to_string();
            }
        }
        if !judge(c, &s, &led, &flight, donated, total, step) {
            return;
        }
        key += &format!("|{}|{}|{}|{}", s[0].warp.kind.name(), s[1].warp.kind.name(), s[2].warp.kind.name(), flight.len().min(6));
        c.eval(key, attack || !flight.is_empty());
    }
    // deliver what is left, then everybody redeems everything
    for round in 0..2 {
        let ms: Vec<Vec<u8>> = flight.keys().cloned().collect();
        for m in ms {
            let (j, amt, to) = flight[&m].clone();
            let r = s[j].w.process(&u32r(&s[j]), &[], &m);
            if c.must(r.map(|_| ()), "final relay").is_none() {
                return;
            }
            flight.remove(&m);
            credit(c, &s[j], &mut led[j], amt, &to);
            lost(c, &s[j], j, amt, &to, &mut donated, &mut sunk);
        }
        if !judge(c, &s, &led, &flight, donated, total, 1000 + round) {
            return;
        }
        if round == 1 {
            break;
        }
        for i in 1..3 {
            for u in s[i].users.clone() {
                let have = led[i].0.get(&u).copied().unwrap_or(0);
                if have == 0 {
                    continue;
                }
                let to = s[0].users[0].clone();
                let (ch, wp) = (&s[i].w.ch, &s[i].warp);
                if wp.kind.cw20 {
                    let _ = wp.allow(ch, &u, have);
                }
                let funds = if wp.kind.cw20 { vec![] } else { vec![coin(have, &wp.token)] };
                let mark = ch.mark();
                let r = ch.exec(&u, &wp.addr, &json!({"transfer_remote":{"dest_domain":doms[0],"recipient":hexs(words(&to)),"amount":have.to_string(),"hook":null,"metadata":null}}), &funds);
                if c.must(r.map(|_| ()), "redeem").is_none() {
                    return;
                }
                for p in post_dispatches(&ch.evs(mark), &s[i].w.mb).into_iter().map(|p| p.message).collect::<BTreeSet<_>>() {
                    s[0].ok.borrow_mut().insert(p.clone());
                    flight.insert(p, (0, have, to.clone()));
                }
                led[i] = moved(&led[i], Some(&u), None, have).unwrap();
            }
        }
    }
    let left = s[0].warp.bal(&s[0].w.ch, &s[0].warp.addr);
    if c.check(left == donated + sunk[1] + sunk[2] && s[1].warp.supply(&s[1].w.ch) == sunk[1] && s[2].warp.supply(&s[2].w.ch) == sunk[2], "redemption", || format!("after everyone redeemed: locked {left}, donated {donated}, lost {sunk:?}")) {
        c.stat("redeemed_all", 1);
    }
}

/// delivered to an account that does not take part
fn lost(c: &mut Case, s: &Side, j: usize, amt: u128, to: &str, donated: &mut u128, sunk: &mut [u128; 3]) {
    if s.users.iter().any(|u| u == to) {
        return;
    }
    if j > 0 {
        sunk[j] += amt;
    } else if to == s.warp.addr {
        // back where it came from, but owed to nobody
        *donated += amt;
    }
    c.stat("sunk", 1);
}

fn u32r(s: &Side) -> String {
    s.w.ch.user("relayer")
}

fn credit(c: &mut Case, s: &Side, l: &mut Ledger, amt: u128, to: &str) {
    let n = if s.warp.kind.bridged { moved(l, None, Some(to), amt) } else { moved(l, Some(&s.warp.addr), Some(to), amt) };
    match n {
        Some(n) => *l = n,
        None => c.viol("insolvent", format!("{} released {amt} it did not have", s.warp.kind.name())),
    }
}

fn judge(c: &mut Case, s: &[Side], led: &[Ledger], flight: &BTreeMap<Vec<u8>, (usize, u128, String)>, donated: u128, total: u128, step: u64) -> bool {
    let mut good = true;
    for (i, x) in s.iter().enumerate() {
        let l = x.warp.ledger(&x.w.ch);
        good &= c.check(l == led[i], "ledger", || format!("step {step} chain {i} ({}): {l:?}, expected {:?}", x.warp.kind.name(), led[i]));
    }
    let locked = s[0].warp.bal(&s[0].w.ch, &s[0].warp.addr);
    let synth: u128 = s[1..].iter().map(|x| x.warp.supply(&x.w.ch)).sum();
    let air: u128 = flight.values().map(|f| f.1).sum();
    good &= c.check(locked == donated + synth + air, "backing", || format!("step {step}: locked {locked}, donated {donated}, synthetic {synth}, in flight {air}"));
    let _ = total;
    good
}
