//! Outbound transfers: what leaves the sender is what the remote router is told to release.
use super::util::*;
use super::warpw::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::unb32;
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 50000,
    thorough: 2000000,
    rule: "one judged outbound transfer; nontrivial when it moves tokens, carries a fee, or is invalid in one respect; distinct by (route kind, invalidity, recipient length, amount class, fee shape, hook choice, outcome)",
    floors: &["native_collateral", "native_bridged", "cw20_collateral", "cw20_bridged", "sent", "burned", "locked", "fee_paid", "fee_in_token", "short_recipient_refused", "unrouted_refused", "underfunded_refused", "explicit_hook", "connection_hook", "default_hook", "fee_short_refused", "rerouted", "metadata", "whole_balance", "lookalike_coins"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    let kind = *c.rng.pick(&KINDS);
    c.stat(kind.name(), 1);
    w.default_ism(&ch.put_stub(IsmStub::new(Verdict::True)));
    let (dh, rh, da, _ra) = w.hooks();
    let xh = HookStub::new();
    let xa = ch.put_stub(xh.clone());
    let nh = HookStub::new();
    let na = ch.put_stub(nh.clone());
    let r = Warp::deploy(ch, &w.owner, &w.mb, kind, "utok");
    let Some(wp) = c.must(r, "deploy route") else { return };
    let users = [ch.user("alice"), ch.user("bob"), w.owner.clone(), ch.addr_of(&contract_raw(&mut c.rng))];
    let feeder = 7777u32;
    let feeder_router = [9u8; 32];
    if c.must(wp.route(ch, feeder, Some(&feeder_router)), "enroll").is_none() {
        return;
    }
    // circulation
    let mut n = 0u32;
    for u in &users {
        let v = (1u128 << 101) + c.rng.amt_small();
        if kind.bridged {
            let m = Msg { version: 3, nonce: n, origin: feeder, sender: feeder_router, dest: w.domain, recipient: pad32(&unb32(&wp.addr).unwrap().1), body: body(&pad32(&unb32(u).unwrap().1), v, &[]) };
            n += 1;
            let r = w.process(u, &[], &m.encode());
            if c.must(r, "mint").is_none() {
                return;
            }
        } else {
            wp.give(ch, u, v);
        }
        for d in ["ufee", "uosmo"] {
            ch.faucet(u, d, 1 << 110);
        }
    }
    if !kind.bridged {
        wp.give(ch, &wp.addr, c.rng.amt_small());
    }
    ch.faucet(&wp.addr, "ufee", 1 << 100);
    let mut doms: Vec<u32> = (0..3).map(|_| c.rng.dom()).collect();
    doms.push(doms[0].swap_bytes());
    doms.retain(|d| *d != feeder);
    let mut table: BTreeMap<u32, Vec<u8>> = BTreeMap::new();
    for d in &doms {
        if c.rng.pct(75) {
            let r = c.rng.word();
            if c.must(wp.route(ch, *d, Some(&r)), "enroll").is_some() {
                table.insert(*d, r);
            }
        }
    }
    if c.rng.below(60) == 0 {
        for _ in 0..c.rng.range(30, 150) {
            let (d, r) = (c.rng.next() as u32, c.rng.word());
            if d != feeder && c.must(wp.route(ch, d, Some(&r)), "enroll").is_some() {
                table.insert(d, r);
                doms.push(d);
            }
        }
        c.stat("crowd", 1);
    }
    let mut conn: Option<usize> = None;
    for step in 0..c.rng.many(4, 10) {
        if c.rng.pct(20) {
            let d = *c.rng.pick(&doms);
            let r = if c.rng.pct(30) { None } else { Some(c.rng.word()) };
            if c.must(wp.route(ch, d, r.as_deref()), "reroute").is_some() {
                match r {
                    Some(r) => {
                        if table.insert(d, r).is_some() {
                            c.stat("rerouted", 1);
                        }
                    }
                    None => {
                        table.remove(&d);
                    }
                }
            }
        }
        if c.rng.pct(15) {
            let k = c.rng.idx(2);
            if c.must(wp.own(ch, json!({"connection":{"set_hook":{"hook":([&na, &xa][k])}}})), "set hook").is_some() {
                conn = Some(k);
            }
        }
        let u = c.rng.pick(&users).clone();
        let have = wp.bal(ch, &u);
        let amount = match c.rng.below(10) {
            0 => have,
            1 => have.saturating_add(1),
            2 => c.rng.amt(),
            _ => c.rng.amt_small().max(1),
        };
        let d = if c.rng.pct(8) { c.rng.dom() } else { *c.rng.pick(&doms) };
        let rlen = if c.rng.pct(12) { *c.rng.pick(&[0usize, 1, 20, 31, 33, 64]) } else { 32 };
        let rec = if rlen == 32 { c.rng.word() } else { c.rng.bytes(rlen) };
        let md = if c.rng.pct(40) { Some(c.rng.blob()) } else { None };
        let hookc = c.rng.below(4);
        let (hook, sel_a, sel) = match hookc {
            0 => (Some(xa.clone()), xa.clone(), &xh),
            1 => (Some(da.clone()), da.clone(), &dh),
            _ => match conn {
                Some(0) => (None, na.clone(), &nh),
                Some(_) => (None, xa.clone(), &xh),
                None => (None, da.clone(), &dh),
            },
        };
        // fees
        for h in [&dh, &rh, &xh, &nh] {
            *h.quote.borrow_mut() = vec![];
            h.strict.set(true);
        }
        let intok = !kind.cw20 && c.rng.pct(40);
        let mut fee: BTreeMap<String, u128> = BTreeMap::new();
        if c.rng.pct(60) {
            let dn = if intok { wp.token.clone() } else { "ufee".to_string() };
            let f = c.rng.range(1, 1_000_000) as u128;
            rh.quote.borrow_mut().push(coin(f, &dn));
            *fee.entry(dn).or_insert(0) += f;
        }
        if c.rng.pct(40) {
            let f = c.rng.range(1, 1_000_000) as u128;
            sel.quote.borrow_mut().push(coin(f, "uosmo"));
            *fee.entry("uosmo".into()).or_insert(0) += f;
        }
        let mut pay = fee.clone();
        let feerel = match c.rng.below(8) {
            0 if !fee.is_empty() => {
                let k = c.rng.pick(&fee.keys().cloned().collect::<Vec<_>>()).clone();
                *pay.get_mut(&k).unwrap() -= 1;
                "short"
            }
            1 => {
                *pay.entry("uosmo".into()).or_insert(0) += c.rng.range(1, 1000) as u128;
                // any other coins go along, and more of the token itself
                for d in ["uaaa", "uzzz"] {
                    if c.rng.pct(40) {
                        ch.faucet(&u, d, 1000);
                        *pay.entry(d.into()).or_insert(0) += c.rng.range(1, 1000) as u128;
                    }
                }
                if !kind.cw20 && c.rng.pct(40) {
                    *pay.entry(wp.token.clone()).or_insert(0) += c.rng.range(1, 1000) as u128;
                }
                "excess"
            }
            _ => "exact",
        };
        pay.retain(|_, v| *v > 0);
        // what is handed over together with the call
        let mut send = pay.clone();
        let mut grant = amount;
        let mut under = false;
        if kind.cw20 {
            if c.rng.pct(10) && amount > 0 {
                grant = amount - 1;
                under = true;
            }
            let q = ch.query(&wp.token, json!({"allowance":{"owner":u,"spender":wp.addr}}));
            let cur: u128 = q.ok().and_then(|v| v["allowance"].as_str().and_then(|s| s.parse().ok())).unwrap_or(0);
            if cur > 0 {
                let _ = ch.exec(&u, &wp.token, &json!({"decrease_allowance":{"spender":wp.addr,"amount":cur.to_string(),"expires":null}}), &[]);
            }
            if grant > 0 {
                c.must(wp.allow(ch, &u, grant), "allow");
            }
        } else {
            if c.rng.pct(10) && amount > 0 {
                grant = amount - 1;
                // a surplus of the token makes up for it
                under = pay.get(&wp.token) <= fee.get(&wp.token);
            }
            let cur = send.get(&wp.token).copied().unwrap_or(0);
            let Some(t) = cur.checked_add(grant) else { continue };
            // with the fee in the token itself, a shortfall of the amount eats into the fee
            send.insert(wp.token.clone(), t);
            if amount > 0 && c.rng.pct(8) {
                // other coins that are called almost the same
                let x = lookalike(&mut c.rng, &wp.token);
                ch.faucet(&u, &x, t);
                if c.rng.pct(70) {
                    send.remove(&wp.token);
                    under = true;
                    c.stat("lookalike_coins", 1);
                }
                *send.entry(x).or_insert(0) += t;
            }
            send.retain(|_, v| *v > 0);
        }
        let funds: Vec<Coin> = send.iter().map(|(d, a)| coin(*a, d)).collect();
        let before = wp.ledger(ch);
        let all = ch.all_balances();
        let nonce = w.mailbox().nonce().unwrap_or(u64::MAX);
        let mark = ch.mark();
        let r = ch.exec(
            &u,
            &wp.addr,
            &json!({"transfer_remote":{"dest_domain":d,"recipient":hexs(&rec),"amount":amount.to_string(),"hook":hook,"metadata":md.as_ref().map(hexs)}}),
            &funds,
        );
        let evs = ch.evs(mark);
        let after = wp.ledger(ch);
        c.log(|| format!("step {step} {}: {amount} of {have} to domain {d} recipient {rlen}B routed={} fee {fee:?} sent {send:?} grant {grant} hook {hookc}: {}", kind.name(), table.contains_key(&d), brief(&r)));
        let affordable = amount <= have && !under && funds.iter().all(|f| all.get(&(u.clone(), f.denom.clone())).copied().unwrap_or(0) >= f.amount.u128());
        let valid = rlen == 32 && table.contains_key(&d) && affordable && feerel != "short";
        match &r {
            Ok(_) => {
                c.check(rlen == 32, "malformed-recipient-accepted", || format!("{}: recipient of {rlen} bytes", kind.name()));
                let Some(router) = table.get(&d) else {
                    c.viol("unrouted-accepted", format!("{} domain {d}", kind.name()));
                    continue;
                };
                // the debit
                let tokfee = if kind.cw20 { 0 } else { send.get(&wp.token).copied().unwrap_or(0).saturating_sub(amount) };
                let hooks_hold = |l: &Ledger| -> u128 { [&da, &xa, &na, &_ra].iter().map(|a| l.0.get(a.as_str()).copied().unwrap_or(0)).sum() };
                let bal = |l: &Ledger, a: &str| l.0.get(a).copied().unwrap_or(0);
                c.check(bal(&before, &u).checked_sub(bal(&after, &u)) == Some(amount + tokfee), "sender-debit", || format!("{}: amount {amount} fee {tokfee}: {} -> {}", kind.name(), bal(&before, &u), bal(&after, &u)));
                if kind.bridged {
                    c.check(before.1 - after.1 == amount, "burn-exact", || format!("{}: amount {amount}: supply {} -> {}", kind.name(), before.1, after.1));
                    c.check(bal(&before, &wp.addr) == bal(&after, &wp.addr), "route-kept-burned", || format!("{} -> {}", bal(&before, &wp.addr), bal(&after, &wp.addr)));
                    c.stat("burned", 1);
                } else {
                    c.check(after.1 == before.1, "collateral-supply", || format!("{} -> {}", before.1, after.1));
                    c.check(bal(&after, &wp.addr).checked_sub(bal(&before, &wp.addr)) == Some(amount), "lock-exact", || format!("{}: amount {amount}: locked {} -> {}", kind.name(), bal(&before, &wp.addr), bal(&after, &wp.addr)));
                    c.stat("locked", 1);
                }
                c.check(hooks_hold(&after).checked_sub(hooks_hold(&before)) == Some(tokfee), "token-fee", || format!("{} -> {} fee {tokfee}", hooks_hold(&before), hooks_hold(&after)));
                // everything else sent along reaches the mailbox and its hooks
                let mut fwd = send.clone();
                if !kind.cw20 {
                    let x = fwd.get_mut(&wp.token);
                    if let Some(x) = x {
                        *x = x.saturating_sub(amount);
                    }
                }
                fwd.retain(|_, v| *v > 0);
                for dn in send.keys().map(|d| d.as_str()).filter(|d| *d != wp.token).chain(["ufee", "uosmo"]) {
                    let k = (wp.addr.clone(), dn.to_string());
                    c.check(ch.balance(&wp.addr, dn) == all.get(&k).copied().unwrap_or(0), "route-kept-fee", || format!("{dn}: {:?} -> {}", all.get(&k), ch.balance(&wp.addr, dn)));
                }
                let disp: Vec<_> = evs.iter().filter(|e| e.from == wp.addr && e.to == w.mb && e.committed() && e.json().get("dispatch").is_some()).collect();
                if c.check(disp.len() == 1, "dispatch-count", || format!("{}", disp.len())) {
                    c.check(coin_map(&disp[0].funds) == fwd, "fee-forwarded", || format!("sent along {fwd:?}, mailbox got {:?}", coin_map(&disp[0].funds)));
                }
                // the message, as the hooks (and so the relayers) see it
                let want = Msg { version: 3, nonce: nonce as u32, origin: w.domain, sender: pad32(&unb32(&wp.addr).unwrap().1), dest: d, recipient: router.clone().try_into().unwrap(), body: if rlen == 32 { body(&rec.clone().try_into().unwrap(), amount, &[]) } else { vec![] } };
                let pd: Vec<_> = post_dispatches(&evs, &w.mb).into_iter().filter(|p| p.committed).collect();
                c.check(pd.len() == 2, "hooks-called", || format!("{}", pd.len()));
                for p in &pd {
                    if rlen == 32 {
                        c.check(p.message == want.encode(), "message", || format!("{}: dispatched {}, want {}", kind.name(), hexs(&p.message), hexs(want.encode())));
                    }
                    c.check(p.metadata == md.clone().unwrap_or_default(), "metadata", || format!("{:?} vs {}", md.as_ref().map(hexs), hexs(&p.metadata)));
                }
                c.check(pd.iter().any(|p| p.to == sel_a), "hook-choice", || format!("chosen {sel_a}, called {:?}", pd.iter().map(|p| &p.to).collect::<Vec<_>>()));
                c.stat(match (hookc, conn) { (0 | 1, _) => "explicit_hook", (_, Some(_)) => "connection_hook", _ => "default_hook" }, 1);
                c.check(amount == 0 || !under, "underfunded-accepted", || format!("{}: amount {amount} handed over {grant} + {fee:?}", kind.name()));
                c.stat("sent", 1);
                if !fee.is_empty() {
                    c.stat("fee_paid", 1);
                }
                if intok && tokfee > 0 {
                    c.stat("fee_in_token", 1);
                }
                if md.is_some() {
                    c.stat("metadata", 1);
                }
                if amount == have {
                    c.stat("whole_balance", 1);
                }
            }
            Err(_) => {
                c.check(before == after && ch.all_balances() == all, "failed-but-moved", || "balances changed".into());
                c.check(!valid || amount == 0, "valid-refused", || format!("{}: {amount} of {have}, fee {fee:?}, sent {send:?}: {}", kind.name(), brief(&r)));
                if rlen != 32 {
                    c.stat("short_recipient_refused", 1);
                } else if !table.contains_key(&d) {
                    c.stat("unrouted_refused", 1);
                } else if !affordable {
                    c.stat("underfunded_refused", 1);
                } else if feerel == "short" {
                    c.stat("fee_short_refused", 1);
                }
            }
        }
        c.eval(
            format!("{}|{rlen}|{}|{affordable}|{feerel}|{}|{hookc}|{:?}|{}|{}", kind.name(), table.contains_key(&d), 128 - amount.leading_zeros(), conn, fee.len(), r.is_ok()),
            amount > 0,
        );
    }
}
