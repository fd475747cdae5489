//! Owner-only operations: nobody else can perform them; for the owner they take effect.
use super::targets::*;
use super::util::*;
use crate::run::{Case, Prop};
use crate::sim::Kind;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 266600,
    thorough: 10666000,
    rule: "one judged owner-only call; nontrivial when a stranger, past or pending owner tries it or when it overwrites earlier configuration; distinct by (contract, operation, actor role, outcome, step)",
    floors: &["owner_effect", "stranger_refused", "pending_refused", "past_owner_refused", "contract_self_refused", "mentioned_refused", "claims"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let kind = KINDS[(c.idx as usize) % KINDS.len()];
    let (deployer, first) = (ch.user("deployer"), ch.user("owner"));
    let r = deploy(&mut c.rng, &ch, kind, &deployer, &first);
    let Some(t) = c.must(r, &format!("instantiate {kind}")) else { return };
    let mut owner = first.clone();
    let mut past = None;
    let mut pending = None;
    if c.rng.pct(50) {
        let next = ch.user("next");
        let r = ch.exec(&owner, &t.addr, &json!({t.own_exec:{"init_ownership_transfer":{"next_owner":next}}}), &[]);
        c.must(r, "nominate");
        pending = Some(next.clone());
        if c.rng.bool() {
            let r = ch.exec(&next, &t.addr, &json!({t.own_exec:{"claim_ownership":{}}}), &[]);
            c.must(r, "claim");
            past = Some(owner);
            owner = next;
            pending = None;
        }
    }
    let mut standing: Vec<Effect> = vec![];
    for step in 0..c.rng.many(5, 14) {
        if c.rng.pct(20) {
            // ownership moves on in the meantime
            let next = ch.user(&format!("next{}", c.rng.below(3)));
            let (by, m) = match (&pending, c.rng.below(3)) {
                (None, _) => (owner.clone(), json!({"init_ownership_transfer":{"next_owner":next}})),
                (Some(_), 0) => (owner.clone(), json!({"revoke_ownership_transfer":{}})),
                (Some(p), _) => (p.clone(), json!({"claim_ownership":{}})),
            };
            let r = ch.exec(&by, &t.addr, &json!({ t.own_exec: m }), &[]);
            if c.must(r, "ownership").is_some() {
                match pending.take() {
                    None => pending = Some(next),
                    Some(p) if m.get("claim_ownership").is_some() => {
                        past = Some(std::mem::replace(&mut owner, p));
                    }
                    _ => {}
                }
            }
            if pending.as_ref() == Some(&owner) {
                pending = None;
                let r = ch.exec(&owner, &t.addr, &json!({ t.own_exec: {"revoke_ownership_transfer":{}} }), &[]);
                c.must(r, "revoke");
            }
            if past.as_ref() == Some(&owner) {
                past = None;
            }
        }
        let p = owner_op(&mut c.rng, &ch, &t);
        let mut mentioned = named(&ch, &t.addr);
        mentioned.retain(|a| ![Some(&owner), pending.as_ref(), past.as_ref()].contains(&Some(a)));
        let (role, who) = match c.rng.below(11) {
            10 if !mentioned.is_empty() => ("mentioned", c.rng.pick(&mentioned).clone()),
            0..=4 => ("owner", owner.clone()),
            5 => ("deployer", deployer.clone()),
            6 if pending.is_some() => ("pending", pending.clone().unwrap()),
            7 if past.is_some() => ("past", past.clone().unwrap()),
            8 => ("self", t.addr.clone()),
            9 => ("contract", ch.addr_of(&c.rng.bytes(32))),
            _ => ("stranger", ch.user(&format!("u{}", c.rng.below(100)))),
        };
        let before = ch.dump(&t.addr);
        let mark = ch.mark();
        let r = ch.exec(&who, &t.addr, &p.msg, &[]);
        c.log(|| format!("step {step} {kind} {} by {role} -> {}", p.name, brief(&r)));
        if role == "owner" {
            if c.check(r.is_ok(), "owner-refused", || format!("{kind} {}: {} {}", p.name, p.msg, brief(&r))) {
                for e in &p.effects {
                    let v = visible(&ch, &t.addr, e);
                    c.check(v.is_ok(), "no-effect", || format!("{kind} {} {}: {}", p.name, p.msg, v.clone().unwrap_err()));
                }
                // what this call did not touch stays
                let qs: Vec<_> = p.effects.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
                standing.retain(|e| !qs.iter().any(|q| q.0 == e.0));
                for e in &standing {
                    let v = visible(&ch, &t.addr, e);
                    c.check(v.is_ok(), "collateral-change", || format!("{kind} {} {}: {}", p.name, p.msg, v.clone().unwrap_err()));
                }
                standing.extend(p.effects.clone());
                c.stat("owner_effect", 1);
            }
        } else {
            let acted = ch.evs(mark).iter().any(|e| e.from == t.addr && e.kind != Kind::Query && e.committed());
            c.check(r.is_err() || (ch.dump(&t.addr) == before && !acted), "unauthorized-effect", || format!("{kind} {} by {role} {who} (owner {owner}): {}", p.name, p.msg));
            c.stat(match role { "pending" => "pending_refused", "past" => "past_owner_refused", "self" => "contract_self_refused", "mentioned" => "mentioned_refused", _ => "stranger_refused" }, 1);
        }
        c.eval(format!("{kind}|{}|{role}|{}|{}", p.name, r.is_ok(), standing.len().min(6)), role != "owner" || standing.len() > p.effects.len());
    }
    // money held by a contract leaves only on its rightful claimant's order
    if kind == "hook_fee" || kind == "igp" {
        mint_all(&ch, &t.addr, 1000);
        let ben = if kind == "igp" { ch.query(&t.addr, json!({"igp":{"beneficiary":{}}})).ok().and_then(|v| v["beneficiary"].as_str().map(|s| s.to_string())).unwrap_or_default() } else { owner.clone() };
        let roles = [deployer.clone(), past.clone().unwrap_or(ch.user("x")), pending.clone().unwrap_or(ch.user("y")), t.addr.clone(), ch.user("thief"), if kind == "igp" { owner.clone() } else { ch.user("z") }];
        for who in roles {
            if who == ben {
                continue;
            }
            let m = if kind == "igp" { json!({"claim":{}}) } else { json!({"fee_hook":{"claim":{"recipient":who}}}) };
            let r = ch.exec(&who, &t.addr, &m, &[]);
            c.check(r.is_err() || DENOMS.iter().all(|d| ch.balance(&t.addr, d) == 1000), "unauthorized-claim", || format!("{kind}: {who} claimed, rightful {ben}"));
            c.stat("claims", 1);
        }
    }
}
