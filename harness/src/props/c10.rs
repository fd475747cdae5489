//! Two-step ownership transfer on every owned contract.
use super::targets::*;
use super::util::*;
use crate::run::{Case, Prop};
use serde_json::{json, Value};

pub const PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 300000,
    thorough: 12000000,
    rule: "one judged ownership call against the two-step model; nontrivial when a nomination is pending, was revoked or ownership moved before; distinct by (contract, owner, pending, actor, call, outcome) plus history length class",
    floors: &["moved", "revoked", "stranger_refused", "renomination_refused", "old_owner_refused", "self_nomination", "bad_nominee_refused"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let kind = KINDS[(c.idx as usize) % KINDS.len()];
    let actors: Vec<String> = ["alice", "bob", "carol", "dave", "deployer"].iter().map(|n| ch.user(n)).collect();
    let o = c.rng.idx(4);
    let r = deploy(&mut c.rng, &ch, kind, &actors[4], &actors[o]);
    let Some(t) = c.must(r, &format!("instantiate {kind}")) else { return };
    let (mut owner, mut pend): (usize, Option<usize>) = (o, None);
    let mut past = std::collections::BTreeSet::new();
    let call = |c: &mut Case, who: usize, m: Value| -> bool {
        let mut f = vec![];
        if c.rng.pct(5) {
            f = coins(&[(1, "utest")]);
            ch.faucet(&actors[who], "utest", 1);
        }
        ch.exec(&actors[who], &t.addr, &json!({ t.own_exec: m }), &f).is_ok()
    };
    for step in 0..c.rng.many(8, 20) {
        // bias actors towards the interesting ones
        let who = match c.rng.below(6) {
            0 | 1 => owner,
            2 | 3 => pend.unwrap_or(owner),
            _ => c.rng.idx(5),
        };
        let kindop = c.rng.below(7);
        let (label, ok, allowed) = match kindop {
            0 | 1 | 2 => {
                let next = if c.rng.pct(10) { owner } else { c.rng.idx(5) };
                let ok = call(c, who, json!({"init_ownership_transfer":{"next_owner":actors[next]}}));
                let allowed = who == owner && pend.is_none();
                if who == owner && pend.is_some() {
                    c.stat("renomination_refused", 1);
                }
                if allowed && ok {
                    pend = Some(next);
                    if next == owner {
                        c.stat("self_nomination", 1);
                    }
                }
                ("init", ok, allowed)
            }
            3 => {
                let ok = call(c, who, json!({"revoke_ownership_transfer":{}}));
                let allowed = who == owner && pend.is_some();
                if allowed && ok {
                    pend = None;
                    c.stat("revoked", 1);
                }
                ("revoke", ok, allowed)
            }
            4 | 5 => {
                let ok = call(c, who, json!({"claim_ownership":{}}));
                let allowed = pend == Some(who);
                if allowed && ok {
                    past.insert(owner);
                    owner = who;
                    pend = None;
                    c.stat("moved", 1);
                }
                ("claim", ok, allowed)
            }
            _ => {
                // a nominee that is not an address on this chain
                let bad = match c.rng.below(4) {
                    0 => String::new(),
                    1 => crate::sim::b32("other", &[7u8; 20]),
                    2 => actors[0].to_uppercase(),
                    _ => "alice".into(),
                };
                let ok = call(c, who, json!({"init_ownership_transfer":{"next_owner":bad}}));
                c.stat("bad_nominee_refused", 1);
                ("init-bad", ok, false)
            }
        };
        c.log(|| format!("step {step} {kind}: actor {who} {label} -> {ok} (owner {owner}, pending {pend:?})"));
        if allowed {
            c.check(ok, "rightful-refused", || format!("{kind}: {label} by actor {who}, owner {owner} pending {pend:?}"));
        } else {
            c.check(!ok, "wrongful-accepted", || format!("{kind}: {label} by actor {who}, owner {owner} pending {pend:?}"));
            if who != owner {
                c.stat("stranger_refused", 1);
            }
            if past.contains(&who) && who != owner {
                c.stat("old_owner_refused", 1);
            }
        }
        let q = ch.query(&t.addr, json!({"ownable":{"get_owner":{}}}));
        c.check(q.as_ref().map(|v| v["owner"] == actors[owner]).unwrap_or(false), "owner-query", || format!("{kind}: {q:?}, expected actor {owner} {}", actors[owner]));
        let q = ch.query(&t.addr, json!({"ownable":{"get_pending_owner":{}}}));
        let want = pend.map(|p| json!(actors[p])).unwrap_or(Value::Null);
        c.check(q.as_ref().map(|v| v["pending_owner"] == want).unwrap_or(false), "pending-query", || format!("{kind}: {q:?}, expected {want}"));
        c.eval(format!("{kind}|{owner}|{pend:?}|{who}|{label}|{ok}|{}", past.len()), pend.is_some() || !past.is_empty());
        // authority follows the model
        if c.rng.pct(30) {
            let p = owner_op(&mut c.rng, &ch, &t);
            let a = match c.rng.below(3) {
                0 => owner,
                1 => pend.unwrap_or(owner),
                _ => past.iter().next().copied().unwrap_or(owner),
            };
            let before = ch.dump(&t.addr);
            let r = ch.exec(&actors[a], &t.addr, &p.msg, &[]);
            if a == owner {
                c.check(r.is_ok(), "authority-missing", || format!("{kind} {} by the owner: {}", p.name, brief(&r)));
            } else {
                c.check(r.is_err() || ch.dump(&t.addr) == before, "authority-leaked", || format!("{kind} {} by actor {a}, owner {owner}, pending {pend:?}", p.name));
            }
        }
    }
}
