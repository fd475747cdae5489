//! Pausable gates: nothing passes while paused, everything passes otherwise.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::stubs::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 38000,
    thorough: 1523000,
    rule: "one judged verify, dispatch or process attempt through a pausable gate; nontrivial once the gate has changed state at least once or started paused; distinct by (initial state, transition history, probe, outcome)",
    floors: &["blocked_dispatch", "passed_dispatch", "blocked_process", "passed_process", "stranger_refused", "redundant_refused", "verify_of_nothing", "nominee_or_past_refused", "ownership_moves"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let (first_owner, deployer) = (w.ch.user("gatekeeper"), w.ch.user("deployer"));
    // one ownership history per gate
    let mut owners = [first_owner.clone(), first_owner.clone()];
    let mut pending: [Option<String>; 2] = [None, None];
    let gate_owner = first_owner.clone();
    let (mut hp, mut ip) = (c.rng.bool(), c.rng.bool());
    let r = w.ch.deploy(&deployer, &codes::hook_pausable(), &json!({"owner":gate_owner,"paused":hp}));
    let Some(hook) = c.must(r, "instantiate hook") else { return };
    let r = w.ch.deploy(&deployer, &codes::ism_pausable(), &json!({"owner":gate_owner,"paused":ip}));
    let Some(ism) = c.must(r, "instantiate ism") else { return };
    let other = HookStub::new();
    let oa = w.ch.put_stub(other);
    // the gate may sit in any of the three hook positions
    let pos = c.rng.below(3);
    w.required_hook(if pos == 0 { &hook } else { &oa });
    w.default_hook(if pos == 1 { &hook } else { &oa });
    w.default_ism(&ism);
    let rec = RecipientStub::new();
    let ra = w.ch.put_stub(rec.clone());
    let r_raw: [u8; 32] = crate::model::pad32(&crate::sim::unb32(&ra).unwrap().1);
    let mut hist = format!("{hp}{ip}{pos}");
    let mut changed = hp || ip;
    for step in 0..c.rng.many(6, 16) {
        let g = c.rng.idx(2);
        let (addr, st, tag) = if g == 0 { (&hook, &mut hp, 'h') } else { (&ism, &mut ip, 'i') };
        if c.rng.pct(30) {
            let next = w.ch.user(&format!("next{}", c.rng.below(3)));
            let (by, m) = match (&pending[g], c.rng.below(3)) {
                (None, _) => (owners[g].clone(), json!({"init_ownership_transfer":{"next_owner":next}})),
                (Some(_), 0) => (owners[g].clone(), json!({"revoke_ownership_transfer":{}})),
                (Some(p), _) => (p.clone(), json!({"claim_ownership":{}})),
            };
            let r = w.ch.exec(&by, addr, &json!({ "ownable": m }), &[]);
            if c.must(r, "ownership").is_some() {
                match (pending[g].take(), by == owners[g]) {
                    (None, _) => pending[g] = Some(next),
                    (Some(p), _) if m.get("claim_ownership").is_some() => owners[g] = p,
                    _ => {}
                }
                c.stat("ownership_moves", 1);
            }
        }
        let gate_owner = owners[g].clone();
        let who = match c.rng.below(8) {
            0 => w.owner.clone(),
            1 => deployer.clone(),
            2 => w.ch.user(&format!("u{}", c.rng.below(4))),
            3 => pending[g].clone().unwrap_or(first_owner.clone()),
            4 => first_owner.clone(),
            _ => gate_owner.clone(),
        };
        if who != gate_owner && (Some(&who) == pending[g].as_ref() || who == first_owner) {
            c.stat("nominee_or_past_refused", 1);
        }
        let want = c.rng.bool();
        let r = w.ch.exec(&who, addr, &if want { json!({"pausable":{"pause":{}}}) } else { json!({"pausable":{"release":{}}}) }, &[]);
        let before = *st;
        if who == gate_owner && want != before {
            if c.must(r, if want { "pause" } else { "release" }).is_some() {
                *st = want;
                changed = true;
                hist.push(tag);
            }
        } else if who == gate_owner {
            // redundant: may fail, must not change anything
            c.stat("redundant_refused", 1);
        } else {
            c.check(r.is_err(), "stranger-switch", || format!("{who} could {} a gate owned by {gate_owner}", if want { "pause" } else { "release" }));
            c.stat("stranger_refused", 1);
        }
        let q = w.ch.query(addr, json!({"pausable":{"pause_info":{}}}));
        let now = if tag == 'h' { hp } else { ip };
        c.check(q.as_ref().map(|v| v["paused"] == json!(now)).unwrap_or(false), "pause-info", || format!("{q:?}, expected {now}"));
        // probes
        // whoever it is, the owner and the mailbox' owner included
        let people = [w.ch.user("sender"), owners[0].clone(), owners[1].clone(), w.owner.clone(), deployer.clone(), first_owner.clone(), pending[g].clone().unwrap_or(deployer.clone())];
        let sender = c.rng.pick(&people).clone();
        let hook_arg = if pos == 2 { Some(hook.as_str()) } else { None };
        let (d, b) = (c.rng.dom(), c.rng.blob());
        let pay = if c.rng.pct(30) { coins(&[(c.rng.range(1, 1000) as u128, "utest")]) } else { vec![] };
        fund(&w.ch, &sender, &pay);
        let hmd = if c.rng.bool() { Some(c.rng.blob()) } else { None };
        let r = w.ch.exec(&sender, &w.mb, &dispatch_msg(d, &word32(&mut c.rng), &b, hook_arg, hmd.as_deref()), &pay);
        if hp {
            c.check(r.is_err(), "dispatch-while-paused", || format!("position {pos}"));
            c.stat("blocked_dispatch", 1);
        } else {
            c.check(r.is_ok(), "dispatch-blocked", || format!("position {pos}: {}", brief(&r)));
            c.stat("passed_dispatch", 1);
        }
        let mut m = random_msg(&mut c.rng, w.domain, r_raw);
        m.dest = w.domain;
        if c.rng.pct(40) {
            m.sender = crate::model::pad32(&crate::sim::unb32(c.rng.pick(&people)).unwrap().1);
        }
        let raw = m.encode();
        let md = c.rng.blob();
        let r = w.process(c.rng.pick(&people).clone().as_str(), &md, &raw);
        let v = w.ch.query(&ism, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&raw)}}}));
        let yes = matches!(&v, Ok(v) if v["verified"] == json!(true));
        if ip {
            c.check(r.is_err() && !yes, "process-while-paused", || format!("process {} verify {v:?}", brief(&r)));
            c.stat("blocked_process", 1);
        } else {
            c.check(r.is_ok() && yes, "process-blocked", || format!("process {} verify {v:?}", brief(&r)));
            c.stat("passed_process", 1);
        }
        // the gate looks at neither bytes: whatever it is asked about, also nothing at all
        for _ in 0..2 {
            let odd = match c.rng.below(5) {
                0 => vec![],
                1 => raw[..c.rng.below(raw.len() as u64) as usize].to_vec(),
                2 => vec![0; c.rng.below(100) as usize],
                3 => raw.clone(),
                _ => c.rng.blob(),
            };
            let md = if c.rng.bool() { vec![] } else { c.rng.blob() };
            let v = w.ch.query(&ism, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&odd)}}}));
            let yes = matches!(&v, Ok(v) if v["verified"] == json!(true));
            c.check(yes != ip, "gate-bytes", || format!("paused {ip}: verify of {} message bytes and {} metadata bytes gives {v:?}", odd.len(), md.len()));
            c.stat(if odd.is_empty() { "verify_of_nothing" } else { "verify_of_odd_bytes" }, 1);
        }
        // a direct call is gated as well
        let r = w.ch.exec(&sender, &hook, &json!({"post_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}), &[]);
        c.check(r.is_err() == hp, "direct-hook", || format!("paused {hp}: {}", brief(&r)));
        let q = w.ch.query(&hook, json!({"hook":{"quote_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}}));
        if !hp {
            c.check(q.as_ref().map(|v| v["fees"] == json!([])).unwrap_or(false), "gate-fee", || format!("{q:?}"));
        }
        c.log(|| format!("step {step}: hook paused {hp}, ism paused {ip}"));
        c.eval(format!("{hist}|{hp}{ip}|{}", who == gate_owner), changed);
    }
}
