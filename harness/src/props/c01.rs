//! At-most-once delivery.
use super::util::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::stubs::*;
use cosmwasm_std::{ReplyOn, SubMsg};
use serde_json::json;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 37500,
    thorough: 1500000,
    rule: "one judged transaction containing process calls; nontrivial when it re-submits an already delivered message, re-enters the mailbox, batches processes, or fails part-way; distinct by (operation shape, outcome, delivered-before flags)",
    floors: &["delivered", "replay_attempts", "reentrant_same", "failed_then_retried", "batch"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ism = IsmStub::new(Verdict::True);
    let ism_a = w.ch.put_stub(ism.clone());
    w.default_ism(&ism_a);
    let own_ism = IsmStub::new(Verdict::True);
    let own_a = w.ch.put_stub(own_ism.clone());
    if c.rng.pct(50) {
        w.hooks();
    }
    let mut recs: Vec<(String, [u8; 32], Rc<RecipientStub>)> = vec![];
    for i in 0..c.rng.range(1, 4) {
        let raw = contract_raw(&mut c.rng);
        let a = w.ch.addr_of(&raw);
        if w.ch.is_contract(&a) {
            continue;
        }
        let s = RecipientStub::new();
        if i % 2 == 1 {
            *s.ism.borrow_mut() = Ok(Some(own_a.clone()));
        }
        w.ch.put_stub_at(&a, s.clone());
        recs.push((a, pad32(&raw), s));
    }
    let batch = w.ch.put_stub(Rc::new(BatchStub));
    let mut pool: Vec<(Msg, usize)> = vec![];
    for _ in 0..c.rng.range(2, 6) {
        let r = c.rng.idx(recs.len());
        if !pool.is_empty() && c.rng.pct(45) {
            let (m, r) = c.rng.pick(&pool).clone();
            pool.push((near_miss(&mut c.rng, &m), r));
        } else {
            pool.push((random_msg(&mut c.rng, w.domain, recs[r].1), r));
        }
    }
    pool.dedup_by(|a, b| a.0 == b.0);
    let mut done: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
    let mut tried: std::collections::BTreeSet<Vec<u8>> = Default::default();
    let users = [w.ch.user("relayer"), w.ch.user("mallory"), w.owner.clone()];
    let steps = c.rng.many(8, 30);
    for step in 0..steps {
        let (m, r) = c.rng.pick(&pool).clone();
        let raw = m.encode();
        let md = if c.rng.pct(40) { vec![] } else { c.rng.blob() };
        let sender = c.rng.pick(&users).clone();
        for (_, _, s) in &recs {
            *s.mode.borrow_mut() = Mode::Good;
            s.then.borrow_mut().clear();
        }
        *ism.v.borrow_mut() = Verdict::True;
        *own_ism.v.borrow_mut() = Verdict::True;
        w.ch.fail_at.set(None);
        // hostile conditions for this step
        let mut shape = vec![];
        match c.rng.below(9) {
            0 => {
                let f = c.rng.pick(&[Mode::Err, Mode::Panic]).clone();
                *recs[r].2.mode.borrow_mut() = f;
                shape.push("rec-fails");
            }
            1 => {
                let v = c.rng.pick(&[Verdict::False, Verdict::Err, Verdict::Panic, Verdict::Garbage]).clone();
                *ism.v.borrow_mut() = v.clone();
                *own_ism.v.borrow_mut() = v;
                shape.push("ism-rejects");
            }
            2 | 3 => {
                // the recipient re-submits this or another message while handling
                let k = if c.rng.pct(60) { (m.clone(), r) } else { c.rng.pick(&pool).clone() };
                let same = k.0 == m;
                let on = c.rng.pick(&[ReplyOn::Never, ReplyOn::Always, ReplyOn::Error]).clone();
                let md2 = c.rng.blob();
                let sub = SubMsg { id: 9, msg: wexec(&w.mb, &process_msg(&md2, &k.0.encode()), vec![]), gas_limit: None, reply_on: on };
                recs[r].2.then.borrow_mut().push(sub);
                shape.push(if same { "reenter-same" } else { "reenter-other" });
                if same {
                    c.stat("reentrant_same", 1);
                }
            }
            4 => {
                w.ch.fail_at.set(Some(c.rng.range(1, 4)));
                shape.push("fault");
            }
            _ => {}
        }
        let was = done.contains_key(&raw);
        let mark = w.ch.mark();
        let before: Vec<_> = done.clone().into_iter().collect();
        let batched = c.rng.pct(25);
        let res = if batched {
            c.stat("batch", 1);
            let n = c.rng.range(2, 4);
            let mut l = vec![];
            for i in 0..n {
                let k = if i == 0 || c.rng.pct(50) { raw.clone() } else { c.rng.pick(&pool).0.encode() };
                l.push(json!({"to": w.mb, "msg": process_msg(&md, &k), "funds": [], "catch": c.rng.pct(70)}));
            }
            shape.push("batch");
            w.ch.exec(&sender, &batch, &json!({ "multi": l }), &[])
        } else {
            w.process(&sender, &md, &raw)
        };
        w.ch.fail_at.set(None);
        if was {
            c.stat("replay_attempts", 1);
        }
        let evs = w.ch.evs(mark);
        let hs = handles(&evs, mark, &w.mb);
        // committed handle calls, attributed to the process call they came from
        let mut now: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
        for h in hs.iter().filter(|h| h.committed) {
            *now.entry(h.message.clone()).or_default() += 1;
        }
        for (k, n) in &now {
            let t = done.entry(k.clone()).or_default();
            *t += n;
            let t = *t;
            c.stat("delivered", *n);
            if tried.contains(k) {
                c.stat("failed_then_retried", 1);
            }
            c.check(t <= 1, "delivered-twice", || {
                format!("message {} handled {t} times (step {step}, {shape:?})", hexs(crate::model::keccak(&[k])))
            });
        }
        // an accepted process call handles its message, exactly once
        for p in processed(&evs, &w.mb) {
            let n = hs.iter().filter(|h| h.committed && h.message == p).count();
            c.check(n >= 1, "accepted-not-handled", || format!("process of {} accepted without handle", hexs(&p)));
        }
        if !batched && was {
            c.check(res.is_err(), "replay-accepted", || format!("replay accepted at step {step}"));
        }
        if !done.contains_key(&raw) {
            tried.insert(raw.clone());
        }
        // the delivered flag is truthful for every message, at every quiescent point
        for (k, _) in &pool {
            let want = done.contains_key(&k.encode());
            match w.mailbox().delivered(&k.id()) {
                Ok(got) => {
                    c.check(got == want, "delivered-flag", || {
                        format!("flag of {} is {got}, deliveries say {want} (step {step} {shape:?})", hexs(k.id()))
                    });
                }
                Err(e) => c.viol("delivered-query", e),
            }
        }
        let unseen = c.rng.bytes(32);
        c.check(w.mailbox().delivered(&unseen) == Ok(false), "delivered-flag-unknown", || "unknown id delivered".into());
        c.log(|| format!("step {step} {shape:?} replay={was} -> {} handles={}", brief(&res), hs.iter().filter(|h| h.committed).count()));
        let key = format!("{shape:?}|{}|{was}|{}|{}", res.is_ok(), now.len(), before.len());
        c.eval(key, was || !shape.is_empty());
    }
    // liveness: whatever has not been delivered is still deliverable, once
    for (_, _, s) in &recs {
        *s.mode.borrow_mut() = Mode::Good;
        s.then.borrow_mut().clear();
    }
    *ism.v.borrow_mut() = Verdict::True;
    *own_ism.v.borrow_mut() = Verdict::True;
    for (m, _) in &pool {
        let raw = m.encode();
        if !done.contains_key(&raw) {
            let r = w.process(&users[0], b"", &raw);
            if tried.contains(&raw) && r.is_ok() {
                c.stat("failed_then_retried", 1);
            }
            if c.must(r, "deliver-undelivered").is_some() {
                done.insert(raw.clone(), 1);
            }
        }
        let r = w.process(&users[1], b"x", &raw);
        c.check(r.is_err(), "replay-accepted", || "replay accepted after delivery".into());
        c.eval(format!("final|{}", tried.contains(&raw)), true);
    }
}
