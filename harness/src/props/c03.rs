//! Dispatch: nonces, identity and atomicity.
use super::util::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::{unb32, Kind};
use crate::stubs::*;
use cosmwasm_std::HexBinary;
use serde_json::json;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 50000,
    thorough: 2000000,
    rule: "one judged transaction with dispatches; nontrivial when it fails part-way, nests or batches dispatches, uses odd senders/bodies/recipients or runs near the end of the nonce range; distinct by (shape, number committed, outcome)",
    floors: &["dispatched", "failed", "nested", "batched", "near_max_nonce", "bad_recipient_len"],
};

fn run(c: &mut Case) {
    let w = Core::new(c);
    let (dh, rh, da, ra) = w.hooks();
    let batch = w.ch.put_stub(Rc::new(BatchStub));
    let other = w.ch.put_stub(HookStub::new());
    let mut n: u64 = 0;
    c.check(w.mailbox().nonce() == Ok(0), "initial-nonce", || format!("{:?}", w.mailbox().nonce()));
    // optionally continue a chain close to the end of the nonce range (state edited only if it reads back)
    if c.rng.pct(15) {
        let v = u32::MAX as u64 - c.rng.below(4);
        let old = w.ch.raw_get(&w.mb, b"nonce");
        if old.is_some() {
            w.ch.raw_set(&w.mb, b"nonce", Some(v.to_string().into_bytes()));
            if w.mailbox().nonce() == Ok(v) {
                n = v;
                c.stat("near_max_nonce", 1);
            } else {
                w.ch.raw_set(&w.mb, b"nonce", old);
            }
        }
    }
    let users: Vec<String> = vec![w.ch.user("u1"), w.ch.addr_of(&{ let mut v = c.rng.bytes(20); v[0] = 0; v }), w.ch.addr_of(&contract_raw(&mut c.rng)), w.owner.clone()];
    let mut ids: BTreeSet<Vec<u8>> = Default::default();
    let mut latest = w.mailbox().latest().ok();
    for step in 0..c.rng.many(5, 16) {
        w.ch.fail_at.set(None);
        *dh.exec_mode.borrow_mut() = Mode::Good;
        *rh.exec_mode.borrow_mut() = Mode::Good;
        *rh.quote_mode.borrow_mut() = Mode::Good;
        rh.quote.borrow_mut().clear();
        dh.then.borrow_mut().clear();
        rh.then.borrow_mut().clear();
        let sender = c.rng.pick(&users).clone();
        let dest = if c.rng.pct(15) { w.domain } else { c.rng.dom() };
        let rec = c.rng.word();
        let body = c.rng.blob();
        let md = if c.rng.bool() { Some(c.rng.blob()) } else { None };
        let hook = match c.rng.below(4) {
            0 => Some(other.clone()),
            1 => Some(da.clone()),
            _ => None,
        };
        let msg = dispatch_msg(dest, &rec, &body, hook.as_deref(), md.as_deref());
        let mut shape = vec![];
        let mut expect_fail = false;
        let mut final_msg = msg.clone();
        let mut to = w.mb.clone();
        match c.rng.below(12) {
            0 => {
                let l = c.rng.pick(&[0usize, 1, 20, 31, 33, 64]).clone();
                final_msg = dispatch_msg(dest, &c.rng.bytes(l), &body, None, None);
                expect_fail = true;
                shape.push("bad-recipient");
                c.stat("bad_recipient_len", 1);
            }
            1 => {
                *c.rng.pick(&[&dh, &rh]).exec_mode.borrow_mut() = Mode::Err;
                expect_fail = hook.is_none() || *rh.exec_mode.borrow() == Mode::Err;
                shape.push("hook-fails");
            }
            2 => {
                rh.quote.borrow_mut().push(coin(5, "ufee"));
                expect_fail = true;
                shape.push("unpaid");
            }
            3 => {
                *rh.quote_mode.borrow_mut() = c.rng.pick(&[Mode::Err, Mode::Panic, Mode::Garbage]).clone();
                expect_fail = true;
                shape.push("quote-fails");
            }
            4 => {
                w.ch.fail_at.set(Some(c.rng.range(1, 3)));
                shape.push("fault");
            }
            5 | 6 => {
                // a hook dispatches again from inside post-dispatch
                let b2 = c.rng.blob();
                let m2 = dispatch_msg(c.rng.dom(), &c.rng.word(), &b2, None, None);
                let h = if c.rng.bool() { &dh } else { &rh };
                h.then.borrow_mut().push(wexec(&w.mb, &m2, vec![]));
                shape.push("nested");
                c.stat("nested", 1);
            }
            7 | 8 => {
                let mut l = vec![];
                for _ in 0..c.rng.range(2, 4) {
                    let bad = c.rng.pct(30);
                    let rl = if bad { 31 } else { 32 };
                    let m = if c.rng.pct(40) && !bad { msg.clone() } else { dispatch_msg(c.rng.dom(), &c.rng.bytes(rl), &c.rng.blob(), None, None) };
                    l.push(json!({"to": w.mb, "msg": m, "funds": [], "catch": c.rng.pct(75)}));
                }
                final_msg = json!({ "multi": l });
                to = batch.clone();
                shape.push("batch");
                c.stat("batched", 1);
            }
            9 => shape.push("self-dest"),
            _ => {}
        }
        // quoting must not consume anything
        if c.rng.pct(20) {
            let _ = w.ch.query(&w.mb, json!({"hook":{"quote_dispatch":{"sender":sender,"msg":msg["dispatch"]}}}));
            c.check(w.mailbox().nonce() == Ok(n), "quote-consumes", || "nonce changed by a quote".into());
        }
        let mark = w.ch.mark();
        let r = w.ch.exec(&sender, &to, &final_msg, &[]);
        w.ch.fail_at.set(None);
        let evs = w.ch.evs(mark);
        let start = n;
        let mut want_latest = latest.clone();
        for (i, e) in evs.iter().enumerate() {
            if e.kind != Kind::Exec || e.to != w.mb || !e.committed() {
                continue;
            }
            let j = e.json();
            let Some(d) = j.get("dispatch") else { continue };
            let rcp = unhex(&d["recipient_addr"]).unwrap_or_default();
            if !c.check(rcp.len() == 32, "recipient-length", || format!("dispatched to a {}-byte recipient", rcp.len())) {
                return;
            }
            if !c.check(n <= u32::MAX as u64, "nonce-range", || "dispatch past the last nonce".into()) {
                return;
            }
            let (_, sraw) = unb32(&e.from).unwrap();
            let m = Msg {
                version: 3,
                nonce: n as u32,
                origin: w.domain,
                sender: pad32(&sraw),
                dest: d["dest_domain"].as_u64().unwrap() as u32,
                recipient: rcp.try_into().unwrap(),
                body: unhex(&d["msg_body"]).unwrap(),
            };
            let id = m.id().to_vec();
            let got = unhex(&e.out_json()["message_id"]);
            c.check(got.as_deref() == Some(&id), "message-id", || format!("nonce {n}: reported id {got:?}, specification {}", hexs(&id)));
            c.check(ids.insert(id.clone()), "id-reused", || format!("id {} dispatched twice", hexs(&id)));
            // hooks saw exactly this message
            let kids: Vec<_> = post_dispatches(&evs, &w.mb).into_iter().filter(|p| p.parent == Some(mark + i)).collect();
            let want_hook = d["hook"].as_str().unwrap_or(&da).to_string();
            let tos: Vec<String> = kids.iter().map(|k| k.to.clone()).collect();
            let mut want_to = vec![ra.clone(), want_hook];
            let mut t = tos.clone();
            t.sort();
            want_to.sort();
            c.check(t == want_to, "hooks-called", || format!("called {tos:?}, want {want_to:?}"));
            for k in &kids {
                c.check(k.message == m.encode(), "hook-message", || format!("hook saw {}, want {}", hexs(&k.message), hexs(m.encode())));
            }
            // the library's own codec agrees with the specification
            let lib: hpl_interface::types::Message = HexBinary::from(m.encode()).into();
            c.check(lib.id().to_vec() == id, "library-id", || "library id differs".into());
            n += 1;
            want_latest = Some(id);
            c.stat("dispatched", 1);
        }
        if to == w.mb && expect_fail {
            c.check(r.is_err(), "invalid-accepted", || format!("{shape:?} accepted"));
        }
        if to == w.mb && !expect_fail && shape.is_empty() && start < u32::MAX as u64 {
            c.check(r.is_ok(), "valid-refused", || format!("valid dispatch refused: {}", brief(&r)));
        }
        if r.is_err() {
            c.stat("failed", 1);
            c.check(n == start, "failed-consumed", || "failed transaction has committed dispatches".into());
        }
        if n <= u32::MAX as u64 {
            let q = w.mailbox().nonce();
            c.check(q == Ok(n), "nonce-query", || format!("nonce query {q:?}, {n} expected after {shape:?}"));
        }
        let q = w.mailbox().latest().ok();
        c.check(q == want_latest, "latest-id", || format!("latest id {q:?} want {want_latest:?} after {shape:?}"));
        latest = want_latest;
        c.log(|| format!("step {step} {shape:?} from {sender}: {} committed={} nonce={n}", brief(&r), n - start));
        let odd = format!("{}|{}|{}", body.len().min(2), rec[..12].iter().all(|b| *b == 0), hook.is_some());
        c.eval(format!("{shape:?}|{}|{}|{odd}|{}", n - start, r.is_ok(), start > 0xffff_fff0), !shape.is_empty() || start > 0xffff_fff0 || body.len() < 2);
    }
}
