//! Process authenticity gate.
use super::util::*;
use crate::model::{pad32, Msg};
use crate::run::{Case, Prop};
use crate::sim::b32;
use crate::stubs::*;
use serde_json::json;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 150000,
    thorough: 6000000,
    rule: "one judged process call; nontrivial when something differs from the plain valid case (wrong version/domain/length, rejecting or erring module, foreign module approving, own vs default module, unusual recipient address form); distinct by (situation, recipient form, verdicts, outcome)",
    floors: &["no_default_needed", "accepted", "rejected_by_effective", "other_module_would_accept", "wrong_version", "wrong_domain", "own_ism", "judges_itself", "loopback", "default_ism_switched"],
};

#[derive(Clone, Debug, PartialEq)]
enum Spec {
    None,
    Own,
    Bogus,
    Fail(Mode),
}

fn accepts(v: &Verdict, md: &[u8], m: &[u8]) -> bool {
    match v {
        Verdict::True => true,
        Verdict::Exactly(a, b) => a == md && b == m,
        _ => false,
    }
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    let isms: Vec<Rc<IsmStub>> = (0..3).map(|_| IsmStub::new(Verdict::False)).collect();
    let mut ia: Vec<String> = isms.iter().map(|i| w.ch.put_stub(i.clone())).collect();
    let mut def: Option<usize> = None;
    let r_raw = contract_raw(&mut c.rng);
    let r_addr = w.ch.addr_of(&r_raw);
    let rec = RecipientStub::new();
    w.ch.put_stub_at(&r_addr, rec.clone());
    // one of the modules may be the recipient itself
    if c.rng.pct(40) {
        let k = c.rng.idx(3);
        ia[k] = r_addr.clone();
        *rec.judge.borrow_mut() = Some(isms[k].clone());
    }
    // anybody may relay: strangers, the owner, the recipient, the module, a past relayer
    let people = [w.ch.user("relayer"), w.owner.clone(), r_addr.clone(), ia[0].clone(), w.mb.clone()];
    let mut relayer = people[0].clone();
    let mut first_default = true;
    let looped = c.rng.pct(30);
    if looped {
        w.hooks();
    }
    for step in 0..c.rng.many(4, 10) {
        if c.rng.pct(if def.is_none() { 90 } else { 20 }) {
            let k = c.rng.idx(3);
            w.default_ism(&ia[k]);
            if !first_default {
                c.stat("default_ism_switched", 1);
            }
            first_default = false;
            def = Some(k);
        }
        // the recipient's security module choice
        let own = c.rng.idx(3);
        let spec = match c.rng.below(10) {
            0..=3 => Spec::None,
            4..=7 => Spec::Own,
            8 => Spec::Bogus,
            _ => Spec::Fail(c.rng.pick(&[Mode::Err, Mode::Panic, Mode::Garbage]).clone()),
        };
        *rec.ism.borrow_mut() = match &spec {
            Spec::None => Ok(None),
            Spec::Own => Ok(Some(ia[own].clone())),
            // an account without code, or no account at all
            Spec::Bogus => Ok(Some(match c.rng.below(8) {
                0 | 2 => String::new(),
                1 => " ".into(),
                3 => "null".into(),
                4 => b32("other", &crate::sim::unb32(&ia[own]).unwrap().1),
                5 => hexs(crate::sim::unb32(&ia[own]).unwrap().1),
                _ => w.ch.user("nobody"),
            })),
            Spec::Fail(m) => Err(m.clone()),
        };
        relayer = people[*c.rng.pick(&[0usize, 0, 0, 1, 2, 3, 4])].clone();
        // the message
        let mut m: Msg = random_msg(&mut c.rng, w.domain, pad32(&r_raw));
        let mut raw_cut = None;
        let mut sit = "plain";
        match c.rng.below(14) {
            0 => {
                m.version = c.rng.pick(&[0, 1, 2, 4, 5, 255, 131]).clone();
                sit = "version";
                c.stat("wrong_version", 1);
            }
            1 => {
                m.dest = if c.rng.bool() { w.domain ^ (1 << c.rng.below(32)) } else { c.rng.dom() };
                if m.dest != w.domain {
                    sit = "domain";
                    c.stat("wrong_domain", 1);
                }
            }
            2 => {
                // origin and destination swapped, or equal
                m.origin = w.domain;
                sit = "origin=local";
            }
            3 => {
                raw_cut = Some(c.rng.below(77) as usize);
                sit = "truncated";
            }
            4 => {
                // an address form that denotes somebody else
                match c.rng.below(3) {
                    0 => m.recipient[0] ^= 1,
                    1 => m.recipient[c.rng.idx(12)] ^= 1,
                    _ => m.recipient = word32(&mut c.rng),
                }
                sit = "recipient";
            }
            5 => {
                m.sender = pad32(&crate::sim::unb32(c.rng.pick(&people)).unwrap().1);
                if c.rng.bool() {
                    m.origin = w.domain;
                }
                sit = "local-sender";
            }
            6 | 7 if looped => {
                // what this very mailbox dispatches to its own chain
                let who = c.rng.pick(&people).clone();
                let d = json!({"dispatch":{"dest_domain":w.domain,"recipient_addr":hexs(m.recipient),"msg_body":hexs(&m.body)}});
                m.nonce = w.mailbox().q(json!({"nonce":{}})).ok().and_then(|v| v["nonce"].as_u64()).unwrap_or(0) as u32;
                if w.ch.exec(&who, &w.mb, &d, &[]).is_ok() {
                    m.origin = w.domain;
                    m.sender = pad32(&crate::sim::unb32(&who).unwrap().1);
                    sit = "loopback";
                    let l = w.mailbox().q(json!({"latest_dispatch_id":{}}));
                    if l.ok().and_then(|v| unhex(&v["message_id"])) == Some(m.id().to_vec()) {
                        c.stat("loopback", 1);
                    }
                }
            }
            _ => {}
        }
        let mut raw = m.encode();
        if let Some(n) = raw_cut {
            raw.truncate(n);
        }
        let md = c.rng.blob();
        for i in &isms {
            let v = match c.rng.below(8) {
                0 | 1 => Verdict::True,
                2 => Verdict::False,
                3 => Verdict::Err,
                4 => Verdict::Panic,
                5 => Verdict::Garbage,
                _ => {
                    // approves exactly one (metadata, message) pair: ours, or a twin
                    let (mut a, mut b) = (md.clone(), raw.clone());
                    if c.rng.pct(30) {
                        a.push(0)
                    }
                    if c.rng.pct(30) {
                        b.push(0)
                    }
                    Verdict::Exactly(a, b)
                }
            };
            *i.v.borrow_mut() = v;
        }
        *rec.mode.borrow_mut() = if c.rng.pct(8) { Mode::Err } else { Mode::Good };
        let rec_ok = *rec.mode.borrow() == Mode::Good;
        let target = recipient_addr(&w.ch.hrp, &m.recipient);
        let wellformed = raw_cut.is_none();
        let hits_rec = target == r_addr;
        let eff: Option<usize> = match &spec {
            Spec::Own => Some(own),
            Spec::None => def,
            _ => None,
        };
        let approve: Vec<bool> = isms.iter().map(|i| accepts(&i.v.borrow(), &md, &raw)).collect();
        let eff_ok = eff.map(|e| approve[e]).unwrap_or(false);
        // nobody knows the module of a recipient whose specifier fails: nothing is delivered
        let may = eff_ok;
        let gate = wellformed && m.version == 3 && m.dest == w.domain && hits_rec;
        let mark = w.ch.mark();
        let res = w.process(&relayer, &md, &raw);
        let evs = w.ch.evs(mark);
        let hs: Vec<Handle> = handles(&evs, mark, &w.mb).into_iter().filter(|h| h.committed).collect();
        let any_ok = hs.iter().any(|h| h.ok);
        c.log(|| format!("step {step} {sit} spec={spec:?} eff={eff:?} approve={approve:?} -> {}", brief(&res)));
        if res.is_ok() || any_ok {
            c.check(gate, "gate", || format!("accepted: {sit}, version {} dest {} local {} target {target}", m.version, m.dest, w.domain));
            c.check(may, "unverified", || format!("accepted without its module: spec {spec:?} default {def:?} approve {approve:?}"));
            c.check(hs.len() == 1, "handle-count", || format!("{} handles", hs.len()));
            for h in &hs {
                c.check(h.to == r_addr && h.to == target, "wrong-recipient", || format!("{} vs {target}", h.to));
                c.check(h.origin == m.origin as u64 && h.sender == m.sender && h.body == m.body, "payload", || {
                    format!("handled origin {} sender {} body {}, sent origin {} sender {} body {}", h.origin, hexs(&h.sender), hexs(&h.body), m.origin, hexs(m.sender), hexs(&m.body))
                });
                c.check(h.funds.is_empty(), "funds", || format!("{:?}", h.funds));
            }
            c.stat("accepted", 1);
        } else if gate && !may {
            c.stat("rejected_by_effective", 1);
            if approve.iter().any(|a| *a) {
                c.stat("other_module_would_accept", 1);
            }
        }
        if gate && eff_ok && rec_ok {
            c.stat("no_default_needed", def.is_none() as u64);
            c.check(res.is_ok(), "valid-refused", || format!("valid message refused: {} spec {spec:?}", brief(&res)));
        }
        if spec == Spec::Own {
            c.stat("own_ism", 1);
        }
        if eff.map(|e| ia[e] == r_addr).unwrap_or(false) {
            c.stat("judges_itself", 1);
        }
        if let Some(e) = eff {
            let q = w.mailbox().q(json!({"recipient_ism":{"recipient_addr":r_addr}}));
            c.check(q.as_ref().map(|v| v["ism"] == ia[e]).unwrap_or(false), "recipient-ism-query", || format!("{q:?} want {}", ia[e]));
            if let Some(d) = def {
                let q = w.mailbox().q(json!({"default_ism":{}}));
                c.check(q.as_ref().map(|v| v["default_ism"] == ia[d]).unwrap_or(false), "default-ism-query", || format!("{q:?}"));
            }
        }
        let verd: Vec<_> = isms.iter().map(|i| std::mem::discriminant(&*i.v.borrow())).collect();
        let key = format!("{sit}|{}|{spec:?}|{eff:?}|{approve:?}|{verd:?}|{}|{}", r_raw.len(), res.is_ok(), rec_ok);
        c.eval(key, sit != "plain" || spec != Spec::None || !eff_ok || approve.iter().filter(|a| **a).count() != 1);
    }
    // a plain user account is not a deliverable recipient, whatever the module says
    if def.is_some() {
        for i in &isms {
            *i.v.borrow_mut() = Verdict::True;
        }
        let u = c.rng.bytes(20);
        let m = random_msg(&mut c.rng, w.domain, pad32(&u));
        let r = w.process(&relayer, b"", &m.encode());
        c.check(r.is_err(), "non-contract", || format!("delivered to {}", b32(&w.ch.hrp, &u)));
    }
}
