//! Routing security module: messages are judged by the module of their origin.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::stubs::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 109000,
    thorough: 4363000,
    rule: "one judged verify/verify_info/route call after a history of route changes; nontrivial when several origins map to different modules or the origin is unset/overwritten; distinct by (route table, origin class, module verdict, outcome)",
    floors: &["routed", "accepted", "unrouted_refused", "overwritten", "unset", "dest_is_routed_origin_is_not", "info"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let owner = ch.user("owner");
    let pool: Vec<Rc<IsmStub>> = (0..4).map(|_| IsmStub::new(Verdict::False)).collect();
    let pa: Vec<String> = pool.iter().map(|s| ch.put_stub(s.clone())).collect();
    for (i, p) in pool.iter().enumerate() {
        *p.info.borrow_mut() = json!({"threshold": i + 1, "validators": [hexs([i as u8; 20]), hexs(c.rng.bytes(32))]});
    }
    let mut doms: Vec<u32> = (0..6).map(|_| c.rng.dom()).collect();
    let d0 = doms[0];
    doms.push(d0.swap_bytes());
    doms.push(d0.wrapping_add(1));
    let mut table: BTreeMap<u32, usize> = BTreeMap::new();
    let mut init = vec![];
    for _ in 0..c.rng.below(4) {
        let (d, k) = (*c.rng.pick(&doms), c.rng.idx(4));
        init.push(json!({"domain":d,"address":pa[k]}));
        table.insert(d, k);
    }
    let r = ch.deploy(&owner, &codes::ism_routing(), &json!({"owner":owner,"isms":init}));
    let Some(rt) = c.must(r, "instantiate") else { return };
    if c.rng.below(60) == 0 {
        // a hub with many origins
        for _ in 0..c.rng.range(30, 150) {
            let (d, k) = (c.rng.next() as u32, c.rng.idx(4));
            let r = ch.exec(&owner, &rt, &json!({"set":{"ism":{"domain":d,"address":pa[k]}}}), &[]);
            if c.must(r, "set").is_some() {
                table.insert(d, k);
                doms.push(d);
            }
        }
        c.stat("crowd", 1);
    }
    let mut overwritten = std::collections::BTreeSet::new();
    for step in 0..c.rng.many(5, 14) {
        match c.rng.below(5) {
            0 | 1 => {
                let (d, k) = (*c.rng.pick(&doms), c.rng.idx(4));
                let r = ch.exec(&owner, &rt, &json!({"set":{"ism":{"domain":d,"address":pa[k]}}}), &[]);
                if c.must(r, "set").is_some() {
                    if table.insert(d, k).is_some() {
                        overwritten.insert(d);
                        c.stat("overwritten", 1);
                    }
                }
            }
            2 if c.rng.bool() => {
                let n = c.rng.below(3);
                let ds: Vec<u32> = (0..n).map(|_| *c.rng.pick(&doms)).collect();
                let r = ch.exec(&owner, &rt, &json!({"unset":{"domains":ds}}), &[]);
                if c.must(r, "unset").is_some() {
                    for d in &ds {
                        if table.remove(d).is_some() {
                            c.stat("unset", 1);
                        }
                    }
                }
            }
            _ => {}
        }
        let mut m = { let (d, w) = (*c.rng.pick(&doms), word32(&mut c.rng)); random_msg(&mut c.rng, d, w) };
        m.origin = *c.rng.pick(&doms);
        if c.rng.pct(30) {
            m.nonce = *c.rng.pick(&doms);
        }
        let raw = m.encode();
        let md = c.rng.blob();
        for p in &pool {
            *p.v.borrow_mut() = match c.rng.below(6) {
                0 => Verdict::False,
                1 => Verdict::Err,
                2 => Verdict::True,
                _ => {
                    let (mut a, mut b) = (md.clone(), raw.clone());
                    if c.rng.pct(15) { a.push(0) }
                    if c.rng.pct(15) { b.push(0) }
                    Verdict::Exactly(a, b)
                }
            };
        }
        let route = table.get(&m.origin).copied();
        let expect = route.map(|k| match &*pool[k].v.borrow() {
            Verdict::True => Some(true),
            Verdict::False => Some(false),
            Verdict::Exactly(a, b) => Some(*a == md && *b == raw),
            _ => None,
        });
        if route.is_none() && table.contains_key(&m.dest) {
            c.stat("dest_is_routed_origin_is_not", 1);
        }
        let r = ch.query(&rt, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&raw)}}}));
        let got: Option<bool> = r.as_ref().ok().and_then(|v| v["verified"].as_bool());
        c.log(|| format!("step {step}: origin {} route {route:?} expect {expect:?} -> {r:?}", m.origin));
        match expect {
            Some(Some(true)) => {
                c.check(got == Some(true), "valid-refused", || format!("origin {} -> module {route:?} approves, router says {r:?}", m.origin));
                c.stat("accepted", 1);
            }
            _ => {
                c.check(got != Some(true), "accepted-wrong", || format!("origin {} route {route:?} expect {expect:?}: {r:?}", m.origin));
                if route.is_none() {
                    c.stat("unrouted_refused", 1);
                }
            }
        }
        if route.is_some() {
            c.stat("routed", 1);
        }
        // what relayers are told
        let q = ch.query(&rt, json!({"routing_ism":{"route":{"message":hexs(&raw)}}}));
        match route {
            Some(k) => c.check(q.as_ref().map(|v| v["ism"] == pa[k]).unwrap_or(false), "route-query", || format!("{q:?} want {}", pa[k])),
            None => c.check(q.is_err(), "route-query-unset", || format!("{q:?}")),
        };
        for p in &pool {
            *p.info_for.borrow_mut() = c.rng.bool().then(|| raw.clone());
        }
        let q: Result<Value, String> = ch.query(&rt, json!({"ism":{"verify_info":{"message":hexs(&raw)}}}));
        match route {
            Some(k) => {
                c.stat("info", 1);
                let w = pool[k].info.borrow().clone();
                c.check(q.as_ref().map(|v| *v == w).unwrap_or(false), "verify-info", || format!("{q:?} want {w}"))
            }
            None => c.check(q.is_err(), "verify-info-unset", || format!("{q:?}")),
        };
        c.eval(
            format!("{}|{route:?}|{expect:?}|{got:?}|{}|{}", table.len(), overwritten.contains(&m.origin), table.contains_key(&m.dest)),
            table.values().collect::<std::collections::BTreeSet<_>>().len() > 1 || route.is_none(),
        );
        // short message: no verdict
        if c.rng.pct(10) {
            let cut = c.rng.below(9) as usize;
            let r = ch.query(&rt, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&raw[..cut])}}}));
            c.check(!matches!(&r, Ok(v) if v["verified"] == json!(true)), "short-accepted", || format!("{r:?}"));
        }
    }
    let q = ch.query(&rt, json!({"ism":{"module_type":{}}}));
    c.check(q.as_ref().map(|v| v["type"] == "routing").unwrap_or(false), "module-type", || format!("{q:?}"));
}
