//! Aggregate security module: m-of-n over independent modules.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::sim::{unb32, Kind};
use crate::stubs::*;
use serde_json::json;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 80000,
    thorough: 3200000,
    rule: "one judged verify call; nontrivial when module verdicts are mixed, a module errs, slices are malformed/overlapping/empty, or the count of approvals is within one of the threshold; distinct by (n, threshold, verdict vector, metadata shape, outcome)",
    floors: &["accepted", "one_below_threshold", "erring_module", "malformed_metadata", "reconfigured", "swapped_slices", "bad_config_refused", "listed_twice", "long_slice"],
};

/// the metadata table: (start, end) per module, big endian, in configured order
fn table(slices: &[(u32, u32)], tail: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for (a, b) in slices {
        o.extend(a.to_be_bytes());
        o.extend(b.to_be_bytes());
    }
    o.extend(tail);
    o
}

fn slice(md: &[u8], i: usize) -> Option<Vec<u8>> {
    let w = |k: usize| -> Option<usize> { Some(u32::from_be_bytes(md.get(k..k + 4)?.try_into().ok()?) as usize) };
    let (a, b) = (w(i * 8)?, w(i * 8 + 4)?);
    if a > b {
        return None;
    }
    md.get(a..b).map(|v| v.to_vec())
}

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let owner = ch.user("owner");
    // rarely a crowd
    let size = if c.rng.below(60) == 0 { 40 } else { 8 };
    let pool: Vec<Rc<IsmStub>> = (0..size).map(|_| IsmStub::new(Verdict::False)).collect();
    let pa: Vec<String> = pool
        .iter()
        .map(|s| {
            let a = ch.addr_of(&contract_raw(&mut c.rng));
            ch.put_stub_at(&a, s.clone());
            a
        })
        .collect();
    let pick = |c: &mut Case| -> (Vec<usize>, u8) {
        let mut o: Vec<usize> = (0..size).collect();
        c.rng.shuffle(&mut o);
        o.truncate(c.rng.range(1, size as u64 - 2) as usize);
        // a module may be listed more than once: it still has one vote
        if c.rng.pct(12) {
            let twice = *c.rng.pick(&o);
            let at = c.rng.idx(o.len() + 1);
            o.insert(at, twice);
            c.stat("listed_twice", 1);
        }
        let t = c.rng.range(1, o.len() as u64) as u8;
        (o, t)
    };
    let names = |s: &[usize]| s.iter().map(|i| pa[*i].clone()).collect::<Vec<_>>();
    let (mut set, mut thr) = pick(c);
    // configurations that can never mean "m of n" must not come into existence
    if c.rng.pct(30) {
        let t = if c.rng.bool() { 0 } else { set.len() as u8 + c.rng.range(1, 3) as u8 };
        let r = ch.deploy(&owner, &codes::ism_aggregate(), &json!({"owner":owner,"isms":names(&set),"threshold":t}));
        c.check(r.is_err(), "bad-threshold-instantiate", || format!("{} modules, threshold {t} accepted", set.len()));
        c.stat("bad_config_refused", 1);
    }
    let r = ch.deploy(&owner, &codes::ism_aggregate(), &json!({"owner":owner,"isms":names(&set),"threshold":thr}));
    let Some(agg) = c.must(r, "instantiate") else { return };
    for step in 0..c.rng.many(4, 10) {
        if c.rng.pct(20) {
            let (s, t) = pick(c);
            let r = ch.exec(&owner, &agg, &json!({"set_isms":{"isms":names(&s),"threshold":t}}), &[]);
            if c.must(r, "set_isms").is_some() {
                set = s;
                thr = t;
                c.stat("reconfigured", 1);
            }
        }
        if c.rng.pct(8) {
            let (s, _) = pick(c);
            let t = if c.rng.bool() { 0 } else { s.len() as u8 + 1 };
            let r = ch.exec(&owner, &agg, &json!({"set_isms":{"isms":names(&s),"threshold":t}}), &[]);
            c.check(r.is_err(), "bad-threshold-set", || format!("{} modules, threshold {t} accepted", s.len()));
            c.stat("bad_config_refused", 1);
        }
        let n = set.len();
        let msg = { let (d, w) = (c.rng.dom(), word32(&mut c.rng)); random_msg(&mut c.rng, d, w).encode() };
        // sub-metadata: distinct so that a swap is visible
        let subs: Vec<Vec<u8>> = (0..n).map(|i| {
            let mut b = if c.rng.pct(25) { vec![] } else { let l = if c.rng.below(1500) == 0 { 66_000 } else { c.rng.range(1, 40) as usize }; c.rng.bytes(l) };
            if !b.is_empty() { b[0] = i as u8; }
            b
        }).collect();
        if subs.iter().any(|b| b.len() > 65535) {
            c.stat("long_slice", 1);
        }
        let mut tail = vec![];
        let mut tab = vec![];
        let mut order: Vec<usize> = (0..n).collect();
        let mut shape = "packed";
        let base = n * 8;
        match c.rng.below(8) {
            0 => {
                c.rng.shuffle(&mut order);
                shape = "permuted";
            }
            1 => shape = "gaps",
            2 => shape = "overlap",
            _ => {}
        }
        tab.resize(n, (0u32, 0u32));
        for i in &order {
            if shape == "gaps" {
                let l = c.rng.below(9) as usize;
                tail.extend(c.rng.bytes(l));
            }
            let s = base + tail.len();
            tail.extend(&subs[*i]);
            tab[*i] = (s as u32, (s + subs[*i].len()) as u32);
        }
        if shape == "overlap" {
            let i = c.rng.idx(n);
            tab[i] = (0, (base + tail.len()) as u32);
        }
        let mut md = table(&tab, &tail);
        let mut bad = false;
        if c.rng.pct(12) {
            bad = true;
            shape = "malformed";
            c.stat("malformed_metadata", 1);
            match c.rng.below(4) {
                0 => md.truncate(c.rng.below(md.len() as u64) as usize),
                1 => {
                    let i = c.rng.idx(n);
                    let e = *c.rng.pick(&[md.len() as u32 + 1, u32::MAX, 1 << 31]);
                    md[i * 8 + 4..i * 8 + 8].copy_from_slice(&e.to_be_bytes());
                }
                2 => {
                    let i = c.rng.idx(n);
                    md[i * 8..i * 8 + 4].copy_from_slice(&u32::MAX.to_be_bytes());
                }
                _ => md.clear(),
            }
        }
        // bias the number of approvals to the threshold's neighbourhood
        let want = (thr as i64 + c.rng.range(0, 2) as i64 - 1).clamp(0, n as i64) as usize;
        let mut who: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut who);
        let errs = c.rng.pct(20);
        let mut vec_key = String::new();
        for (rank, i) in who.iter().enumerate() {
            let sl = slice(&md, *i);
            let v = if rank < want {
                match (c.rng.below(4), sl.clone()) {
                    (0, _) => Verdict::True,
                    (_, Some(s)) => Verdict::Exactly(s, msg.clone()),
                    _ => Verdict::True,
                }
            } else if errs && c.rng.pct(40) {
                c.rng.pick(&[Verdict::Err, Verdict::Panic, Verdict::Garbage]).clone()
            } else {
                match c.rng.below(3) {
                    0 => Verdict::False,
                    1 if n > 1 => {
                        // would approve the slice meant for its neighbour
                        let o = (*i + 1) % n;
                        c.stat("swapped_slices", 1);
                        Verdict::Exactly(slice(&md, o).unwrap_or_default(), msg.clone())
                    }
                    _ => {
                        let mut m = msg.clone();
                        m.push(1);
                        Verdict::Exactly(sl.clone().unwrap_or_default(), m)
                    }
                }
            };
            *pool[set[*i]].v.borrow_mut() = v;
        }
        // what each entry answers: a module listed twice has one verdict, asked about two slices
        let mut approves = BTreeSet::new();
        let mut wavers = BTreeSet::new();
        let mut any_err = false;
        for i in 0..n {
            let sl = slice(&md, i);
            let v = pool[set[i]].v.borrow();
            let ok = match &*v {
                Verdict::True => sl.is_some(),
                Verdict::Exactly(a, b) => sl.as_ref() == Some(a) && *b == msg,
                _ => false,
            };
            if ok {
                approves.insert(set[i]);
            } else {
                wavers.insert(set[i]);
            }
            any_err |= matches!(&*v, Verdict::Err | Verdict::Panic | Verdict::Garbage);
            vec_key.push_str(match &*v { Verdict::True => "T", Verdict::False => "F", Verdict::Exactly(..) => if ok { "E" } else { "e" }, _ => "X" });
        }
        if any_err {
            c.stat("erring_module", 1);
        }
        let mark = ch.mark();
        let r = ch.query_traced(&agg, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&msg)}}}));
        let yes = matches!(&r, Ok(v) if v["verified"] == json!(true));
        c.log(|| format!("step {step}: {thr} of {n}, approving {approves:?}, shape {shape} -> {r:?}"));
        let evs = ch.evs(mark);
        if yes {
            c.check(approves.len() >= thr as usize, "under-threshold", || format!("accepted with {} of {thr} approvals; {vec_key} {shape}", approves.len()));
            c.stat("accepted", 1);
        }
        // a module that approves one of its slices only may or may not count
        let surely = approves.difference(&wavers).count();
        if !bad && !any_err && surely >= thr as usize {
            c.check(yes, "valid-refused", || format!("{surely} approvals, threshold {thr}: {r:?}; {vec_key} {shape}"));
        }
        if approves.len() + 1 == thr as usize {
            c.stat("one_below_threshold", 1);
        }
        // whoever is asked is a configured module, with its own slice and the same message
        for e in evs.iter().filter(|e| e.kind == Kind::Query && e.from == agg) {
            let j = e.json();
            let Some(v) = j.pointer("/ism/verify") else { continue };
            let places: Vec<usize> = (0..n).filter(|p| pa[set[*p]] == e.to).collect();
            c.check(!places.is_empty(), "foreign-module-asked", || e.to.clone());
            if !places.is_empty() {
                let (m1, m2) = (unhex(&v["metadata"]), unhex(&v["message"]));
                c.check(m2.as_deref() == Some(&msg[..]), "message-changed", || format!("{m2:?}"));
                let own: Vec<_> = places.iter().map(|p| slice(&md, *p)).collect();
                c.check(own.contains(&m1), "slice", || format!("module at {places:?} asked with {m1:?}, its slice is {own:?}"));
            }
        }
        c.eval(format!("{n}|{thr}|{vec_key}|{shape}|{yes}"), true);
        // the configuration shown to relayers is the configuration in force
        let q = ch.query(&agg, json!({"aggregate_ism":{"isms":{}}}));
        c.check(q.as_ref().map(|v| v["threshold"] == json!(thr) && v["isms"] == json!(names(&set))).unwrap_or(false), "config-query", || format!("{q:?}"));
        let q = ch.query(&agg, json!({"ism":{"verify_info":{"message":hexs(&msg)}}}));
        let want: Vec<String> = set.iter().map(|i| hexs(unb32(&pa[*i]).unwrap().1)).collect();
        c.check(q.as_ref().map(|v| v["threshold"] == json!(thr) && v["validators"] == json!(want)).unwrap_or(false), "verify-info", || format!("{q:?} want {want:?}"));
    }
    let q = ch.query(&agg, json!({"ism":{"module_type":{}}}));
    c.check(q.as_ref().map(|v| v["type"] == "aggregation").unwrap_or(false), "module-type", || format!("{q:?}"));
}
