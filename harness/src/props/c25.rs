//! Migration: only forward, only of the same contract, and nothing but the version changes.
use super::targets::*;
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::sim::Chain;
use serde_json::{json, Value};
use std::cmp::Ordering;

pub const PROP: Prop = Prop {
    id: "C25",
    run,
    quick: 60000,
    thorough: 3000000,
    rule: "one judged migration attempt (recorded version and name chosen by the workload, standard contract_info record); nontrivial when refused or after configuration changes; distinct by (contract, relation of versions, pre-release form, foreign name, outcome, number of earlier operations), or one replay of a recorded earlier chain after migration",
    floors: &["migrated", "same_version_refused", "newer_refused", "foreign_refused", "malformed_refused", "prerelease", "after_operations", "twice_refused", "rule_accepts", "rule_refuses", "earlier_state_operations", "earlier_state_answers"],
};

/// semantic version order, written from the specification (no build metadata)
fn parse(v: &str) -> Option<([u64; 3], Vec<String>)> {
    let (core, pre) = match v.split_once('-') {
        Some((a, b)) => (a, b.split('.').map(|s| s.to_string()).collect()),
        None => (v, vec![]),
    };
    let p: Vec<u64> = core.split('.').map(|s| s.parse().ok()).collect::<Option<_>>()?;
    Some((p.try_into().ok()?, pre))
}
fn order(a: &str, b: &str) -> Ordering {
    let (a, b) = (parse(a).unwrap(), parse(b).unwrap());
    a.0.cmp(&b.0).then_with(|| match (a.1.is_empty(), b.1.is_empty()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => {
            for (x, y) in a.1.iter().zip(&b.1) {
                let o = match (x.parse::<u64>(), y.parse::<u64>()) {
                    (Ok(m), Ok(n)) => m.cmp(&n),
                    (Ok(_), _) => Ordering::Less,
                    (_, Ok(_)) => Ordering::Greater,
                    _ => x.cmp(y),
                };
                if o != Ordering::Equal {
                    return o;
                }
            }
            a.1.len().cmp(&b.1.len())
        }
    })
}

fn info(ch: &Chain, a: &str) -> Option<(String, String)> {
    let v: Value = serde_json::from_slice(&ch.raw_get(a, b"contract_info")?).ok()?;
    Some((v["contract"].as_str()?.into(), v["version"].as_str()?.into()))
}
fn set_info(ch: &Chain, a: &str, name: &str, ver: &str) {
    ch.raw_set(a, b"contract_info", Some(serde_json::to_vec(&json!({"contract":name,"version":ver})).unwrap()));
}

/// the migration rule itself, for any pair of versions (contracts only ever migrate to their own)
fn rule(c: &mut Case) {
    let v = |r: &mut crate::rng::Rng| {
        let pre = *r.pick(&["", "", "rc1", "rc2", "rc8", "rc9", "rc10", "rc.1", "rc.2", "rc.10", "alpha", "alpha.1", "beta", "0", "1", "10"]);
        let n = format!("{}.{}.{}", r.below(2), r.below(2), *r.pick(&[0u32, 1, 2, 6, 7, 9, 10, 11]));
        if pre.is_empty() { n } else { format!("{n}-{pre}") }
    };
    let (from, to) = (v(&mut c.rng), v(&mut c.rng));
    let (from, to) = match c.rng.below(4) {
        0 => (from.clone(), from),
        // the same release, another candidate
        1 => (format!("{}-rc{}", from.split('-').next().unwrap(), c.rng.range(1, 12)), format!("{}-rc{}", from.split('-').next().unwrap(), c.rng.range(1, 12))),
        _ => (from, to),
    };
    let names = ["crates.io:hpl-x", "hpl-hook-routing", "hpl-hook-routing-custom", "hpl-igp", "hpl-igp-oracle"];
    let (a, b) = if c.rng.pct(70) { (names[1], names[1]) } else { (*c.rng.pick(&names), *c.rng.pick(&names)) };
    let mut st = cosmwasm_std::testing::MockStorage::new();
    let rec = |n: &str, v: &str| serde_json::to_vec(&json!({"contract":n,"version":v})).unwrap();
    cosmwasm_std::Storage::set(&mut st, b"contract_info", &rec(a, &from));
    cosmwasm_std::Storage::set(&mut st, b"owner", b"me");
    let r = hpl_utils::migrate(&mut st, b, &to).map_err(|e| e.to_string());
    let now: Value = cosmwasm_std::Storage::get(&st, b"contract_info").and_then(|v| serde_json::from_slice(&v).ok()).unwrap_or_default();
    let may = a == b && order(&from, &to) == Ordering::Less;
    c.check(r.is_ok() == may, "rule", || format!("{a} {from} to {b} {to}: {r:?}"));
    let want = if r.is_ok() { json!({"contract":b,"version":to}) } else { json!({"contract":a,"version":from}) };
    c.check(now == want, "rule-record", || format!("{a} {from} to {b} {to}: {now}"));
    c.check(cosmwasm_std::Storage::get(&st, b"owner") == Some(b"me".to_vec()), "rule-state", || format!("{a} {from} to {b} {to}"));
    c.stat(if may { "rule_accepts" } else { "rule_refuses" }, 1);
    c.eval(format!("rule|{}|{:?}|{}|{}", a == b, order(&from, &to), from.contains('-'), to.contains('-')), true);
}

fn run(c: &mut Case) {
    if c.idx % 90 == 17 {
        return super::golden::replay(c);
    }
    for _ in 0..4 {
        rule(c);
    }
    let w = Core::new(c);
    let ch = &w.ch;
    let (owner, deployer) = (ch.user("owner"), ch.user("deployer"));
    let n = KINDS.len() + 2;
    let k = (c.idx as usize) % n;
    let mut seen: Vec<Value> = vec![];
    let (kind, addr, t) = if k < KINDS.len() {
        let r = deploy(&mut c.rng, ch, KINDS[k], &deployer, &owner);
        let Some(t) = c.must(r, &format!("instantiate {}", KINDS[k])) else { return };
        seen.extend(t.init.iter().map(|e| e.0.clone()));
        (KINDS[k], t.addr.clone(), Some(t))
    } else if k == KINDS.len() {
        let mb = ch.deploy(&deployer, &codes::mailbox(), &json!({"hrp":ch.hrp,"owner":owner,"domain":c.rng.dom()}));
        let Some(mb) = c.must(mb, "mailbox") else { return };
        let r = ch.deploy(&deployer, &codes::va(), &json!({"hrp":ch.hrp,"mailbox":mb}));
        let Some(a) = c.must(r, "instantiate va") else { return };
        seen.extend([json!({"get_announced_validators":{}}), json!({"mailbox":{}}), json!({"local_domain":{}})]);
        ("va", a, None)
    } else {
        w.hooks();
        let r = ch.deploy(&deployer, &codes::hook_merkle(), &json!({"mailbox":w.mb}));
        let Some(a) = c.must(r, "instantiate merkle") else { return };
        w.required_hook(&a);
        for i in 0..c.rng.below(4) {
            let u = ch.user("sender");
            let r = ch.exec(&u, &w.mb, &crate::stubs::dispatch_msg(7, &[i as u8; 32], b"x", None, None), &[]).map(|_| ());
            c.must(r, "dispatch");
        }
        seen.extend([json!({"merkle_hook":{"root":{}}}), json!({"merkle_hook":{"count":{}}}), json!({"merkle_hook":{"tree":{}}})]);
        ("merkle", a, None)
    };
    let Some((name, ver)) = info(ch, &addr) else {
        c.viol("no-version", format!("{kind} records no contract version, it can never be migrated"));
        return;
    };
    c.check(parse(&ver).is_some(), "bad-version", || format!("{kind} records version {ver}"));
    let other = {
        let o = KINDS[c.rng.idx(KINDS.len())];
        match deploy(&mut c.rng, ch, o, &deployer, &owner) {
            Ok(x) => info(ch, &x.addr).map(|i| i.0).unwrap_or("crates.io:other".into()),
            Err(_) => "crates.io:other".into(),
        }
    };
    let mut ops = 0;
    for step in 0..c.rng.many(2, 6) {
        if let Some(t) = &t {
            for _ in 0..c.rng.below(3) {
                let o = owner_op(&mut c.rng, ch, t);
                let r = ch.exec(&owner, &addr, &o.msg, &[]).map(|_| ());
                if c.must(r, o.name).is_none() {
                    return;
                }
                seen.extend(o.effects.iter().map(|e| e.0.clone()));
                ops += 1;
            }
        }
        let p = parse(&ver).unwrap().0;
        let mut pre = String::new();
        let v = match c.rng.below(11) {
            0 | 1 => ver.clone(),
            2 => format!("{}.{}.{}", p[0], p[1], p[2] + c.rng.range(1, 9)),
            3 => format!("{}.{}.{}", p[0] + 1, c.rng.below(3), c.rng.below(12)),
            4 => format!("{}.{}.{}", p[0], p[1] + 1, c.rng.below(12)),
            5 if p[2] > 0 => format!("{}.{}.{}", p[0], p[1], p[2] - 1),
            6 if p[2] > 1 => format!("{}.{}.{}", p[0], p[1], c.rng.below(p[2])),
            7 | 8 => {
                pre = c.rng.pick(&["rc1", "rc.1", "rc.10", "alpha", "0", "beta.2", "rc8"]).to_string();
                format!("{}.{}.{}-{pre}", p[0], p[1], p[2] + c.rng.below(2))
            }
            9 => c.rng.pick(&["", "1", "0.0", "abc", "0.0.6.1", "v0.0.1", "0.0.-1", "01.0.0", " 0.0.1"]).to_string(),
            _ => "0.0.0".into(),
        };
        let foreign = c.rng.pct(25);
        let rec = if foreign { other.clone() } else { name.clone() };
        let malformed = parse(&v).is_none() || v.starts_with("01") || v.starts_with(' ');
        set_info(ch, &addr, &rec, &v);
        let before: Vec<_> = seen.iter().map(|q| ch.query(&addr, q.clone()).ok()).collect();
        let r = ch.migrate(&addr, &json!({})).map(|_| ());
        let after: Vec<_> = seen.iter().map(|q| ch.query(&addr, q.clone()).ok()).collect();
        let now = info(ch, &addr);
        c.log(|| format!("step {step}: {kind} {ver}: recorded {rec} {v} -> {r:?}, now {now:?}"));
        let rel = if malformed { None } else { Some(order(&v, &ver)) };
        let may = rec == name && rel == Some(Ordering::Less);
        c.check(before == after, "state-lost", || {
            let i = before.iter().zip(&after).position(|(a, b)| a != b).unwrap();
            format!("{kind} {v} -> {ver}: {} answered {:?}, now {:?}", seen[i], before[i], after[i])
        });
        if may {
            c.must(r.clone(), &format!("migrate {kind}"));
            c.check(now == Some((name.clone(), ver.clone())), "version-not-recorded", || format!("{kind} {v} -> {ver}: {now:?}"));
            c.stat("migrated", 1);
            if c.rng.bool() {
                let r = ch.migrate(&addr, &json!({})).map(|_| ());
                c.check(r.is_err(), "migrated-twice", || format!("{kind} {ver} again"));
                c.stat("twice_refused", 1);
            }
        } else {
            let sig = match (rec != name, rel) {
                (true, _) => "foreign",
                (_, None) => "malformed",
                (_, Some(Ordering::Equal)) => "same_version",
                _ => "newer",
            };
            c.check(r.is_err(), &format!("{sig}-migrated"), || format!("{kind} {name} {ver} over {rec} {v}"));
            c.check(now == Some((rec.clone(), v.clone())), "refused-but-recorded", || format!("{kind}: {now:?}"));
            c.stat(&format!("{sig}_refused"), 1);
        }
        if !pre.is_empty() {
            c.stat("prerelease", 1);
        }
        if ops > 0 {
            c.stat("after_operations", 1);
        }
        c.eval(format!("{kind}|{rel:?}|{pre}|{}|{}|{}", rec == other, r.is_ok(), ops.min(4)), !may || ops > 0);
        set_info(ch, &addr, &name, &ver);
    }
    // still administered by its owner
    if let Some(t) = &t {
        let o = owner_op(&mut c.rng, ch, t);
        let r = ch.exec(&owner, &addr, &o.msg, &[]).map(|_| ());
        c.must(r, "operate after migration");
        for e in &o.effects {
            let v = visible(ch, &addr, e);
            c.check(v.is_ok(), "operation-after-migration", || format!("{kind} {}: {}", o.name, v.clone().unwrap_err()));
        }
    }
}
