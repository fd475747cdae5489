//! Chains as an earlier release left them: what was stored, what was done from there on, and what came of it.
//! `hplmon --record FILE` makes the recordings (harness/fixtures/state.json holds those of the pinned tree).
use super::c34;
use super::targets::*;
use super::util::*;
use super::warpw;
use crate::codes;
use crate::rng::Rng;
use crate::run::{Case, Out, Tier};
use crate::sim::{Chain, Code};
use crate::stubs::*;
use serde_json::{json, Value};
use std::rc::Rc;
use std::sync::OnceLock;

fn case(n: u64) -> Case {
    Case { rng: Rng::new(n, 25), idx: n, tier: Tier::Quick, logging: false, out: Out::default() }
}

/// an installation in use
fn world(n: u64) -> Option<Value> {
    let mut c = case(n);
    let (mut w, relayer, thief) = c34::setup(&mut c, warpw::KINDS[(n % 4) as usize], (n % 5) as usize)?;
    let mut r = Rng::new(n, 26);
    let mut past = vec![];
    let mut saved = Value::Null;
    for i in 0..30u32 {
        if i == 14 {
            // from here on it is the next release
            saved = w.core.ch.save();
            *w.core.ch.tape.borrow_mut() = Some(vec![]);
        }
        let op = c34::plan(&mut r, i);
        if i > 4 {
            let k = *r.pick(&[1, 3, 3, 4, 5, 8, 9, 11, 12, 13, 14, 15, 16]);
            let _ = c34::interfere(&w, &mut r, k, &op, &past, 7_000_000 + i, &thief);
        }
        c34::perform(&mut w, &op, &relayer);
        if i > 16 {
            let ch = &w.core.ch;
            for (a, q) in [
                (&w.core.mb, json!({"mailbox":{"nonce":{}}})),
                (&w.core.mb, json!({"mailbox":{"latest_dispatch_id":{}}})),
                (&w.core.mb, json!({"mailbox":{"local_domain":{}}})),
                (&w.core.mb, json!({"mailbox":{"hrp":{}}})),
                (&w.tree, json!({"merkle_hook":{"root":{}}})),
                (&w.tree, json!({"merkle_hook":{"count":{}}})),
                (&w.tree, json!({"merkle_hook":{"tree":{}}})),
                (&w.tree, json!({"hook":{"mailbox":{}}})),
                (&w.va, json!({"get_announced_validators":{}})),
                (&w.va, json!({"mailbox":{}})),
                (&w.va, json!({"local_domain":{}})),
                (&w.igp, json!({"igp":{"list_gas_for_domains":{}}})),
                (&w.warp.addr, json!({"token_default":{"token_type":{}}})),
                (&w.warp.addr, json!({"token_default":{"token_mode":{}}})),
                (&w.warp.addr, json!({"connection":{"get_hook":{}}})),
                (&w.warp.addr, json!({"ism_specifier":{"interchain_security_module":[]}})),
                (&w.multisig, json!({"multisig_ism":{"enrolled_validators":{"domain":w.elsewhere}}})),
            ] {
                let _ = ch.query(a, q);
            }
        }
        past.push(op);
    }
    let tape = w.core.ch.tape.borrow_mut().take()?;
    Some(json!({"kind":format!("installation {n}"),"chain":saved,"then":tape}))
}

/// one contract, administered by its owner
fn single(kind: &'static str, n: u64) -> Option<Value> {
    let mut c = case(n);
    let w = Core::new(&mut c);
    let ch = &w.ch;
    let (owner, next) = (ch.user("owner"), ch.user("next"));
    let t = deploy(&mut c.rng, ch, kind, &ch.user("deployer"), &owner).ok()?;
    let mut seen: Vec<Value> = t.init.iter().map(|e| e.0.clone()).collect();
    let mut act = |c: &mut Case, who: &str| {
        let o = owner_op(&mut c.rng, ch, &t);
        let _ = ch.exec(who, &t.addr, &o.msg, &[]);
        seen.extend(o.effects.iter().map(|e| e.0.clone()));
        seen.dedup();
        for q in seen.iter().rev().take(20) {
            let _ = ch.query(&t.addr, q.clone());
        }
    };
    for _ in 0..14 {
        act(&mut c, &owner);
    }
    let own = |m: &str, b: Value| json!({t.own_exec:{m:b}});
    let _ = ch.exec(&owner, &t.addr, &own("init_ownership_transfer", json!({"next_owner":next})), &[]);
    let saved = ch.save();
    *ch.tape.borrow_mut() = Some(vec![]);
    for _ in 0..5 {
        act(&mut c, &owner);
    }
    act(&mut c, &next);
    let _ = ch.exec(&owner, &t.addr, &own("init_ownership_transfer", json!({"next_owner":owner})), &[]);
    let _ = ch.exec(&next, &t.addr, &own("claim_ownership", json!({})), &[]);
    act(&mut c, &owner);
    for _ in 0..3 {
        act(&mut c, &next);
    }
    let tape = ch.tape.borrow_mut().take()?;
    Some(json!({"kind":kind,"chain":saved,"then":tape}))
}

pub fn record() -> String {
    let mut l: Vec<Value> = (0..14).map(|n| world(n).expect("world")).collect();
    for (i, k) in KINDS.iter().enumerate() {
        for j in 0..6 {
            l.push(single(k, 100 + 10 * i as u64 + j).unwrap_or_else(|| panic!("{k}")));
        }
    }
    l.iter().map(|v| v.to_string() + "\n").collect()
}

static STATES: &str = include_str!("../../fixtures/state.json");

fn all() -> &'static Vec<Value> {
    static L: OnceLock<Vec<Value>> = OnceLock::new();
    L.get_or_init(|| STATES.lines().map(|l| serde_json::from_str(l).expect("fixture")).collect())
}

/// an earlier release's chain under this one
pub fn replay(c: &mut Case) {
    let l = all();
    if l.is_empty() {
        return;
    }
    let g = &l[(c.idx / 90) as usize % l.len()];
    let name = g["kind"].as_str().unwrap_or("");
    let code = |n: &str| match n {
        // the recipient of an installation accepts whatever is delivered
        "stub" => Some(Code::Stub(RecipientStub::new())),
        n => codes::by_name(n).map(|r| Code::Real(Rc::new(r))),
    };
    let ch = Chain::load(&g["chain"], code).expect("fixture");
    ch.store_code(CW20_CODE, Code::Real(Rc::new(codes::cw20())));
    let mut todo: Vec<(String, String)> = g["chain"]["contracts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| (v[0].as_str().unwrap().to_string(), v[1].as_str().unwrap().to_string()))
        .filter(|v| v.1 != "stub" && v.1 != "cw20-base")
        .collect();
    c.rng.shuffle(&mut todo);
    let old = *c.rng.pick(&["0.0.1", "0.0.5", "0.0.0", "0.0.2-rc.1"]);
    for (a, n) in &todo {
        let info = ch.raw_get(a, b"contract_info").and_then(|b| serde_json::from_slice::<Value>(&b).ok()).unwrap_or_default();
        ch.raw_set(a, b"contract_info", Some(serde_json::to_vec(&json!({"contract":info["contract"],"version":old})).unwrap()));
        let r = ch.migrate(a, &json!({})).map(|_| ());
        if c.must(r, &format!("migrate {n}")).is_none() {
            return;
        }
    }
    let then = g["then"].as_array().unwrap();
    for (i, s) in then.iter().enumerate() {
        if let Some(f) = s["faucet"].as_array() {
            let _ = ch.faucet(f[0].as_str().unwrap(), f[1].as_str().unwrap(), f[2].as_str().unwrap().parse().unwrap());
        } else if let Some(to) = s["exec"].as_str() {
            let funds: Vec<cosmwasm_std::Coin> = serde_json::from_value(s["funds"].clone()).unwrap();
            let r = ch.exec(s["by"].as_str().unwrap(), to, &s["msg"], &funds);
            if !c.check(Some(r.is_ok()) == s["ok"].as_bool(), "earlier-state-operation", || format!("{name} after migration, step {i}: {} by {} to {to}: {}, before {}", s["msg"], s["by"], brief(&r), s["ok"])) {
                return;
            }
            c.stat("earlier_state_operations", 1);
        } else if let Some(to) = s["query"].as_str() {
            let q = ch.query(to, s["msg"].clone());
            if !c.check(s["answer"].is_null() || q.as_ref().ok() == Some(&s["answer"]), "earlier-state-answer", || format!("{name} after migration, step {i}: {} answered {q:?}, before {}", s["msg"], s["answer"])) {
                return;
            }
            c.stat("earlier_state_answers", 1);
        }
    }
    c.eval(format!("earlier|{name}|{old}"), true);
}
