//! What an operation costs does not grow with what others did before.
use super::targets::u128j;
use super::warpw::KINDS;
use super::world::*;
use crate::model::Key;
use crate::run::{Case, Prop};
use crate::sim::{Cost, COST};
use crate::stubs::*;
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C33",
    run,
    quick: 600,
    thorough: 12000,
    rule: "one operation or query in a late round of a long history, its storage reads and writes (count and bytes), contract calls and output compared with the same operation in the first rounds; nontrivial when the history in between is 40 rounds or more; distinct by (operation, kind of token route, kind of hook, rounds)",
    floors: &["dispatch", "deliver", "transfer", "receive", "pay_for_gas", "announce", "replay_refused", "configure", "query", "churn", "long_history"],
};

/// bookkeeping (digits of counters and balances) may grow by this much
const SLACK: u64 = 110;

fn run(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let hk = c.rng.idx(5);
    let Some(w) = World::new(c, kind, hk) else { return };
    let ch = &w.core.ch;
    let rounds: u32 = *c.rng.pick(&[48, 60, 90, 140]);
    let first = 7u32;
    let id0 = w.message_to(&w.rec_addr, 0, [8; 32], vec![1; 40]);
    let key0 = Key::new(b"first-validator");
    let r = w.announce(&ch.user("anyone"), &key0, "s3://first");
    c.must(r, "first announcement");
    let r = w.deliver(&ch.user("relayer"), &id0);
    c.must(r, "first delivery");
    ch.faucet(&ch.user("anyone"), TOKEN, w.cost());
    let r = w.dispatch(&ch.user("anyone"), &[7; 32], &[5; 60]);
    c.must(r, "first dispatch");
    let mut base: BTreeMap<&'static str, Cost> = BTreeMap::new();
    // what happens besides the measured operations, so that each sort of history occurs alone as well
    let extra = c.rng.below(4);
    for t in 0..rounds {
        let late = t + 3 >= rounds;
        // in the middle, only a random part of the operations, to vary the history
        let measured = t < first || late;
        let mut todo: Vec<&'static str> = vec!["dispatch", "deliver", "transfer", "receive", "pay_for_gas", "announce", "replay_refused", "configure", "query", "churn"];
        if !measured && extra > 0 {
            todo.retain(|_| c.rng.pct(70));
        }
        c.rng.shuffle(&mut todo);
        // fresh participants every round, all names equally long
        let who = ch.user(&format!("user{t:05}"));
        let w32 = crate::sim::sha(format!("w{t}").as_bytes());
        ch.faucet(&who, TOKEN, 1_000_000_000_000_000);
        if !kind.bridged {
            w.warp.give(ch, &who, 1000);
            if t == 0 {
                w.warp.give(ch, &w.warp.addr, 1_000_000);
            }
        }
        let dom = 2_000_000_000 + t;
        for op in todo {
            let mut costs: Vec<(&'static str, Cost)> = vec![];
            let mut meter = |name: &'static str, f: &mut dyn FnMut() -> Result<(), String>| -> Result<(), String> {
                COST.with(|x| x.set(Cost::default()));
                let r = f();
                costs.push((name, COST.with(|x| x.get())));
                r
            };
            let u = |r: crate::sim::TxRes| r.map(|_| ());
            let r = match op {
                "dispatch" => meter(op, &mut || u(w.dispatch(&who, &w32, &[5; 60]))),
                "deliver" => {
                    let m = w.message_to(&w.rec_addr, 1000 + t, w32, vec![2; 50]);
                    meter(op, &mut || u(w.deliver(&who, &m)))
                }
                "transfer" => {
                    if kind.bridged {
                        let m = w.incoming(500_000 + t, &who, 1000);
                        let r = w.deliver(&who, &m);
                        c.must(r, "provision");
                    }
                    meter(op, &mut || u(w.send_tokens(&who, &w32, 700)))
                }
                "receive" => {
                    let m = w.incoming(100_000 + t, &who, 10);
                    meter(op, &mut || u(w.deliver(&who, &m)))
                }
                "pay_for_gas" => meter(op, &mut || u(w.pay(&who, &w32, w.gas, w.price + 1, &who))),
                "announce" => {
                    let k = Key::new(&w32);
                    meter(op, &mut || u(w.announce(&who, &k, "s3://bucket/eu")))
                }
                "replay_refused" => meter(op, &mut || match w.deliver(&who, &id0) {
                    Err(_) => Ok(()),
                    Ok(_) => Err("the first message was delivered again".into()),
                }),
                "configure" => {
                    let a = ch.user(&format!("dest{t:05}"));
                    let mut l = vec![
                        ("cfg:warp", w.warp.addr.clone(), json!({"router":{"set_route":{"set":{"domain":dom,"route":hexs(w32)}}}})),
                        ("cfg:igp", w.igp.clone(), json!({"router":{"set_route":{"set":{"domain":dom,"route":w.oracle}}}})),
                        ("cfg:igp-gas", w.igp.clone(), json!({"set_gas_for_domain":{"config":[[dom, u128j(5000)]]}})),
                        ("cfg:oracle", w.oracle.clone(), json!({"set_remote_gas_data":{"config":{"remote_domain":dom,"token_exchange_rate":"10000000000","gas_price":"17"}}})),
                        ("cfg:multisig", w.multisig.clone(), json!({"set_validators":{"domain":dom,"threshold":1,"validators":[hexs([7; 20])]}})),
                        ("cfg:ism-routing", w.isms.clone(), json!({"set":{"ism":{"domain":dom,"address":w.multisig}}})),
                    ];
                    if (1..=3).contains(&hk) {
                        l.push(("cfg:hook", w.hook.clone(), json!({"router":{"set_route":{"set":{"domain":dom,"route":a}}}})));
                    }
                    if hk == 2 {
                        l.push(("cfg:custom", w.hook.clone(), json!({"register_custom_hook":{"dest_domain":w.remote,"recipient":hexs(crate::sim::sha(&w32)),"hook":a}})));
                        l.push(("cfg:custom-elsewhere", w.hook.clone(), json!({"register_custom_hook":{"dest_domain":dom,"recipient":hexs(w32),"hook":a}})));
                    }
                    l.into_iter().try_for_each(|(n, to, m)| meter(n, &mut || w.own(&to, m.clone())).map_err(|e| format!("{n}: {e}")))
                }
                "churn" => {
                    // the same settings made, withdrawn and made again
                    let d = 1_999_999_999u32;
                    let l = [
                        ("churn:warp+", w.warp.addr.clone(), json!({"router":{"set_route":{"set":{"domain":d,"route":hexs([6; 32])}}}})),
                        ("churn:warp-", w.warp.addr.clone(), json!({"router":{"set_route":{"set":{"domain":d,"route":null}}}})),
                        ("churn:gas+", w.igp.clone(), json!({"set_gas_for_domain":{"config":[[d, u128j(5000)]]}})),
                        ("churn:gas-", w.igp.clone(), json!({"unset_gas_for_domain":{"domains":[d]}})),
                        ("churn:multisig+", w.multisig.clone(), json!({"set_validators":{"domain":d,"threshold":1,"validators":[hexs([7; 20])]}})),
                        ("churn:multisig-", w.multisig.clone(), json!({"unset_domain":{"domain":d}})),
                        ("churn:route+", w.isms.clone(), json!({"set":{"ism":{"domain":d,"address":w.multisig}}})),
                        ("churn:route-", w.isms.clone(), json!({"unset":{"domains":[d]}})),
                        ("churn:ism", w.core.mb.clone(), json!({"set_default_ism":{"ism":w.isms}})),
                        ("churn:hook", w.core.mb.clone(), json!({"set_default_hook":{"hook":w.hook}})),
                        ("churn:nominate", w.igp.clone(), json!({"ownable":{"init_ownership_transfer":{"next_owner":w.ben}}})),
                        ("churn:revoke", w.igp.clone(), json!({"ownable":{"revoke_ownership_transfer":{}}})),
                        ("churn:beneficiary", w.igp.clone(), json!({"set_beneficiary":{"beneficiary":w.ben}})),
                    ];
                    l.into_iter().try_for_each(|(n, to, m)| meter(n, &mut || w.own(&to, m.clone())).map_err(|e| format!("{n}: {e}")))
                }
                _ => {
                    let m = hexs(id0.encode());
                    let l = [
                        ("q:delivered", w.core.mb.clone(), json!({"mailbox":{"message_delivered":{"id":hexs(id0.id())}}})),
                        ("q:undelivered", w.core.mb.clone(), json!({"mailbox":{"message_delivered":{"id":hexs(w32)}}})),
                        ("q:latest", w.core.mb.clone(), json!({"mailbox":{"latest_dispatch_id":{}}})),
                        ("q:nonce", w.core.mb.clone(), json!({"mailbox":{"nonce":{}}})),
                        ("q:recipient-ism", w.core.mb.clone(), json!({"mailbox":{"recipient_ism":{"recipient_addr":w.warp.addr}}})),
                        ("q:quote", w.core.mb.clone(), json!({"hook":{"quote_dispatch":{"sender":who,"msg":dispatch_msg(w.remote, &w32, &[5; 60], None, None)["dispatch"]}}})),
                        ("q:gas", w.igp.clone(), json!({"igp":{"quote_gas_payment":{"dest_domain":w.remote,"gas_amount":"1000"}}})),
                        ("q:oracle", w.oracle.clone(), json!({"oracle":{"get_exchange_rate_and_gas_price":{"dest_domain":w.remote}}})),
                        ("q:root", w.tree.clone(), json!({"merkle_hook":{"root":{}}})),
                        ("q:count", w.tree.clone(), json!({"merkle_hook":{"count":{}}})),
                        ("q:check", w.tree.clone(), json!({"merkle_hook":{"check_point":{}}})),
                        ("q:tree", w.tree.clone(), json!({"merkle_hook":{"tree":{}}})),
                        ("q:route", w.warp.addr.clone(), json!({"router":{"get_route":{"domain":w.remote}}})),
                        ("q:ism-route", w.isms.clone(), json!({"routing_ism":{"route":{"message":m}}})),
                        ("q:verify-info", w.isms.clone(), json!({"ism":{"verify_info":{"message":m}}})),
                        ("q:enrolled", w.multisig.clone(), json!({"multisig_ism":{"enrolled_validators":{"domain":w.remote}}})),
                        ("q:locations", w.va.clone(), json!({"get_announce_storage_locations":{"validators":[hexs(key0.addr)]}})),
                        ("q:token", w.warp.addr.clone(), json!({"token_default":{"token_type":{}}})),
                    ];
                    l.into_iter().try_for_each(|(n, to, m)| meter(n, &mut || ch.query(&to, m.clone()).map(|_| ())).map_err(|e| format!("{n}: {e}")))
                }
            };
            if let Err(e) = r {
                c.viol("must-succeed", format!("round {t}: {op}: {e}"));
                return;
            }
            if !measured {
                continue;
            }
            for (name, got) in costs {
                if late {
                    let b = base[name];
                    let pairs = [
                        ("storage reads", got.reads, b.reads + 3),
                        ("bytes read", got.read_bytes, b.read_bytes + SLACK),
                        ("storage writes", got.writes, b.writes + 3),
                        ("bytes written", got.write_bytes, b.write_bytes + SLACK),
                        ("contract calls", got.calls, b.calls),
                        ("bytes of messages, events and answers", got.out_bytes, b.out_bytes + SLACK),
                    ];
                    for (what, g, lim) in pairs {
                        c.check(g <= lim, "cost-grows", || format!("{name} ({} route, hook kind {hk}): {what} {g} in round {t}, at most {} in the first {first} rounds", kind.name(), lim));
                    }
                    c.stat(op, 1);
                    c.eval(format!("{name}|{}|{hk}|{rounds}", kind.name()), rounds >= 40);
                } else {
                    let b = base.entry(name).or_default();
                    b.reads = b.reads.max(got.reads);
                    b.read_bytes = b.read_bytes.max(got.read_bytes);
                    b.writes = b.writes.max(got.writes);
                    b.write_bytes = b.write_bytes.max(got.write_bytes);
                    b.calls = b.calls.max(got.calls);
                    b.out_bytes = b.out_bytes.max(got.out_bytes);
                }
            }
        }
        ch.clear_trace();
    }
    if rounds >= 90 {
        c.stat("long_history", 1);
    }
    c.log(|| format!("{rounds} rounds, {} route, hook kind {hk}: {} operations compared, e.g. dispatch {:?}", kind.name(), base.len(), base.get("dispatch")));
}
