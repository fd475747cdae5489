//! All or nothing: when any step of an operation fails, all of it does.
use super::targets::u128j;
use super::util::*;
use super::warpw::KINDS;
use super::world::*;
use crate::codes;
use crate::model::Key;
use crate::run::{Case, Prop};
use crate::sim::TxRes;
use crate::stubs::*;
use serde_json::json;

pub const PROP: Prop = Prop {
    id: "C35",
    run,
    quick: 4000,
    thorough: 200000,
    rule: "one operation with one of the messages its contracts emit, or one of the questions they ask, made to fail (each in turn), and then without: storage of all contracts and all balances compared; nontrivial when a step was made to fail; distinct by (operation, kind of token route, kind of hook, which step)",
    floors: &["message_failed", "question_failed", "unpaid_second_hook", "retried", "dispatch", "deliver", "transfer", "receive", "pay_for_gas", "announce", "claim", "fee_claim", "instantiate", "described"],
};

fn run(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let hk = c.rng.idx(5);
    let Some(w) = World::new(c, kind, hk) else { return };
    let ch = &w.core.ch;
    let own = w.core.owner.clone();
    let who = ch.user("alice");
    ch.faucet(&who, TOKEN, 1 << 100);
    if kind.bridged {
        let m = w.incoming(9_000_000, &who, 1 << 60);
        let r = w.deliver(&who, &m);
        c.must(r, "provision");
    } else {
        w.warp.give(ch, &who, 1 << 60);
        w.warp.give(ch, &w.warp.addr, 1 << 60);
    }
    if c.rng.bool() {
        let r = w.warp.own(ch, json!({"connection":{"set_ism":{"ism":w.multisig}}}));
        c.must(r, "set module");
    }
    // the paid hook may be the required one: the other is then called without money
    let swapped = c.rng.pct(35);
    if swapped {
        w.core.required_hook(&w.hook);
        w.core.default_hook(&w.tree);
        c.stat("unpaid_second_hook", 1);
    } else if c.rng.bool() {
        let r = w.warp.own(ch, json!({"connection":{"set_hook":{"hook":w.igp}}}));
        c.must(r, "set hook");
    }
    let over = c.rng.below(2) as u128 * 1000;
    for step in 0..c.rng.range(3, 8) as u32 {
        let w32: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
        let body = c.rng.blob();
        let n = c.rng.range(1, 5000) as u128;
        let names = ["dispatch", "deliver", "transfer", "receive", "pay_for_gas", "announce", "claim", "fee_claim", "configure", "instantiate"];
        let op = *c.rng.pick(&names);
        if op == "fee_claim" {
            ch.faucet(&w.fee, TOKEN, n);
        }
        if op == "claim" {
            ch.faucet(&w.igp, TOKEN, n);
        }
        if op == "transfer" && kind.cw20 {
            let r = w.warp.allow(ch, &who, n);
            c.must(r, "allow");
        }
        let cfg = {
            let d = c.rng.dom();
            let a = ch.user("somebody");
            let l = [
                (&w.core.mb, json!({"set_default_hook":{"hook":w.hook}})),
                (&w.multisig, json!({"set_validators":{"domain":d,"threshold":1,"validators":[hexs([7; 20])]}})),
                (&w.isms, json!({"set":{"ism":{"domain":d,"address":w.multisig}}})),
                (&w.igp, json!({"set_gas_for_domain":{"config":[[d, u128j(5)]]}})),
                (&w.igp, json!({"router":{"set_route":{"set":{"domain":d,"route":w.oracle}}}})),
                (&w.oracle, json!({"set_remote_gas_data":{"config":{"remote_domain":d,"token_exchange_rate":"1","gas_price":"1"}}})),
                (&w.fee, json!({"fee_hook":{"set_fee":{"fee":{"denom":TOKEN,"amount":w.fee_amount.to_string()}}}})),
                (&w.warp.addr, json!({"ownable":{"init_ownership_transfer":{"next_owner":a}}})),
                (&w.warp.addr, json!({"ownable":{"revoke_ownership_transfer":{}}})),
            ];
            let (a, m) = &l[c.rng.idx(l.len())];
            (a.to_string(), m.clone())
        };
        let key = Key::new(&w32);
        let described = c.rng.pct(60);
        let meta = |a: &str| match described {
            true => {
                let d = format!("factory/{a}/unew");
                json!({"description":"a token","denom_units":[{"denom":d,"exponent":"0","aliases":[]}],"base":d,"display":"new","name":"new","symbol":"NEW"})
            }
            false => serde_json::Value::Null,
        };
        let act = || -> TxRes {
            match op {
                "dispatch" => {
                    let f = coins(&[(w.cost() + over, TOKEN)]);
                    let f = if w.cost() + over == 0 { vec![] } else { f };
                    ch.exec(&who, &w.core.mb, &dispatch_msg(w.remote, &w32, &body, None, None), &f)
                }
                "deliver" => w.deliver(&who, &w.message_to(&w.rec_addr, step, w32, body.clone())),
                "transfer" => {
                    let mut f = vec![];
                    if w.cost() + over > 0 {
                        f.push(coin(w.cost() + over, TOKEN));
                    }
                    if !kind.cw20 {
                        f.push(coin(n, &w.warp.token));
                    }
                    ch.exec(&who, &w.warp.addr, &json!({"transfer_remote":{"dest_domain":w.remote,"recipient":hexs(w32),"amount":n.to_string(),"hook":null,"metadata":null}}), &f)
                }
                "receive" => w.deliver(&who, &w.incoming(step, &who, n)),
                "pay_for_gas" => w.pay(&who, &w32, w.gas, w.price + over, &ch.user("refund")),
                "announce" => w.announce(&who, &key, "s3://b"),
                "claim" => ch.exec(&w.ben, &w.igp, &json!({"claim":{}}), &[]),
                "fee_claim" => ch.exec(&own, &w.fee, &json!({"fee_hook":{"claim":{"recipient":who}}}), &[]),
                "instantiate" => {
                    let a = ch.addr_of(&crate::sim::sha(&w32));
                    let (code, msg) = if kind.cw20 {
                        (codes::warp_cw20(), json!({"token":{"bridged":{"code_id":super::targets::CW20_CODE,"init_msg":super::targets::cw20_init("TOKX", None, &[])}},"hrp":ch.hrp,"owner":own,"mailbox":w.core.mb}))
                    } else {
                        (codes::warp_native(), json!({"token":{"bridged":{"denom":"unew","metadata":meta(&a)}},"hrp":ch.hrp,"owner":own,"mailbox":w.core.mb}))
                    };
                    ch.deploy_at(&a, &own, crate::sim::Code::Real(std::rc::Rc::new(code)), &msg)
                }
                _ => ch.exec(&own, &cfg.0, &cfg.1, &[]),
            }
        };
        c.stat("described", (op == "instantiate" && !kind.cw20 && described) as u64);
        let mut tried = 0u64;
        let mut accepted = false;
        {
            let mode = c.rng.idx(2);
            for k in 1..60u64 {
                let state = ch.dump_all();
                let bank: Vec<_> = ch.all_balances().into_iter().filter(|(_, v)| *v > 0).collect();
                let cell = [&ch.fail_msg, &ch.fail_query][mode];
                cell.set(Some(k));
                let r = act();
                cell.set(None);
                let (m, q) = ch.last_steps();
                let hit = k <= [m, q][mode];
                if !hit {
                    // that step was never reached: this was an ordinary run
                    if r.is_ok() {
                        accepted = true;
                    }
                    break;
                }
                tried += 1;
                let what = ["message", "question"][mode];
                c.check(r.is_err(), "failure-ignored", || format!("{op} ({} route, hook kind {hk}): went through although {what} {k} failed", kind.name()));
                c.check(ch.dump_all() == state, "state-kept", || format!("{op}: {what} {k} failed, but something was stored"));
                let now: Vec<_> = ch.all_balances().into_iter().filter(|(_, v)| *v > 0).collect();
                c.check(now == bank, "money-moved", || format!("{op}: {what} {k} failed, but balances changed"));
                c.stat(["message_failed", "question_failed"][mode], 1);
                c.eval(format!("{op}|{}|{hk}|{swapped}|{mode}|{k}", kind.name()), true);
                if r.is_ok() {
                    return;
                }
            }
        }
        c.stat(op, 1);
        c.stat("retried", accepted as u64);
        c.log(|| format!("step {step} {op}: {tried} steps failed in turn, then accepted: {accepted}"));
    }
}
