//! Every owned contract, its owner-only operations and how their effect shows.
use super::util::*;
use crate::codes;
use crate::rng::Rng;
use crate::sim::{Chain, Code, RealCode};
use crate::stubs::*;
use serde_json::{json, Value};
use std::rc::Rc;

/// (query, json pointer, expected value); Null expects null or missing
pub type Effect = (Value, String, Value);

pub struct Op {
    pub name: &'static str,
    pub msg: Value,
    pub effects: Vec<Effect>,
}

fn op(name: &'static str, msg: Value, effects: Vec<(Value, &str, Value)>) -> Op {
    Op { name, msg, effects: effects.into_iter().map(|(a, b, c)| (a, b.to_string(), c)).collect() }
}

pub struct Target {
    pub name: &'static str,
    pub addr: String,
    pub own_exec: &'static str,
    /// queries that must reflect the instantiation parameters
    pub init: Vec<Effect>,
}

pub const KINDS: &[&str] = &[
    "mailbox", "hook_aggregate", "hook_fee", "hook_pausable", "hook_routing", "hook_routing_custom", "hook_routing_fallback",
    "igp", "igp_oracle", "ism_aggregate", "ism_multisig", "ism_pausable", "ism_routing", "warp_native", "warp_native_bridged", "warp_cw20", "warp_cw20_bridged",
];

pub fn cw20_init(denom: &str, minter: Option<&str>, initial: &[(&str, u128)]) -> Value {
    json!({"name":"token","symbol":denom,"decimals":6,
        "initial_balances": initial.iter().map(|(a,v)| json!({"address":a,"amount":v.to_string()})).collect::<Vec<_>>(),
        "mint": minter.map(|m| json!({"minter":m,"cap":null})), "marketing": null})
}

/// a cw20 init the warp contract can complete itself (it sets the minter)
pub const CW20_CODE: u64 = 77;

pub struct Deployed {
    pub code: RealCode,
    pub msg: Value,
    pub init: Vec<Effect>,
    pub own_exec: &'static str,
}

/// code, instantiate message and expected configuration
pub fn plan(rng: &mut Rng, ch: &Chain, kind: &str, owner: &str) -> Deployed {
    let a = |r: &mut Rng| ch.addr_of(&contract_raw(r));
    let mut init: Vec<(Value, String, Value)> = vec![];
    let mut e = |q: Value, p: &str, v: Value| init.push((q, p.to_string(), v));
    let mut own_exec = "ownable";
    let (code, msg) = match kind {
        "mailbox" => {
            let d = rng.dom();
            e(json!({"mailbox":{"hrp":{}}}), "/hrp", json!(ch.hrp));
            e(json!({"mailbox":{"local_domain":{}}}), "/local_domain", json!(d));
            e(json!({"mailbox":{"nonce":{}}}), "/nonce", json!(0));
            e(json!({"mailbox":{"latest_dispatch_id":{}}}), "/message_id", json!(""));
            (codes::mailbox(), json!({"hrp":ch.hrp,"owner":owner,"domain":d}))
        }
        "hook_aggregate" => {
            let h: Vec<String> = (0..rng.range(0, 3)).map(|_| a(rng)).collect();
            let h = twice(rng, h);
            e(json!({"aggregate_hook":{"hooks":{}}}), "/hooks", json!(h));
            (codes::hook_aggregate(), json!({"owner":owner,"hooks":h}))
        }
        "hook_fee" => {
            let f = json!({"denom":denom(rng),"amount":rng.range(1, 1 << 40).to_string()});
            e(json!({"fee_hook":{"fee":{}}}), "/fee", f.clone());
            (codes::hook_fee(), json!({"owner":owner,"fee":f}))
        }
        "hook_pausable" | "ism_pausable" => {
            let p = rng.bool();
            e(json!({"pausable":{"pause_info":{}}}), "/paused", json!(p));
            (if kind == "hook_pausable" { codes::hook_pausable() } else { codes::ism_pausable() }, json!({"owner":owner,"paused":p}))
        }
        "hook_routing" => {
            e(json!({"router":{"domains":{}}}), "/domains", json!([]));
            (codes::hook_routing(), json!({"owner":owner}))
        }
        "hook_routing_custom" => {
            e(json!({"router":{"domains":{}}}), "/domains", json!([]));
            (codes::hook_routing_custom(), json!({"owner":owner}))
        }
        "hook_routing_fallback" => {
            e(json!({"router":{"domains":{}}}), "/domains", json!([]));
            (codes::hook_routing_fallback(), json!({"owner":owner}))
        }
        "igp" => {
            let (b, g) = (ch.user(&format!("ben{}", rng.below(9))), rng.u128() >> rng.below(128));
            e(json!({"igp":{"beneficiary":{}}}), "/beneficiary", json!(b));
            e(json!({"igp":{"default_gas":{}}}), "/gas", u128j(g));
            e(json!({"router":{"domains":{}}}), "/domains", json!([]));
            (codes::igp(), json!({"hrp":ch.hrp,"owner":owner,"gas_token":denom(rng),"beneficiary":b,"default_gas_usage":u128j(g)}))
        }
        "igp_oracle" => {
            own_exec = "ownership";
            (codes::igp_oracle(), json!({"owner":owner}))
        }
        "ism_aggregate" => {
            let h: Vec<String> = (0..rng.range(1, 4)).map(|_| a(rng)).collect();
            let h = twice(rng, h);
            let t = rng.range(1, h.len() as u64);
            e(json!({"aggregate_ism":{"isms":{}}}), "/isms", json!(h));
            e(json!({"aggregate_ism":{"isms":{}}}), "/threshold", json!(t));
            (codes::ism_aggregate(), json!({"owner":owner,"isms":h,"threshold":t}))
        }
        "ism_multisig" => (codes::ism_multisig(), json!({"owner":owner})),
        "ism_routing" => {
            let (d, x) = (rng.dom(), a(rng));
            let mut m = random_msg(rng, 1, [1; 32]);
            m.origin = d;
            e(json!({"routing_ism":{"route":{"message":hexs(m.encode())}}}), "/ism", json!(x));
            (codes::ism_routing(), json!({"owner":owner,"isms":[{"domain":d,"address":x}]}))
        }
        "warp_native" | "warp_native_bridged" | "warp_cw20" | "warp_cw20_bridged" => {
            let mb = a(rng);
            let bridged = kind.ends_with("bridged");
            let tok = if kind.starts_with("warp_native") {
                if bridged { json!({"bridged":{"denom":"utok","metadata":null}}) } else { json!({"collateral":{"denom":denom(rng)}}) }
            } else if bridged {
                json!({"bridged":{"code_id":CW20_CODE,"init_msg":cw20_init("TOKN", None, &[])}})
            } else {
                let t = a(rng);
                e(json!({"token_default":{"token_type":{}}}), "/type/c_w20/contract", json!(t));
                json!({"collateral":{"address":t}})
            };
            if kind == "warp_native" {
                e(json!({"token_default":{"token_type":{}}}), "/type/native/fungible/denom", tok["collateral"]["denom"].clone());
            }
            e(json!({"token_default":{"token_mode":{}}}), "/mode", json!(if bridged { "bridged" } else { "collateral" }));
            e(json!({"router":{"domains":{}}}), "/domains", json!([]));
            e(json!({"ism_specifier":{"interchain_security_module":[]}}), "/ism", Value::Null);
            e(json!({"connection":{"get_hook":{}}}), "/hook", Value::Null);
            ch.store_code(CW20_CODE, Code::Real(Rc::new(codes::cw20())));
            (
                if kind.starts_with("warp_native") { codes::warp_native() } else { codes::warp_cw20() },
                json!({"token":tok,"hrp":ch.hrp,"owner":owner,"mailbox":mb}),
            )
        }
        x => panic!("kind {x}"),
    };
    if kind.starts_with("hook_") || kind == "igp" {
        // these take messages from anyone
        e(json!({"hook":{"mailbox":{}}}), "/mailbox", json!("unrestricted"));
    }
    e(json!({"ownable":{"get_owner":{}}}), "/owner", json!(owner));
    e(json!({"ownable":{"get_pending_owner":{}}}), "/pending_owner", Value::Null);
    Deployed { code, msg, init, own_exec }
}

/// denominations of every make
pub const DENOMS: [&str; 5] = ["utest", "uother", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2", "factory/osmo1creator/uTOK-x.y_z:9", "aXYZ"];

fn denom(r: &mut Rng) -> &'static str {
    r.pick(&DENOMS)
}

/// every denomination is in circulation
pub fn mint_all(ch: &Chain, to: &str, amount: u128) {
    for d in DENOMS {
        ch.faucet(to, d, amount);
    }
}

/// now and then one entry is listed again
fn twice<T: Clone>(r: &mut Rng, mut v: Vec<T>) -> Vec<T> {
    if !v.is_empty() && r.pct(12) {
        let x = r.pick(&v).clone();
        let at = r.idx(v.len() + 1);
        v.insert(at, x);
    }
    v
}

pub fn u128j(v: u128) -> Value {
    // plain u128 fields travel as strings in CosmWasm JSON
    json!(v.to_string())
}

pub fn deploy(rng: &mut Rng, ch: &Chain, kind: &'static str, deployer: &str, owner: &str) -> Result<Target, String> {
    let p = plan(rng, ch, kind, owner);
    if kind == "igp" {
        mint_all(ch, &ch.user("faucet"), 1000);
    }
    let addr = ch.deploy(deployer, &p.code, &p.msg)?;
    Ok(Target { name: kind, addr, own_exec: p.own_exec, init: p.init })
}

/// a random operation the current owner may perform right now, with its visible effect
pub fn owner_op(rng: &mut Rng, ch: &Chain, t: &Target) -> Op {
    let a = |r: &mut Rng| ch.addr_of(&contract_raw(r));
    let paused = || ch.query(&t.addr, json!({"pausable":{"pause_info":{}}})).ok().and_then(|v| v["paused"].as_bool()).unwrap_or(false);
    let router = |r: &mut Rng, hexroute: bool| -> Op {
        let rv = |r: &mut Rng| if hexroute { json!(hexs(r.bytes(32))) } else { json!(ch.addr_of(&contract_raw(r))) };
        let d = r.dom();
        match r.below(3) {
            0 => {
                let v = rv(r);
                op("set_route", json!({"router":{"set_route":{"set":{"domain":d,"route":v}}}}), vec![(json!({"router":{"get_route":{"domain":d}}}), "/route/route", v)])
            }
            1 => op("unset_route", json!({"router":{"set_route":{"set":{"domain":d,"route":null}}}}), vec![(json!({"router":{"get_route":{"domain":d}}}), "/route/route", Value::Null)]),
            _ => {
                let d2 = d.wrapping_add(7);
                let (v, w) = (rv(r), rv(r));
                op(
                    "set_routes",
                    json!({"router":{"set_routes":{"set":[{"domain":d,"route":v},{"domain":d2,"route":w}]}}}),
                    vec![
                        (json!({"router":{"get_route":{"domain":d}}}), "/route/route", v),
                        (json!({"router":{"get_route":{"domain":d2}}}), "/route/route", w),
                    ],
                )
            }
        }
    };
    match t.name {
        "mailbox" => {
            let x = a(rng);
            match rng.below(3) {
                0 => op("set_default_ism", json!({"set_default_ism":{"ism":x}}), vec![(json!({"mailbox":{"default_ism":{}}}), "/default_ism", json!(x))]),
                1 => op("set_default_hook", json!({"set_default_hook":{"hook":x}}), vec![(json!({"mailbox":{"default_hook":{}}}), "/default_hook", json!(x))]),
                _ => op("set_required_hook", json!({"set_required_hook":{"hook":x}}), vec![(json!({"mailbox":{"required_hook":{}}}), "/required_hook", json!(x))]),
            }
        }
        "hook_aggregate" => {
            let h: Vec<String> = (0..rng.range(0, 4)).map(|_| a(rng)).collect();
            let h = twice(rng, h);
            op("set_hooks", json!({"set_hooks":{"hooks":h}}), vec![(json!({"aggregate_hook":{"hooks":{}}}), "/hooks", json!(h))])
        }
        "hook_fee" => {
            let f = json!({"denom":denom(rng),"amount":rng.amt().max(1).to_string()});
            op("set_fee", json!({"fee_hook":{"set_fee":{"fee":f}}}), vec![(json!({"fee_hook":{"fee":{}}}), "/fee", f)])
        }
        "hook_pausable" | "ism_pausable" => {
            let q = json!({"pausable":{"pause_info":{}}});
            if paused() {
                op("release", json!({"pausable":{"release":{}}}), vec![(q, "/paused", json!(false))])
            } else {
                op("pause", json!({"pausable":{"pause":{}}}), vec![(q, "/paused", json!(true))])
            }
        }
        "hook_routing" => router(rng, false),
        "hook_routing_custom" => {
            let (d, x) = (rng.dom(), a(rng));
            let r = hexs(rng.word());
            let q = json!({"custom_routing_hook":{"custom_hook":{"dest_domain":d,"recipient":r}}});
            match rng.below(4) {
                0 => router(rng, false),
                1 => op("register_custom_hook", json!({"register_custom_hook":{"dest_domain":d,"recipient":r,"hook":x}}), vec![(q, "/hook", json!(x))]),
                2 => op("register_custom_hooks", json!({"register_custom_hooks":[{"dest_domain":d,"recipient":r,"hook":x}]}), vec![(q, "/hook", json!(x))]),
                _ => {
                    let l = json!({"custom_routing_hook":{"custom_hooks":{"dest_domain":d,"offset":null,"limit":30,"order":"asc"}}});
                    let have = ch.query(&t.addr, l).ok().and_then(|v| v["custom_hooks"].as_array().and_then(|a| a.first().cloned()));
                    let r = have.and_then(|h| h["recipient"].as_str().map(|s| s.to_string())).unwrap_or(r);
                    let q = json!({"custom_routing_hook":{"custom_hook":{"dest_domain":d,"recipient":r}}});
                    if rng.bool() {
                        op("clear_custom_hook", json!({"clear_custom_hook":{"dest_domain":d,"recipient":r}}), vec![(q, "!", Value::Null)])
                    } else {
                        op("clear_custom_hooks", json!({"clear_custom_hooks":[{"dest_domain":d,"recipient":r}]}), vec![(q, "!", Value::Null)])
                    }
                }
            }
        }
        "hook_routing_fallback" => {
            if rng.bool() {
                router(rng, false)
            } else {
                op("set_fallback_hook", json!({"set_fallback_hook":{"hook":a(rng)}}), vec![])
            }
        }
        "igp" => {
            let (d, g) = (rng.dom(), u128j(rng.amt()));
            match rng.below(5) {
                0 => router(rng, false),
                1 => op("set_default_gas", json!({"set_default_gas":{"gas":g}}), vec![(json!({"igp":{"default_gas":{}}}), "/gas", g)]),
                2 => op("set_gas_for_domain", json!({"set_gas_for_domain":{"config":[[d, g]]}}), vec![(json!({"igp":{"gas_for_domain":{"domains":[d]}}}), "/gas/0/1", g)]),
                3 => op("unset_gas_for_domain", json!({"unset_gas_for_domain":{"domains":[d]}}), vec![(json!({"igp":{"gas_for_domain":{"domains":[d]}}}), "!", Value::Null)]),
                _ => {
                    let b = ch.user(&format!("ben{}", rng.below(9)));
                    op("set_beneficiary", json!({"set_beneficiary":{"beneficiary":b}}), vec![(json!({"igp":{"beneficiary":{}}}), "/beneficiary", json!(b))])
                }
            }
        }
        "igp_oracle" => {
            let d = rng.dom();
            let (r, g) = (rng.amt().max(1).to_string(), rng.amt().to_string());
            let cfg = json!({"remote_domain":d,"token_exchange_rate":r,"gas_price":g});
            let q = json!({"oracle":{"get_exchange_rate_and_gas_price":{"dest_domain":d}}});
            let eff = vec![(q.clone(), "/exchange_rate", json!(r)), (q, "/gas_price", json!(g))];
            if rng.bool() {
                op("set_remote_gas_data", json!({"set_remote_gas_data":{"config":cfg}}), eff)
            } else {
                op("set_remote_gas_data_configs", json!({"set_remote_gas_data_configs":{"configs":[cfg]}}), eff)
            }
        }
        "ism_aggregate" => {
            let h: Vec<String> = (0..rng.range(1, 4)).map(|_| a(rng)).collect();
            let h = twice(rng, h);
            let th = rng.range(1, h.len() as u64);
            let q = json!({"aggregate_ism":{"isms":{}}});
            op("set_isms", json!({"set_isms":{"isms":h,"threshold":th}}), vec![(q.clone(), "/isms", json!(h)), (q, "/threshold", json!(th))])
        }
        "ism_multisig" => {
            let d = rng.dom();
            let q = json!({"multisig_ism":{"enrolled_validators":{"domain":d}}});
            if rng.pct(70) {
                let v: Vec<String> = (0..rng.range(1, 5)).map(|_| hexs(rng.bytes(20))).collect();
                let th = rng.range(1, v.len() as u64);
                op("set_validators", json!({"set_validators":{"domain":d,"threshold":th,"validators":v}}), vec![(q.clone(), "/validators", json!(v)), (q, "/threshold", json!(th))])
            } else {
                op("unset_domain", json!({"unset_domain":{"domain":d}}), vec![(q, "!empty", Value::Null)])
            }
        }
        "ism_routing" => {
            let (d, x) = (rng.dom(), a(rng));
            let m = crate::model::Msg { version: 3, nonce: 0, origin: d, sender: [2; 32], dest: 1, recipient: [1; 32], body: vec![] };
            let q = json!({"routing_ism":{"route":{"message":hexs(m.encode())}}});
            if rng.pct(70) {
                op("set", json!({"set":{"ism":{"domain":d,"address":x}}}), vec![(q, "/ism", json!(x))])
            } else {
                op("unset", json!({"unset":{"domains":[d]}}), vec![(q, "!", Value::Null)])
            }
        }
        _ => {
            // warp routes
            let x = a(rng);
            match rng.below(3) {
                0 => router(rng, true),
                1 => op(
                    "set_ism",
                    json!({"connection":{"set_ism":{"ism":x}}}),
                    vec![
                        (json!({"connection":{"get_ism":{}}}), "/ism", json!(x)),
                        (json!({"ism_specifier":{"interchain_security_module":[]}}), "/ism", json!(x)),
                    ],
                ),
                _ => op("set_hook", json!({"connection":{"set_hook":{"hook":x}}}), vec![(json!({"connection":{"get_hook":{}}}), "/hook", json!(x))]),
            }
        }
    }
}

/// is the effect visible? Err carries what was seen
pub fn visible(ch: &Chain, addr: &str, e: &Effect) -> Result<(), String> {
    let r = ch.query(addr, e.0.clone());
    if e.1 == "!" {
        // must not answer with a value
        return match r {
            Err(_) => Ok(()),
            Ok(v) => Err(format!("{} still answers {v}", e.0)),
        };
    }
    if e.1 == "!empty" {
        return match r {
            Err(_) => Ok(()),
            Ok(v) if v["validators"].as_array().map(|a| a.is_empty()).unwrap_or(true) => Ok(()),
            Ok(v) => Err(format!("{} still answers {v}", e.0)),
        };
    }
    let v = r.map_err(|x| format!("{}: {x}", e.0))?;
    let got = v.pointer(&e.1).cloned().unwrap_or(Value::Null);
    if got == e.2 {
        Ok(())
    } else {
        Err(format!("{} {}: {got}, expected {}", e.0, e.1, e.2))
    }
}
