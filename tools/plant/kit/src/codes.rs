//! The real contracts of /repo, driven through their JSON wire interface.
use crate::sim::RealCode;
use cosmwasm_std::{from_json, Binary, Deps, DepsMut, Env, MessageInfo, Reply, Response};

/// What a contract without a `reply` entry point answers to a reply.
#[allow(dead_code)]
fn reply(_: DepsMut, _: Env, _: Reply) -> Result<Response, String> {
    Err("no reply entry point".into())
}

macro_rules! code {
    ($id:ident, $name:expr, $($m:ident)::+) => {
        pub fn $id() -> RealCode {
            fn inst(d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<Response, String> {
                let m = from_json(m).map_err(|e| e.to_string())?;
                $($m)::+::instantiate(d, e, i, m).map_err(|e| e.to_string())
            }
            fn exec(d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<Response, String> {
                let m = from_json(m).map_err(|e| e.to_string())?;
                $($m)::+::execute(d, e, i, m).map_err(|e| e.to_string())
            }
            fn query(d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
                let m = from_json(m).map_err(|e| e.to_string())?;
                $($m)::+::query(d, e, m).map_err(|e| e.to_string())
            }
            fn migrate(d: DepsMut, e: Env, m: &[u8]) -> Result<Response, String> {
                let m = from_json(m).map_err(|e| e.to_string())?;
                $($m)::+::migrate(d, e, m).map_err(|e| e.to_string())
            }
            fn rep(d: DepsMut, e: Env, r: Reply) -> Result<Response, String> {
                // the contract's own `reply` entry point when it has one, else the fallback below
                #[allow(unused_imports)]
                use $($m)::+::*;
                reply(d, e, r).map_err(|e| e.to_string())
            }
            RealCode { name: $name, inst, exec, query, reply: Some(rep), migrate: Some(migrate) }
        }
    };
}

code!(mailbox, "mailbox", hpl_mailbox::contract);
code!(va, "validator-announce", hpl_validator_announce::contract);
code!(hook_aggregate, "hook-aggregate", hpl_hook_aggregate);
code!(hook_fee, "hook-fee", hpl_hook_fee);
code!(hook_merkle, "hook-merkle", hpl_hook_merkle);
code!(hook_pausable, "hook-pausable", hpl_hook_pausable);
code!(hook_routing, "hook-routing", hpl_hook_routing);
code!(hook_routing_custom, "hook-routing-custom", hpl_hook_routing_custom);
code!(hook_routing_fallback, "hook-routing-fallback", hpl_hook_routing_fallback);
code!(igp, "igp", hpl_igp::contract);
code!(igp_oracle, "igp-oracle", hpl_igp_oracle::contract);
code!(ism_aggregate, "ism-aggregate", hpl_ism_aggregate);
code!(ism_multisig, "ism-multisig", hpl_ism_multisig::contract);
code!(ism_pausable, "ism-pausable", hpl_ism_pausable);
code!(ism_routing, "ism-routing", hpl_ism_routing::contract);
code!(warp_native, "warp-native", hpl_warp_native::contract);
code!(warp_cw20, "warp-cw20", hpl_warp_cw20::contract);

/// the real cw20-base token contract
pub fn cw20() -> RealCode {
    use cw20_base::contract as c;
    fn inst(d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<Response, String> {
        c::instantiate(d, e, i, from_json(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
    fn exec(d: DepsMut, e: Env, i: MessageInfo, m: &[u8]) -> Result<Response, String> {
        c::execute(d, e, i, from_json(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
    fn query(d: Deps, e: Env, m: &[u8]) -> Result<Binary, String> {
        c::query(d, e, from_json(m).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
    }
    RealCode { name: "cw20-base", inst, exec, query, reply: None, migrate: None }
}

pub fn by_name(n: &str) -> Option<RealCode> {
    [
        mailbox(), va(), hook_aggregate(), hook_fee(), hook_merkle(), hook_pausable(), hook_routing(), hook_routing_custom(), hook_routing_fallback(),
        igp(), igp_oracle(), ism_aggregate(), ism_multisig(), ism_pausable(), ism_routing(), warp_native(), warp_cw20(), cw20(),
    ]
    .into_iter()
    .find(|c| c.name == n)
}
