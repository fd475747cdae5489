//! Instantiation establishes exactly the requested configuration, or nothing.
use super::targets::*;
use super::util::*;
use crate::run::{Case, Prop};
use crate::codes;
use crate::rng::Rng;
use crate::sim::{b32, pb_parse, unb32, Code, Kind};
use crate::stubs::hexs;
use serde_json::{json, Value};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C29",
    run,
    quick: 533300,
    thorough: 21333000,
    rule: "one judged instantiation of a contract; nontrivial when a field is corrupted (foreign-prefix, malformed or upper-case address, upper-case prefix) or the deployer differs from the owner; distinct by (contract, corrupted field, corruption, outcome)",
    floors: &["configured", "bad_owner_refused", "bad_prefix_refused", "bad_address_refused", "bad_token_refused", "fresh_denom", "fresh_token", "described"],
};

/// json pointers of all strings in a message
fn leaves(v: &Value, at: String, out: &mut Vec<String>) {
    match v {
        Value::String(_) => out.push(at),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| leaves(x, format!("{at}/{k}"), out)),
        _ => {}
    }
}

/// any text, not only letters
fn text(r: &mut Rng) -> String {
    let n = r.below(12) as usize;
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '"', '\\', 'é', '令', '\u{1f600}', '/', '\n'])).collect()
}

/// the denomination's description: (chain's message fields in order, as asked for)
fn metadata(r: &mut Rng, denom: &str) -> Value {
    let unit = |r: &mut Rng, d: String, e: u32| json!({"denom":d,"exponent":e.to_string(),"aliases":(0..r.below(3)).map(|_| text(r)).collect::<Vec<_>>()});
    let mut units = vec![unit(r, denom.into(), 0)];
    for _ in 0..r.below(3) {
        let (d, e) = (text(r), r.below(40) as u32);
        units.push(unit(r, d, e));
    }
    json!({"description":text(r),"denom_units":units,"base":denom,"display":text(r),"name":text(r),"symbol":text(r)})
}

/// a chain message read back into the form of the instantiation message
fn read_metadata(b: &[u8]) -> Result<Value, String> {
    let f = pb_parse(b)?;
    let s = |f: &[(u64, Vec<u8>)], n: u64| f.iter().find(|x| x.0 == n).map(|x| String::from_utf8_lossy(&x.1).into_owned()).unwrap_or_default();
    let mut units = vec![];
    for u in f.iter().filter(|x| x.0 == 2) {
        let u = pb_parse(&u.1)?;
        let e = u.iter().find(|x| x.0 == 2).map(|x| u64::from_be_bytes(x.1[..8].try_into().unwrap())).unwrap_or(0);
        let al: Vec<String> = u.iter().filter(|x| x.0 == 3).map(|x| String::from_utf8_lossy(&x.1).into_owned()).collect();
        units.push(json!({"denom":s(&u, 1),"exponent":e.to_string(),"aliases":al}));
    }
    Ok(json!({"description":s(&f, 1),"denom_units":units,"base":s(&f, 3),"display":s(&f, 4),"name":s(&f, 5),"symbol":s(&f, 6)}))
}

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let kind = *KINDS.iter().chain(&["va", "hook_merkle"]).nth((c.idx as usize) % (KINDS.len() + 2)).unwrap();
    let (deployer, owner) = (ch.user("deployer"), ch.user(&format!("owner{}", c.rng.below(5))));
    mint_all(&ch, &ch.user("faucet"), 1000);
    let at = ch.fresh_addr();
    let mut p = match kind {
        "va" | "hook_merkle" => {
            let d = c.rng.dom();
            let r = ch.deploy(&deployer, &codes::mailbox(), &json!({"hrp":ch.hrp,"owner":owner,"domain":d}));
            let Some(mb) = c.must(r, "mailbox") else { return };
            let raw = hexs(unb32(&mb).unwrap().1);
            let e = |q: Value, p: &str, v: Value| (q, p.to_string(), v);
            if kind == "va" {
                let init = vec![e(json!({"mailbox":{}}), "/mailbox", json!(raw)), e(json!({"local_domain":{}}), "/local_domain", json!(d)), e(json!({"get_announced_validators":{}}), "/validators", json!([]))];
                Deployed { code: codes::va(), msg: json!({"hrp":ch.hrp,"mailbox":mb}), init, own_exec: "" }
            } else {
                let init = vec![e(json!({"hook":{"mailbox":{}}}), "/mailbox", json!(mb)), e(json!({"merkle_hook":{"count":{}}}), "/count", json!(0))];
                Deployed { code: codes::hook_merkle(), msg: json!({"mailbox":mb}), init, own_exec: "" }
            }
        }
        _ => plan(&mut c.rng, &ch, kind, &owner),
    };
    // what the new token is to look like
    let (mut meta, mut sub) = (Value::Null, "utok".to_string());
    if kind == "warp_native_bridged" {
        sub = c.rng.pick(&["utok", "u", "a/b", "uTOK-x", "w123456789012345678901234567890123456789012"]).to_string();
        if c.rng.pct(70) {
            meta = metadata(&mut c.rng, &format!("factory/{at}/{sub}"));
        }
        p.msg["token"] = json!({"bridged":{"denom":sub,"metadata":meta}});
    }
    if kind == "warp_cw20_bridged" {
        let m = &mut p.msg["token"]["bridged"]["init_msg"];
        m["name"] = json!(format!("tok{}", text(&mut c.rng)));
        m["symbol"] = json!(c.rng.pick(&["TOKN", "abc", "W-TOK", "ABCDEFGHIJKL"]));
        m["decimals"] = json!(c.rng.below(19));
        if c.rng.bool() {
            // somebody else's minting rights, or a cap, are not for the asking
            m["mint"] = json!({"minter":deployer,"cap":if c.rng.bool() { json!("5") } else { Value::Null }});
        }
        if c.rng.bool() {
            m["marketing"] = json!({"project":text(&mut c.rng),"description":text(&mut c.rng),"marketing":ch.user("adman"),"logo":null});
        }
    }
    // first the configuration as asked for
    let mark = ch.mark();
    let addr = at;
    let r = ch.deploy_at(&addr, &deployer, Code::Real(Rc::new(p.code.clone())), &p.msg);
    if c.must(r.map(|_| ()), &format!("instantiate {kind}")).is_none() {
        return;
    }
    for e in &p.init {
        // an empty latest id may also be reported as an error before the first dispatch
        if e.1 == "/message_id" {
            continue;
        }
        let v = visible(&ch, &addr, e);
        c.check(v.is_ok(), "config", || format!("{kind} {}: {}", p.msg, v.clone().unwrap_err()));
    }
    c.stat("configured", 1);
    let evs = ch.evs(mark);
    if kind == "warp_native_bridged" {
        // the bridged denom is created by, and belongs to, this contract
        let made: Vec<_> = evs.iter().filter(|e| e.kind == Kind::TfCreate && e.committed()).collect();
        c.check(made.len() == 1 && made[0].from == addr && made[0].to == sub, "denom-created", || format!("{made:?}"));
        let q = ch.query(&addr, json!({"token_default":{"token_type":{}}}));
        let want = format!("factory/{addr}/{sub}");
        c.check(q.as_ref().map(|v| v.pointer("/type/native/fungible/denom") == Some(&json!(want))).unwrap_or(false), "denom", || format!("{q:?} want {want}"));
        let told: Vec<_> = evs.iter().filter(|e| e.kind == Kind::TfMeta && e.committed()).collect();
        if c.check(told.len() == !meta.is_null() as usize, "denom-description", || format!("{} descriptions for {meta}", told.len())) && !meta.is_null() {
            let got = pb_parse(&told[0].msg).and_then(|f| read_metadata(&f.iter().find(|x| x.0 == 2).ok_or("none")?.1));
            c.check(got.as_ref() == Ok(&meta), "denom-description", || format!("asked {meta}, told the chain {got:?}"));
            c.stat("described", 1);
        }
        // somebody else's denomination cannot be described
        if !meta.is_null() {
            let mut m = p.msg.clone();
            m["token"]["bridged"]["metadata"]["base"] = json!("utest");
            let a = ch.fresh_addr();
            let r = ch.deploy_at(&a, &deployer, Code::Real(Rc::new(p.code.clone())), &m);
            c.check(r.is_err() && !ch.is_contract(&a), "foreign-description", || format!("{meta}"));
        }
        c.stat("fresh_denom", 1);
    }
    if kind == "warp_cw20_bridged" {
        let q = ch.query(&addr, json!({"token_default":{"token_type":{}}}));
        let tok = q.as_ref().ok().and_then(|v| v.pointer("/type/c_w20/contract").and_then(|x| x.as_str().map(|s| s.to_string())));
        if c.check(tok.is_some(), "token", || format!("{q:?}")) {
            let tok = tok.unwrap();
            let m = ch.query(&tok, json!({"minter":{}}));
            c.check(m.as_ref().map(|v| v["minter"] == addr && v["cap"].is_null()).unwrap_or(false), "token-minter", || format!("minter of {tok}: {m:?}, warp {addr}"));
            let want = &p.msg["token"]["bridged"]["init_msg"];
            let i = ch.query(&tok, json!({"token_info":{}}));
            c.check(i.as_ref().map(|i| ["name", "symbol", "decimals"].iter().all(|k| i[k] == want[k]) && i["total_supply"] == "0").unwrap_or(false), "token-info", || format!("asked {want}, made {i:?}"));
            let i = ch.query(&tok, json!({"marketing_info":{}}));
            let mk = &want["marketing"];
            c.check(i.as_ref().map(|i| ["project", "description", "marketing"].iter().all(|k| i[k] == mk[k])).unwrap_or(false), "token-info", || format!("asked {mk}, made {i:?}"));
        }
        c.stat("fresh_token", 1);
    }
    let sends = evs.iter().filter(|e| e.from == addr && e.committed() && matches!(e.kind, Kind::Exec | Kind::BankSend | Kind::TfMint | Kind::BankBurn)).count();
    c.check(sends == 0, "init-moves", || format!("{kind} sent {sends} messages on instantiation"));
    c.eval(format!("{kind}|plain"), true);
    // then single-field corruptions: every address, wherever it stands, and the prefix
    let mut fields = vec![];
    leaves(&p.msg, String::new(), &mut fields);
    fields.retain(|f| {
        // minting is the route's own, whatever is asked for
        if f.ends_with("/mint/minter") {
            return false;
        }
        let v = p.msg.pointer(f).and_then(|v| v.as_str()).unwrap_or("");
        (f == "/hrp" && !kind.starts_with("warp") && kind != "va") || unb32(v).map(|(h, _)| h == ch.hrp).unwrap_or(false)
    });
    for _ in 0..3 {
        let f = c.rng.pick(&fields).clone();
        let mut m = p.msg.clone();
        let bad: (String, &str) = if f == "/hrp" {
            let h = ch.hrp.clone();
            let mut up = h.clone();
            let k = c.rng.idx(h.len());
            up.replace_range(k..k + 1, &h[k..k + 1].to_uppercase());
            if c.rng.bool() { (h.to_uppercase(), "upper") } else { (up, "mixed") }
        } else {
            let good = ch.user("someone");
            match c.rng.below(8) {
                6 => (format!(" {good}"), "padded"),
                7 => (format!("{good}{}", c.rng.pick(&[" ", "\n", "\t", "\0"])), "padded"),
                0 => (b32("foreign", &[9; 20]), "foreign prefix"),
                1 => (good.to_uppercase(), "upper case"),
                2 => (String::new(), "empty"),
                3 => (good[..good.len() - 1].to_string(), "truncated"),
                4 => {
                    let mut s = good.clone().into_bytes();
                    let n = s.len();
                    s[n - 3] = if s[n - 3] == b'q' { b'p' } else { b'q' };
                    (String::from_utf8(s).unwrap(), "checksum")
                }
                _ => ("0x00000000000000000000000000000000000000aa".into(), "hex"),
            }
        };
        let slot = m.pointer_mut(&f).unwrap();
        *slot = json!(bad.0);
        let a = ch.fresh_addr();
        let r = ch.deploy_at(&a, &deployer, Code::Real(Rc::new(p.code.clone())), &m).map(|_| ());
        // only the mailbox and the gas paymaster promise a lower-case prefix; addresses are policed everywhere
        c.check(r.is_err(), "bad-config-accepted", || format!("{kind}: {f} = {:?} ({})", bad.0, bad.1));
        c.check(!ch.is_contract(&a) || r.is_ok(), "half-made", || kind.to_string());
        c.stat(match f.as_str() { "/owner" => "bad_owner_refused", "/hrp" => "bad_prefix_refused", x if x.starts_with("/token") => "bad_token_refused", _ => "bad_address_refused" }, 1);
        c.eval(format!("{kind}|{f}|{}|{}", bad.1, r.is_ok()), true);
    }
}
