//! Token routes of every kind on a chain, with uniform access to the token ledger.
use crate::codes;
use crate::kit::{cw20_init, CW20_CODE};
use crate::sim::{Chain, Code};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kind {
    pub cw20: bool,
    pub bridged: bool,
}
pub const KINDS: [Kind; 4] = [
    Kind { cw20: false, bridged: false },
    Kind { cw20: false, bridged: true },
    Kind { cw20: true, bridged: false },
    Kind { cw20: true, bridged: true },
];
impl Kind {
    pub fn name(&self) -> &'static str {
        match (self.cw20, self.bridged) {
            (false, false) => "native_collateral",
            (false, true) => "native_bridged",
            (true, false) => "cw20_collateral",
            (true, true) => "cw20_bridged",
        }
    }
}

#[derive(Clone)]
pub struct Warp {
    pub kind: Kind,
    pub addr: String,
    /// bank denomination or token contract
    pub token: String,
    pub owner: String,
}

/// the whole ledger of one token: account -> balance, plus the supply
pub type Ledger = (BTreeMap<String, u128>, u128);

impl Warp {
    pub fn deploy(ch: &Chain, owner: &str, mailbox: &str, kind: Kind, denom: &str) -> Result<Warp, String> {
        ch.store_code(CW20_CODE, Code::Real(Rc::new(codes::cw20())));
        let (tok, mut token) = match (kind.cw20, kind.bridged) {
            (false, false) => (json!({"collateral":{"denom":denom}}), denom.to_string()),
            (false, true) => (json!({"bridged":{"denom":denom,"metadata":null}}), String::new()),
            (true, false) => {
                let minter = ch.user("minter");
                let t = ch.deploy(&minter, &codes::cw20(), &cw20_init("TOKN", Some(&minter), &[]))?;
                (json!({"collateral":{"address":t}}), t)
            }
            (true, true) => (json!({"bridged":{"code_id":CW20_CODE,"init_msg":cw20_init("TOKN", None, &[])}}), String::new()),
        };
        let code = if kind.cw20 { codes::warp_cw20() } else { codes::warp_native() };
        let addr = ch.deploy(owner, &code, &json!({"token":tok,"hrp":ch.hrp,"owner":owner,"mailbox":mailbox}))?;
        let q = ch.query(&addr, json!({"token_default":{"token_type":{}}}))?;
        let p = if kind.cw20 { "/type/c_w20/contract" } else { "/type/native/fungible/denom" };
        let got = q.pointer(p).and_then(|v| v.as_str()).ok_or(format!("token type: {q}"))?.to_string();
        if token.is_empty() {
            token = got;
        } else if token != got {
            return Err(format!("token is {token}, contract says {got}"));
        }
        Ok(Warp { kind, addr, token, owner: owner.to_string() })
    }
    pub fn own(&self, ch: &Chain, m: Value) -> Result<(), String> {
        ch.exec(&self.owner, &self.addr, &m, &[]).map(|_| ())
    }
    pub fn route(&self, ch: &Chain, domain: u32, r: Option<&[u8]>) -> Result<(), String> {
        self.own(ch, json!({"router":{"set_route":{"set":{"domain":domain,"route":r.map(hex::encode)}}}}))
    }
    /// put tokens into circulation (collateral kinds only)
    pub fn give(&self, ch: &Chain, to: &str, v: u128) -> bool {
        if self.kind.cw20 {
            v == 0 || ch.exec(&ch.user("minter"), &self.token, &json!({"mint":{"recipient":to,"amount":v.to_string()}}), &[]).is_ok()
        } else {
            ch.faucet(to, &self.token, v)
        }
    }
    pub fn allow(&self, ch: &Chain, who: &str, v: u128) -> Result<(), String> {
        ch.exec(who, &self.token, &json!({"increase_allowance":{"spender":self.addr,"amount":v.to_string(),"expires":null}}), &[]).map(|_| ())
    }
    pub fn bal(&self, ch: &Chain, who: &str) -> u128 {
        if !self.kind.cw20 {
            return ch.balance(who, &self.token);
        }
        ch.query(&self.token, json!({"balance":{"address":who}}))
            .ok()
            .and_then(|v| v["balance"].as_str().and_then(|s| s.parse().ok()))
            .unwrap_or(0)
    }
    pub fn supply(&self, ch: &Chain) -> u128 {
        self.ledger(ch).1
    }
    pub fn ledger(&self, ch: &Chain) -> Ledger {
        if !self.kind.cw20 {
            let m = ch.all_balances().into_iter().filter(|((_, d), v)| *d == self.token && *v > 0).map(|((a, _), v)| (a, v)).collect();
            return (m, ch.supply(&self.token));
        }
        let mut m = BTreeMap::new();
        let mut after = Value::Null;
        loop {
            let q = ch.query(&self.token, json!({"all_accounts":{"start_after":after,"limit":30}})).expect("accounts");
            let l: Vec<String> = q["accounts"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().to_string()).collect();
            if l.is_empty() {
                break;
            }
            after = json!(l.last().unwrap());
            for a in l {
                let b = self.bal(ch, &a);
                if b > 0 {
                    m.insert(a, b);
                }
            }
        }
        let s = ch.query(&self.token, json!({"token_info":{}})).expect("token info")["total_supply"].as_str().unwrap().parse().unwrap();
        (m, s)
    }
}

pub fn body(recipient: &[u8; 32], amount: u128, tail: &[u8]) -> Vec<u8> {
    let mut b = recipient.to_vec();
    b.extend([0u8; 16]);
    b.extend(amount.to_be_bytes());
    b.extend(tail);
    b
}

/// move `v` from a to b in a ledger model (None: out of/into thin air)
pub fn moved(l: &Ledger, from: Option<&str>, to: Option<&str>, v: u128) -> Option<Ledger> {
    let mut l = l.clone();
    match from {
        Some(a) => {
            let x = l.0.get(a).copied().unwrap_or(0).checked_sub(v)?;
            l.0.insert(a.into(), x);
        }
        None => l.1 = l.1.checked_add(v)?,
    }
    match to {
        Some(a) => {
            let x = l.0.get(a).copied().unwrap_or(0).checked_add(v)?;
            l.0.insert(a.into(), x);
        }
        None => l.1 = l.1.checked_sub(v)?,
    }
    l.0.retain(|_, v| *v > 0);
    Some(l)
}
