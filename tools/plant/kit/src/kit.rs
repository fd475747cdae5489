//! Small helpers for scenarios run against the real contracts.
#![allow(dead_code)]
pub(crate) use crate::codes;
pub(crate) use crate::model::*;
pub(crate) use crate::rng::Rng;
pub(crate) use crate::sim::*;
pub(crate) use crate::stubs::*;
pub(crate) use crate::warpw::{body, Kind as WarpKind, Warp, KINDS as WARP_KINDS};
pub(crate) use cosmwasm_std::{Coin, SubMsg};
pub(crate) use serde_json::{json, Value};
pub(crate) use std::rc::Rc;

pub const CW20_CODE: u64 = 77;
pub fn cw20_init(denom: &str, minter: Option<&str>, initial: &[(&str, u128)]) -> Value {
    json!({"name":"token","symbol":denom,"decimals":6,
        "initial_balances": initial.iter().map(|(a,v)| json!({"address":a,"amount":v.to_string()})).collect::<Vec<_>>(),
        "mint": minter.map(|m| json!({"minter":m,"cap":null})), "marketing": null})
}
/// end the demonstration: the property is broken
pub fn fail(s: impl AsRef<str>) -> ! {
    println!("PROPERTY BROKEN: {}", s.as_ref());
    std::process::exit(1)
}
pub fn check(ok: bool, s: impl AsRef<str>) {
    if !ok {
        fail(s)
    }
}
pub fn same<T: PartialEq + std::fmt::Debug>(got: T, want: T, s: impl AsRef<str>) {
    if got != want {
        fail(format!("{}: {got:?}, should be {want:?}", s.as_ref()))
    }
}
pub fn must<T>(r: Result<T, String>, s: &str) -> T {
    match r {
        Ok(v) => v,
        Err(e) => fail(format!("{s}: {e}")),
    }
}
pub fn coins(v: &[(u128, &str)]) -> Vec<Coin> {
    v.iter().map(|(a, d)| Coin::new(*a, *d)).collect()
}
pub struct Core {
    pub ch: Chain,
    pub owner: String,
    pub mb: String,
    pub domain: u32,
}
impl Core {
    pub fn new(hrp: &str, domain: u32) -> Core {
        install_panic_hook();
        let ch = Chain::new(hrp);
        let owner = ch.user("owner");
        let mb = must(ch.deploy(&owner, &codes::mailbox(), &json!({"hrp":hrp,"owner":owner,"domain":domain})), "mailbox");
        Core { ch, owner, mb, domain }
    }
    pub fn mailbox(&self) -> Mailbox<'_> {
        Mailbox { c: &self.ch, a: self.mb.clone() }
    }
    pub fn own(&self, to: &str, m: Value) {
        must(self.ch.exec(&self.owner, to, &m, &[]), "owner operation");
    }
    pub fn deploy(&self, c: RealCode, m: Value) -> String {
        must(self.ch.deploy(&self.owner, &c, &m), "instantiate")
    }
    pub fn set(&self, what: &str, a: &str) {
        let k = what.rsplit('_').next().unwrap().to_string();
        let mut m = serde_json::Map::new();
        m.insert(what.into(), json!({ k: a }));
        self.own(&self.mb, Value::Object(m))
    }
    /// default and required hook stubs
    pub fn hooks(&self) -> (Rc<HookStub>, Rc<HookStub>) {
        let (d, r) = (HookStub::new(), HookStub::new());
        self.set("set_default_hook", &self.ch.put_stub(d.clone()));
        self.set("set_required_hook", &self.ch.put_stub(r.clone()));
        (d, r)
    }
    pub fn ism(&self, v: Verdict) -> Rc<IsmStub> {
        let i = IsmStub::new(v);
        self.set("set_default_ism", &self.ch.put_stub(i.clone()));
        i
    }
    pub fn recipient(&self) -> (Rc<RecipientStub>, String, [u8; 32]) {
        let r = RecipientStub::new();
        let a = self.ch.put_stub(r.clone());
        let w = pad32(&unb32(&a).unwrap().1);
        (r, a, w)
    }
    pub fn process(&self, md: &[u8], m: &[u8]) -> TxRes {
        self.ch.exec(&self.ch.user("relayer"), &self.mb, &process_msg(md, m), &[])
    }
    pub fn dispatch(&self, who: &str, m: Value, funds: &[Coin]) -> TxRes {
        for c in funds {
            self.ch.faucet(who, &c.denom, c.amount.u128());
        }
        self.ch.exec(who, &self.mb, &m, funds)
    }
    pub fn msg(&self, nonce: u32, origin: u32, sender: [u8; 32], recipient: [u8; 32], body: &[u8]) -> Msg {
        Msg { version: 3, nonce, origin, sender, dest: self.domain, recipient, body: body.to_vec() }
    }
    /// a token route whose remote, on domain 7, is the router 0707..07
    pub fn warp(&self, cw20: bool, bridged: bool) -> Warp {
        let w = must(Warp::deploy(&self.ch, &self.owner, &self.mb, WarpKind { cw20, bridged }, "utok"), "route");
        must(w.route(&self.ch, 7, Some(&[7; 32])), "enroll");
        w
    }
    /// deliver a transfer from domain 7 to the route
    pub fn deliver(&self, w: &Warp, sender: [u8; 32], nonce: u32, to: &str, amount: u128) -> TxRes {
        let b = body(&pad32(&unb32(to).unwrap().1), amount, &[]);
        self.process(b"", &self.msg(nonce, 7, sender, pad32(&unb32(&w.addr).unwrap().1), &b).encode())
    }
    /// transfer to 0303..03 on domain 7, `fee` more of the token attached (native routes)
    pub fn transfer(&self, w: &Warp, who: &str, amount: u128, hook: Value, md: Value, fee: u128) -> TxRes {
        let m = json!({"transfer_remote":{"dest_domain":7,"recipient":hexs([3u8; 32]),"amount":amount.to_string(),"hook":hook,"metadata":md}});
        if w.kind.cw20 {
            self.ch.exec(who, &w.token, &json!({"increase_allowance":{"spender":w.addr,"amount":amount.to_string()}}), &[])?;
            self.ch.exec(who, &w.addr, &m, &[])
        } else {
            self.ch.faucet(who, &w.token, fee);
            self.ch.exec(who, &w.addr, &m, &coins(&[(amount + fee, &w.token)]))
        }
    }
}
