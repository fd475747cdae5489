//! A complete installation made of real contracts only (plus one recording recipient).
use super::targets::u128j;
use super::util::*;
use super::warpw::{self, Kind, Warp};
use crate::codes;
use crate::model::{announce_digest, checkpoint_digest, gas_price, pad32, Big, Key, Msg};
use crate::run::Case;
use crate::sim::{unb32, TxRes};
use crate::stubs::*;
use serde_json::{json, Value};
use std::rc::Rc;

pub const TOKEN: &str = "uosmo";

pub struct World {
    pub core: Core,
    pub tree: String,
    pub igp: String,
    pub oracle: String,
    pub isms: String,
    pub multisig: String,
    pub va: String,
    pub fee: String,
    pub hook: String,
    pub hook_kind: usize,
    pub warp: Warp,
    pub rec: Rc<RecipientStub>,
    pub rec_addr: String,
    pub keys: Vec<Key>,
    pub threshold: u8,
    /// the configured counterpart
    pub remote: u32,
    pub router: [u8; 32],
    /// another origin, enrolled with validators of its own, without a token router
    pub elsewhere: u32,
    pub ekey: Key,
    pub gas: u128,
    pub price: u128,
    pub fee_amount: u128,
    pub ben: String,
}

impl World {
    /// `hook_kind`: how the default hook reaches the gas paymaster (0 directly, 1 routing, 2 routing with
    /// custom entries, 3 routing with fallback, 4 aggregate)
    pub fn new(c: &mut Case, kind: Kind, hook_kind: usize) -> Option<World> {
        let core = Core::new(c);
        let own = core.owner.clone();
        let ch = &core.ch;
        ch.faucet(&ch.user("bank"), TOKEN, 1_000_000);
        let remote = 1_000_000_000 + c.rng.below(1000) as u32;
        let (elsewhere, ekey) = (remote + 2000, Key::new(b"elsewhere"));
        let ben = ch.user("beneficiary");
        let gas = c.rng.range(1000, 9_999_999) as u128;
        let d = |c: &mut Case, code: &crate::sim::RealCode, m: Value, n: &str| {
            let r = ch.deploy(&own, code, &m);
            c.must(r, n)
        };
        let tree = d(c, &codes::hook_merkle(), json!({"mailbox":core.mb}), "merkle")?;
        let igp = d(c, &codes::igp(), json!({"hrp":ch.hrp,"owner":own,"gas_token":TOKEN,"beneficiary":ben,"default_gas_usage":u128j(gas)}), "igp")?;
        let oracle = d(c, &codes::igp_oracle(), json!({"owner":own}), "oracle")?;
        let multisig = d(c, &codes::ism_multisig(), json!({"owner":own}), "multisig")?;
        let isms = d(c, &codes::ism_routing(), json!({"owner":own,"isms":[{"domain":remote,"address":multisig},{"domain":elsewhere,"address":multisig}]}), "routing ism")?;
        let va = d(c, &codes::va(), json!({"hrp":ch.hrp,"mailbox":core.mb}), "announcements")?;
        let fee_amount = c.rng.range(1, 9999) as u128;
        let fee = d(c, &codes::hook_fee(), json!({"owner":own,"fee":{"denom":TOKEN,"amount":fee_amount.to_string()}}), "fee")?;
        let n = c.rng.range(1, 4) as usize;
        let keys: Vec<Key> = (0..n).map(|i| Key::new(format!("world{}-{i}", c.rng.below(100)).as_bytes())).collect();
        let threshold = c.rng.range(1, n as u64) as u8;
        let (rate, gp) = (c.rng.range(1, 40_000_000_000) as u128, c.rng.range(1, 5000) as u128);
        let price = gas_price(&Big::from_u128(gas), gp, rate).0.to_u128().unwrap();
        let o = |c: &mut Case, to: &str, m: Value, n: &str| {
            let r = ch.exec(&own, to, &m, &[]).map(|_| ());
            c.must(r, n)
        };
        o(c, &oracle, json!({"set_remote_gas_data":{"config":{"remote_domain":remote,"token_exchange_rate":rate.to_string(),"gas_price":gp.to_string()}}}), "set price")?;
        o(c, &igp, json!({"router":{"set_route":{"set":{"domain":remote,"route":oracle}}}}), "set oracle")?;
        o(c, &multisig, json!({"set_validators":{"domain":remote,"threshold":threshold,"validators":keys.iter().map(|k| hexs(k.addr)).collect::<Vec<_>>()}}), "set validators")?;
        o(c, &multisig, json!({"set_validators":{"domain":elsewhere,"threshold":1,"validators":[hexs(ekey.addr)]}}), "set validators elsewhere")?;
        let hook = match hook_kind {
            0 => igp.clone(),
            4 => d(c, &codes::hook_aggregate(), json!({"owner":own,"hooks":[fee, igp]}), "aggregate")?,
            k => {
                let code = [codes::hook_routing(), codes::hook_routing_custom(), codes::hook_routing_fallback()][k - 1].clone();
                let h = d(c, &code, json!({"owner":own}), "routing hook")?;
                if k == 3 {
                    // the fallback carries the traffic of unrouted domains
                    o(c, &h, json!({"set_fallback_hook":{"hook":igp}}), "set fallback")?;
                } else {
                    o(c, &h, json!({"router":{"set_route":{"set":{"domain":remote,"route":igp}}}}), "route hook")?;
                }
                h
            }
        };
        core.required_hook(&tree);
        core.default_hook(&hook);
        core.default_ism(&isms);
        let rec = RecipientStub::new();
        let rec_addr = ch.put_stub(rec.clone());
        let r = Warp::deploy(ch, &own, &core.mb, kind, "utok");
        let warp = c.must(r, "token route")?;
        let router: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
        let r = warp.route(ch, remote, Some(&router));
        c.must(r, "enroll")?;
        Some(World { tree, igp, oracle, isms, multisig, va, fee, hook, hook_kind, warp, rec, rec_addr, keys, threshold, remote, router, elsewhere, ekey, gas, price, fee_amount, ben, core })
    }
    /// what a dispatch to the configured counterpart costs
    pub fn cost(&self) -> u128 {
        self.price + if self.hook_kind == 4 { self.fee_amount } else { 0 }
    }
    pub fn own(&self, to: &str, m: Value) -> Result<(), String> {
        self.core.ch.exec(&self.core.owner, to, &m, &[]).map(|_| ())
    }
    /// metadata by which the configured validators vouch for the message
    pub fn vouch(&self, m: &Msg) -> Vec<u8> {
        let (tree, root) = ([3u8; 32], [4u8; 32]);
        let dg = checkpoint_digest(m.origin, &tree, &root, 77, &m.id());
        let mut md = [&tree[..], &root[..], &77u32.to_be_bytes()[..]].concat();
        if m.origin == self.elsewhere {
            md.extend(self.ekey.sign(&dg));
        } else {
            for k in self.keys.iter().take(self.threshold as usize) {
                md.extend(k.sign(&dg));
            }
        }
        md
    }
    pub fn message_to(&self, contract: &str, nonce: u32, sender: [u8; 32], body: Vec<u8>) -> Msg {
        Msg { version: 3, nonce, origin: self.remote, sender, dest: self.core.domain, recipient: pad32(&unb32(contract).unwrap().1), body }
    }
    pub fn deliver(&self, relayer: &str, m: &Msg) -> TxRes {
        self.core.process(relayer, &self.vouch(m), &m.encode())
    }
    /// tokens arriving from the remote router
    pub fn incoming(&self, nonce: u32, to: &str, amount: u128) -> Msg {
        self.message_to(&self.warp.addr, nonce, self.router, warpw::body(&pad32(&unb32(to).unwrap().1), amount, &[]))
    }
    pub fn announce(&self, who: &str, key: &Key, loc: &str) -> TxRes {
        let raw = unb32(&self.core.mb).unwrap().1;
        let sig = key.sign(&announce_digest(self.core.domain, &raw, loc));
        self.core.ch.exec(who, &self.va, &json!({"announce":{"validator":hexs(key.addr),"signature":hexs(sig),"storage_location":loc}}), &[])
    }
    pub fn dispatch(&self, who: &str, recipient: &[u8; 32], body: &[u8]) -> TxRes {
        let f = coins(&[(self.cost(), TOKEN)]);
        let f = if self.cost() == 0 { vec![] } else { f };
        self.core.ch.exec(who, &self.core.mb, &dispatch_msg(self.remote, recipient, body, None, None), &f)
    }
    pub fn send_tokens(&self, who: &str, recipient: &[u8; 32], amount: u128) -> TxRes {
        let ch = &self.core.ch;
        let mut f = vec![];
        if self.cost() > 0 {
            f.push(coin(self.cost(), TOKEN));
        }
        if self.warp.kind.cw20 {
            self.warp.allow(ch, who, amount)?;
        } else {
            f.push(coin(amount, &self.warp.token));
        }
        ch.exec(who, &self.warp.addr, &json!({"transfer_remote":{"dest_domain":self.remote,"recipient":hexs(recipient),"amount":amount.to_string(),"hook":null,"metadata":null}}), &f)
    }
    pub fn pay(&self, who: &str, id: &[u8], gas: u128, funds: u128, refund: &str) -> TxRes {
        self.core.ch.exec(who, &self.igp, &json!({"pay_for_gas":{"message_id":hexs(id),"dest_domain":self.remote,"gas_amount":gas.to_string(),"refund_address":refund}}), &coins(&[(funds, TOKEN)]))
    }
}
