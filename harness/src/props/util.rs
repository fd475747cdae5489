//! Shared workload building blocks.
#![allow(dead_code)]
use crate::codes;
use crate::model::{unpad, Msg};
use crate::rng::Rng;
use crate::run::Case;
use crate::sim::{b32, Chain, Ev, Kind, TxRes};
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::{json, Value};
use std::rc::Rc;

pub const HRPS: &[&str] = &["osmo", "neutron", "inj", "cosmos", "terra", "dual", "a"];

pub fn chain(rng: &mut Rng) -> Chain {
    let ch = Chain::new(rng.pick(HRPS));
    if rng.pct(85) {
        ch.pace.set(rng.next() | 1);
        ch.height.set(*rng.pick(&[1, 1000, 255, 65_535, 12_345_678, u32::MAX as u64 - 1, 1 << 40]));
    }
    ch
}
pub fn coin(v: u128, d: &str) -> Coin {
    Coin::new(v, d)
}
pub fn coins(v: &[(u128, &str)]) -> Vec<Coin> {
    v.iter().map(|(a, d)| Coin::new(*a, *d)).collect()
}
/// parse [{denom, amount}]
pub fn parse_coins(v: &Value) -> Option<Vec<(String, u128)>> {
    v.as_array()?
        .iter()
        .map(|c| Some((c["denom"].as_str()?.to_string(), c["amount"].as_str()?.parse().ok()?)))
        .collect()
}
pub fn coin_map(v: &[Coin]) -> std::collections::BTreeMap<String, u128> {
    let mut m = std::collections::BTreeMap::new();
    for c in v {
        if !c.amount.is_zero() {
            *m.entry(c.denom.clone()).or_insert(0) += c.amount.u128();
        }
    }
    m
}

pub struct Core {
    pub ch: Chain,
    pub owner: String,
    pub mb: String,
    pub domain: u32,
}

impl Core {
    pub fn mailbox(&self) -> Mailbox<'_> {
        Mailbox { c: &self.ch, a: self.mb.clone() }
    }
    pub fn new(c: &mut Case) -> Core {
        let ch = chain(&mut c.rng);
        let domain = c.rng.dom();
        Core::with(ch, domain)
    }
    pub fn with(ch: Chain, domain: u32) -> Core {
        let owner = ch.user("owner");
        let mb = ch
            .deploy(&owner, &codes::mailbox(), &json!({"hrp":ch.hrp,"owner":owner,"domain":domain}))
            .expect("mailbox instantiation");
        Core { ch, owner, mb, domain }
    }
    pub fn own(&self, m: Value) -> TxRes {
        self.ch.exec(&self.owner, &self.mb, &m, &[])
    }
    pub fn default_ism(&self, a: &str) {
        self.own(json!({"set_default_ism":{"ism":a}})).expect("set default ism");
    }
    pub fn default_hook(&self, a: &str) {
        self.own(json!({"set_default_hook":{"hook":a}})).expect("set default hook");
    }
    pub fn required_hook(&self, a: &str) {
        self.own(json!({"set_required_hook":{"hook":a}})).expect("set required hook");
    }
    pub fn hooks(&self) -> (Rc<HookStub>, Rc<HookStub>, String, String) {
        let (d, r) = (HookStub::new(), HookStub::new());
        let (da, ra) = (self.ch.put_stub(d.clone()), self.ch.put_stub(r.clone()));
        self.default_hook(&da);
        self.required_hook(&ra);
        (d, r, da, ra)
    }
    pub fn process(&self, sender: &str, md: &[u8], m: &[u8]) -> TxRes {
        self.ch.exec(sender, &self.mb, &process_msg(md, m), &[])
    }
}

/// a contract account: 20-byte, 32-byte, or 32-byte with suspicious zero bytes
pub fn contract_raw(rng: &mut Rng) -> Vec<u8> {
    let mut v = rng.bytes(32);
    match rng.below(8) {
        0..=2 => {
            v.truncate(20);
            if rng.pct(30) {
                v[..rng.clone().range(1, 8) as usize].fill(0);
            }
        }
        3 => v[..11].fill(0),
        4 => v[20..].fill(0),
        5 => v[0] = 0,
        _ => {}
    }
    if v.len() == 32 && v[..12].iter().all(|b| *b == 0) {
        v[11] = 1;
    }
    v
}

/// a different denomination whose name resembles this one
pub fn lookalike(rng: &mut Rng, d: &str) -> String {
    match rng.below(7) {
        0 => format!("{d}2"),
        1 => format!("{d}/{d}"),
        2 if d.len() > 4 => d[..d.len() - 1].into(),
        3 => format!("u{d}"),
        4 if d.to_lowercase() != d => d.to_lowercase(),
        5 if d.contains('/') => d.rsplit('/').next().unwrap().into(),
        _ => {
            let up = d.to_uppercase();
            if up != d { up } else { format!("{d}0") }
        }
    }
}

pub fn word32(rng: &mut Rng) -> [u8; 32] {
    rng.word().try_into().unwrap()
}

pub fn random_msg(rng: &mut Rng, dest: u32, recipient: [u8; 32]) -> Msg {
    Msg { version: 3, nonce: rng.dom(), origin: rng.dom(), sender: word32(rng), dest, recipient, body: rng.blob() }
}

/// a variant of `m` that differs in exactly one place
pub fn near_miss(rng: &mut Rng, m: &Msg) -> Msg {
    let mut x = m.clone();
    match rng.below(6) {
        0 => x.nonce ^= 1 << rng.below(32),
        1 => x.origin ^= 1 << rng.below(32),
        2 => x.sender[rng.idx(32)] ^= 1 << rng.below(8),
        3 if !x.body.is_empty() => {
            let i = rng.idx(x.body.len());
            x.body[i] ^= 1 << rng.below(8)
        }
        4 if !x.body.is_empty() => {
            x.body.pop();
        }
        _ => x.body.push(rng.next() as u8),
    }
    x
}

pub fn recipient_addr(hrp: &str, w: &[u8; 32]) -> String {
    b32(hrp, &unpad(w))
}

pub struct Handle {
    pub to: String,
    pub ok: bool,
    pub committed: bool,
    pub origin: u64,
    pub sender: Vec<u8>,
    pub body: Vec<u8>,
    pub funds: Vec<Coin>,
    /// the process call that produced it: (raw message, metadata)
    pub message: Vec<u8>,
    pub metadata: Vec<u8>,
}

/// every `handle` call the mailbox made, paired with the process call it came from
pub fn handles(evs: &[Ev], base: usize, mb: &str) -> Vec<Handle> {
    let mut out = vec![];
    for e in evs {
        if e.kind != Kind::Exec || e.from != mb {
            continue;
        }
        let j = e.json();
        let Some(h) = j.get("handle") else { continue };
        let p = e.parent.filter(|p| *p >= base).map(|p| evs[p - base].json()).unwrap_or(Value::Null);
        out.push(Handle {
            to: e.to.clone(),
            ok: e.ok,
            committed: e.committed(),
            origin: h["origin"].as_u64().unwrap_or(u64::MAX),
            sender: unhex(&h["sender"]).unwrap_or_default(),
            body: unhex(&h["body"]).unwrap_or_default(),
            funds: e.funds.clone(),
            message: unhex(&p["process"]["message"]).unwrap_or_default(),
            metadata: unhex(&p["process"]["metadata"]).unwrap_or_default(),
        });
    }
    out
}

/// committed `process` calls on the mailbox
pub fn processed(evs: &[Ev], mb: &str) -> Vec<Vec<u8>> {
    evs.iter()
        .filter(|e| e.kind == Kind::Exec && e.to == mb && e.committed())
        .filter_map(|e| unhex(&e.json()["process"]["message"]))
        .collect()
}

pub struct PostDispatch {
    pub to: String,
    pub from: String,
    pub metadata: Vec<u8>,
    pub message: Vec<u8>,
    pub funds: Vec<Coin>,
    pub parent: Option<usize>,
    pub committed: bool,
}

pub fn post_dispatches(evs: &[Ev], from: &str) -> Vec<PostDispatch> {
    evs.iter()
        .filter(|e| e.kind == Kind::Exec && e.from == from)
        .filter_map(|e| {
            let j = e.json();
            let p = j.get("post_dispatch")?;
            Some(PostDispatch {
                to: e.to.clone(),
                from: e.from.clone(),
                metadata: unhex(&p["metadata"])?,
                message: unhex(&p["message"])?,
                funds: e.funds.clone(),
                parent: e.parent,
                committed: e.committed(),
            })
        })
        .collect()
}

/// give `who` enough of everything in `funds`
pub fn fund(ch: &Chain, who: &str, funds: &[Coin]) -> bool {
    funds.iter().all(|c| ch.faucet(who, &c.denom, c.amount.u128()))
}

pub fn brief(r: &TxRes) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("err({})", e.chars().take(80).collect::<String>()),
    }
}

/// Let a merkle hook continue from a large tree by editing its stored state; only if the stored
/// form is recognised and reads back through the queries (otherwise nothing is changed).
pub fn grow_tree(rng: &mut Rng, ch: &Chain, hook: &str) -> Option<([[u8; 32]; 32], u64)> {
    for (k, v) in ch.dump(hook) {
        let Ok(mut j) = serde_json::from_slice::<Value>(&v) else { continue };
        if j.get("branch").is_none() || j.get("count").is_none() {
            continue;
        }
        let n: u64 = match rng.below(4) {
            0 => (1u64 << 32) - 1 - rng.below(4),
            1 => (1u64 << rng.range(8, 31)) - rng.below(3),
            _ => rng.next() & 0xffff_ffff,
        };
        let mut br = [[0u8; 32]; 32];
        for b in br.iter_mut() {
            *b = rng.bytes(32).try_into().unwrap();
        }
        j["branch"] = json!(br.iter().map(hexs).collect::<Vec<_>>());
        j["count"] = if j["count"].is_string() { json!(n.to_string()) } else { json!(n) };
        ch.raw_set(hook, &k, Some(serde_json::to_vec(&j).unwrap()));
        let back = ch.query(hook, json!({"merkle_hook":{"tree":{}}}));
        let same = |b: &Value| b["count"].as_u64() == Some(n) && unhex(&b["branch"][7]).as_deref() == Some(&br[7][..]);
        if back.map(|b| same(&b)).unwrap_or(false) {
            return Some((br, n));
        }
        ch.raw_set(hook, &k, Some(v));
    }
    None
}

/// every account a contract's configuration mentions: none of them gains authority by being mentioned
pub fn named(ch: &Chain, addr: &str) -> Vec<String> {
    let mut out = vec![];
    let pre = format!("{}1", ch.hrp);
    for (k, v) in ch.dump(addr) {
        for b in [k, v] {
            let s: String = b.iter().map(|&x| if x.is_ascii_graphic() { x as char } else { ' ' }).collect();
            for (i, _) in s.match_indices(&pre) {
                let t: String = s[i..].chars().take_while(|x| x.is_ascii_lowercase() || x.is_ascii_digit()).collect();
                // a stored key may run on into other bytes: an address is 20 or 32 bytes long
                for n in [38, 58] {
                    let n = pre.len() + n;
                    if t.len() >= n && crate::sim::unb32(&t[..n]).is_ok() {
                        out.push(t[..n].to_string());
                    }
                }
            }
        }
    }
    out.sort();
    out.dedup();
    out
}
