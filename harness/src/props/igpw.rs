//! A gas paymaster with real oracles, and its reference configuration.
use super::targets::u128j;
use super::util::*;
use crate::codes;
use crate::model::{gas_price, Big};
use crate::rng::Rng;
use crate::run::Case;
use crate::sim::Chain;
use serde_json::json;
use std::collections::BTreeMap;

pub struct Igp {
    pub ch: Chain,
    pub owner: String,
    pub addr: String,
    pub ben: String,
    pub token: &'static str,
    pub oracles: Vec<String>,
    /// per oracle: domain -> (rate, price)
    pub data: Vec<BTreeMap<u32, (u128, u128)>>,
    pub routes: BTreeMap<u32, usize>,
    pub default_gas: u128,
    pub gas_for: BTreeMap<u32, u128>,
    pub doms: Vec<u32>,
}

pub fn small_gas(r: &mut Rng) -> u128 {
    match r.below(4) {
        0 => r.below(3) as u128,
        1 => r.range(1, 1000) as u128,
        2 => r.range(1, 5_000_000) as u128,
        _ => 1u128 << r.range(0, 60),
    }
}

impl Igp {
    pub fn new(c: &mut Case, tame: bool) -> Option<Igp> {
        let ch = chain(&mut c.rng);
        let (owner, ben) = (ch.user("owner"), ch.user("beneficiary"));
        let token = *c.rng.pick(&["utest", "ibc/27394FB092D2ECCD56123C74F36E4C1F926001CEADA9CA97EA622B25F41E5EB2"]);
        ch.faucet(&ch.user("bank"), token, 1_000_000);
        ch.faucet(&ch.user("bank"), "uother", 1_000_000);
        let default_gas = if tame { small_gas(&mut c.rng) } else { c.rng.amt() };
        let r = ch.deploy(&owner, &codes::igp(), &json!({"hrp":ch.hrp,"owner":owner,"gas_token":token,"beneficiary":ben,"default_gas_usage":u128j(default_gas)}));
        let addr = c.must(r, "instantiate igp")?;
        let mut oracles = vec![];
        for _ in 0..2 {
            let r = ch.deploy(&owner, &codes::igp_oracle(), &json!({"owner":owner}));
            oracles.push(c.must(r, "instantiate oracle")?);
        }
        let doms = (0..4).map(|_| c.rng.dom()).collect();
        let mut w = Igp { ch, owner, addr, ben, token, oracles, data: vec![BTreeMap::new(), BTreeMap::new()], routes: BTreeMap::new(), default_gas, gas_for: BTreeMap::new(), doms };
        if c.rng.below(60) == 0 {
            // many more destinations
            for _ in 0..c.rng.range(30, 100) {
                w.doms.push(c.rng.next() as u32);
            }
            let g: Vec<(u32, u128)> = w.doms[10..].iter().map(|d| (*d, if tame { small_gas(&mut c.rng) } else { c.rng.amt() })).collect();
            let x = w.ch.exec(&w.owner, &w.addr, &json!({"set_gas_for_domain":{"config":g.iter().map(|(d, g)| json!([d, u128j(*g)])).collect::<Vec<_>>()}}), &[]);
            if c.must(x, "set gas for many domains").is_some() {
                w.gas_for.extend(g);
            }
        }
        // most domains start priced
        for i in 0..w.doms.len() {
            let d = w.doms[i];
            for o in 0..2 {
                if c.rng.pct(85) {
                    w.set_data(c, tame, d, o);
                }
            }
            if c.rng.pct(85) {
                let o = c.rng.idx(2);
                w.set_route(c, d, o);
            }
        }
        for _ in 0..4 {
            w.reconfigure(c, tame);
        }
        Some(w)
    }
    pub fn set_data(&mut self, c: &mut Case, tame: bool, d: u32, o: usize) {
                let (r, p) = if tame {
                    (*c.rng.pick(&[1u128, 9_999_999_999, 10_000_000_000, 10_000_000_001, 15_000_000_000, 123_456_789_012, 1]), c.rng.below(100_000) as u128)
                } else {
                    (c.rng.amt().max(1), c.rng.amt())
                };
                let (r, p) = if tame && c.rng.pct(10) { (r, 0) } else { (r, p) };
                let cfg = json!({"remote_domain":d,"token_exchange_rate":r.to_string(),"gas_price":p.to_string()});
                let m = if c.rng.bool() { json!({"set_remote_gas_data":{"config":cfg}}) } else { json!({"set_remote_gas_data_configs":{"configs":[cfg]}}) };
                let x = self.ch.exec(&self.owner, &self.oracles[o], &m, &[]);
                if c.must(x, "set gas data").is_some() {
                    self.data[o].insert(d, (r, p));
                }
    }
    pub fn set_route(&mut self, c: &mut Case, d: u32, o: usize) {
        let x = self.ch.exec(&self.owner, &self.addr, &json!({"router":{"set_route":{"set":{"domain":d,"route":self.oracles[o]}}}}), &[]);
        if c.must(x, "set oracle").is_some() {
            self.routes.insert(d, o);
        }
    }
    /// one random owner action, mirrored in the model
    pub fn reconfigure(&mut self, c: &mut Case, tame: bool) {
        let d = *c.rng.pick(&self.doms);
        match c.rng.below(8) {
            0 | 1 | 2 => {
                let o = c.rng.idx(2);
                self.set_data(c, tame, d, o);
            }
            3 | 4 => {
                let o = c.rng.idx(2);
                self.set_route(c, d, o);
            }
            5 => {
                let g = if tame { small_gas(&mut c.rng) } else { c.rng.amt() };
                let x = self.ch.exec(&self.owner, &self.addr, &json!({"set_gas_for_domain":{"config":[[d, u128j(g)]]}}), &[]);
                if c.must(x, "set gas for domain").is_some() {
                    self.gas_for.insert(d, g);
                }
            }
            6 => {
                let x = self.ch.exec(&self.owner, &self.addr, &json!({"unset_gas_for_domain":{"domains":[d]}}), &[]);
                if c.must(x, "unset gas for domain").is_some() {
                    self.gas_for.remove(&d);
                }
            }
            _ => {
                let g = if tame { small_gas(&mut c.rng) } else { c.rng.amt() };
                let x = self.ch.exec(&self.owner, &self.addr, &json!({"set_default_gas":{"gas":u128j(g)}}), &[]);
                if c.must(x, "set default gas").is_some() {
                    self.default_gas = g;
                }
            }
        }
    }
    pub fn gas(&self, d: u32) -> u128 {
        *self.gas_for.get(&d).unwrap_or(&self.default_gas)
    }
    pub fn rate(&self, d: u32) -> Option<(u128, u128)> {
        self.data[*self.routes.get(&d)?].get(&d).copied()
    }
    /// (price, whether the 256-bit intermediates fit)
    pub fn price(&self, d: u32, gas: &Big) -> Option<(Big, bool)> {
        let (r, p) = self.rate(d)?;
        Some(gas_price(gas, p, r))
    }
}

/// hook metadata and the gas limit it stands for (None: the configured default)
pub fn metadata(r: &mut Rng, tame: bool) -> (Vec<u8>, Option<Big>, Vec<u8>) {
    if r.pct(35) {
        let n = r.below(32) as usize;
        return (r.bytes(n), None, vec![]);
    }
    let g: Vec<u8> = if tame {
        let mut v = vec![0u8; 16];
        v.extend(small_gas(r).to_be_bytes());
        v
    } else {
        match r.below(4) {
            0 => r.word(),
            1 => {
                let mut v = vec![0u8; 16];
                v.extend(r.amt().to_be_bytes());
                v
            }
            2 => {
                let k = r.below(32) as usize;
                let mut v = r.bytes(32);
                v[..k].fill(0);
                v
            }
            _ => {
                let mut v = vec![0u8; 32];
                v[r.idx(32)] = 1 << r.below(8);
                v
            }
        }
    };
    let tail = match r.below(8) {
        0 => vec![],
        1 => r.bytes(20),
        2 => r.bytes(32),
        3 => {
            let mut v = r.bytes(32);
            v[..12].fill(0);
            v
        }
        4 => {
            let mut v = r.bytes(32);
            v[..16].fill(0);
            v
        }
        5 => {
            let mut v = r.bytes(20);
            let k = r.range(1, 19) as usize;
            v[..k].fill(0);
            v
        }
        6 => {
            let mut v = r.bytes(32);
            v[..r.clone().range(1, 11) as usize].fill(0);
            v
        }
        _ => {
            let n = *r.pick(&[1usize, 19, 21, 31, 33, 40, 64]);
            r.bytes(n)
        }
    };
    let mut md = g.clone();
    md.extend(&tail);
    (md, Some(Big::from_be(&g)), tail)
}
