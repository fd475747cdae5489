//! Composed hooks: what the mailbox quotes is exactly what a dispatch costs, whatever hooks are put together.
use super::igpw::{metadata, small_gas};
use super::targets::u128j;
use super::util::*;
use super::warpw::{self, Warp};
use crate::codes;
use crate::model::{gas_price, pad32, Big};
use crate::rng::Rng;
use crate::run::{Case, Prop};
use crate::sim::{unb32, Chain};
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::json;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C30",
    run,
    quick: 15000,
    thorough: 800000,
    rule: "one judged quote and dispatch (directly or by a token transfer) through real hooks composed with each other (fee, gas paymaster, merkle, pausable, aggregate, three kinds of routing); nontrivial when composed or priced; distinct by (shape of the hooks reached, number of denominations, payment relation, caller, outcome)",
    floors: &["fee", "igp", "merkle", "aggregate", "routing", "custom", "fallback", "nested", "exact", "short_refused", "excess", "multi_denom", "paused_refused", "unroutable_refused", "transfer", "token_is_fee", "explicit_hook", "reconfigured", "free", "shared"],
};

type Map = BTreeMap<String, u128>;
const DENOMS: [&str; 3] = ["ufee", "uosmo", "utok"];

enum N {
    Fee { denom: &'static str, amt: u128 },
    Igp { token: &'static str, oracle: String, data: BTreeMap<u32, (u128, u128)>, gas: BTreeMap<u32, u128>, default: u128 },
    Merkle,
    Gate { open: bool },
    Agg { kids: Vec<usize> },
    Route { kind: u8, routes: BTreeMap<u32, usize>, custom: BTreeMap<(u32, [u8; 32]), usize>, fallback: Option<usize> },
}
struct Node {
    addr: String,
    n: N,
}

#[derive(Default)]
struct Cost {
    leaves: Vec<(usize, Option<(&'static str, u128)>)>,
    quotable: bool,
    blocked: bool,
    shape: String,
    depth: usize,
}

struct W<'a> {
    core: &'a Core,
    nodes: Vec<Node>,
    doms: Vec<u32>,
    recs: Vec<[u8; 32]>,
}

impl W<'_> {
    fn own(&self, to: &str, m: serde_json::Value) -> Result<(), String> {
        self.core.ch.exec(&self.core.owner, to, &m, &[]).map(|_| ())
    }
    fn cost(&self, i: usize, d: u32, r: &[u8; 32], gas: Option<&Big>, depth: usize, o: &mut Cost) {
        o.depth = o.depth.max(depth);
        match &self.nodes[i].n {
            N::Fee { denom, amt } => {
                o.shape += "f";
                o.leaves.push((i, Some((denom, *amt))));
            }
            N::Igp { token, data, gas: g, default, .. } => {
                o.shape += "i";
                let gas = gas.cloned().unwrap_or_else(|| Big::from_u128(*g.get(&d).unwrap_or(default)));
                match data.get(&d) {
                    Some((rate, price)) => match gas_price(&gas, *price, *rate).0.to_u128() {
                        Some(v) => o.leaves.push((i, Some((token, v)))),
                        None => o.quotable = false,
                    },
                    None => o.quotable = false,
                }
            }
            N::Merkle => {
                o.shape += "m";
                o.leaves.push((i, None));
            }
            N::Gate { open } => {
                o.shape += if *open { "g" } else { "G" };
                o.blocked |= !open;
                o.leaves.push((i, None));
            }
            N::Agg { kids } => {
                o.shape += "a(";
                for k in kids {
                    self.cost(*k, d, r, gas, depth + 1, o);
                }
                o.shape += ")";
            }
            N::Route { kind, routes, custom, fallback } => {
                o.shape += ["r(", "c(", "b("][*kind as usize];
                let k = custom.get(&(d, *r)).or(routes.get(&d)).or(fallback.as_ref());
                match k {
                    // the fallback variant works only with its fallback configured
                    Some(k) if *kind != 2 || fallback.is_some() => self.cost(*k, d, r, gas, depth + 1, o),
                    _ => o.quotable = false,
                }
                o.shape += ")";
            }
        }
    }
    fn add(&mut self, c: &mut Case, depth: usize) -> Option<usize> {
        let own = self.core.owner.clone();
        let ch = &self.core.ch;
        let k = if depth == 0 { c.rng.below(4) } else { c.rng.below(10) };
        let node = match k {
            0 => {
                let denom = *c.rng.pick(&DENOMS);
                let amt = if c.rng.pct(20) { 0 } else { c.rng.range(1, 1_000_000) as u128 };
                let r = ch.deploy(&own, &codes::hook_fee(), &json!({"owner":own,"fee":{"denom":denom,"amount":amt.to_string()}}));
                Node { addr: c.must(r, "fee hook")?, n: N::Fee { denom, amt } }
            }
            1 | 4 => {
                let token = *c.rng.pick(&DENOMS);
                let default = small_gas(&mut c.rng);
                let r = ch.deploy(&own, &codes::igp(), &json!({"hrp":ch.hrp,"owner":own,"gas_token":token,"beneficiary":own,"default_gas_usage":u128j(default)}));
                let addr = c.must(r, "paymaster")?;
                let r = ch.deploy(&own, &codes::igp_oracle(), &json!({"owner":own}));
                let oracle = c.must(r, "oracle")?;
                let (mut data, mut gas) = (BTreeMap::new(), BTreeMap::new());
                for d in &self.doms {
                    if c.rng.pct(5) {
                        continue;
                    }
                    let (rate, price) = prices(&mut c.rng);
                    c.must(self.own(&oracle, json!({"set_remote_gas_data":{"config":{"remote_domain":d,"token_exchange_rate":rate.to_string(),"gas_price":price.to_string()}}})), "price")?;
                    c.must(self.own(&addr, json!({"router":{"set_route":{"set":{"domain":d,"route":oracle}}}})), "oracle route")?;
                    data.insert(*d, (rate, price));
                    if c.rng.pct(30) {
                        let g = small_gas(&mut c.rng);
                        c.must(self.own(&addr, json!({"set_gas_for_domain":{"config":[[d, u128j(g)]]}})), "gas")?;
                        gas.insert(*d, g);
                    }
                }
                Node { addr, n: N::Igp { token, oracle, data, gas, default } }
            }
            2 => {
                let r = ch.deploy(&own, &codes::hook_merkle(), &json!({"mailbox":self.core.mb}));
                Node { addr: c.must(r, "merkle hook")?, n: N::Merkle }
            }
            3 => {
                let open = !c.rng.pct(12);
                let r = ch.deploy(&own, &codes::hook_pausable(), &json!({"owner":own,"paused":!open}));
                Node { addr: c.must(r, "gate")?, n: N::Gate { open } }
            }
            5 | 6 | 7 => {
                let n = *c.rng.pick(&[0usize, 1, 2, 2, 3, 3, 4]);
                let mut kids = (0..n).map(|_| self.add(c, depth - 1)).collect::<Option<Vec<_>>>()?;
                // the same hook listed again, or one that is listed elsewhere too
                if c.rng.pct(15) && !kids.is_empty() {
                    let x = if c.rng.bool() { *c.rng.pick(&kids) } else { c.rng.idx(self.nodes.len()) };
                    let at = c.rng.idx(kids.len() + 1);
                    kids.insert(at, x);
                    c.stat("shared", 1);
                }
                let l: Vec<_> = kids.iter().map(|k| self.nodes[*k].addr.clone()).collect();
                let r = self.core.ch.deploy(&own, &codes::hook_aggregate(), &json!({"owner":own,"hooks":l}));
                Node { addr: c.must(r, "aggregate")?, n: N::Agg { kids } }
            }
            _ => {
                let kind = c.rng.below(3) as u8;
                let code = match kind {
                    0 => codes::hook_routing(),
                    1 => codes::hook_routing_custom(),
                    _ => codes::hook_routing_fallback(),
                };
                let n = c.rng.range(1, 3);
                let kids = (0..n).map(|_| self.add(c, depth - 1)).collect::<Option<Vec<_>>>()?;
                let r = self.core.ch.deploy(&own, &code, &json!({"owner":own}));
                let addr = c.must(r, "routing hook")?;
                let (mut routes, mut custom, mut fallback) = (BTreeMap::new(), BTreeMap::new(), None);
                for d in &self.doms {
                    if c.rng.pct(85) {
                        let k = *c.rng.pick(&kids);
                        c.must(self.own(&addr, json!({"router":{"set_route":{"set":{"domain":d,"route":self.nodes[k].addr}}}})), "route")?;
                        routes.insert(*d, k);
                    }
                    if kind == 1 && c.rng.pct(60) {
                        let k = *c.rng.pick(&kids);
                        let rec = *c.rng.pick(&self.recs);
                        c.must(self.own(&addr, json!({"register_custom_hook":{"dest_domain":d,"recipient":hexs(rec),"hook":self.nodes[k].addr}})), "custom")?;
                        custom.insert((*d, rec), k);
                    }
                }
                if kind == 2 && c.rng.pct(92) {
                    let k = *c.rng.pick(&kids);
                    c.must(self.own(&addr, json!({"set_fallback_hook":{"hook":self.nodes[k].addr}})), "fallback")?;
                    fallback = Some(k);
                }
                Node { addr, n: N::Route { kind, routes, custom, fallback } }
            }
        };
        self.nodes.push(node);
        Some(self.nodes.len() - 1)
    }
    fn reconfigure(&mut self, c: &mut Case) -> Option<()> {
        let i = c.rng.idx(self.nodes.len());
        let d = *c.rng.pick(&self.doms);
        let addr = self.nodes[i].addr.clone();
        let leafs: Vec<usize> = (0..self.nodes.len()).filter(|k| !matches!(self.nodes[*k].n, N::Agg { .. } | N::Route { .. })).collect();
        if leafs.is_empty() {
            return Some(());
        }
        let k = *c.rng.pick(&leafs);
        let ka = self.nodes[k].addr.clone();
        let msg;
        match &mut self.nodes[i].n {
            N::Fee { denom, amt } => {
                *denom = *c.rng.pick(&DENOMS);
                *amt = if c.rng.pct(20) { 0 } else { c.rng.range(1, 1_000_000) as u128 };
                msg = (addr, json!({"fee_hook":{"set_fee":{"fee":{"denom":denom,"amount":amt.to_string()}}}}));
            }
            N::Igp { oracle, data, gas, default, .. } => match c.rng.below(3) {
                0 if data.contains_key(&d) => {
                    let (rate, price) = prices(&mut c.rng);
                    data.insert(d, (rate, price));
                    msg = (oracle.clone(), json!({"set_remote_gas_data_configs":{"configs":[{"remote_domain":d,"token_exchange_rate":rate.to_string(),"gas_price":price.to_string()}]}}));
                }
                1 => {
                    gas.remove(&d);
                    msg = (addr, json!({"unset_gas_for_domain":{"domains":[d]}}));
                }
                _ => {
                    *default = small_gas(&mut c.rng);
                    msg = (addr, json!({"set_default_gas":{"gas":u128j(*default)}}));
                }
            },
            N::Merkle => return Some(()),
            N::Gate { open } => {
                *open = !*open;
                msg = (addr, json!({"pausable":{if *open { "release" } else { "pause" }:{}}}));
            }
            N::Agg { kids } => {
                if kids.len() > 1 && c.rng.bool() {
                    kids.pop();
                } else if !kids.contains(&k) || c.rng.pct(20) {
                    kids.push(k);
                }
                let kids = kids.clone();
                let l: Vec<_> = kids.iter().map(|k| self.nodes[*k].addr.clone()).collect();
                msg = (addr, json!({"set_hooks":{"hooks":l}}));
            }
            N::Route { routes, .. } => {
                if c.rng.pct(20) {
                    routes.remove(&d);
                    msg = (addr, json!({"router":{"set_route":{"set":{"domain":d,"route":null}}}}));
                } else {
                    routes.insert(d, k);
                    msg = (addr, json!({"router":{"set_route":{"set":{"domain":d,"route":ka}}}}));
                }
            }
        }
        c.stat("reconfigured", 1);
        c.log(|| format!("reconfigure {}", msg.1));
        c.must(self.own(&msg.0, msg.1), "reconfigure")
    }
}

fn prices(r: &mut Rng) -> (u128, u128) {
    let rate = *r.pick(&[1u128, 9_999_999_999, 10_000_000_000, 10_000_000_001, 15_000_000_000, 123_456_789_012]);
    (rate, if r.pct(15) { 0 } else { r.below(100_000) as u128 })
}

fn snapshot(ch: &Chain) -> BTreeMap<(String, String), u128> {
    ch.all_balances().into_iter().filter(|(_, v)| *v > 0).collect()
}

fn run(c: &mut Case) {
    let core = Core::new(c);
    let ch = &core.ch;
    core.default_ism(&ch.put_stub(IsmStub::new(Verdict::True)));
    let doms: Vec<u32> = (0..3).map(|_| c.rng.dom()).collect();
    let recs: Vec<[u8; 32]> = (0..3).map(|_| word32(&mut c.rng)).collect();
    let mut w = W { core: &core, nodes: vec![], doms, recs };
    let (d1, d2, d3) = (c.rng.below(4) as usize, c.rng.below(3) as usize, c.rng.below(3) as usize);
    let Some(dflt) = w.add(c, d1) else { return };
    let Some(req) = w.add(c, d2) else { return };
    let Some(extra) = w.add(c, d3) else { return };
    core.default_hook(&w.nodes[dflt].addr);
    core.required_hook(&w.nodes[req].addr);
    let r = Warp::deploy(ch, &core.owner, &core.mb, warpw::KINDS[0], "utok");
    let Some(wp) = c.must(r, "route") else { return };
    for d in w.doms.clone() {
        let k = c.rng.idx(3);
        if c.must(wp.route(ch, d, Some(&w.recs[k])), "enroll").is_none() {
            return;
        }
    }
    let users = [ch.user("alice"), ch.addr_of(&c.rng.bytes(32)), core.owner.clone()];
    for u in &users {
        for d in DENOMS {
            ch.faucet(u, d, 1 << 120);
        }
        ch.faucet(u, "uodd", 1 << 100);
    }
    // once something was overpaid, an aggregate may hold the excess and make up for a later shortfall
    let mut dirty = false;
    for step in 0..c.rng.many(4, 10) {
        if c.rng.pct(35) && w.reconfigure(c).is_none() {
            return;
        }
        let u = c.rng.pick(&users).clone();
        let d = if c.rng.pct(4) { c.rng.dom() } else { *c.rng.pick(&w.doms) };
        let via_warp = c.rng.pct(30);
        let (md, gas, tail) = loop {
            let x = metadata(&mut c.rng, true);
            if matches!(x.2.len(), 0 | 20 | 32) {
                break x;
            }
        };
        let _ = tail;
        let hook = if c.rng.pct(30) { Some(extra) } else { None };
        let amount = c.rng.range(1, 100_000) as u128;
        let (sender, rec, body) = if via_warp {
            let q = ch.query(&wp.addr, json!({"router":{"get_route":{"domain":d}}}));
            let Some(r) = q.ok().and_then(|q| unhex(&q["route"]["route"])).and_then(|r| <[u8; 32]>::try_from(r).ok()) else { continue };
            (wp.addr.clone(), r, warpw::body(&pad32(&unb32(&u).unwrap().1), amount, &[]))
        } else {
            (u.clone(), *c.rng.pick(&w.recs), c.rng.blob())
        };
        let mut cost = Cost { quotable: true, ..Default::default() };
        w.cost(req, d, &rec, gas.as_ref(), 1, &mut cost);
        cost.shape += "/";
        w.cost(hook.unwrap_or(dflt), d, &rec, gas.as_ref(), 1, &mut cost);
        let mut want: Map = Map::new();
        for (_, f) in &cost.leaves {
            if let Some((dn, v)) = f {
                *want.entry(dn.to_string()).or_insert(0) += v;
            }
        }
        want.retain(|_, v| *v > 0);
        let msg = dispatch_msg(d, &rec, &body, hook.map(|h| w.nodes[h].addr.as_str()), Some(&md));
        let q = ch.query(&core.mb, json!({"hook":{"quote_dispatch":{"sender":sender,"msg":msg["dispatch"]}}}));
        let got = q.as_ref().ok().and_then(|q| parse_coins(&q["fees"])).map(|l| {
            let mut m = Map::new();
            for (d, v) in l {
                *m.entry(d).or_insert(0) += v;
            }
            m.retain(|_, v| *v > 0);
            m
        });
        if cost.quotable {
            c.check(got.as_ref() == Some(&want), "quote", || format!("{}: quoted {got:?}, hooks charge {want:?} ({q:?})", cost.shape));
        } else {
            c.check(got.is_none(), "unroutable-quoted", || format!("{}: {got:?}", cost.shape));
        }
        // pay
        let mut pay = want.clone();
        let rel = match c.rng.below(6) {
            0 if !want.is_empty() => {
                let k = c.rng.pick(&want.keys().cloned().collect::<Vec<_>>()).clone();
                let x = pay.get_mut(&k).unwrap();
                *x -= if c.rng.bool() { 1 } else { *x };
                "short"
            }
            1 if c.rng.pct(40) => {
                let k = c.rng.pick(&["ufee", "uosmo", "utok", "uodd"]).to_string();
                *pay.entry(k).or_insert(0) += c.rng.range(1, 1000) as u128;
                "excess"
            }
            _ => "exact",
        };
        pay.retain(|_, v| *v > 0);
        let mut send = pay.clone();
        if via_warp {
            *send.entry("utok".into()).or_insert(0) += amount;
        }
        let funds: Vec<Coin> = send.iter().map(|(d, v)| coin(*v, d)).collect();
        let before = snapshot(ch);
        let counts: BTreeMap<usize, u64> = tree_counts(&w);
        let r = if via_warp {
            ch.exec(&u, &wp.addr, &json!({"transfer_remote":{"dest_domain":d,"recipient":hexs(pad32(&unb32(&u).unwrap().1)),"amount":amount.to_string(),"hook":hook.map(|h| w.nodes[h].addr.clone()),"metadata":hexs(&md)}}), &funds)
        } else {
            ch.exec(&u, &core.mb, &msg, &funds)
        };
        let after = snapshot(ch);
        c.log(|| format!("step {step} {} domain {d} shape {} costs {want:?} pays {rel} {pay:?}: {}", if via_warp { "transfer" } else { "dispatch" }, cost.shape, brief(&r)));
        let delta = |who: &str, dn: &str| -> i128 {
            let k = (who.to_string(), dn.to_string());
            after.get(&k).copied().unwrap_or(0) as i128 - before.get(&k).copied().unwrap_or(0) as i128
        };
        if r.is_err() {
            c.check(before == after && counts == tree_counts(&w), "failed-but-changed", || "balances or trees changed".into());
        }
        if !cost.quotable || cost.blocked {
            if c.check(r.is_err(), "impossible-accepted", || format!("{}: quotable {} blocked {}", cost.shape, cost.quotable, cost.blocked)) {
                c.stat(if cost.blocked { "paused_refused" } else { "unroutable_refused" }, 1);
            }
        } else {
            match rel {
                "exact" => {
                    // with a stray excess from before, the transfer may be cheaper, never dearer
                    if !c.check(r.is_ok(), "quoted-but-refused", || format!("{}: paid {pay:?}: {}", cost.shape, brief(&r))) {
                        continue;
                    }
                    for dn in DENOMS {
                        let lost = want.get(dn).copied().unwrap_or(0) + if via_warp && dn == "utok" { amount } else { 0 };
                        c.check(delta(&u, dn) == -(lost as i128), "payer", || format!("{}: {dn} {} instead of -{lost}", cost.shape, delta(&u, dn)));
                        for (i, n) in w.nodes.iter().enumerate() {
                            let due: u128 = cost.leaves.iter().filter(|(k, _)| *k == i).filter_map(|(_, f)| f.filter(|f| f.0 == dn)).map(|f| f.1).sum();
                            c.check(delta(&n.addr, dn) == due as i128, "hook-share", || format!("{}: hook {i} {dn} {} instead of {due}", cost.shape, delta(&n.addr, dn)));
                        }
                        c.check(delta(&core.mb, dn) == 0, "mailbox-kept", || format!("{dn} {}", delta(&core.mb, dn)));
                    }
                    c.stat("exact", 1);
                    for (ch_, s) in [('f', "fee"), ('i', "igp"), ('m', "merkle"), ('a', "aggregate"), ('r', "routing"), ('c', "custom"), ('b', "fallback")] {
                        if cost.shape.contains(ch_) {
                            c.stat(s, 1);
                        }
                    }
                    if cost.depth >= 3 {
                        c.stat("nested", 1);
                    }
                    if want.len() > 1 {
                        c.stat("multi_denom", 1);
                    }
                    if want.is_empty() {
                        c.stat("free", 1);
                    }
                    if via_warp {
                        c.stat("transfer", 1);
                        if want.contains_key("utok") {
                            c.stat("token_is_fee", 1);
                        }
                    }
                    if hook.is_some() {
                        c.stat("explicit_hook", 1);
                    }
                }
                "short" if !dirty => {
                    if c.check(r.is_err(), "short-accepted", || format!("{}: costs {want:?}, paid {pay:?}", cost.shape)) {
                        c.stat("short_refused", 1);
                    }
                }
                _ => {
                    dirty |= rel == "excess" && r.is_ok();
                    if r.is_ok() && rel == "excess" {
                        c.stat("excess", 1);
                        for (i, n) in w.nodes.iter().enumerate() {
                            for dn in DENOMS {
                                let due: u128 = cost.leaves.iter().filter(|(k, _)| *k == i).filter_map(|(_, f)| f.filter(|f| f.0 == dn)).map(|f| f.1).sum();
                                if due > 0 {
                                    c.check(delta(&n.addr, dn) >= due as i128, "hook-unpaid", || format!("{}: hook {i} {dn} {} of {due}", cost.shape, delta(&n.addr, dn)));
                                }
                            }
                        }
                    }
                }
            }
            if r.is_ok() {
                let now = tree_counts(&w);
                for (i, n) in &now {
                    let due = cost.leaves.iter().filter(|(k, _)| k == i).count() as u64;
                    if due <= 1 {
                        c.check(n - counts[i] == due, "tree", || format!("{}: tree {i} grew by {}, reached {due} times", cost.shape, n - counts[i]));
                    }
                }
            }
        }
        c.eval(format!("{}|{}|{rel}|{via_warp}|{}", cost.shape, want.len(), r.is_ok()), cost.depth > 1 || !want.is_empty());
    }
}

fn tree_counts(w: &W) -> BTreeMap<usize, u64> {
    w.nodes
        .iter()
        .enumerate()
        .filter(|(_, n)| matches!(n.n, N::Merkle))
        .map(|(i, n)| (i, w.core.ch.query(&n.addr, json!({"merkle_hook":{"count":{}}})).ok().and_then(|v| v["count"].as_u64()).unwrap_or(u64::MAX)))
        .collect()
}
