//! Registries: what was registered is listed completely, in order, page by page, and lookups agree.
use super::targets::*;
use super::util::*;
use crate::run::{Case, Prop};
use crate::sim::Chain;
use crate::stubs::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 60000,
    thorough: 1000000,
    rule: "one judged walk over a registry (all pages in one direction) or lookup; nontrivial when the registry holds more than one page or entries were overwritten or removed; distinct by (contract, registry, size, page size, direction, removed entries, starting point class)",
    floors: &["routes", "custom_hooks", "gas_table", "multi_page", "descending", "removed", "overwritten", "default_page", "from_middle", "oversized_page", "batch_repeat", "bad_batch_refused", "absent_lookup", "large_batch"],
};

const ROUTERS: &[&str] = &["hook_routing", "hook_routing_custom", "hook_routing_fallback", "igp", "warp_native", "warp_native_bridged", "warp_cw20", "warp_cw20_bridged"];

type Reg = BTreeMap<Vec<u8>, Value>;

struct Lister<'a> {
    ch: &'a Chain,
    name: &'static str,
    contract: &'static str,
    /// query one page
    page: Box<dyn Fn(Value, Value, Value) -> Result<Vec<(Vec<u8>, Value)>, String> + 'a>,
    cursor: Box<dyn Fn(&[u8]) -> Value + 'a>,
}

fn d4(d: u32) -> Vec<u8> {
    d.to_be_bytes().to_vec()
}
fn u4(k: &[u8]) -> u32 {
    u32::from_be_bytes(k.try_into().unwrap())
}

fn walk(c: &mut Case, l: &Lister, reg: &Reg, removed: usize) {
    let desc = c.rng.bool();
    let lim: Option<u64> = match c.rng.below(6) {
        0 => None,
        1 => Some(1),
        2 => Some(30),
        3 => Some(10),
        _ => Some(c.rng.range(1, 30)),
    };
    // where to start: the beginning, an existing key or somewhere in between
    let start: Option<Vec<u8>> = if c.rng.pct(30) && !reg.is_empty() {
        let ks: Vec<_> = reg.keys().cloned().collect();
        let mut k = c.rng.pick(&ks).clone();
        if c.rng.bool() {
            let n = k.len() - 1;
            k[n] = k[n].wrapping_add(1);
        }
        c.stat("from_middle", 1);
        Some(k)
    } else {
        None
    };
    let order = if desc { json!("desc") } else if c.rng.bool() { json!("asc") } else { Value::Null };
    let mut want: Vec<(Vec<u8>, Value)> = reg
        .iter()
        .filter(|(k, _)| start.as_ref().map(|s| if desc { *k < s } else { *k > s }).unwrap_or(true))
        .map(|(k, v)| (k.clone(), v.clone()))
        .collect();
    if desc {
        want.reverse();
        c.stat("descending", 1);
    }
    let mut got = vec![];
    let mut cur = start.clone();
    let mut pages = 0;
    loop {
        let off = cur.as_deref().map(|k| (l.cursor)(k)).unwrap_or(Value::Null);
        let p = match (l.page)(off.clone(), json!(lim), order.clone()) {
            Ok(p) => p,
            Err(e) => {
                c.viol("page-refused", format!("{} {} offset {off} limit {lim:?}: {e}", l.contract, l.name));
                return;
            }
        };
        pages += 1;
        if let Some(n) = lim {
            c.check(p.len() as u64 <= n, "page-size", || format!("{} {}: {} entries with limit {n}", l.contract, l.name, p.len()));
        }
        let short = lim.map(|n| (p.len() as u64) < n).unwrap_or(p.is_empty());
        let Some(last) = p.last().map(|x| x.0.clone()) else { break };
        let stuck = cur.as_ref() == Some(&last);
        got.extend(p);
        cur = Some(last);
        if short || stuck || got.len() > 400 {
            break;
        }
    }
    got.retain(|x| !x.1.is_null());
    c.check(got == want, "listing", || {
        format!("{} {} from {:?} limit {lim:?} desc {desc}: listed {:?}, registered {:?}", l.contract, l.name, start.as_deref().map(hexs), got.iter().map(|(k, v)| (hexs(k), v)).collect::<Vec<_>>(), want.iter().map(|(k, v)| (hexs(k), v)).collect::<Vec<_>>())
    });
    if lim.is_none() {
        c.stat("default_page", 1);
    }
    if pages > 1 && want.len() > 1 {
        c.stat("multi_page", 1);
    }
    let nt = pages > 1 || removed > 0;
    c.eval(format!("{}|{}|{}|{lim:?}|{desc}|{}|{}", l.contract, l.name, want.len(), removed.min(3), start.is_some()), nt);
    // a page of nothing
    if c.rng.pct(10) {
        if let Ok(p) = (l.page)(Value::Null, json!(0), order.clone()) {
            c.check(p.is_empty(), "page-size", || format!("{} {}: {} entries with limit 0", l.contract, l.name, p.len()));
        }
    }
    // an oversized page is refused or cut, never wrong
    if c.rng.pct(15) {
        let p = (l.page)(Value::Null, json!(c.rng.range(31, 500)), Value::Null);
        if let Ok(p) = p {
            let p: Vec<_> = p.into_iter().filter(|x| !x.1.is_null()).collect();
            let w: Vec<_> = reg.iter().map(|(k, v)| (k.clone(), v.clone())).take(p.len()).collect();
            c.check(p == w, "oversized-page", || format!("{} {}: {p:?}", l.contract, l.name));
        }
        c.stat("oversized_page", 1);
    }
    let _ = l.ch;
}

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let kind = ROUTERS[(c.idx as usize) % ROUTERS.len()];
    let owner = ch.user("owner");
    let r = deploy(&mut c.rng, &ch, kind, &ch.user("deployer"), &owner);
    let Some(t) = c.must(r, &format!("instantiate {kind}")) else { return };
    let what = match kind {
        "hook_routing_custom" => c.rng.below(2),
        "igp" => 2 * c.rng.below(2),
        _ => 0,
    };
    match what {
        0 => routes(c, &ch, &t, &owner),
        1 => custom(c, &ch, &t, &owner),
        _ => gas(c, &ch, &t, &owner),
    }
}

fn domains(c: &mut Case, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    while v.len() < n {
        let d = match c.rng.below(4) {
            0 => c.rng.dom(),
            1 if !v.is_empty() => c.rng.pick(&v).wrapping_add(1),
            2 if !v.is_empty() => c.rng.pick(&v).swap_bytes(),
            _ => c.rng.next() as u32,
        };
        if !v.contains(&d) {
            v.push(d);
        }
    }
    v
}

fn routes(c: &mut Case, ch: &Chain, t: &Target, owner: &str) {
    c.stat("routes", 1);
    let q = |m: Value| ch.query(&t.addr, json!({"router":m}));
    let lister = Lister {
        ch,
        name: "routes",
        contract: t.name,
        page: Box::new(|o, l, ord| {
            let v = q(json!({"list_routes":{"offset":o,"limit":l,"order":ord}}))?;
            v["routes"]
                .as_array()
                .ok_or("no list")?
                .iter()
                .map(|r| Ok((d4(r["domain"].as_u64().ok_or("no domain")? as u32), r["route"].clone())))
                .collect()
        }),
        cursor: Box::new(|k| json!(u4(k))),
    };
    let warp = t.name.starts_with("warp");
    let size = if c.rng.below(40) == 0 { 250 } else { *c.rng.pick(&[3usize, 12, 25, 45]) };
    let doms = domains(c, size);
    let mut reg: BTreeMap<u32, Value> = BTreeMap::new();
    let mut removed = 0;
    let mut seen: Vec<Value> = vec![];
    for _ in 0..c.rng.range(2, 7) {
        let n = if size > 45 { 100 } else if c.rng.bool() { c.rng.range(1, 3) } else { c.rng.range(4, 20) };
        let mut set: Vec<(u32, Value)> = vec![];
        for _ in 0..n {
            let d = *c.rng.pick(&doms);
            let v = match c.rng.below(5) {
                0 => Value::Null,
                // the same route for several domains
                1 if !seen.is_empty() => c.rng.pick(&seen).clone(),
                _ if warp => {
                    let x = if c.rng.pct(85) { c.rng.word() } else { c.rng.bytes(20) };
                    json!(hexs(x))
                }
                _ => json!(ch.addr_of(&contract_raw(&mut c.rng))),
            };
            if !v.is_null() {
                seen.push(v.clone());
            }
            set.push((d, v));
        }
        let single = c.rng.bool();
        if single {
            set.truncate(1);
        }
        if set.iter().enumerate().any(|(i, a)| set[..i].iter().any(|b| a.0 == b.0)) {
            c.stat("batch_repeat", 1);
        }
        let j: Vec<Value> = set.iter().map(|(d, v)| json!({"domain":d,"route":v})).collect();
        let m = if single { json!({"router":{"set_route":{"set":(j[0])}}}) } else { json!({"router":{"set_routes":{"set":j}}}) };
        let r = ch.exec(owner, &t.addr, &m, &[]).map(|_| ());
        c.log(|| format!("{} {m} -> {r:?}", t.name));
        if c.must(r, "set routes").is_none() {
            return;
        }
        for (d, v) in set {
            match (reg.get(&d), v.is_null()) {
                (Some(_), true) => {
                    removed += 1;
                    reg.remove(&d);
                    c.stat("removed", 1);
                }
                (None, true) => {}
                (o, false) => {
                    if o.is_some() {
                        c.stat("overwritten", 1);
                    }
                    reg.insert(d, v);
                }
            }
        }
        let r: Reg = reg.iter().map(|(k, v)| (d4(*k), v.clone())).collect();
        walk(c, &lister, &r, removed);
        // lookups, registered or not
        for _ in 0..3 {
            let d = if c.rng.pct(80) { *c.rng.pick(&doms) } else { c.rng.dom() };
            let x = q(json!({"get_route":{"domain":d}}));
            let got = x.as_ref().map(|v| v["route"]["route"].clone()).unwrap_or(Value::Null);
            let want = reg.get(&d).cloned().unwrap_or(Value::Null);
            if want.is_null() {
                c.stat("absent_lookup", 1);
            }
            c.check(got == want, "lookup", || format!("{} domain {d}: {x:?}, registered {want}", t.name));
        }
        let x = q(json!({"domains":{}}));
        let l: Vec<u32> = x.as_ref().ok().and_then(|v| v["domains"].as_array().cloned()).unwrap_or_default().iter().filter_map(|v| v.as_u64().map(|v| v as u32)).collect();
        let with: Vec<u32> = l.iter().copied().filter(|d| reg.contains_key(d)).collect();
        c.check(with == reg.keys().copied().collect::<Vec<_>>() && l.iter().all(|d| doms.contains(d)), "domains", || format!("{}: {x:?}, registered {:?}", t.name, reg.keys()));
    }
}

fn custom(c: &mut Case, ch: &Chain, t: &Target, owner: &str) {
    c.stat("custom_hooks", 1);
    let doms = domains(c, 3);
    let big = c.rng.below(12) == 0;
    let mut pool: Vec<Vec<u8>> = (0..if big { 150 } else { *c.rng.pick(&[3usize, 14, 40]) }).map(|_| c.rng.word()).collect();
    let near = {
        let mut x = pool[0].clone();
        x[31] ^= 1;
        x
    };
    pool.push(near);
    let mut reg: BTreeMap<u32, Reg> = BTreeMap::new();
    let mut removed = 0;
    for _ in 0..c.rng.range(3, 8) {
        let clear = c.rng.pct(25);
        let n = if big { c.rng.range(60, 200) } else if c.rng.bool() { 1 } else { c.rng.range(0, 16) };
        c.stat("large_batch", big as u64);
        let mut set: Vec<(u32, Vec<u8>, String)> = (0..n).map(|_| (*c.rng.pick(&doms), c.rng.pick(&pool).clone(), if c.rng.pct(30) { ch.user("hook") } else { ch.addr_of(&contract_raw(&mut c.rng)) })).collect();
        let single = n == 1 && c.rng.bool();
        let mut bad = false;
        if !clear && c.rng.pct(15) && !set.is_empty() {
            let i = c.rng.idx(set.len());
            match c.rng.below(3) {
                0 => {
                    set[i].1.pop();
                }
                1 => set[i].1.push(0),
                _ => set[i].1 = c.rng.bytes(20),
            }
            bad = true;
        }
        let j: Vec<Value> = set
            .iter()
            .map(|(d, r, h)| if clear { json!({"dest_domain":d,"recipient":hexs(r)}) } else { json!({"dest_domain":d,"recipient":hexs(r),"hook":h}) })
            .collect();
        let m = match (clear, single) {
            (false, true) => json!({"register_custom_hook":(j[0])}),
            (false, false) => json!({"register_custom_hooks":j}),
            (true, true) => json!({"clear_custom_hook":(j[0])}),
            (true, false) => json!({"clear_custom_hooks":j}),
        };
        let r = ch.exec(owner, &t.addr, &m, &[]).map(|_| ());
        c.log(|| format!("{m} -> {r:?}"));
        if bad {
            c.check(r.is_err(), "bad-recipient-registered", || m.to_string());
            c.stat("bad_batch_refused", 1);
        } else {
            if c.must(r, "custom hooks").is_none() {
                return;
            }
            for (i, (d, r, h)) in set.iter().enumerate() {
                if set[..i].iter().any(|x| (x.0, &x.1) == (*d, r)) {
                    c.stat("batch_repeat", 1);
                }
                let e = reg.entry(*d).or_default();
                if clear {
                    if e.remove(r).is_some() {
                        removed += 1;
                        c.stat("removed", 1);
                    }
                } else if e.insert(r.clone(), json!(h)).is_some() {
                    c.stat("overwritten", 1);
                }
            }
        }
        for d in &doms {
            let l = Lister {
                ch,
                name: "custom hooks",
                contract: t.name,
                page: Box::new(|o, l, ord| {
                    let v = ch.query(&t.addr, json!({"custom_routing_hook":{"custom_hooks":{"dest_domain":d,"offset":o,"limit":l,"order":ord}}}))?;
                    v["custom_hooks"]
                        .as_array()
                        .ok_or("no list")?
                        .iter()
                        .map(|r| {
                            if r["dest_domain"] != json!(d) {
                                return Err(format!("entry of another domain: {r}"));
                            }
                            Ok((unhex(&r["recipient"]).ok_or("no recipient")?, r["hook"].clone()))
                        })
                        .collect()
                }),
                cursor: Box::new(|k| json!(hexs(k))),
            };
            let e = reg.get(d).cloned().unwrap_or_default();
            walk(c, &l, &e, removed);
            let r = c.rng.pick(&pool).clone();
            let x = ch.query(&t.addr, json!({"custom_routing_hook":{"custom_hook":{"dest_domain":d,"recipient":hexs(&r)}}}));
            let got = x.as_ref().map(|v| v["hook"].clone()).unwrap_or(Value::Null);
            let want = e.get(&r).cloned().unwrap_or(Value::Null);
            if want.is_null() {
                c.stat("absent_lookup", 1);
            }
            c.check(got == want, "lookup", || format!("custom hook {d} {}: {x:?}, registered {want}", hexs(&r)));
        }
    }
}

fn gas(c: &mut Case, ch: &Chain, t: &Target, owner: &str) {
    c.stat("gas_table", 1);
    let q = |m: Value| ch.query(&t.addr, json!({"igp":m}));
    let pairs = |v: Value| -> Result<Vec<(Vec<u8>, Value)>, String> {
        v["gas"].as_array().ok_or("no list")?.iter().map(|r| Ok((d4(r[0].as_u64().ok_or("no domain")? as u32), r[1].clone()))).collect()
    };
    let l = Lister {
        ch,
        name: "gas table",
        contract: t.name,
        page: Box::new(|o, l, ord| pairs(q(json!({"list_gas_for_domains":{"offset":o,"limit":l,"order":ord}}))?)),
        cursor: Box::new(|k| json!(u4(k))),
    };
    let big = c.rng.below(12) == 0;
    let size = if big { 200 } else { *c.rng.pick(&[3usize, 12, 40]) };
    let doms = domains(c, size);
    let mut reg: Reg = BTreeMap::new();
    let mut removed = 0;
    for _ in 0..c.rng.range(2, 7) {
        if c.rng.pct(30) {
            let ds: Vec<u32> = (0..if big { c.rng.range(50, 150) } else { c.rng.range(1, 5) }).map(|_| *c.rng.pick(&doms)).collect();
            let m = json!({"unset_gas_for_domain":{"domains":ds}});
            let r = ch.exec(owner, &t.addr, &m, &[]).map(|_| ());
            c.log(|| format!("{m} -> {r:?}"));
            c.must(r, "unset gas");
            for d in ds {
                if reg.remove(&d4(d)).is_some() {
                    removed += 1;
                    c.stat("removed", 1);
                }
            }
        } else {
            let set: Vec<(u32, u128)> = (0..if big { c.rng.range(80, 200) } else { c.rng.range(1, 20) }).map(|_| (*c.rng.pick(&doms), c.rng.amt())).collect();
            c.stat("large_batch", big as u64);
            if set.iter().enumerate().any(|(i, a)| set[..i].iter().any(|b| a.0 == b.0)) {
                c.stat("batch_repeat", 1);
            }
            let m = json!({"set_gas_for_domain":{"config":set.iter().map(|(d,g)| json!([d, u128j(*g)])).collect::<Vec<_>>()}});
            let r = ch.exec(owner, &t.addr, &m, &[]).map(|_| ());
            c.log(|| format!("{m} -> {r:?}"));
            c.must(r, "set gas");
            for (d, g) in set {
                if reg.insert(d4(d), u128j(g)).is_some() {
                    c.stat("overwritten", 1);
                }
            }
        }
        walk(c, &l, &reg, removed);
        // lookup of several at once, in the order asked
        let known: Vec<u32> = reg.keys().map(|k| u4(k)).collect();
        let ds: Vec<u32> = if big && !known.is_empty() { (0..c.rng.range(20, 120)).map(|_| *c.rng.pick(&known)).collect() } else { (0..c.rng.range(1, 4)).map(|_| *c.rng.pick(&doms)).collect() };
        let x = q(json!({"gas_for_domain":{"domains":ds}}));
        let want: Option<Vec<(Vec<u8>, Value)>> = ds.iter().map(|d| reg.get(&d4(*d)).map(|g| (d4(*d), g.clone()))).collect();
        match want {
            Some(w) => {
                let got = x.clone().and_then(pairs);
                c.check(got.as_ref() == Ok(&w), "lookup", || format!("gas for {ds:?}: {x:?}, set {w:?}"));
            }
            None => {
                // a missing entry is an error or left out, never invented
                if let Ok(g) = x.clone().and_then(pairs) {
                    c.check(g.iter().all(|(k, v)| reg.get(k) == Some(v)), "lookup", || format!("gas for {ds:?}: {x:?}, set {reg:?}"));
                }
                c.stat("absent_lookup", 1);
            }
        }
    }
}
