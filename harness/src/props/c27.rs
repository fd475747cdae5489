//! End to end: a dispatched message that enough validators signed can be delivered from public data alone,
//! through any composition of security modules, and nothing else can.
use super::util::*;
use crate::codes;
use crate::model::{checkpoint_digest, announce_digest, keccak, pad32, Key, Tree};
use crate::rng::Rng;
use crate::run::{Case, Prop};
use crate::sim::{unb32, Chain};
use crate::stubs::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C27",
    run,
    quick: 8000,
    thorough: 350000,
    rule: "one judged delivery attempt on a two-chain system (real mailboxes, merkle hook, announcements and security modules; validators sign what the origin chain shows, the relayer knows only public queries and events); nontrivial for composed modules, missing signatures or hostile attempts; distinct by (module tree shape, verdict, attempt kind, signatures present relative to the threshold, outcome)",
    floors: &["delivered", "refused_short", "routing", "aggregate", "paused_refused", "hostile_refused", "late_delivery", "own_ism", "signatures_arrive_later", "reconfigured", "nested", "reverted_undeliverable", "relocated", "many_validators", "many_modules"],
};

#[derive(Clone, Debug)]
enum Node {
    Multi { addr: String, keys: Vec<usize>, thr: usize },
    Agg { addr: String, kids: Vec<Node>, thr: usize },
    Route { addr: String, kid: Box<Node> },
    Gate { addr: String, open: bool },
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
    Yes,
    No,
    /// errs: certainly no approval, and may spoil an aggregate
    Fail,
    Maybe,
}

impl Node {
    fn addr(&self) -> &String {
        match self {
            Node::Multi { addr, .. } | Node::Agg { addr, .. } | Node::Route { addr, .. } | Node::Gate { addr, .. } => addr,
        }
    }
    fn shape(&self) -> String {
        match self {
            Node::Multi { keys, thr, .. } => format!("m{thr}/{}", keys.len()),
            Node::Agg { kids, thr, .. } => format!("a{thr}[{}]", kids.iter().map(|k| k.shape()).collect::<Vec<_>>().join(",")),
            Node::Route { kid, .. } => format!("r({})", kid.shape()),
            Node::Gate { open, .. } => format!("g{}", *open as u8),
        }
    }
    fn eval(&self, signed: &BTreeSet<usize>) -> V {
        match self {
            Node::Multi { keys, thr, .. } => {
                if keys.iter().filter(|k| signed.contains(k)).count() >= *thr { V::Yes } else { V::No }
            }
            Node::Gate { open, .. } => if *open { V::Yes } else { V::Fail },
            Node::Route { kid, .. } => kid.eval(signed),
            Node::Agg { kids, thr, .. } => {
                let v: Vec<V> = kids.iter().map(|k| k.eval(signed)).collect();
                let n = |x: V| v.iter().filter(|y| **y == x).count();
                if n(V::Yes) + n(V::Maybe) < *thr {
                    if n(V::Fail) + n(V::Maybe) > 0 { V::Fail } else { V::No }
                } else if n(V::Yes) >= *thr && n(V::Fail) + n(V::Maybe) == 0 {
                    V::Yes
                } else {
                    V::Maybe
                }
            }
        }
    }
    fn has(&self, f: &dyn Fn(&Node) -> bool) -> bool {
        f(self)
            || match self {
                Node::Agg { kids, .. } => kids.iter().any(|k| k.has(f)),
                Node::Route { kid, .. } => kid.has(f),
                _ => false,
            }
    }
    fn depth(&self) -> usize {
        match self {
            Node::Agg { kids, .. } => 1 + kids.iter().map(|k| k.depth()).max().unwrap_or(0),
            Node::Route { kid, .. } => 1 + kid.depth(),
            _ => 1,
        }
    }
}

struct World<'a> {
    a: &'a Core,
    b: &'a Core,
    keys: &'a [Key],
}

fn build(c: &mut Case, w: &World, depth: usize) -> Option<Node> {
    let ch = &w.b.ch;
    let own = &w.b.owner;
    let kind = if depth == 0 { c.rng.below(2) * 5 } else { c.rng.below(6) };
    Some(match kind {
        0 | 1 | 4 if depth > 0 || kind == 0 => {
            let r = ch.deploy(own, &codes::ism_multisig(), &json!({"owner":own}));
            let addr = c.must(r, "multisig")?;
            let mut n = Node::Multi { addr, keys: vec![], thr: 0 };
            enroll(c, w, &mut n)?;
            n
        }
        2 => {
            let (n, below) = if c.rng.pct(5) { (c.rng.range(8, 40) as usize, 0) } else { (c.rng.range(1, 3) as usize, depth - 1) };
            let kids: Vec<Node> = (0..n).map(|_| build(c, w, below)).collect::<Option<_>>()?;
            c.stat("many_modules", (n >= 8) as u64);
            let thr = c.rng.range(1, n as u64) as usize;
            let l: Vec<_> = kids.iter().map(|k| k.addr().clone()).collect();
            let r = ch.deploy(own, &codes::ism_aggregate(), &json!({"owner":own,"isms":l,"threshold":thr}));
            Node::Agg { addr: c.must(r, "aggregate")?, kids, thr }
        }
        3 => {
            let kid = build(c, w, depth - 1)?;
            let decoy = ch.put_stub(IsmStub::new(if c.rng.bool() { Verdict::True } else { Verdict::Err }));
            let mut l = vec![json!({"domain":w.a.domain,"address":kid.addr()})];
            for d in [w.a.domain ^ 1, w.b.domain, w.a.domain.swap_bytes()] {
                if d != w.a.domain {
                    l.push(json!({"domain":d,"address":decoy}));
                }
            }
            c.rng.shuffle(&mut l);
            let r = ch.deploy(own, &codes::ism_routing(), &json!({"owner":own,"isms":l}));
            Node::Route { addr: c.must(r, "routing")?, kid: Box::new(kid) }
        }
        _ => {
            let open = c.rng.pct(80);
            let r = ch.deploy(own, &codes::ism_pausable(), &json!({"owner":own,"paused":!open}));
            Node::Gate { addr: c.must(r, "gate")?, open }
        }
    })
}

fn enroll(c: &mut Case, w: &World, n: &mut Node) -> Option<()> {
    if let Node::Multi { addr, keys, thr } = n {
        let mut o: Vec<usize> = (0..w.keys.len()).collect();
        c.rng.shuffle(&mut o);
        o.truncate(c.rng.range(1, 4) as usize);
        *thr = c.rng.range(1, o.len() as u64) as usize;
        *keys = o;
        let mut v: Vec<String> = keys.iter().map(|k| hexs(w.keys[*k].addr)).collect();
        if c.rng.pct(12) {
            // most of the set has never been heard of
            for _ in 0..c.rng.range(10, 150) {
                v.insert(c.rng.idx(v.len() + 1), hexs(c.rng.bytes(20)));
            }
            c.stat("many_validators", 1);
        }
        let r = w.b.ch.exec(&w.b.owner, addr, &json!({"set_validators":{"domain":w.a.domain,"threshold":*thr,"validators":v}}), &[]).map(|_| ());
        c.must(r, "enroll")?;
        // sets of other domains are of no concern here
        for d in [w.b.domain, w.a.domain ^ 1, 0] {
            if d != w.a.domain && c.rng.pct(50) {
                let n = c.rng.range(1, 4) as usize;
                let v: Vec<String> = (0..n).map(|_| if c.rng.bool() { hexs(c.rng.pick(w.keys).addr) } else { hexs(c.rng.bytes(20)) }).collect();
                let r = w.b.ch.exec(&w.b.owner, addr, &json!({"set_validators":{"domain":d,"threshold":c.rng.range(1, n as u64),"validators":v}}), &[]).map(|_| ());
                c.must(r, "enroll another domain")?;
            }
        }
    }
    Some(())
}

fn mutate(c: &mut Case, w: &World, n: &mut Node) -> Option<()> {
    match n {
        Node::Multi { .. } => enroll(c, w, n),
        Node::Gate { addr, open } => {
            *open = !*open;
            let m = if *open { "release" } else { "pause" };
            let r = w.b.ch.exec(&w.b.owner, addr, &json!({"pausable":{m:{}}}), &[]).map(|_| ());
            c.must(r, m)
        }
        Node::Route { kid, .. } => mutate(c, w, kid),
        Node::Agg { addr, kids, thr } => {
            if c.rng.bool() {
                let i = c.rng.idx(kids.len());
                return mutate(c, w, &mut kids[i]);
            }
            c.rng.shuffle(kids);
            *thr = c.rng.range(1, kids.len() as u64) as usize;
            let l: Vec<_> = kids.iter().map(|k| k.addr().clone()).collect();
            let r = w.b.ch.exec(&w.b.owner, addr, &json!({"set_isms":{"isms":l,"threshold":*thr}}), &[]).map(|_| ());
            c.must(r, "set_isms")
        }
    }
}

/// what the relayer can see
struct Public<'a> {
    origin: &'a Chain,
    va: &'a str,
    dest: &'a Chain,
    /// storage location -> message index -> signature
    store: &'a BTreeMap<String, BTreeMap<u32, Vec<u8>>>,
}

struct Inserted {
    hook: String,
    root: [u8; 32],
    index: u32,
}

/// query-driven metadata builder; Err names what stopped it
fn metadata(p: &Public, ism: &str, raw: &[u8], ins: &Inserted, rng: &mut Rng) -> Result<Vec<u8>, String> {
    let t = p.dest.query(ism, json!({"ism":{"module_type":{}}}))?;
    match t["type"].as_str().unwrap_or("?") {
        "null" => Ok(vec![]),
        "routing" => {
            let r = p.dest.query(ism, json!({"routing_ism":{"route":{"message":hexs(raw)}}}))?;
            metadata(p, r["ism"].as_str().ok_or("no route")?, raw, ins, rng)
        }
        "aggregation" => {
            let r = p.dest.query(ism, json!({"aggregate_ism":{"isms":{}}}))?;
            let kids: Vec<String> = r["isms"].as_array().ok_or("no modules")?.iter().map(|v| v.as_str().unwrap_or("").to_string()).collect();
            let mut head = vec![];
            let mut tail = vec![];
            for k in &kids {
                let m = metadata(p, k, raw, ins, rng)?;
                let s = kids.len() * 8 + tail.len();
                head.extend((s as u32).to_be_bytes());
                head.extend(((s + m.len()) as u32).to_be_bytes());
                tail.extend(m);
            }
            head.extend(tail);
            Ok(head)
        }
        "message_id_multisig" => {
            let v = p.dest.query(ism, json!({"ism":{"verify_info":{"message":hexs(raw)}}}))?;
            let vals = v["validators"].as_array().ok_or("no validators")?.clone();
            let thr = v["threshold"].as_u64().ok_or("no threshold")? as usize;
            let l = p.origin.query(p.va, json!({"get_announce_storage_locations":{"validators":vals}}))?;
            let mut sigs = vec![];
            for e in l["storage_locations"].as_array().ok_or("no locations")? {
                for loc in e[1].as_array().ok_or("no locations")?.iter().rev() {
                    if let Some(s) = p.store.get(loc.as_str().unwrap_or("")).and_then(|m| m.get(&ins.index)) {
                        sigs.push(s.clone());
                        break;
                    }
                }
            }
            rng.shuffle(&mut sigs);
            if rng.bool() {
                sigs.truncate(thr);
            }
            let mut m = pad32(&unb32(&ins.hook)?.1).to_vec();
            m.extend(ins.root);
            m.extend(ins.index.to_be_bytes());
            for s in sigs {
                m.extend(s);
            }
            Ok(m)
        }
        x => Err(format!("unknown module type {x}")),
    }
}

fn run(c: &mut Case) {
    let a = Core::new(c);
    let mut hb = chain(&mut c.rng);
    if c.rng.bool() && hb.hrp == a.ch.hrp {
        hb = Chain::new("other");
    }
    let mut db = c.rng.dom();
    if db == a.domain {
        db ^= 1;
    }
    let b = Core::with(hb, db);
    // origin side
    let r = a.ch.deploy(&a.owner, &codes::hook_merkle(), &json!({"mailbox":a.mb}));
    let Some(tree_hook) = c.must(r, "merkle") else { return };
    let r = a.ch.deploy(&a.owner, &codes::va(), &json!({"hrp":a.ch.hrp,"mailbox":a.mb}));
    let Some(va) = c.must(r, "va") else { return };
    let plain = HookStub::new();
    let pa = a.ch.put_stub(plain);
    if c.rng.bool() {
        a.required_hook(&tree_hook);
        a.default_hook(&pa);
    } else {
        // behind an aggregate hook
        let r = a.ch.deploy(&a.owner, &codes::hook_aggregate(), &json!({"owner":a.owner,"hooks":[tree_hook, pa]}));
        let Some(ag) = c.must(r, "aggregate hook") else { return };
        a.required_hook(&pa);
        a.default_hook(&ag);
    }
    let batch = a.ch.put_stub(Rc::new(BatchStub));
    let keys: Vec<Key> = (0..5).map(|i| Key::new(&[c.rng.next().to_le_bytes().as_slice(), &[i]].concat())).collect();
    let mraw = unb32(&a.mb).unwrap().1;
    let mut locs: Vec<Vec<String>> = vec![vec![]; keys.len()];
    let announce = |c: &mut Case, k: usize, loc: String, locs: &mut Vec<Vec<String>>| {
        let sig = keys[k].sign(&announce_digest(a.domain, &mraw, &loc));
        let r = a.ch.exec(&a.ch.user("anyone"), &va, &json!({"announce":{"validator":hexs(keys[k].addr),"signature":hexs(sig),"storage_location":loc}}), &[]).map(|_| ());
        c.must(r, "announce");
        locs[k].push(loc);
    };
    for k in 0..keys.len() {
        announce(c, k, format!("s3://bucket-{k}/eu"), &mut locs);
    }
    // destination side
    let w = World { a: &a, b: &b, keys: &keys };
    let Some(mut default) = build(c, &w, 3) else { return };
    b.default_ism(default.addr());
    let own = if c.rng.bool() { build(c, &w, 2) } else { None };
    let (r1, r2) = (RecipientStub::new(), RecipientStub::new());
    let (a1, a2) = (b.ch.put_stub(r1.clone()), b.ch.put_stub(r2.clone()));
    let mut own = own;
    if let Some(o) = &own {
        *r2.ism.borrow_mut() = Ok(Some(o.addr().clone()));
    }
    let raws = [pad32(&unb32(&a1).unwrap().1), pad32(&unb32(&a2).unwrap().1)];
    let mut tree = Tree::new();
    let mut msgs: Vec<(Vec<u8>, Inserted, usize)> = vec![];
    let mut reverted: Vec<Vec<u8>> = vec![];
    let mut signed: Vec<BTreeSet<usize>> = vec![];
    let mut store: BTreeMap<String, BTreeMap<u32, Vec<u8>>> = BTreeMap::new();
    let mut done: BTreeSet<Vec<u8>> = BTreeSet::new();
    for step in 0..c.rng.many(8, 22) {
        match c.rng.below(10) {
            0..=2 => {
                // dispatch one or several; sometimes the transaction fails
                let n = if c.rng.pct(30) { c.rng.range(2, 3) } else { 1 };
                let l: Vec<_> = (0..n)
                    .map(|_| {
                        let k = c.rng.idx(2);
                        json!({"to":a.mb,"msg":dispatch_msg(b.domain, &raws[k], &c.rng.blob(), None, None),"funds":[],"catch":c.rng.bool()})
                    })
                    .collect();
                if c.rng.pct(20) {
                    a.ch.fail_at.set(Some(c.rng.range(2, 8)));
                }
                let mark = a.ch.mark();
                let r = a.ch.exec(&a.ch.user("alice"), &batch, &json!({ "multi": l }), &[]);
                a.ch.fail_at.set(None);
                // the relayer and the validators read the log of committed transactions
                let log = r.as_ref().map(|t| t.events.clone()).unwrap_or_default();
                let at = |e: &cosmwasm_std::Event, k: &str| e.attributes.iter().find(|x| x.key == k).map(|x| x.value.clone()).unwrap_or_default();
                let mut by_id: BTreeMap<String, Vec<u8>> = BTreeMap::new();
                for (who, e) in &log {
                    if *who == a.mb && e.ty.ends_with("mailbox_dispatch") {
                        let m = unhex(&json!(at(e, "message"))).unwrap_or_default();
                        by_id.insert(hexs(keccak(&[&m])), m);
                    }
                }
                let mut ins: Vec<(u32, String, String)> = log
                    .iter()
                    .filter(|(_, e)| e.ty.ends_with("hpl_hook_merkle::post_dispatch"))
                    .map(|(who, e)| (at(e, "index").parse().unwrap_or(u32::MAX), at(e, "message_id"), who.clone()))
                    .collect();
                ins.sort();
                for (i, id, who) in ins {
                    c.check(i as u64 == tree.count, "index-gap", || format!("index {i} logged, {} expected", tree.count));
                    let Some(m) = by_id.get(&id) else {
                        c.viol("unknown-insertion", format!("id {id} inserted but never logged as dispatched"));
                        return;
                    };
                    tree.insert(keccak(&[m]));
                    let k = if m[45..77] == raws[0] { 0 } else { 1 };
                    msgs.push((m.clone(), Inserted { hook: who, root: tree.root(), index: i }, k));
                    signed.push(BTreeSet::new());
                }
                // what was attempted but rolled back
                for p in post_dispatches(&a.ch.evs(mark), &a.mb) {
                    if !p.committed && !by_id.values().any(|m| *m == p.message) {
                        reverted.push(p.message);
                    }
                }
                // the tip must be what the chain itself reports
                let q = a.ch.query(&tree_hook, json!({"merkle_hook":{"check_point":{}}}));
                if tree.count > 0 {
                    c.check(
                        q.as_ref().map(|v| v["root"] == json!(hexs(tree.root())) && v["count"].as_u64() == Some(tree.count - 1)).unwrap_or(false),
                        "checkpoint",
                        || format!("{q:?}, log says {} leaves root {}", tree.count, hexs(tree.root())),
                    );
                }
                c.log(|| format!("step {step} dispatch x{n}: {}; tree {}", brief(&r), tree.count));
            }
            3 | 4 => {
                // validators sign what they see
                for (i, (m, ins, _)) in msgs.iter().enumerate() {
                    for k in 0..keys.len() {
                        if signed[i].contains(&k) || !c.rng.pct(40) {
                            continue;
                        }
                        let d = checkpoint_digest(a.domain, &pad32(&unb32(&ins.hook).unwrap().1), &ins.root, ins.index, &keccak(&[m]));
                        store.entry(locs[k].last().unwrap().clone()).or_default().insert(ins.index, keys[k].sign(&d));
                        signed[i].insert(k);
                    }
                }
            }
            5 => {
                if c.rng.pct(50) {
                    let k = c.rng.idx(keys.len());
                    let l = format!("s3://moved-{step}/{k}");
                    announce(c, k, l, &mut locs);
                    c.stat("relocated", 1);
                } else if let (Some(o), true) = (own.as_mut(), c.rng.bool()) {
                    if mutate(c, &w, o).is_none() {
                        return;
                    }
                    c.stat("reconfigured", 1);
                } else {
                    if mutate(c, &w, &mut default).is_none() {
                        return;
                    }
                    c.stat("reconfigured", 1);
                }
            }
            _ => {
                if msgs.is_empty() {
                    continue;
                }
                let i = c.rng.idx(msgs.len());
                let (m, ins, k) = &msgs[i];
                let node = if *k == 1 { own.as_ref().unwrap_or(&default) } else { &default };
                let p = Public { origin: &a.ch, va: &va, dest: &b.ch, store: &store };
                let md = metadata(&p, node.addr(), m, ins, &mut c.rng);
                let v = node.eval(&signed[i]);
                let md = match md {
                    Ok(x) => x,
                    Err(e) => {
                        c.viol("relayer-stuck", format!("{}: {e}", node.shape()));
                        return;
                    }
                };
                // sometimes a hostile attempt with the same public data
                let (mut raw, mut md, mut kind) = (m.clone(), md, "honest");
                if c.rng.pct(35) {
                    match c.rng.below(6) {
                        0 => {
                            let n = raw.len();
                            let i = *c.rng.pick(&[1usize, 4, 5, 9, 20, 40, 77.min(n - 1), n - 1]);
                            raw[i] ^= 1 << c.rng.below(8);
                            kind = "altered";
                        }
                        1 if !reverted.is_empty() => {
                            let r = c.rng.pick(&reverted).clone();
                            // the very same bytes may have been dispatched again since, and then they are a message
                            if !msgs.iter().any(|(m, ..)| *m == r) {
                                raw = r;
                                kind = "reverted";
                            }
                        }
                        2 => {
                            raw.push(c.rng.next() as u8);
                            kind = "longer";
                        }
                        3 if msgs.len() > 1 => {
                            let j = (i + 1) % msgs.len();
                            let n2 = if msgs[j].2 == 1 { own.as_ref().unwrap_or(&default) } else { &default };
                            md = metadata(&p, n2.addr(), &msgs[j].0, &msgs[j].1, &mut c.rng).unwrap_or_default();
                            kind = "other-metadata";
                        }
                        4 if md.len() > 40 => {
                            let i = c.rng.idx(md.len());
                            md[i] ^= 1 << c.rng.below(8);
                            kind = "bitflip";
                        }
                        _ => {
                            let n = c.rng.range(0, 200) as usize;
                            md = c.rng.bytes(n);
                            kind = "noise";
                        }
                    }
                }
                let changed = raw != *m;
                // the recipient named by what is submitted decides whose module judges it
                let k = if raw.len() >= 77 && raw[45..77] == raws[1] { &1 } else { &0 };
                let node = if *k == 1 { own.as_ref().unwrap_or(&default) } else { &default };
                // nobody signed an altered message: only modules that need no signature may approve it
                let v2 = if changed { node.eval(&BTreeSet::new()) } else { v };
                let again = done.contains(&raw);
                let mark = b.ch.mark();
                let r = b.process(&b.ch.user("relayer"), &md, &raw);
                let hs = handles(&b.ch.evs(mark), mark, &b.mb);
                let got = hs.iter().filter(|h| h.committed).count();
                c.log(|| format!("step {step} {kind} delivery of {i} ({} signers {:?}) by {}: {v:?} again {again} -> {}", if *k == 1 { "own" } else { "default" }, signed[i], node.shape(), brief(&r)));
                c.check(r.is_ok() == (got == 1), "delivery-count", || format!("{} with {got} deliveries", brief(&r)));
                if kind == "honest" && v == V::Yes && !again {
                    c.check(got == 1, "undeliverable", || format!("{} signers {:?}: {}", node.shape(), signed[i], brief(&r)));
                }
                // an altered message may name another origin or recipient: there only the multisig part is certain
                let certain = !changed || (raw.len() > 9 && raw[5..9] == m[5..9]);
                if got > 0 && certain {
                    c.check(v2 != V::No && v2 != V::Fail && !again, "unapproved-delivery", || format!("{kind}: {} with signers {:?} again {again}", node.shape(), signed[i]));
                    c.check(!(kind == "reverted" && !node.has(&|n| matches!(n, Node::Gate { .. }))), "reverted-delivered", || node.shape());
                }
                if got > 0 {
                    done.insert(raw.clone());
                    c.stat("delivered", 1);
                    if tree.count > ins.index as u64 + 1 {
                        c.stat("late_delivery", 1);
                    }
                    if *k == 1 && own.is_some() {
                        c.stat("own_ism", 1);
                    }
                    if node.has(&|n| matches!(n, Node::Route { .. })) {
                        c.stat("routing", 1);
                    }
                    if node.has(&|n| matches!(n, Node::Agg { .. })) {
                        c.stat("aggregate", 1);
                    }
                    if node.depth() >= 3 {
                        c.stat("nested", 1);
                    }
                    if !signed[i].is_empty() && signed[i].len() < keys.len() {
                        c.stat("signatures_arrive_later", 1);
                    }
                } else {
                    if kind == "honest" && v == V::No {
                        c.stat("refused_short", 1);
                    }
                    if v == V::Fail {
                        c.stat("paused_refused", 1);
                    }
                    if kind != "honest" {
                        c.stat("hostile_refused", 1);
                    }
                    if kind == "reverted" {
                        c.stat("reverted_undeliverable", 1);
                    }
                }
                c.eval(format!("{}|{v:?}|{kind}|{}|{again}|{got}", node.shape(), signed[i].len()), kind != "honest" || node.depth() > 1 || v != V::Yes);
            }
        }
    }
}
