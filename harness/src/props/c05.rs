//! Merkle tree hook: commits exactly the dispatched messages.
use super::util::*;
use crate::codes;
use crate::model::{keccak, pad32, zeros, Tree};
use crate::run::{Case, Prop};
use crate::sim::Kind;
use crate::stubs::*;
use cosmwasm_std::HexBinary;
use hpl_interface::types::MerkleTree;
use serde_json::{json, Value};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 10000,
    thorough: 400000,
    rule: "one judged tree state: every query after every transaction against the reference tree, plus direct library insertions at arbitrary counts and inclusion proofs; distinct by (tree size, operation, outcome) and by count bit pattern for library insertions",
    floors: &["inserted", "direct_rejected", "stale_rejected", "foreign_rejected", "lib_insert", "lib_full", "proofs", "contract_high_count"],
};

fn h32(v: &Value) -> Option<[u8; 32]> {
    unhex(v)?.try_into().ok()
}

fn judge(c: &mut Case, w: &Core, hook: &str, t: &Tree, leaves_known: bool) {
    let q = |m: &str| w.ch.query(hook, json!({"merkle_hook":{m:{}}}));
    let root = t.root();
    if leaves_known {
        assert_eq!(root, Tree::full_root(&t.leaves), "reference trees disagree");
    }
    match (q("root"), q("count"), q("check_point"), q("tree"), q("branch")) {
        (Ok(r), Ok(n), Ok(cp), Ok(tr), Ok(br)) => {
            c.check(h32(&r["root"]) == Some(root), "root", || format!("count {} root {} want {}", t.count, r["root"], hexs(root)));
            c.check(n["count"].as_u64() == Some(t.count), "count", || format!("{n} want {}", t.count));
            c.check(tr["count"].as_u64() == Some(t.count), "tree-count", || format!("{} want {}", tr["count"], t.count));
            c.check(h32(&cp["root"]) == Some(root), "checkpoint-root", || format!("{cp}"));
            c.check(cp["count"].as_u64() == Some(t.count.saturating_sub(1)), "checkpoint-index", || format!("{cp} with {} leaves", t.count));
            for b in [&br["branch"], &tr["branch"]] {
                let got: Option<Vec<[u8; 32]>> = b.as_array().and_then(|a| a.iter().map(h32).collect());
                let ok = got.as_ref().map(|g| {
                    g.len() == 32 && {
                        let t2 = Tree { leaves: vec![], branch: g.clone().try_into().unwrap(), count: t.count };
                        t2.root() == root
                    }
                });
                // every node the tree has filled so far
                let same = got.as_ref().map(|g| (0..32).all(|i| t.count >> i == 0 || g.get(i) == Some(&t.branch[i])));
                c.check(ok == Some(true) && same == Some(true), "branch", || format!("branch does not commit to the tree: {b}"));
            }
        }
        x => c.viol("query-failed", format!("{x:?}")),
    }
}

fn run(c: &mut Case) {
    lib(c);
    let w = Core::new(c);
    let hook = w.ch.deploy(&w.owner, &codes::hook_merkle(), &json!({"mailbox": w.mb})).expect("merkle");
    let other = Core::with(crate::sim::Chain::new(&w.ch.hrp), w.domain);
    let stub = HookStub::new();
    let sa = w.ch.put_stub(stub.clone());
    let as_required = c.rng.bool();
    if as_required {
        w.required_hook(&hook);
        w.default_hook(&sa);
    } else {
        w.required_hook(&sa);
        w.default_hook(&hook);
    }
    // a second mailbox on the same chain: its messages must never get in
    let mb2 = w.ch.deploy(&w.owner, &codes::mailbox(), &json!({"hrp":w.ch.hrp,"owner":w.owner,"domain":w.domain})).unwrap();
    for k in ["set_default_hook", "set_required_hook"] {
        w.ch.exec(&w.owner, &mb2, &json!({k:{"hook": if c.rng.bool() { hook.clone() } else { sa.clone() }}}), &[]).unwrap();
    }
    let _ = other;
    let batch = w.ch.put_stub(Rc::new(BatchStub));
    let mut t = Tree::new();
    let mut known = true;
    let mut history: Vec<Vec<u8>> = vec![];
    let q = w.ch.query(&hook, json!({"hook":{"quote_dispatch":{"metadata":"","message":""}}}));
    c.check(q.as_ref().map(|v| v["fees"] == json!([])).unwrap_or(false), "quote", || format!("{q:?}"));
    judge(c, &w, &hook, &t, known);
    // continue from a large tree (only if the stored form is recognised and reads back)
    if c.rng.pct(25) {
        if let Some((br, n)) = grow_tree(&mut c.rng, &w.ch, &hook) {
            t = Tree { leaves: vec![], branch: br, count: n };
            known = false;
            c.stat("contract_high_count", 1);
        }
    }
    let users = [w.ch.user("a"), w.ch.user("b"), w.owner.clone(), sa.clone(), w.ch.addr_of(&contract_raw(&mut c.rng))];
    let n = if c.idx % 256 == 0 { 320 } else if c.idx % 16 == 0 { 60 } else { c.rng.range(4, 14) };
    for step in 0..n {
        w.ch.fail_at.set(None);
        let sender = c.rng.pick(&users).clone();
        let dm = |c: &mut Case, hook: Option<&str>| dispatch_msg(c.rng.dom(), &c.rng.word(), &c.rng.blob(), hook, None);
        let pd = |m: &[u8]| json!({"post_dispatch":{"metadata":"","message":hexs(m)}});
        let latest = w.mailbox().latest().ok();
        let mut op = "dispatch";
        let mark = w.ch.mark();
        stub.then.borrow_mut().clear();
        let r = match c.rng.below(10) {
            0..=3 => {
                let m = dm(c, None);
                w.ch.exec(&sender, &w.mb, &m, &[])
            }
            4 => {
                op = "direct-random";
                let m = random_msg(&mut c.rng, 5, pad32(&[7; 20]));
                let r = w.ch.exec(&sender, &hook, &pd(&m.encode()), &[]);
                c.stat("direct_rejected", r.is_err() as u64);
                c.check(r.is_err(), "undispatched-inserted", || "message that was never dispatched entered the tree".into());
                r
            }
            5 if !history.is_empty() => {
                op = "direct-old";
                let i = c.rng.idx(history.len());
                let m = history[i].clone();
                let stale = Some(keccak(&[&m]).to_vec()) != latest;
                let r = w.ch.exec(&sender, &hook, &pd(&m), &[]);
                if stale {
                    c.stat("stale_rejected", r.is_err() as u64);
                    c.check(r.is_err(), "stale-inserted", || "older message entered the tree again".into());
                }
                r
            }
            6 => {
                op = "other-mailbox";
                let m = dm(c, None);
                let r = w.ch.exec(&sender, &mb2, &m, &[]);
                c.stat("foreign_rejected", r.is_err() as u64);
                r
            }
            7 => {
                op = "batch";
                let l: Vec<_> = (0..c.rng.range(2, 4)).map(|_| json!({"to": w.mb, "msg": dm(c, None), "funds": [], "catch": true})).collect();
                w.ch.exec(&sender, &batch, &json!({ "multi": l }), &[])
            }
            8 => {
                op = "nested";
                let m = dm(c, None);
                stub.then.borrow_mut().push(wexec(&w.mb, &m, vec![]));
                let m = dm(c, None);
                w.ch.exec(&sender, &w.mb, &m, &[])
            }
            _ => {
                op = "fault";
                w.ch.fail_at.set(Some(c.rng.range(1, 3)));
                let m = dm(c, None);
                w.ch.exec(&sender, &w.mb, &m, &[])
            }
        };
        w.ch.fail_at.set(None);
        let evs = w.ch.evs(mark);
        // replay the committed insertions on the reference tree, in order
        let mut cur = latest;
        let mut ins = 0;
        for e in evs.iter().filter(|e| e.kind == Kind::Exec && e.committed()) {
            let j = e.json();
            if e.to == w.mb && j.get("dispatch").is_some() {
                cur = unhex(&e.out_json()["message_id"]);
            }
            if e.to == hook {
                let m = unhex(&j["post_dispatch"]["message"]).unwrap_or_default();
                let id = keccak(&[&m]);
                c.check(cur.as_deref() == Some(&id[..]), "not-latest", || {
                    format!("accepted {} while latest dispatch was {cur:?}", hexs(id))
                });
                if !t.insert(id) {
                    c.viol("overfull", "insertion into a full tree");
                    return;
                }
                ins += 1;
                history.push(m);
                c.stat("inserted", 1);
            }
        }
        if op == "dispatch" && t.count < (1 << 32) - 2 {
            c.check(r.is_ok() && ins == 1, "dispatch-not-committed", || format!("{} inserted {ins}", brief(&r)));
        }
        judge(c, &w, &hook, &t, known);
        c.log(|| format!("step {step} {op}: {} inserted={ins} count={} root={}", brief(&r), t.count, hexs(t.root())));
        c.eval(format!("{op}|{}|{ins}|{}", t.count.min(64), r.is_ok()), true);
    }
}

/// the tree library at arbitrary positions
fn lib(c: &mut Case) {
    let n: u64 = match c.rng.below(5) {
        0 => (1u64 << 32) - 1 - c.rng.below(4),
        1 => (1u64 << c.rng.range(0, 32)).saturating_sub(c.rng.below(3)).min((1 << 32) - 1),
        2 => c.rng.below(40),
        _ => c.rng.next() & 0xffff_ffff,
    };
    let mut t = Tree { leaves: vec![], branch: [[0; 32]; 32], count: n };
    for b in t.branch.iter_mut() {
        *b = c.rng.bytes(32).try_into().unwrap();
    }
    let mut m = MerkleTree {
        branch: t.branch.iter().map(|b| HexBinary::from(b.to_vec())).collect::<Vec<_>>().try_into().unwrap(),
        count: n as u128,
    };
    for _ in 0..4 {
        let leaf: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
        let before = m.clone();
        let a = crate::sim::no_panic(|| {
            let mut x = m.clone();
            x.insert(leaf.to_vec().into()).map(|_| x).map_err(|e| e.to_string())
        })
        .and_then(|r| r);
        let b = t.insert(leaf);
        match a {
            Ok(x) => {
                m = x;
                c.check(b, "lib-overfull", || format!("insert accepted at count {}", before.count));
            }
            Err(e) => {
                c.check(!b, "lib-insert-refused", || format!("insert refused at {}: {e}", before.count));
                c.stat("lib_full", 1);
            }
        }
        let r = m.root().map(|r| r.to_vec()).unwrap_or_default();
        c.check(r == t.root(), "lib-root", || format!("count {} root {} want {}", t.count, hexs(&r), hexs(t.root())));
        c.stat("lib_insert", 1);
        c.eval(format!("lib|{}|{}", t.count.trailing_zeros(), t.count.count_ones()), true);
    }
    // a fresh tree, and inclusion proofs against it
    let k = c.rng.range(1, 24) as usize;
    let leaves: Vec<[u8; 32]> = (0..k).map(|_| c.rng.bytes(32).try_into().unwrap()).collect();
    let mut m = MerkleTree::default();
    c.check(m.root().map(|r| r.to_vec()) == Ok(zeros()[32].to_vec()), "empty-root", || "root of the empty tree".into());
    for l in &leaves {
        let _ = m.insert(l.to_vec().into());
    }
    let root = m.root().map(|r| r.to_vec()).unwrap_or_default();
    c.check(root == Tree::full_root(&leaves), "lib-root-full", || format!("{k} leaves"));
    let i = c.rng.idx(k);
    let p = Tree::proof(&leaves, i);
    let ph: [HexBinary; 32] = p.iter().map(|b| HexBinary::from(b.to_vec())).collect::<Vec<_>>().try_into().unwrap();
    let r2 = MerkleTree::branch_root(leaves[i].to_vec().into(), ph.clone(), i as u128).to_vec();
    c.check(r2 == root, "proof", || format!("proof of leaf {i} of {k}"));
    let j = c.rng.idx(k);
    if j != i {
        let r3 = MerkleTree::branch_root(leaves[j].to_vec().into(), ph, i as u128).to_vec();
        c.check(r3 != root, "proof-unsound", || "proof accepted for another leaf".into());
    }
    c.stat("proofs", 1);
}
