//! Aggregate hook: every configured hook runs once, with its own fee; the quote is the sum.
use super::util::*;
use crate::codes;
use crate::run::{Case, Prop};
use crate::sim::Kind;
use crate::stubs::*;
use cosmwasm_std::Coin;
use serde_json::json;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 41300,
    thorough: 1655000,
    rule: "one judged dispatch through an aggregate hook; nontrivial with at least two hooks or a fee; distinct by (number of hooks, repeats, fee shapes, payment relation, failing member, nesting, outcome)",
    floors: &["none", "one", "many", "repeated", "exact", "short", "multi_denom", "member_failure_propagates", "nested", "via_mailbox", "reconfigured", "zero_fee", "quoted_twice"],
};

type Map = BTreeMap<String, u128>;

fn add(a: &mut Map, b: &Map) {
    for (k, v) in b {
        *a.entry(k.clone()).or_insert(0) += v;
    }
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    // rarely a crowd
    let size = if c.rng.below(60) == 0 { 40 } else { 5 };
    let pool: Vec<Rc<HookStub>> = (0..size).map(|_| HookStub::new()).collect();
    let mut pa: Vec<String> = pool.iter().map(|s| ch.put_stub(s.clone())).collect();
    let req = HookStub::new();
    w.required_hook(&ch.put_stub(req));
    let draw = |c: &mut Case, pa: &[String]| -> Vec<usize> {
        let mut n = *c.rng.pick(&[0usize, 1, 2, 2, 3, 3, 4, 5]);
        if size > 5 {
            n = c.rng.idx(size + 1);
        }
        let mut v: Vec<usize> = (0..pa.len()).collect();
        c.rng.shuffle(&mut v);
        v.truncate(n);
        // the same hook again, anywhere: next to itself as well
        while !v.is_empty() && c.rng.pct(22) {
            let x = *c.rng.pick(&v);
            let at = c.rng.idx(v.len() + 1);
            v.insert(at, x);
        }
        v
    };
    // optionally a member that is itself an aggregate over two of the stubs
    let inner: Vec<usize> = vec![0, 1];
    let nested = c.rng.pct(30);
    if nested {
        let r = ch.deploy(&w.owner, &codes::hook_aggregate(), &json!({"owner":w.owner,"hooks":[pa[0],pa[1]]}));
        let Some(a) = c.must(r, "instantiate inner") else { return };
        pa.push(a);
    }
    let mut hooks = draw(c, &pa);
    let names = |h: &[usize], pa: &[String]| -> Vec<String> { h.iter().map(|i| pa[*i].clone()).collect() };
    let r = ch.deploy(&w.owner, &codes::hook_aggregate(), &json!({"owner":w.owner,"hooks":names(&hooks, &pa)}));
    let Some(agg) = c.must(r, "instantiate") else { return };
    w.default_hook(&agg);
    for step in 0..c.rng.many(3, 8) {
        if c.rng.pct(35) {
            hooks = draw(c, &pa);
            let r = ch.exec(&w.owner, &agg, &json!({"set_hooks":{"hooks":names(&hooks, &pa)}}), &[]);
            if c.must(r, "set hooks").is_none() {
                return;
            }
            c.stat("reconfigured", 1);
        }
        let failing = c.rng.pct(15);
        for h in &pool {
            let mut d = ["uosmo", "ufee", "ibc/AB"].to_vec();
            c.rng.shuffle(&mut d);
            let n = *c.rng.pick(&[0usize, 1, 1, 2, 3]);
            let mut q: Vec<Coin> = (0..n).map(|i| coin(c.rng.amt_small(), d[i])).collect();
            if c.rng.pct(8) && q.is_empty() {
                q.push(coin(0, "uosmo"));
            }
            if !q.is_empty() && c.rng.pct(4) {
                // the same denomination once more
                let x = c.rng.pick(&q).clone();
                q.push(if c.rng.bool() { x } else { coin(c.rng.amt_small(), &x.denom) });
                c.stat("quoted_twice", 1);
            }
            *h.quote.borrow_mut() = q;
            h.keyed.set(c.rng.bool());
            h.strict.set(true);
            *h.exec_mode.borrow_mut() = Mode::Good;
            *h.quote_mode.borrow_mut() = Mode::Good;
        }
        // leaf calls the aggregate stands for
        let mut leaves: Vec<usize> = vec![];
        for h in &hooks {
            if *h >= pool.len() {
                leaves.extend(&inner);
            } else {
                leaves.push(*h);
            }
        }
        let mut failed_leaf = false;
        if failing && !leaves.is_empty() {
            let k = *c.rng.pick(&leaves);
            *pool[k].exec_mode.borrow_mut() = if c.rng.bool() { Mode::Err } else { Mode::Panic };
            failed_leaf = true;
        }
        let d = c.rng.dom();
        let rec = word32(&mut c.rng);
        let (md, body) = (c.rng.blob(), c.rng.blob());
        let user = c.rng.pick(&[ch.user("u1"), ch.user("u2"), w.owner.clone(), pa[0].clone(), w.mb.clone()]).clone();
        let via = user != w.mb && c.rng.pct(35);
        let raw = if via {
            crate::model::Msg { version: 3, nonce: w.mailbox().nonce().unwrap_or(0) as u32, origin: w.domain, sender: crate::model::pad32(&crate::sim::unb32(&user).unwrap().1), dest: d, recipient: rec, body: body.clone() }.encode()
        } else {
            random_msg(&mut c.rng, d, rec).encode()
        };
        let charge = |k: usize| coin_map(&pool[k].price(&md, &raw));
        let mut due = Map::new();
        for k in &leaves {
            add(&mut due, &charge(*k));
        }
        due.retain(|_, v| *v > 0);
        if leaves.iter().any(|k| pool[*k].price(&md, &raw).iter().any(|x| x.amount.is_zero())) {
            c.stat("zero_fee", 1);
        }
        let q = ch.query(&agg, json!({"hook":{"quote_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}}));
        // a member that names a denomination twice may be found unusable
        let odd = leaves.iter().any(|k| {
            let q = pool[*k].quote.borrow();
            q.iter().enumerate().any(|(i, x)| q[..i].iter().any(|y| y.denom == x.denom))
        });
        let unusable = odd && q.is_err();
        let q = if unusable { None } else { c.must(q, "quote") };
        let mut got: Option<Map> = q.as_ref().and_then(|x| parse_coins(&x["fees"])).map(|_| Map::new());
        for (d, v) in q.as_ref().and_then(|x| parse_coins(&x["fees"])).unwrap_or_default() {
            if v > 0 {
                *got.as_mut().unwrap().entry(d).or_insert(0) += v;
            }
        }
        c.check(unusable || got.as_ref() == Some(&due), "quote-sum", || format!("members charge {due:?} in total, quoted {q:?}"));
        let mut pay = due.clone();
        let rel = match c.rng.below(4) {
            0 if !due.is_empty() => {
                let k = c.rng.pick(&due.keys().cloned().collect::<Vec<_>>()).clone();
                let v = pay.get_mut(&k).unwrap();
                *v -= if c.rng.bool() { 1 } else { *v };
                pay.retain(|_, v| *v > 0);
                "short"
            }
            1 => {
                *pay.entry("uosmo".into()).or_insert(0) += c.rng.amt_small().max(1);
                "excess"
            }
            _ => "exact",
        };
        c.stat(rel, 1);
        let funds: Vec<Coin> = pay.iter().map(|(d, a)| coin(*a, d)).collect();
        if !fund(ch, &user, &funds) {
            continue;
        }
        let held = coin_map(&ch.balances(&agg));
        let before = ch.all_balances();
        let mark = ch.mark();
        let res = if via {
            c.stat("via_mailbox", 1);
            ch.exec(&user, &w.mb, &dispatch_msg(d, &rec, &body, None, Some(&md)), &funds)
        } else {
            ch.exec(&user, &agg, &json!({"post_dispatch":{"metadata":hexs(&md),"message":hexs(&raw)}}), &funds)
        };
        let evs = ch.evs(mark);
        c.log(|| format!("step {step}: members {hooks:?} due {due:?} pay {pay:?} ({rel}) via_mailbox={via} failing={failed_leaf}: {}", brief(&res)));
        // what the aggregate can draw on
        let mut avail = held.clone();
        add(&mut avail, &pay);
        let enough = due.iter().all(|(k, v)| avail.get(k).copied().unwrap_or(0) >= *v);
        match &res {
            Ok(_) => {
                c.check(!failed_leaf, "member-failure-swallowed", || format!("{hooks:?}"));
                c.check(enough, "underpaid-accepted", || format!("due {due:?} paid {pay:?} held {held:?}"));
                let pd: Vec<PostDispatch> = post_dispatches(&evs, &agg).into_iter().filter(|p| p.committed).collect();
                let mut a: Vec<(String, Map)> = pd.iter().map(|p| (p.to.clone(), coin_map(&p.funds))).collect();
                let mut b: Vec<(String, Map)> = hooks
                    .iter()
                    .map(|h| {
                        let mut m = Map::new();
                        if *h >= pool.len() {
                            inner.iter().for_each(|k| add(&mut m, &charge(*k)));
                        } else {
                            m = charge(*h);
                        }
                        (pa[*h].clone(), m)
                    })
                    .collect();
                a.sort();
                b.sort();
                c.check(a == b, "fan-out", || format!("called {a:?}, configured {b:?}"));
                for p in &pd {
                    c.check(p.message == raw && p.metadata == md, "altered", || format!("{} got message {} metadata {}", p.to, hexs(&p.message), hexs(&p.metadata)));
                }
                let side: Vec<_> = evs.iter().filter(|e| e.from == agg && matches!(e.kind, Kind::BankSend | Kind::BankBurn | Kind::Inst | Kind::Migrate)).collect();
                c.check(side.is_empty(), "side-effects", || format!("{}", side.len()));
                let mut want = avail.clone();
                for (k, v) in &due {
                    if let Some(x) = want.get_mut(k) {
                        *x = x.saturating_sub(*v);
                    }
                }
                want.retain(|_, v| *v > 0);
                let now = coin_map(&ch.balances(&agg));
                c.check(now == want, "conservation", || format!("held {held:?} paid {pay:?} due {due:?}, now holds {now:?}"));
            }
            Err(_) => {
                c.check(ch.all_balances() == before, "failed-not-refunded", || "balances changed".into());
                c.check(failed_leaf || odd || !enough, "paid-refused", || format!("due {due:?} paid {pay:?}: {}", brief(&res)));
                if failed_leaf {
                    c.stat("member_failure_propagates", 1);
                }
            }
        }
        c.stat(match hooks.len() { 0 => "none", 1 => "one", _ => "many" }, 1);
        let rep = hooks.iter().collect::<std::collections::BTreeSet<_>>().len() < hooks.len();
        if rep {
            c.stat("repeated", 1);
        }
        if due.len() > 1 {
            c.stat("multi_denom", 1);
        }
        let nest = hooks.iter().any(|h| *h >= pool.len());
        if nest {
            c.stat("nested", 1);
        }
        let shape: Vec<usize> = leaves.iter().map(|k| charge(*k).len()).collect();
        c.eval(format!("{}|{rep}|{shape:?}|{rel}|{failed_leaf}|{nest}|{via}|{}", hooks.len(), res.is_ok()), hooks.len() > 1 || !due.is_empty());
        // start the next round without money left over, half of the time
        if c.rng.bool() {
            hooks = draw(c, &pa);
            let r = ch.exec(&w.owner, &agg, &json!({"set_hooks":{"hooks":names(&hooks, &pa)}}), &[]);
            c.must(r, "set hooks");
        }
        let q = ch.query(&agg, json!({"aggregate_hook":{"hooks":{}}}));
        let want = json!(names(&hooks, &pa));
        c.check(q.as_ref().map(|x| x["hooks"] == want).unwrap_or(false), "hooks-query", || format!("{q:?} want {want}"));
    }
}
