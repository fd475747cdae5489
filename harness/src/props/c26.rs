//! Event log: relayers and indexers can rebuild exactly what happened from the events alone.
use super::targets::u128j;
use super::util::*;
use crate::codes;
use crate::model::{gas_price, Big};
use crate::model::{keccak, pad32};
use crate::run::{Case, Prop};
use crate::sim::{unb32, Kind};
use crate::stubs::*;
use cosmwasm_std::Event;
use serde_json::json;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C26",
    run,
    quick: 25000,
    thorough: 1200000,
    rule: "one judged transaction: the set of dispatch, tree insertion, gas payment and delivery records in its event log against what the ledger and the call trace show; nontrivial with two or more records, or a partly failed transaction; distinct by (operation, records of each sort, partial failure, payment class)",
    floors: &["dispatch", "insertion", "payment", "direct_payment", "delivery", "batch", "partly_failed", "refunded", "failed_tx_silent", "odd_body", "large_tree"],
};

fn at<'a>(e: &'a Event, k: &str) -> &'a str {
    e.attributes.iter().find(|a| a.key == k).map(|a| a.value.as_str()).unwrap_or("<none>")
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    let token = "uosmo";
    ch.faucet(&ch.user("bank"), token, 1_000_000);
    let r = ch.deploy(&w.owner, &codes::hook_merkle(), &json!({"mailbox":w.mb}));
    let Some(tree) = c.must(r, "merkle") else { return };
    let dg = c.rng.range(1, 1 << 30) as u128;
    let r = ch.deploy(&w.owner, &codes::igp(), &json!({"hrp":ch.hrp,"owner":w.owner,"gas_token":token,"beneficiary":w.owner,"default_gas_usage":u128j(dg)}));
    let Some(igp) = c.must(r, "igp") else { return };
    let r = ch.deploy(&w.owner, &codes::igp_oracle(), &json!({"owner":w.owner}));
    let Some(oracle) = c.must(r, "oracle") else { return };
    let doms = [c.rng.dom(), c.rng.dom(), c.rng.dom()];
    let mut price = BTreeMap::new();
    for d in doms {
        let (r, p) = (c.rng.range(1, 40_000_000_000) as u128, c.rng.range(0, 5000) as u128);
        price.insert(d, (r, p));
        let x = ch.exec(&w.owner, &oracle, &json!({"set_remote_gas_data":{"config":{"remote_domain":d,"token_exchange_rate":r.to_string(),"gas_price":p.to_string()}}}), &[]).map(|_| ());
        c.must(x, "set price");
        let x = ch.exec(&w.owner, &igp, &json!({"router":{"set_route":{"set":{"domain":d,"route":oracle}}}}), &[]).map(|_| ());
        c.must(x, "set oracle");
    }
    w.required_hook(&tree);
    w.default_hook(&igp);
    let ism = IsmStub::new(Verdict::True);
    w.default_ism(&ch.put_stub(ism.clone()));
    let rec = RecipientStub::new();
    let ra = ch.put_stub(rec.clone());
    let raw = pad32(&unb32(&ra).unwrap().1);
    let batch = ch.put_stub(Rc::new(BatchStub));
    let plain = HookStub::new();
    let pa = ch.put_stub(plain);
    let mut index = 0u64;
    if c.rng.pct(20) {
        if let Some((_, n)) = grow_tree(&mut c.rng, ch, &tree) {
            // stay clear of the last leaf: that the tree refuses to overflow is C05's business
            if n < (1u64 << 32) - 64 {
                index = n;
                c.stat("large_tree", 1);
            } else {
                return;
            }
        }
    }
    for step in 0..c.rng.many(3, 10) {
        ch.fail_at.set(None);
        let sender = ch.user(c.rng.pick(&["a", "b"]));
        let quote = |d: u32, g: &Big| price.get(&d).and_then(|(r, p)| gas_price(g, *p, *r).0.to_u128()).unwrap_or(0);
        let one = |c: &mut Case| -> (&'static str, String, serde_json::Value, u128) {
            match c.rng.below(5) {
                0 | 1 => {
                    let d = *c.rng.pick(&doms);
                    let g = c.rng.range(1, 1 << 40) as u128;
                    let md = if c.rng.bool() { None } else { let mut m = vec![0u8; 16]; m.extend(g.to_be_bytes()); m.extend(c.rng.bytes(20)); Some(m) };
                    let need = quote(d, &Big::from_u128(if md.is_some() { g } else { dg }));
                    let pay = need + if c.rng.bool() { 0 } else { c.rng.below(1000) as u128 };
                    let b = c.rng.blob();
                    ("dispatch", w.mb.clone(), dispatch_msg(d, &c.rng.word(), &b, None, md.as_deref()), pay)
                }
                2 => {
                    let b = c.rng.blob();
                    ("dispatch-other-hook", w.mb.clone(), dispatch_msg(c.rng.dom(), &c.rng.word(), &b, Some(&pa), None), 0)
                }
                3 => {
                    let d = *c.rng.pick(&doms);
                    let g = c.rng.range(1, 1 << 40) as u128;
                    let pay = (quote(d, &Big::from_u128(g)) + c.rng.below(3) as u128).max(1);
                    let id = c.rng.bytes(32);
                    ("pay", igp.clone(), json!({"pay_for_gas":{"message_id":hexs(id),"dest_domain":d,"gas_amount":g.to_string(),"refund_address":ch.user("refund")}}), pay)
                }
                _ => {
                    let mut m = random_msg(&mut c.rng, w.domain, raw);
                    m.nonce = step as u32;
                    ("process", w.mb.clone(), process_msg(&c.rng.blob(), &m.encode()), 0)
                }
            }
        };
        let multi = c.rng.pct(40);
        let fault = c.rng.pct(20);
        let mark = ch.mark();
        let kept = ch.balance(&igp, token);
        let (op, r) = if multi {
            let l: Vec<_> = (0..c.rng.range(2, 5)).map(|_| one(c)).collect();
            let total: u128 = l.iter().map(|x| x.3).sum();
            let funds = if total > 0 { coins(&[(total, token)]) } else { vec![] };
            fund(ch, &sender, &funds);
            let subs: Vec<_> = l
                .iter()
                .map(|x| json!({"to":x.1,"msg":x.2,"funds":if x.3 > 0 { coins_json(&coins(&[(x.3, token)])) } else { json!([]) },"catch":true}))
                .collect();
            if fault {
                ch.fail_at.set(Some(c.rng.range(2, 12)));
            }
            c.stat("batch", 1);
            ("batch", ch.exec(&sender, &batch, &json!({ "multi": subs }), &funds))
        } else {
            let (op, to, m, pay) = one(c);
            let funds = if pay > 0 { coins(&[(pay, token)]) } else { vec![] };
            fund(ch, &sender, &funds);
            if fault {
                ch.fail_at.set(Some(c.rng.range(1, 4)));
            }
            (op, ch.exec(&sender, &to, &m, &funds))
        };
        ch.fail_at.set(None);
        let evs = ch.evs(mark);
        c.log(|| format!("step {step} {op}: {}", brief(&r)));
        let log: Vec<(String, Event)> = r.as_ref().map(|t| t.events.clone()).unwrap_or_default();
        let pick = |who: &str, ty: &str| -> Vec<&Event> { log.iter().filter(|(a, e)| a == who && e.ty.trim_start_matches("wasm-") == ty).map(|x| &x.1).collect() };
        let ok = r.is_ok();
        // what really happened
        let (mut disp, mut ins, mut pays, mut procs) = (vec![], vec![], vec![], vec![]);
        let mut failed_part = false;
        for e in evs.iter().filter(|e| e.kind == Kind::Exec) {
            let j = e.json();
            if !e.committed() {
                failed_part = true;
                continue;
            }
            if e.to == w.mb && j.get("dispatch").is_some() {
                disp.push(e.out_json()["message_id"].as_str().unwrap_or("?").to_string());
            }
            if e.to == w.mb && j.get("process").is_some() {
                procs.push(unhex(&j["process"]["message"]).unwrap());
            }
            if e.to == tree {
                ins.push(keccak(&[&unhex(&j["post_dispatch"]["message"]).unwrap()]));
            }
            if e.to == igp {
                let paid: u128 = e.funds.iter().map(|f| f.amount.u128()).sum();
                if let Some(p) = j.get("pay_for_gas") {
                    pays.push((p["message_id"].as_str().unwrap().to_string(), p["dest_domain"].as_u64().unwrap(), p["gas_amount"].as_str().unwrap().to_string(), paid));
                    c.stat("direct_payment", 1);
                } else {
                    let m = unhex(&j["post_dispatch"]["message"]).unwrap();
                    let md = unhex(&j["post_dispatch"]["metadata"]).unwrap();
                    let d = u32::from_be_bytes(m[41..45].try_into().unwrap()) as u64;
                    let g = if md.len() >= 32 { u128::from_be_bytes(md[16..32].try_into().unwrap()) } else { dg };
                    pays.push((hexs(keccak(&[&m])), d, g.to_string(), paid));
                }
            }
        }
        if !ok {
            c.stat("failed_tx_silent", 1);
        } else if failed_part {
            c.stat("partly_failed", 1);
        }
        // dispatches: the full message, and its id
        let got: Vec<String> = pick(&w.mb, "mailbox_dispatch").iter().map(|e| at(e, "message").to_string()).collect();
        let mut ids: Vec<String> = got.iter().map(|m| unhex(&json!(m)).map(|m| hexs(keccak(&[&m]))).unwrap_or("?".into())).collect();
        let mut want = disp.clone();
        ids.sort();
        want.sort();
        c.check(ids == want, "dispatch-log", || format!("dispatched ids {want:?}, messages logged hash to {ids:?}"));
        for e in pick(&w.mb, "mailbox_dispatch") {
            let Some(m) = unhex(&json!(at(e, "message"))) else { continue };
            if m.len() < 77 {
                continue;
            }
            let d = u32::from_be_bytes(m[41..45].try_into().unwrap());
            c.check(at(e, "destination") == d.to_string() && at(e, "sender") == hexs(&m[9..41]) && at(e, "recipient") == hexs(&m[45..77]), "dispatch-attributes", || format!("{e:?}"));
            if m.len() == 77 || m.len() > 300 {
                c.stat("odd_body", 1);
            }
            c.stat("dispatch", 1);
        }
        let mut l: Vec<String> = pick(&w.mb, "mailbox_dispatch_id").iter().map(|e| at(e, "message_id").to_string()).collect();
        l.sort();
        c.check(l == want, "dispatch-id-log", || format!("dispatched {want:?}, logged {l:?}"));
        // tree insertions with their index, in order
        let got: Vec<(String, String)> = pick(&tree, "hpl_hook_merkle::post_dispatch").iter().map(|e| (at(e, "message_id").to_string(), at(e, "index").to_string())).collect();
        let mut got2 = got.clone();
        got2.sort_by_key(|x| x.1.parse::<u64>().unwrap_or(u64::MAX));
        let want: Vec<(String, String)> = if ok { ins.iter().enumerate().map(|(i, m)| (hexs(m), (index + i as u64).to_string())).collect() } else { vec![] };
        c.check(got2 == want, "insertion-log", || format!("inserted {want:?}, logged {got:?}"));
        let mut l: Vec<u64> = pick(&tree, "hpl_hook_merkle::inserted_into_tree").iter().filter_map(|e| at(e, "index").parse().ok()).collect();
        l.sort();
        c.check(l == (0..want.len() as u64).map(|i| index + i).collect::<Vec<_>>(), "insertion-index-log", || format!("{l:?} after {index}"));
        index += want.len() as u64;
        c.stat("insertion", want.len() as u64);
        // gas payments: what was paid, for which message, and what was returned
        let mut got: Vec<(String, u64, String, u128)> = vec![];
        let mut net = 0u128;
        for e in pick(&igp, "igp-core-pay-for-gas") {
            let n = |k: &str| at(e, k).parse::<u128>().unwrap_or(u128::MAX);
            let (pay, back, need) = (n("payment"), n("gas_refunded"), n("gas_required"));
            got.push((at(e, "message_id").into(), at(e, "dest_domain").parse().unwrap_or(u64::MAX), at(e, "gas_amount").into(), pay));
            let d: u32 = at(e, "dest_domain").parse().unwrap_or(0);
            let exact = at(e, "gas_amount").parse::<u128>().ok().map(|g| quote(d, &Big::from_u128(g)));
            c.check(exact == Some(need) && pay.checked_sub(need) == Some(back), "payment-attributes", || format!("{e:?}, price {exact:?}"));
            net += pay.saturating_sub(back);
            if back > 0 {
                c.stat("refunded", 1);
            }
        }
        let mut want = if ok { pays.clone() } else { vec![] };
        got.sort();
        want.sort();
        c.check(got == want, "payment-log", || format!("payments {want:?}, logged {got:?}"));
        let now = ch.balance(&igp, token);
        c.check(now == kept + net, "payment-sum", || format!("paymaster holds {now}, had {kept}, log says {net} more"));
        c.stat("payment", want.len() as u64);
        // deliveries
        let procs = if ok { procs } else { vec![] };
        let mut l: Vec<String> = pick(&w.mb, "mailbox_process_id").iter().map(|e| at(e, "message_id").to_string()).collect();
        let mut want: Vec<String> = procs.iter().map(|m| hexs(keccak(&[m]))).collect();
        l.sort();
        want.sort();
        c.check(l == want, "process-id-log", || format!("delivered {want:?}, logged {l:?}"));
        let mut l: Vec<(String, String, String)> = pick(&w.mb, "mailbox_process").iter().map(|e| (at(e, "origin").to_string(), at(e, "sender").to_string(), at(e, "recipient").to_string())).collect();
        let mut want: Vec<(String, String, String)> = procs.iter().map(|m| (u32::from_be_bytes(m[5..9].try_into().unwrap()).to_string(), hexs(&m[9..41]), hexs(&m[45..77]))).collect();
        l.sort();
        want.sort();
        c.check(l == want, "process-log", || format!("delivered {want:?}, logged {l:?}"));
        c.stat("delivery", want.len() as u64);
        let n = disp.len() + ins.len() + pays.len() + procs.len();
        c.eval(format!("{op}|{}|{}|{}|{}|{failed_part}|{ok}|{}", disp.len(), ins.len(), pays.len(), procs.len(), net > 0), n > 1 || failed_part);
    }
}
