//! Strangers cannot change what happens to the others.
use super::targets::u128j;
use super::util::*;
use super::warpw::{Kind, KINDS};
use super::world::*;
use crate::codes;
use crate::model::{announce_digest, gas_price, pad32, Big, Key, Msg};
use crate::rng::Rng;
use crate::run::{Case, Prop};
use crate::sim::{sha, unb32};
use crate::stubs::*;
use serde_json::json;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C34",
    run,
    quick: 6000,
    thorough: 250000,
    rule: "one honest operation performed in two identical installations, one left alone and one exposed to strangers' calls before it: acceptance, quotes, balances, deliveries and announcements compared; nontrivial when at least one stranger's call succeeded before; distinct by (operation, kind of token route, kind of hook, strangers' calls just before)",
    floors: &["dispatch", "underpaid", "deliver", "forged", "transfer", "receive", "pay_for_gas", "announce", "configure", "stranger_succeeded", "stranger_refused", "front_run", "same_after", "donated", "same_block"],
};

#[derive(Clone, Debug)]
pub(super) enum Op {
    Dispatch { who: usize, to: [u8; 32], body: Vec<u8>, short: bool },
    Deliver { nonce: u32, sender: [u8; 32], body: Vec<u8>, forged: bool },
    Transfer { who: usize, to: [u8; 32], amount: u128 },
    Receive { nonce: u32, who: usize, amount: u128 },
    Pay { who: usize, id: [u8; 32], gas: u128, more: u128 },
    Announce { key: usize, loc: String },
    Prices { rate: u128, gp: u128 },
    Validators { n: usize, t: u8, salt: u64 },
    Router { r: [u8; 32] },
    WarpIsm,
    Claim,
}
impl Op {
    fn name(&self) -> &'static str {
        match self {
            Op::Dispatch { short: true, .. } => "underpaid",
            Op::Dispatch { .. } => "dispatch",
            Op::Deliver { forged: true, .. } => "forged",
            Op::Deliver { .. } => "deliver",
            Op::Transfer { .. } => "transfer",
            Op::Receive { .. } => "receive",
            Op::Pay { .. } => "pay_for_gas",
            Op::Announce { .. } => "announce",
            _ => "configure",
        }
    }
}
const USERS: [&str; 2] = ["alice", "bob"];

pub(super) fn plan(r: &mut Rng, i: u32) -> Op {
    let who = r.idx(2);
    match r.below(20) {
        0..=3 => Op::Dispatch { who, to: r.bytes(32).try_into().unwrap(), body: r.blob(), short: r.pct(25) },
        4..=7 => Op::Deliver { nonce: i, sender: [1 + r.below(3) as u8; 32], body: [vec![i as u8], r.blob()].concat(), forged: r.pct(25) },
        8..=10 => Op::Transfer { who, to: r.bytes(32).try_into().unwrap(), amount: r.range(1, 5000) as u128 },
        11..=13 => Op::Receive { nonce: 1000 + i, who, amount: r.range(1, 5000) as u128 },
        14 => Op::Pay { who, id: r.bytes(32).try_into().unwrap(), gas: r.range(1, 1_000_000) as u128, more: r.below(1000) as u128 },
        15 => Op::Announce { key: r.idx(3), loc: format!("s3://honest/{}", r.below(3)) },
        16 => Op::Prices { rate: r.range(1, 40_000_000_000) as u128, gp: r.range(1, 5000) as u128 },
        17 => {
            let n = r.range(1, 3) as usize;
            Op::Validators { n, t: r.range(1, n as u64) as u8, salt: r.below(50) }
        }
        18 => Op::Router { r: r.bytes(32).try_into().unwrap() },
        _ => {
            if r.bool() {
                Op::WarpIsm
            } else {
                Op::Claim
            }
        }
    }
}

fn vkeys() -> Vec<Key> {
    (0..3).map(|i| Key::new(format!("honest validator {i}").as_bytes())).collect()
}
fn deliver_msg(w: &World, nonce: u32, sender: [u8; 32], body: &[u8]) -> Msg {
    w.message_to(&w.rec_addr, nonce, sender, body.to_vec())
}
fn announcement(w: &World, key: usize, loc: &str) -> serde_json::Value {
    let k = &vkeys()[key];
    let sig = k.sign(&announce_digest(w.core.domain, &unb32(&w.core.mb).unwrap().1, loc));
    json!({"announce":{"validator":hexs(k.addr),"signature":hexs(sig),"storage_location":loc}})
}

/// the honest side of an operation, and what its participants see of it
pub(super) fn perform(w: &mut World, op: &Op, relayer: &str) -> String {
    let ch = &w.core.ch;
    let u: Vec<String> = USERS.iter().map(|n| ch.user(n)).collect();
    let mark = ch.mark();
    let sent = |w: &World| -> Vec<String> {
        let evs = w.core.ch.evs(mark);
        post_dispatches(&evs, &w.core.mb)
            .iter()
            .filter(|p| p.committed)
            .map(|p| {
                let m = Msg::decode(&p.message);
                format!("{} {:?} {} {:?}", p.to, m.map(|m| (m.version, m.origin, hexs(m.sender), m.dest, hexs(m.recipient), hexs(m.body))), hexs(&p.metadata), p.funds)
            })
            .collect()
    };
    let got = match op {
        Op::Dispatch { who, to, body, short } => {
            let q = ch.query(&w.core.mb, json!({"hook":{"quote_dispatch":{"sender":u[*who],"msg":dispatch_msg(w.remote, to, body, None, None)["dispatch"]}}}));
            let r = if *short {
                let f = if w.cost() > 1 { coins(&[(w.cost() - 1, TOKEN)]) } else { vec![] };
                ch.exec(&u[*who], &w.core.mb, &dispatch_msg(w.remote, to, body, None, None), &f)
            } else {
                w.dispatch(&u[*who], to, body)
            };
            format!("accepted {} quote {q:?} sent {:?}", r.is_ok(), sent(w))
        }
        Op::Deliver { nonce, sender, body, forged } => {
            let m = deliver_msg(w, *nonce, *sender, body);
            if *forged {
                let mut other = m.clone();
                other.body.push(9);
                let md = w.vouch(&other);
                format!("accepted {} delivered {:?}", w.core.process(relayer, &md, &m.encode()).is_ok(), w.core.mailbox().delivered(&m.id()))
            } else {
                let _ = w.deliver(relayer, &m);
                format!("delivered {:?}", w.core.mailbox().delivered(&m.id()))
            }
        }
        Op::Transfer { who, to, amount } => {
            let r = w.send_tokens(&u[*who], to, *amount);
            format!("accepted {} sent {:?}", r.is_ok(), sent(w))
        }
        Op::Receive { nonce, who, amount } => {
            let m = w.incoming(*nonce, &u[*who], *amount);
            let _ = w.deliver(relayer, &m);
            format!("delivered {:?}", w.core.mailbox().delivered(&m.id()))
        }
        Op::Pay { who, id, gas, more } => {
            let q = ch.query(&w.igp, json!({"igp":{"quote_gas_payment":{"dest_domain":w.remote,"gas_amount":gas.to_string()}}}));
            let need: u128 = q.as_ref().ok().and_then(|v| v["gas_needed"].as_str().and_then(|s| s.parse().ok())).unwrap_or(0);
            let r = w.pay(&u[*who], id, *gas, need + more, &u[1 - *who]);
            format!("accepted {} quote {q:?}", r.is_ok())
        }
        Op::Announce { key, loc } => {
            let _ = ch.exec(relayer, &w.va, &announcement(w, *key, loc), &[]);
            let l: Vec<String> = vkeys().iter().map(|k| hexs(k.addr)).collect();
            format!("known {:?}", ch.query(&w.va, json!({"get_announce_storage_locations":{"validators":l}})))
        }
        Op::Prices { rate, gp } => {
            let r = w.own(&w.oracle, json!({"set_remote_gas_data":{"config":{"remote_domain":w.remote,"token_exchange_rate":rate.to_string(),"gas_price":gp.to_string()}}}));
            w.price = gas_price(&Big::from_u128(w.gas), *gp, *rate).0.to_u128().unwrap();
            format!("accepted {}", r.is_ok())
        }
        Op::Validators { n, t, salt } => {
            let keys: Vec<Key> = (0..*n).map(|i| Key::new(format!("rotated {salt} {i}").as_bytes())).collect();
            let r = w.own(&w.multisig, json!({"set_validators":{"domain":w.remote,"threshold":t,"validators":keys.iter().map(|k| hexs(k.addr)).collect::<Vec<_>>()}}));
            w.keys = keys;
            w.threshold = *t;
            format!("accepted {}", r.is_ok())
        }
        Op::Router { r } => {
            w.router = *r;
            format!("accepted {}", w.warp.route(&w.core.ch, w.remote, Some(r)).is_ok())
        }
        Op::WarpIsm => format!("accepted {}", w.warp.own(&w.core.ch, json!({"connection":{"set_ism":{"ism":w.multisig}}})).is_ok()),
        Op::Claim => {
            // the beneficiary may already have been sent part of it: what is left and what it has got together count
            let r = ch.exec(&w.ben, &w.igp, &json!({"claim":{}}), &[]);
            format!("settled {}", r.is_ok() || ch.balance(&w.igp, TOKEN) == 0)
        }
    };
    let ch = &w.core.ch;
    let hold: Vec<String> = u.iter().map(|a| format!("{}/{}", ch.balance(a, TOKEN), w.warp.bal(ch, a))).collect();
    let conf = [
        (&w.core.mb, json!({"mailbox":{"default_ism":{}}})),
        (&w.core.mb, json!({"mailbox":{"default_hook":{}}})),
        (&w.core.mb, json!({"mailbox":{"required_hook":{}}})),
        (&w.core.mb, json!({"mailbox":{"recipient_ism":{"recipient_addr":w.warp.addr}}})),
        (&w.core.mb, json!({"ownable":{"get_pending_owner":{}}})),
        (&w.core.mb, json!({"ownable":{"get_owner":{}}})),
        (&w.warp.addr, json!({"router":{"list_routes":{"offset":null,"limit":null,"order":"asc"}}})),
        (&w.warp.addr, json!({"ownable":{"get_pending_owner":{}}})),
        (&w.igp, json!({"router":{"list_routes":{"offset":null,"limit":null,"order":"asc"}}})),
        (&w.igp, json!({"igp":{"beneficiary":{}}})),
        (&w.igp, json!({"igp":{"default_gas":{}}})),
        (&w.oracle, json!({"oracle":{"get_exchange_rate_and_gas_price":{"dest_domain":w.remote}}})),
        (&w.multisig, json!({"multisig_ism":{"enrolled_validators":{"domain":w.remote}}})),
        (&w.fee, json!({"fee_hook":{"fee":{}}})),
    ];
    let conf: Vec<String> = conf.iter().map(|(a, q)| ch.query(a, q.clone()).map(|v| v.to_string()).unwrap_or_else(|_| "error".into())).collect();
    format!("{got} | balances {} | settings {}", hold.join(" "), conf.join(" "))
}

/// what the recipient got from honest senders (strangers use other sender words)
fn received(w: &World, mark: usize) -> Vec<String> {
    handles(&w.core.ch.evs(mark), mark, &w.core.mb)
        .into_iter()
        .filter(|h| h.committed && h.to == w.rec_addr && h.origin == w.remote as u64 && h.sender.iter().all(|b| (1..=3).contains(b)))
        .map(|h| format!("{} {} {} {:?}", h.origin, hexs(&h.sender), hexs(&h.body), h.funds))
        .collect()
}

/// one call by a stranger; what it was and whether it went through
pub(super) fn interfere(w: &World, r: &mut Rng, kind: u64, next: &Op, past: &[Op], n: u32, thief: &str) -> (&'static str, bool) {
    let ch = &w.core.ch;
    let me = if r.pct(30) { thief.to_string() } else { ch.user(r.pick(&["mallory", "trudy"])) };
    let all: Vec<String> = vec![w.core.mb.clone(), w.tree.clone(), w.igp.clone(), w.oracle.clone(), w.isms.clone(), w.multisig.clone(), w.va.clone(), w.fee.clone(), w.hook.clone(), w.warp.addr.clone()];
    let w32: [u8; 32] = r.bytes(32).try_into().unwrap();
    // an operation of the honest side the stranger gets ahead of, or repeats
    let target = if past.is_empty() || r.bool() { next } else { r.pick(past) };
    let since = past.iter().rposition(|o| matches!(o, Op::Router { .. })).map_or(0, |i| i + 1);
    // after a change of the router, what it says is new, whatever it says
    let stale = |o: &Op| !std::ptr::eq(o, next) && past[..since].iter().any(|p| std::ptr::eq(p, o));
    let target = if stale(target) { next } else { target };
    match kind {
        0 => {
            let to = r.pick(&all).clone();
            // an aggregate hook spends what it has been given, as noted in DESIGN.md
            if w.hook_kind == 4 && to == w.hook {
                return ("none", false);
            }
            let junk = format!("ujunk{}", n % 97);
            let d = *r.pick(&[TOKEN, "utok", &junk]);
            ch.faucet(&to, d, r.range(1, 1_000_000) as u128);
            if w.warp.kind == (Kind { cw20: true, bridged: false }) && r.bool() {
                w.warp.give(ch, &to, r.range(1, 1000) as u128);
            }
            if w.warp.kind.bridged && r.bool() {
                // tokens of the route itself, to the route or another contract
                let a = r.range(1, 1000) as u128;
                let _ = if w.warp.kind.cw20 {
                    ch.exec(&me, &w.warp.token, &json!({"transfer":{"recipient":to,"amount":a.to_string()}}), &[]).map(|_| ())
                } else {
                    ch.send(&me, &to, &w.warp.token, a)
                };
            }
            ("donated", true)
        }
        1 => ("dispatch", w.dispatch(&me, &w32, &r.blob()).is_ok()),
        2 => {
            let f = coins(&[(w.cost() + r.range(1, 1000) as u128, TOKEN)]);
            ("dispatch-hook", ch.exec(&me, &w.core.mb, &dispatch_msg(w.remote, &w32, &r.blob(), Some(&w.fee), Some(&r.blob())), &f).is_ok())
        }
        3 => {
            // get ahead of, or repeat, an honest delivery
            let m = match target {
                Op::Deliver { nonce, sender, body, forged: false } => deliver_msg(w, *nonce, *sender, body),
                Op::Receive { nonce, who, amount } => w.incoming(*nonce, &ch.user(USERS[*who]), *amount),
                Op::Announce { key, loc } => return ("front_run", ch.exec(&me, &w.va, &announcement(w, *key, loc), &[]).is_ok()),
                _ => deliver_msg(w, n, [66; 32], &[1]),
            };
            let md = if r.pct(60) { w.vouch(&m) } else { r.blob() };
            ("front_run", w.core.process(&me, &md, &m.encode()).is_ok())
        }
        4 => {
            // a stranger's own message, vouched for by the validators like any other
            let mut m = deliver_msg(w, n, [60 + r.below(5) as u8; 32], &r.blob());
            if r.pct(60) {
                // from another origin, the rest as an honest message may have it
                m.origin = w.elsewhere;
                m.nonce = r.below(14) as u32;
                m.sender = [1 + r.below(3) as u8; 32];
                if let Op::Deliver { nonce, sender, body, .. } = target {
                    (m.nonce, m.sender, m.body) = (*nonce, *sender, body.clone());
                }
            }
            ("own-message", w.deliver(&me, &m).is_ok())
        }
        5 => {
            // to the token route, from somewhere that is not its router
            let mut m = w.incoming(n, &me, r.range(1, 1 << 40) as u128);
            if r.bool() {
                m.sender = [77; 32];
            } else {
                m.origin = w.elsewhere;
                m.nonce = 1000 + r.below(14) as u32;
                if let Op::Receive { nonce, who, amount } = target {
                    m = w.incoming(*nonce, &ch.user(USERS[*who]), *amount);
                    m.origin = w.elsewhere;
                }
            }
            ("forged-tokens", w.deliver(&me, &m).is_ok())
        }
        6 => {
            let m = w.incoming(2_000_000 + n, &me, r.range(1, 5000) as u128);
            ("own-tokens", w.deliver(&me, &m).is_ok())
        }
        7 => {
            let a = r.range(1, 3000) as u128;
            if !w.warp.kind.bridged {
                w.warp.give(ch, &me, a);
            }
            ("transfer", w.send_tokens(&me, &w32, a).is_ok())
        }
        8 => {
            // call a module's hook directly
            let to = r.pick(&[&w.tree, &w.igp, &w.fee, &w.hook]).to_string();
            let m = match target {
                Op::Dispatch { to, body, .. } => Msg { version: 3, nonce: n, origin: w.core.domain, sender: pad32(&unb32(&me).unwrap().1), dest: w.remote, recipient: *to, body: body.clone() },
                _ => Msg { version: 3, nonce: n, origin: w.core.domain, sender: w32, dest: w.remote, recipient: w32, body: vec![1] },
            };
            let f = if r.bool() && !(w.hook_kind == 4 && to == w.hook) { coins(&[(w.cost() + w.fee_amount, TOKEN)]) } else { vec![] };
            ("direct-hook", ch.exec(&me, &to, &json!({"post_dispatch":{"metadata":"","message":hexs(m.encode())}}), &f).is_ok())
        }
        9 => {
            // call the recipients directly
            let to = r.pick(&[&w.warp.addr, &w.rec_addr]).to_string();
            let b = super::warpw::body(&pad32(&unb32(&me).unwrap().1), 1000, &[]);
            ("direct-handle", to != w.rec_addr && ch.exec(&me, &to, &json!({"handle":{"origin":w.remote,"sender":hexs(w.router),"body":hexs(b)}}), &[]).is_ok())
        }
        10 => {
            let id = match target {
                Op::Pay { id, .. } => *id,
                _ => w32,
            };
            let over = r.below(5000) as u128;
            ("pay", w.pay(&me, &id, r.range(1, 1000) as u128, w.price + over + 1, &ch.user("mallory")).is_ok())
        }
        11 => ("claim", ch.exec(&me, &w.igp, &json!({"claim":{}}), &[]).is_ok()),
        12 => {
            let k = Key::new(&r.bytes(8));
            let loc = match target {
                Op::Announce { loc, .. } => loc.clone(),
                _ => format!("s3://stranger/{}", r.below(4)),
            };
            ("announce", w.announce(&me, &k, &loc).is_ok())
        }
        13 => {
            // speak for an honest validator with one's own key
            let k = Key::new(b"stranger");
            let v = &vkeys()[r.idx(3)];
            let sig = k.sign(&announce_digest(w.core.domain, &unb32(&w.core.mb).unwrap().1, "s3://evil"));
            ("forged-announce", ch.exec(&me, &w.va, &json!({"announce":{"validator":hexs(v.addr),"signature":hexs(sig),"storage_location":"s3://evil"}}), &[]).is_ok())
        }
        14 | 15 => {
            let a = ch.user("mallory");
            let l = [
                (&w.core.mb, json!({"set_default_ism":{"ism":a}})),
                (&w.core.mb, json!({"set_default_hook":{"hook":w.fee}})),
                (&w.core.mb, json!({"set_required_hook":{"hook":w.fee}})),
                (&w.multisig, json!({"set_validators":{"domain":w.remote,"threshold":1,"validators":[hexs(Key::new(b"stranger").addr)]}})),
                (&w.multisig, json!({"unset_domain":{"domain":w.remote}})),
                (&w.isms, json!({"unset":{"domains":[w.remote]}})),
                (&w.isms, json!({"set":{"ism":{"domain":w.remote,"address":a}}})),
                (&w.oracle, json!({"set_remote_gas_data":{"config":{"remote_domain":w.remote,"token_exchange_rate":"1","gas_price":"1"}}})),
                (&w.igp, json!({"set_default_gas":{"gas":u128j(1)}})),
                (&w.igp, json!({"set_gas_for_domain":{"config":[[w.remote, u128j(1)]]}})),
                (&w.igp, json!({"set_beneficiary":{"beneficiary":a}})),
                (&w.igp, json!({"router":{"set_route":{"set":{"domain":w.remote,"route":null}}}})),
                (&w.fee, json!({"fee_hook":{"set_fee":{"fee":{"denom":TOKEN,"amount":"1"}}}})),
                (&w.fee, json!({"fee_hook":{"claim":{"recipient":a}}})),
                (&w.warp.addr, json!({"router":{"set_route":{"set":{"domain":w.remote,"route":hexs([77; 32])}}}})),
                (&w.warp.addr, json!({"connection":{"set_ism":{"ism":a}}})),
                (&w.warp.addr, json!({"connection":{"set_hook":{"hook":a}}})),
                (&w.hook, json!({"router":{"set_route":{"set":{"domain":w.remote,"route":w.fee}}}})),
                (&w.hook, json!({"set_fallback_hook":{"hook":w.fee}})),
                (&w.hook, json!({"register_custom_hook":{"dest_domain":w.remote,"recipient":hexs(w32),"hook":w.fee}})),
                (&w.hook, json!({"set_hooks":{"hooks":[]}})),
            ];
            let (to, m) = &l[r.idx(l.len())];
            ("admin", ch.exec(&me, to, m, &[]).is_ok())
        }
        16 => {
            let to = r.pick(&all).clone();
            let what = *r.pick(&["init_ownership_transfer", "claim_ownership", "revoke_ownership_transfer"]);
            let wrap = *r.pick(&["ownable", "ownership"]);
            let b = if what == "init_ownership_transfer" { json!({"next_owner":me}) } else { json!({}) };
            ("ownership", ch.exec(&me, &to, &json!({wrap:{what:b}}), &[]).is_ok())
        }
        17 => {
            // several things at once, one of them failing
            let b = ch.put_stub(Rc::new(BatchStub));
            ch.faucet(&b, TOKEN, 1 << 60);
            let f = json!([{"denom":TOKEN,"amount":w.cost().to_string()}]);
            let m = match target {
                Op::Deliver { nonce, sender, body, forged: false } => deliver_msg(w, *nonce, *sender, body),
                _ => deliver_msg(w, n, [66; 32], &[2]),
            };
            let mut l = vec![
                json!({"to":w.core.mb,"msg":dispatch_msg(w.remote, &w32, &[3], None, None),"funds":f,"catch":true}),
                json!({"to":w.core.mb,"msg":process_msg(&w.vouch(&m), &m.encode()),"funds":[],"catch":true}),
                json!({"to":w.core.mb,"msg":process_msg(&[], &m.encode()),"funds":[],"catch":true}),
                json!({"to":w.igp,"msg":{"claim":{}},"funds":[],"catch":true}),
            ];
            r.shuffle(&mut l);
            if r.bool() {
                l.push(json!({"to":w.core.mb,"msg":{"nonsense":{}},"funds":[],"catch":false}));
            }
            ("batch", ch.exec(&me, &b, &json!({ "multi": l }), &[]).is_ok())
        }
        _ => {
            // an impostor installation on the same chain
            let d = json!({"hrp":ch.hrp,"owner":me,"domain":w.core.domain});
            let Ok(mb2) = ch.deploy(&me, &codes::mailbox(), &d) else { return ("impostor", false) };
            let ism = ch.put_stub(IsmStub::new(Verdict::True));
            let _ = ch.exec(&me, &mb2, &json!({"set_default_ism":{"ism":ism}}), &[]);
            let m = match target {
                Op::Receive { nonce, amount, .. } => w.incoming(*nonce, &me, *amount),
                _ => w.incoming(n, &me, 1000),
            };
            ("impostor", ch.exec(&me, &mb2, &process_msg(&[], &m.encode()), &[]).is_ok())
        }
    }
}

pub(super) fn setup(c: &mut Case, kind: Kind, hk: usize) -> Option<(World, String, String)> {
    let w = World::new(c, kind, hk)?;
    let ch = &w.core.ch;
    let relayer = ch.user("relayer");
    let thief = ch.put_stub(Rc::new(BatchStub));
    for u in ["alice", "bob", "mallory", "trudy", "relayer"].iter().map(|n| ch.user(n)).chain([thief.clone()]) {
        ch.faucet(&u, TOKEN, 1 << 100);
        if kind.bridged {
            let m = w.incoming(9_000_000 + sha(u.as_bytes())[0] as u32, &u, 1 << 60);
            let r = w.deliver(&relayer, &m);
            c.must(r, "provision");
        } else {
            w.warp.give(ch, &u, 1 << 60);
        }
    }
    if !kind.bridged {
        w.warp.give(ch, &w.warp.addr, 1 << 60);
    }
    Some((w, relayer, thief))
}

fn run(c: &mut Case) {
    let kind = *c.rng.pick(&KINDS);
    let hk = c.rng.idx(5);
    let seed = c.rng.clone();
    let Some((mut a, ra, _)) = setup(c, kind, hk) else { return };
    let end = c.rng.clone();
    c.rng = seed;
    let Some((mut b, rb, thief)) = setup(c, kind, hk) else { return };
    c.rng = end;
    if !c.check(a.core.mb == b.core.mb && a.warp.addr == b.warp.addr, "twin", || "the two installations are not the same".into()) {
        return;
    }
    let mut r = Rng::new(c.rng.next(), 5);
    let mut past: Vec<Op> = vec![];
    let (mut ga, mut gb) = (a.core.ch.mark(), b.core.ch.mark());
    let mut n = 5_000_000u32;
    let burst = if c.rng.below(20) == 0 { c.rng.below(6) as u32 } else { u32::MAX };
    let mut succeeded = 0;
    for i in 0..c.rng.range(4, 14) as u32 {
        let op = plan(&mut c.rng, i);
        let mut before: Vec<&'static str> = vec![];
        let mut calls: Vec<u64> = (0..r.below(4)).map(|_| r.below(19)).collect();
        if i == burst {
            // one thing over and over
            let k = *r.pick(&[0, 1, 3, 4, 6, 7, 8, 10, 12, 12, 17]);
            calls = vec![k; r.range(20, 140) as usize];
            c.stat("burst", 1);
        }
        // what the strangers did is in the same block as what follows
        let same = i == burst || r.pct(15);
        if same {
            a.core.ch.held.set(true);
            b.core.ch.held.set(true);
            c.stat("same_block", 1);
        }
        for k in calls {
            n += 1;
            let (what, ok) = interfere(&b, &mut r, k, &op, &past, n, &thief);
            before.push(what);
            succeeded += ok as u64;
            c.stat(if ok { "stranger_succeeded" } else { "stranger_refused" }, 1);
            c.stat(if ok && what == "front_run" { "front_run" } else if what == "donated" { "donated" } else { "other" }, 1);
            c.log(|| format!("  stranger: {what} {ok}"));
        }
        let x = perform(&mut a, &op, &ra);
        let y = perform(&mut b, &op, &rb);
        a.core.ch.held.set(false);
        b.core.ch.held.set(false);
        c.log(|| format!("{i} {op:?}: {y}"));
        let (la, lb) = (received(&a, ga), received(&b, gb));
        (ga, gb) = (a.core.ch.mark(), b.core.ch.mark());
        c.check(x == y, "outcome", || format!("{} ({} route, hook kind {hk}) after strangers' {before:?}: undisturbed {x} -- disturbed {y}", op.name(), kind.name()));
        c.check(la == lb, "received", || format!("{} after strangers' {before:?}: undisturbed {la:?} -- disturbed {lb:?}", op.name()));
        if x != y || la != lb {
            return;
        }
        c.stat("same_after", before.len() as u64);
        c.stat(op.name(), 1);
        before.truncate(4);
        c.eval(format!("{}|{}|{hk}|{before:?}", op.name(), kind.name()), succeeded > 0);
        past.push(op);
    }
}
