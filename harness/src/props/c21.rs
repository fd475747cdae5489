//! Validator announcements: only the validator's own signature, for this mailbox, each location once, complete and ordered.
use super::util::*;
use crate::codes;
use crate::model::{announce_digest, recover, Key};
use crate::run::{Case, Prop};
use crate::sim::unb32;
use crate::stubs::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 7800,
    thorough: 315000,
    rule: "one judged announcement; nontrivial for every announcement (accepted, replayed or forged in one respect); distinct by (forgery kind, registry sizes, location class, outcome)",
    floors: &["accepted", "second_location", "replay_refused", "wrong_signer_refused", "wrong_location_refused", "wrong_domain_refused", "wrong_mailbox_refused", "bad_v_refused", "short_sig_refused", "bad_length_refused", "retry_after_failure", "malleated", "empty_location", "other_instance_refused", "many_validators", "many_locations"],
};

fn location(c: &mut Case, used: &[String]) -> String {
    match c.rng.below(9) {
        0 => String::new(),
        8 => format!("https://{}.example/{}", "a".repeat(c.rng.below(40) as usize), "/deep".repeat(c.rng.range(50, 1200) as usize)),
        1 => "s3://bucket/eu-west-1".into(),
        2 => "file:///tmp/\"quoted\"\\x\n\u{0}\t".into(),
        3 => "ünïcode-💥-位置".into(),
        4 if !used.is_empty() => {
            // near twins of an existing one
            let mut x = c.rng.pick(used).clone();
            match c.rng.below(4) {
                0 => x.push('/'),
                1 => {
                    x.pop();
                }
                2 => x = x.to_uppercase(),
                _ => x.insert(0, ' '),
            }
            x
        }
        5 => hexs(c.rng.blob()),
        _ => format!("s3://b{}/{}", c.rng.below(4), c.rng.below(6)),
    }
}

fn run(c: &mut Case) {
    let w = Core::new(c);
    let ch = &w.ch;
    // the same chain may host a second mailbox, with its own announcement contract
    let dom2 = if c.rng.bool() { w.domain } else { c.rng.dom() };
    let r = ch.deploy(&w.owner, &codes::mailbox(), &json!({"hrp":ch.hrp,"owner":w.owner,"domain":dom2}));
    let Some(mb2) = c.must(r, "second mailbox") else { return };
    let mut vas = vec![];
    for (m, d) in [(&w.mb, w.domain), (&mb2, dom2)] {
        let r = ch.deploy(&w.owner, &codes::va(), &json!({"hrp":ch.hrp,"mailbox":m}));
        let Some(a) = c.must(r, "instantiate") else { return };
        let q = ch.query(&a, json!({"mailbox":{}}));
        let raw = unb32(m).unwrap().1;
        c.check(q.as_ref().map(|v| v["mailbox"] == json!(hexs(&raw))).unwrap_or(false), "mailbox-query", || format!("{q:?}"));
        let q = ch.query(&a, json!({"local_domain":{}}));
        c.check(q.as_ref().map(|v| v["local_domain"] == json!(d)).unwrap_or(false), "domain-query", || format!("{q:?} want {d}"));
        vas.push((a, d, raw));
    }
    if c.rng.pct(2) {
        // a registry does not fill up
        let (va, d, mraw) = vas[0].clone();
        let (many, n) = (c.rng.bool(), *c.rng.pick(&[33u64, 65, 130, 300]));
        let mut want: BTreeMap<Vec<u8>, Vec<String>> = BTreeMap::new();
        for j in 0..n {
            let key = Key::new(format!("crowd{}", if many { j } else { 0 }).as_bytes());
            let loc = format!("s3://{j}");
            let sig = key.sign(&announce_digest(d, &mraw, &loc));
            let r = ch.exec(&w.owner, &va, &json!({"announce":{"validator":hexs(key.addr),"signature":hexs(&sig),"storage_location":loc}}), &[]);
            c.check(r.is_ok(), "crowd-refused", || format!("announcement {j} of {n} (different validators: {many}): {}", brief(&r)));
            want.entry(key.addr.to_vec()).or_default().push(loc);
        }
        let q = ch.query(&va, json!({"get_announced_validators":{}}));
        let mut got: Vec<String> = q.as_ref().ok().and_then(|v| v["validators"].as_array().cloned()).unwrap_or_default().iter().filter_map(|v| v.as_str().map(|s| s.to_string())).collect();
        got.sort();
        c.check(got == want.keys().map(hexs).collect::<Vec<_>>(), "crowd-validators", || format!("{} validators announced, {} listed", want.len(), got.len()));
        let ask: Vec<String> = want.keys().map(hexs).collect();
        let q = ch.query(&va, json!({"get_announce_storage_locations":{"validators":ask}}));
        let full: Value = json!(want.iter().map(|(a, l)| json!([hexs(a), l])).collect::<Vec<_>>());
        c.check(q.as_ref().map(|v| v["storage_locations"] == full).unwrap_or(false), "crowd-locations", || format!("{n} locations announced (different validators: {many}): {}", format!("{q:?}").chars().take(300).collect::<String>()));
        c.stat(if many { "many_validators" } else { "many_locations" }, 1);
        c.eval(format!("crowd|{many}|{n}"), true);
        return;
    }
    let keys: Vec<Key> = (0..4).map(|i| Key::new(format!("va{}-{i}", c.rng.below(50)).as_bytes())).collect();
    let mut reg: Vec<BTreeMap<Vec<u8>, Vec<String>>> = vec![BTreeMap::new(), BTreeMap::new()];
    let mut failed: Vec<(usize, usize, String)> = vec![];
    let mut sigs: Vec<(usize, usize, String, Vec<u8>)> = vec![];
    for step in 0..c.rng.many(6, 16) {
        let mut i = if c.rng.pct(70) { 0 } else { 1 };
        let mut k = c.rng.idx(4);
        let used: Vec<String> = reg[i].values().flatten().cloned().collect();
        let mut loc = location(c, &used);
        let mut kind = c.rng.below(16);
        if kind == 12 && !failed.is_empty() {
            (i, k, loc) = c.rng.pick(&failed).clone();
        }
        let (va, d, mraw) = vas[i].clone();
        let key = &keys[k];
        let mut validator = key.addr.to_vec();
        let mut sig = key.sign(&announce_digest(d, &mraw, &loc));
        let mut what = "honest";
        match kind {
            0 if !sigs.is_empty() => {
                // exact replay of an accepted announcement
                let s = c.rng.pick(&sigs).clone();
                if s.0 == i {
                    validator = keys[s.1].addr.to_vec();
                    loc = s.2;
                    sig = s.3;
                    what = "replay";
                    k = s.1;
                }
            }
            1 => {
                let o = &keys[(k + 1) % 4];
                sig = o.sign(&announce_digest(d, &mraw, &loc));
                what = "signer";
            }
            2 => {
                sig = key.sign(&announce_digest(d, &mraw, &format!("{loc}x")));
                what = "location";
            }
            3 => {
                sig = key.sign(&announce_digest(d ^ (1 << c.rng.below(32)), &mraw, &loc));
                what = "domain";
            }
            4 => {
                let mut m = mraw.clone();
                let j = c.rng.idx(m.len());
                m[j] ^= 1 << c.rng.below(8);
                sig = key.sign(&announce_digest(d, &m, &loc));
                what = "mailbox";
            }
            5 => {
                sig[64] = *c.rng.pick(&[0u8, 1, 26, 29, 30, 31, 255]);
                what = "v";
            }
            6 => {
                sig.truncate(c.rng.idx(65));
                what = "short-sig";
            }
            7 => {
                match c.rng.below(3) {
                    0 => validator.push(0),
                    1 => {
                        validator.pop();
                    }
                    _ => {
                        let mut x = vec![0u8; 12];
                        x.extend(&validator);
                        validator = x;
                    }
                };
                what = "length";
            }
            8 => {
                let j = c.rng.idx(64);
                sig[j] ^= 1 << c.rng.below(8);
                what = "sig-bit";
            }
            9 => {
                sig = key.sign_high_s(&announce_digest(d, &mraw, &loc));
                what = "malleated";
            }
            10 => {
                // signed for the other instance
                let o = &vas[1 - i];
                sig = key.sign(&announce_digest(o.1, &o.2, &loc));
                what = "other-instance";
            }
            11 => {
                let j = c.rng.idx(20);
                validator[j] ^= 1 << c.rng.below(8);
                what = "validator-bit";
            }
            _ => kind = 99,
        }
        let digest = announce_digest(d, &mraw, &loc);
        let owned = sig.len() >= 65 && recover(&digest, &sig[..65]).map(|a| a.to_vec()) == Some(validator.clone());
        let fresh = !reg[i].get(&validator).map(|l| l.contains(&loc)).unwrap_or(false);
        let sender = c.rng.pick(&[ch.user("val"), ch.user("anyone"), w.owner.clone(), w.mb.clone(), va.clone(), ch.addr_of(&key.addr)]).clone();
        let r = ch.exec(&sender, &va, &json!({"announce":{"validator":hexs(&validator),"signature":hexs(&sig),"storage_location":loc}}), &[]);
        c.log(|| format!("step {step}: instance {i} key {k} {what} location {loc:?} signed={owned} fresh={fresh}: {}", brief(&r)));
        if r.is_ok() {
            c.check(owned, "unsigned-accepted", || format!("{what}: validator {} location {loc:?} signature {}", hexs(&validator), hexs(&sig)));
            c.check(fresh, "replay-accepted", || format!("{} {loc:?}", hexs(&validator)));
            let l = reg[i].entry(validator.clone()).or_default();
            l.push(loc.clone());
            if l.len() > 1 {
                c.stat("second_location", 1);
            }
            if kind == 99 && failed.contains(&(i, k, loc.clone())) {
                c.stat("retry_after_failure", 1);
            }
            if loc.is_empty() {
                c.stat("empty_location", 1);
            }
            c.stat("accepted", 1);
            sigs.push((i, k, loc.clone(), sig.clone()));
        } else {
            // the twin form of a signature may or may not be supported
            c.check(!(owned && fresh) || what == "malleated", "signed-refused", || format!("{what}: {} {loc:?}: {}", hexs(&validator), brief(&r)));
            if !fresh && owned {
                c.stat("replay_refused", 1);
            }
            if what != "honest" && what != "replay" {
                failed.push((i, k, loc.clone()));
            }
            let s = match what {
                "signer" => "wrong_signer_refused",
                "location" => "wrong_location_refused",
                "domain" => "wrong_domain_refused",
                "mailbox" => "wrong_mailbox_refused",
                "v" => "bad_v_refused",
                "short-sig" => "short_sig_refused",
                "length" => "bad_length_refused",
                "other-instance" => "other_instance_refused",
                _ => "other_refused",
            };
            c.stat(s, 1);
        }
        if what == "malleated" {
            c.stat("malleated", 1);
        }
        // the registry is exactly the accepted history
        for (i, (va, _, _)) in vas.iter().enumerate() {
            let q = ch.query(va, json!({"get_announced_validators":{}}));
            let mut got: Vec<String> = q.as_ref().ok().and_then(|v| v["validators"].as_array().cloned()).unwrap_or_default().iter().filter_map(|v| v.as_str().map(|s| s.to_string())).collect();
            got.sort();
            let want: Vec<String> = reg[i].keys().map(hexs).collect();
            c.check(got == want, "validators", || format!("announced {want:?}, listed {got:?}"));
            let mut ask: Vec<Vec<u8>> = keys.iter().map(|k| k.addr.to_vec()).collect();
            ask.push(c.rng.bytes(20));
            // asked about one twice, or about few
            let again = c.rng.pick(&ask).clone();
            ask.push(again);
            c.rng.shuffle(&mut ask);
            let few = c.rng.idx(ask.len() + 1);
            if few > 0 {
                ask.truncate(few);
            }
            let q = ch.query(va, json!({"get_announce_storage_locations":{"validators":ask.iter().map(hexs).collect::<Vec<_>>()}}));
            let want: Value = json!(ask.iter().map(|a| json!([hexs(a), reg[i].get(a).cloned().unwrap_or_default()])).collect::<Vec<_>>());
            c.check(q.as_ref().map(|v| v["storage_locations"] == want).unwrap_or(false), "locations", || format!("{q:?} want {want}"));
        }
        c.eval(format!("{what}|{owned}|{fresh}|{}|{}|{}|{}", reg[i].len(), reg[i].get(&validator).map(|l| l.len()).unwrap_or(0).min(4), loc.len().min(30) / 6, r.is_ok()), true);
    }
}
