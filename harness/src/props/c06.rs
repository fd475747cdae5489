//! Multisig module: threshold of distinct enrolled validators.
use super::util::*;
use crate::codes;
use crate::model::{checkpoint_digest, recover, Key};
use crate::run::{Case, Prop};
use crate::stubs::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 8300,
    thorough: 333000,
    rule: "one judged verification or configuration change; nontrivial when signatures are duplicated, foreign, malleated, over another checkpoint/domain, malformed, or the count is within one of the threshold; distinct by (validators, threshold, signature mix, verdict)",
    floors: &["verified", "below_threshold", "duplicate_sig", "foreign_signer", "wrong_checkpoint", "other_domain", "malformed", "invalid_config_refused", "unset", "more_than_64_signatures"],
};

fn run(c: &mut Case) {
    let ch = chain(&mut c.rng);
    let owner = ch.user("owner");
    let ism = ch.deploy(&owner, &codes::ism_multisig(), &json!({"owner": owner})).expect("multisig");
    let keys: Vec<Key> = (0..match c.rng.below(240) { 0 => 160u8, 1..=4 => 50, _ => 8 }).map(|i| Key::new(&[c.rng.next().to_le_bytes().as_slice(), &[i]].concat())).collect();
    let mut conf: BTreeMap<u32, (Vec<Vec<u8>>, u8)> = Default::default();
    let doms = [c.rng.dom(), c.rng.dom(), c.rng.dom()];
    for step in 0..c.rng.many(3, 10) {
        let d = *c.rng.pick(&doms);
        if c.rng.pct(40) || conf.is_empty() {
            config(c, &ch, &owner, &ism, &keys, &mut conf, d);
        }
        // which origin the message claims, and what gets signed
        let mut m = random_msg(&mut c.rng, 7, [9; 32]);
        m.origin = d;
        let raw = m.encode();
        let tree = word32(&mut c.rng);
        let root = word32(&mut c.rng);
        let index = c.rng.dom();
        let digest = checkpoint_digest(d, &tree, &root, index, &m.id());
        let (vals, thr) = conf.get(&d).cloned().unwrap_or((vec![], 0));
        let distinct: BTreeSet<Vec<u8>> = vals.iter().cloned().collect();
        let enrolled: Vec<&Key> = keys.iter().filter(|k| distinct.contains(k.addr.as_slice())).collect();
        let foreign: Vec<&Key> = keys.iter().filter(|k| !distinct.contains(k.addr.as_slice())).collect();
        // choose how many genuine signers sign
        let want = match c.rng.below(5) {
            0 => (thr as usize).saturating_sub(1),
            1 => enrolled.len(),
            2 => c.rng.idx(enrolled.len() + 1),
            _ => thr as usize,
        }
        .min(enrolled.len());
        let mut order = enrolled.clone();
        c.rng.shuffle(&mut order);
        let mut sigs: Vec<Vec<u8>> = order[..want].iter().map(|k| k.sign(&digest)).collect();
        if want > 64 {
            c.stat("more_than_64_signatures", 1);
        }
        let mut clean = true;
        let mut mix = vec![];
        for _ in 0..c.rng.below(4) {
            match c.rng.below(9) {
                0 | 1 if want > 0 => {
                    let k = order[c.rng.idx(want)];
                    if c.rng.bool() {
                        sigs.push(k.sign(&digest));
                    } else {
                        sigs.push(k.sign_high_s(&digest));
                        clean = false;
                    }
                    mix.push("dup");
                    c.stat("duplicate_sig", 1);
                }
                2 if !foreign.is_empty() => {
                    sigs.push(c.rng.pick(&foreign).sign(&digest));
                    mix.push("foreign");
                    c.stat("foreign_signer", 1);
                }
                3 | 4 if !order.is_empty() => {
                    // a genuine validator signing something else
                    let k = c.rng.pick(&order);
                    let mut m2 = m.clone();
                    let d2 = match c.rng.below(6) {
                        0 => checkpoint_digest(d, &tree, &root, index.wrapping_add(1), &m.id()),
                        1 => checkpoint_digest(d ^ 1, &tree, &root, index, &m.id()),
                        2 => checkpoint_digest(d, &root, &tree, index, &m.id()),
                        3 => checkpoint_digest(d, &tree, &word32(&mut c.rng), index, &m.id()),
                        4 => {
                            m2.nonce ^= 1;
                            checkpoint_digest(d, &tree, &root, index, &m2.id())
                        }
                        _ => m.id(),
                    };
                    sigs.push(k.sign(&d2));
                    mix.push("other-digest");
                    c.stat("wrong_checkpoint", 1);
                }
                5 => {
                    let mut s = c.rng.bytes(65);
                    s[64] = c.rng.pick(&[0u8, 1, 26, 27, 28, 29, 30, 31, 255]).clone();
                    if c.rng.pct(30) {
                        s[..64].fill(0);
                    }
                    if c.rng.pct(20) {
                        s[..64].fill(0xff);
                    }
                    sigs.push(s);
                    clean = false;
                    mix.push("garbage");
                    c.stat("malformed", 1);
                }
                6 if !sigs.is_empty() => {
                    let i = c.rng.idx(sigs.len());
                    sigs[i][64] ^= c.rng.pick(&[1, 3, 7, 27]).clone();
                    clean = false;
                    mix.push("flipped-v");
                }
                _ => {}
            }
        }
        if c.rng.bool() {
            c.rng.shuffle(&mut sigs);
        }
        let mut md = [&tree[..], &root[..], &index.to_be_bytes()[..]].concat();
        for s in &sigs {
            md.extend(s);
        }
        let mut tail = 0;
        match c.rng.below(14) {
            0 => {
                tail = c.rng.range(1, 64) as usize;
                let extra = c.rng.bytes(tail);
                md.extend(extra);
                mix.push("tail");
                clean = false;
            }
            1 => {
                md.truncate(c.rng.below(68) as usize);
                mix.push("short");
                clean = false;
                c.stat("malformed", 1);
            }
            _ => {}
        }
        // the same proof presented for a message from another domain
        let mut shown = raw.clone();
        let mut shown_dom = d;
        if c.rng.pct(15) {
            let d2 = *c.rng.pick(&doms);
            if d2 != d {
                let mut m2 = m.clone();
                m2.origin = d2;
                shown = m2.encode();
                shown_dom = d2;
                mix.push("other-domain");
                c.stat("other_domain", 1);
            }
        } else if c.rng.pct(6) {
            let m2 = near_miss(&mut c.rng, &m);
            shown = m2.encode();
            shown_dom = m2.origin;
            mix.push("other-message");
        }
        // reference verdict
        let (svals, sthr) = conf.get(&shown_dom).cloned().unwrap_or((vec![], 0));
        let smsg = crate::model::Msg::decode(&shown).unwrap();
        let mut who: BTreeSet<Vec<u8>> = Default::default();
        let mut all_rec = true;
        if md.len() >= 68 {
            let dg = checkpoint_digest(
                shown_dom,
                md[..32].try_into().unwrap(),
                md[32..64].try_into().unwrap(),
                u32::from_be_bytes(md[64..68].try_into().unwrap()),
                &smsg.id(),
            );
            for s in md[68..].chunks_exact(65) {
                match recover(&dg, s) {
                    Some(a) => {
                        if svals.iter().any(|v| v[..] == a[..]) {
                            who.insert(a.to_vec());
                        }
                    }
                    None => all_rec = false,
                }
            }
        }
        let enough = sthr > 0 && who.len() >= sthr as usize;
        let got = ch.query(&ism, json!({"ism":{"verify":{"metadata":hexs(&md),"message":hexs(&shown)}}}));
        let yes = got.as_ref().map(|v| v["verified"] == true).unwrap_or(false);
        c.log(|| format!("step {step} domain {shown_dom} validators {} threshold {sthr} sigs {} mix {mix:?} distinct {} -> {got:?}", svals.len(), sigs.len(), who.len()));
        c.check(!yes || enough, "verified-below-threshold", || {
            format!("{} distinct enrolled signers, threshold {sthr}, mix {mix:?}", who.len())
        });
        if enough && clean && all_rec && tail == 0 {
            c.check(yes, "valid-refused", || format!("{} signers, threshold {sthr}: {got:?}", who.len()));
        }
        if clean && all_rec && conf.contains_key(&shown_dom) {
            c.check(got.is_ok(), "well-formed-errors", || format!("{got:?}"));
        }
        c.stat(if yes { "verified" } else { "below_threshold" }, 1);
        let diff = who.len() as i64 - sthr as i64;
        c.eval(format!("{}|{sthr}|{}|{mix:?}|{yes}|{}", svals.len(), who.len(), got.is_ok()), !mix.is_empty() || diff.abs() <= 1);
        // the advertised requirement is the enforced one
        for d in doms {
            let info = ch.query(&ism, json!({"ism":{"verify_info":{"message":hexs(crate::model::Msg{origin:d, ..m.clone()}.encode())}}}));
            let enr = ch.query(&ism, json!({"multisig_ism":{"enrolled_validators":{"domain":d}}}));
            match conf.get(&d) {
                Some((v, t)) => {
                    for x in [&info, &enr] {
                        let ok = x.as_ref().map(|x| x["threshold"].as_u64() == Some(*t as u64) && vlist(x).as_ref() == Some(v)).unwrap_or(false);
                        c.check(ok, "advertised", || format!("domain {d}: {x:?} configured {t} of {}", v.len()));
                    }
                }
                None => {
                    for x in [&info, &enr] {
                        let empty = x.as_ref().map(|x| vlist(x).map(|v| v.is_empty()).unwrap_or(false)).unwrap_or(true);
                        c.check(empty, "unset-advertised", || format!("domain {d} is not configured: {x:?}"));
                    }
                }
            }
        }
    }
}

fn vlist(v: &Value) -> Option<Vec<Vec<u8>>> {
    v["validators"].as_array()?.iter().map(unhex).collect()
}

fn config(c: &mut Case, ch: &crate::sim::Chain, owner: &str, ism: &str, keys: &[Key], conf: &mut BTreeMap<u32, (Vec<Vec<u8>>, u8)>, d: u32) {
    if c.rng.pct(15) && conf.contains_key(&d) {
        let r = ch.exec(owner, ism, &json!({"unset_domain":{"domain":d}}), &[]);
        if c.must(r, "unset-domain").is_some() {
            conf.remove(&d);
            c.stat("unset", 1);
        }
        return;
    }
    let n = c.rng.range(1, keys.len() as u64 - 2) as usize;
    let mut ks: Vec<&Key> = keys.iter().collect();
    c.rng.shuffle(&mut ks);
    let mut vals: Vec<Vec<u8>> = ks[..n].iter().map(|k| k.addr.to_vec()).collect();
    let mut thr = c.rng.range(1, n as u64) as u8;
    let mut valid = true;
    match c.rng.below(14) {
        0 => {
            thr = 0;
            valid = false
        }
        1 => {
            thr = c.rng.range(n as u64 + 1, (n as u64 + 200).min(255)) as u8;
            valid = false
        }
        2 => {
            let i = c.rng.idx(n);
            let l = c.rng.pick(&[0usize, 19, 21, 32]).clone();
            vals[i] = c.rng.bytes(l);
            valid = false
        }
        3 => {
            vals.clear();
            valid = false
        }
        4 => {
            // 257 validators: thresholds are one byte
            vals = (0..257).map(|_| c.rng.bytes(20)).collect();
            vals[0] = ks[0].addr.to_vec();
            vals[256] = ks[1].addr.to_vec();
            thr = c.rng.pick(&[1u8, 2, 255]).clone();
        }
        _ => {}
    }
    let msg = json!({"set_validators":{"domain":d,"threshold":thr,"validators":vals.iter().map(hexs).collect::<Vec<_>>()}});
    if c.rng.pct(15) {
        let r = ch.exec(&ch.user("mallory"), ism, &msg, &[]);
        c.check(r.is_err(), "unauthorised-config", || "stranger configured validators".into());
    }
    let before = ch.dump(ism);
    let r = ch.exec(owner, ism, &msg, &[]);
    if valid {
        if c.must(r, "set-validators").is_some() {
            conf.insert(d, (vals, thr));
        }
    } else {
        c.stat("invalid_config_refused", r.is_err() as u64);
        c.check(r.is_err(), "invalid-config-accepted", || format!("threshold {thr} of {} validators accepted", vals.len()));
        c.check(ch.dump(ism) == before, "invalid-config-state", || "state changed".into());
    }
}
