//! Message and metadata codecs: exactly the protocol's byte layouts, in both directions.
use crate::model::{keccak, Msg};
use crate::rng::Rng;
use crate::run::{Case, Prop};
use crate::sim::no_panic;
use cosmwasm_std::{Addr, HexBinary, Uint256};
use hpl_interface::types::{AggregateMetadata, IGPMetadata, MerkleRootMultisigIsmMetadata, Message, MessageIdMultisigIsmMetadata};
use hpl_interface::warp;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 4000000,
    thorough: 200000000,
    rule: "one judged encoding, decoding or round trip; nontrivial when the bytes have a variable part or are malformed; distinct by (codec, direction, lengths of the parts, malformation, outcome)",
    floors: &["message", "message_short_refused", "message_id", "multisig_metadata", "multisig_partial_signature", "merkle_root_metadata", "aggregate_decode", "aggregate_encode", "aggregate_bad_range_refused", "igp_metadata", "warp_message", "warp_short_refused", "empty_body", "long_parts"],
};

fn hb(v: impl AsRef<[u8]>) -> HexBinary {
    HexBinary::from(v.as_ref())
}

fn blob(r: &mut Rng) -> Vec<u8> {
    // more than 16 bits can count, now and then
    if r.below(1500) == 0 {
        let n = r.range(65_000, 140_000) as usize;
        let mut b = vec![r.next() as u8; n];
        for _ in 0..200 {
            let i = r.idx(n);
            b[i] = r.next() as u8;
        }
        return b;
    }
    let n = match r.below(5) {
        0 => 0,
        1 => r.below(4) as usize,
        2 => *r.pick(&[31usize, 32, 33, 64, 65, 66, 77, 130, 195]),
        _ => r.below(300) as usize,
    };
    r.bytes(n)
}

fn message(c: &mut Case) {
    let r = &mut c.rng;
    let m = Msg {
        version: r.next() as u8,
        nonce: r.dom(),
        origin: r.dom(),
        sender: r.word().try_into().unwrap(),
        dest: r.dom(),
        recipient: r.word().try_into().unwrap(),
        body: blob(r),
    };
    let raw = m.encode();
    let lib = Message {
        version: m.version,
        nonce: m.nonce,
        origin_domain: m.origin,
        sender: hb(m.sender),
        dest_domain: m.dest,
        recipient: hb(m.recipient),
        body: hb(&m.body),
    };
    let e = no_panic(|| HexBinary::from(lib.clone()));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(raw.as_slice()), "message-encode", || format!("{e:?} want {}", hex::encode(&raw)));
    let d = no_panic(|| Message::from(hb(&raw)));
    c.check(d.as_ref() == Ok(&lib), "message-decode", || format!("{d:?} want {lib:?}"));
    let i = no_panic(|| lib.id());
    c.check(i.as_ref().map(|v| v.as_slice()) == Ok(keccak(&[&raw]).as_slice()), "message-id", || format!("{i:?} of {}", hex::encode(&raw)));
    // one changed byte is another message with another id
    let mut alt = raw.clone();
    let k = c.rng.idx(alt.len());
    alt[k] ^= 1 << c.rng.below(8);
    let j = no_panic(|| {
        let m = Message::from(hb(&alt));
        (HexBinary::from(m.clone()), m.id())
    });
    c.check(j.as_ref().map(|v| v.0.as_slice() == alt && v.1.as_slice() == keccak(&[&alt])).unwrap_or(false), "message-altered", || format!("byte {k}: {j:?}"));
    c.stat("message", 1);
    c.stat("message_id", 1);
    if m.body.is_empty() {
        c.stat("empty_body", 1);
    }
    // too short for the header
    let n = c.rng.idx(77);
    let s = no_panic(|| Message::from(hb(&raw[..n])));
    if c.check(s.is_err(), "message-short", || format!("{n} bytes decoded to {s:?}")) {
        c.stat("message_short_refused", 1);
    }
    c.eval(format!("msg|{}|{n}", m.body.len()), true);
}

fn multisig(c: &mut Case) {
    let tree = c.rng.word();
    let root = c.rng.word();
    let idx = c.rng.dom();
    let n = c.rng.below(8) as usize;
    let sigs: Vec<Vec<u8>> = (0..n).map(|_| c.rng.bytes(65)).collect();
    let mut raw = tree.clone();
    raw.extend(&root);
    raw.extend(idx.to_be_bytes());
    for s in &sigs {
        raw.extend(s);
    }
    // the module's hook address may be given shorter than 32 bytes, and is then left-padded
    let cut = if tree[..12].iter().all(|b| *b == 0) && c.rng.bool() { 12 } else { 0 };
    let lib = MessageIdMultisigIsmMetadata {
        origin_merkle_tree: hb(&tree[cut..]),
        merkle_root: hb(&root),
        merkle_index: hb(idx.to_be_bytes()),
        signatures: sigs.iter().map(hb).collect(),
    };
    let e = no_panic(|| HexBinary::from(lib.clone()));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(raw.as_slice()), "multisig-encode", || format!("{e:?} want {}", hex::encode(&raw)));
    let part = c.rng.below(65) as usize;
    let mut long = raw.clone();
    long.extend(c.rng.bytes(part));
    let full = MessageIdMultisigIsmMetadata { origin_merkle_tree: hb(&tree), ..lib };
    for (r, w) in [(&raw, "exact"), (&long, "partial")] {
        let d = no_panic(|| {
            let m = MessageIdMultisigIsmMetadata::from(hb(r));
            (m.merkle_index(), m)
        });
        // an incomplete signature at the end may be dropped or refused, never made up
        let ok = match &d {
            Ok((i, m)) => *i == idx && *m == full,
            Err(_) => w == "partial" && part > 0,
        };
        c.check(ok, "multisig-decode", || format!("{w} {part}: {d:?} want {full:?}"));
    }
    c.stat("multisig_metadata", 1);
    if part > 0 {
        c.stat("multisig_partial_signature", 1);
    }
    let n2 = c.rng.idx(68);
    let s = no_panic(|| MessageIdMultisigIsmMetadata::from(hb(&raw[..n2])));
    c.check(s.is_err(), "multisig-short", || format!("{n2} bytes decoded to {s:?}"));
    c.eval(format!("multisig|{n}|{part}|{cut}|{n2}"), true);
}

fn merkle_root(c: &mut Case) {
    let (mb, id, proof) = (c.rng.word(), c.rng.word(), c.rng.bytes(1024));
    let idx = c.rng.dom();
    let n = c.rng.below(6) as usize;
    let part = if c.rng.pct(30) { c.rng.range(1, 64) as usize } else { 0 };
    let sigs = c.rng.bytes(n * 65 + part);
    let raw = [mb.as_slice(), &idx.to_be_bytes(), &id, &proof, &sigs].concat();
    let lib = MerkleRootMultisigIsmMetadata { origin_mailbox: hb(&mb), checkpoint_index: idx, message_id: hb(&id), proof: hb(&proof), signatures: hb(&sigs) };
    let e = no_panic(|| HexBinary::from(lib.clone()));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(raw.as_slice()), "merkleroot-encode", || format!("{e:?}"));
    let d = no_panic(|| MerkleRootMultisigIsmMetadata::from(hb(&raw)));
    c.check(d.as_ref() == Ok(&lib), "merkleroot-decode", || format!("{d:?}"));
    let l = no_panic(|| lib.signatures_len());
    c.check(matches!(&l, Ok(Ok(k)) if part == 0 && *k == n) || matches!(&l, Ok(Err(_)) if part > 0), "merkleroot-count", || format!("{l:?} of {} bytes", sigs.len()));
    if n > 0 {
        let k = c.rng.idx(n);
        let s = no_panic(|| lib.signature_at(k));
        c.check(s.as_ref().map(|v| v.as_slice()) == Ok(&sigs[k * 65..(k + 1) * 65]), "merkleroot-signature", || format!("{k}: {s:?}"));
    }
    let s = no_panic(|| lib.signature_at(n));
    c.check(s.is_err(), "merkleroot-signature-beyond", || format!("{n}: {s:?}"));
    c.stat("merkle_root_metadata", 1);
    c.eval(format!("root|{n}|{part}"), true);
}

fn aggregate(c: &mut Case) {
    let n = c.rng.below(6) as usize;
    let mut addrs: Vec<String> = (0..n).map(|i| format!("{}{i}", hex::encode(c.rng.bytes(3)))).collect();
    c.rng.shuffle(&mut addrs);
    let parts: Vec<Vec<u8>> = (0..n).map(|_| blob(&mut c.rng)).collect();
    if parts.iter().any(|p| p.len() > 65535) {
        c.stat("long_parts", 1);
    }
    // encoding lists the modules by address, their slices back to back
    let set: Vec<(Addr, HexBinary)> = addrs.iter().zip(&parts).map(|(a, p)| (Addr::unchecked(a), hb(p))).collect();
    let mut by: Vec<usize> = (0..n).collect();
    by.sort_by(|a, b| addrs[*a].cmp(&addrs[*b]));
    let mut head = vec![];
    let mut tail: Vec<u8> = vec![];
    for k in &by {
        let s = n * 8 + tail.len();
        head.extend((s as u32).to_be_bytes());
        head.extend(((s + parts[*k].len()) as u32).to_be_bytes());
        tail.extend(&parts[*k]);
    }
    head.extend(&tail);
    let e = no_panic(|| HexBinary::from(AggregateMetadata::new(set.clone())));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(head.as_slice()), "aggregate-encode", || format!("{e:?} want {}", hex::encode(&head)));
    c.stat("aggregate_encode", 1);
    // decoding: any ranges, in the order given
    let data = blob(&mut c.rng);
    let total = n * 8 + data.len();
    let mut raw = vec![];
    let mut want = vec![];
    let mut bad = false;
    for _ in 0..n {
        let (s, t) = match c.rng.below(12) {
            0 => (total as u32, total as u32),
            1 if c.rng.pct(40) => (0, total as u32 + 1 + c.rng.below(5) as u32),
            2 if c.rng.pct(40) => (u32::MAX, u32::MAX),
            3 if c.rng.pct(40) && total > 0 => (total as u32, total as u32 - 1),
            _ => {
                let a = c.rng.below(total as u64 + 1) as u32;
                let b = c.rng.below(total as u64 + 1) as u32;
                (a.min(b), a.max(b))
            }
        };
        bad |= s > t || t as usize > total;
        raw.extend(s.to_be_bytes());
        raw.extend(t.to_be_bytes());
        want.push((s as usize, t as usize));
    }
    raw.extend(&data);
    let l: Vec<Addr> = addrs.iter().map(Addr::unchecked).collect();
    let d = no_panic(|| AggregateMetadata::from_hex(hb(&raw), l.clone()).collect::<Vec<_>>());
    if bad {
        if c.check(d.is_err(), "aggregate-bad-range", || format!("{want:?} of {total}: {d:?}")) {
            c.stat("aggregate_bad_range_refused", 1);
        }
    } else {
        let mut w: Vec<(String, Vec<u8>)> = addrs.iter().zip(&want).map(|(a, (s, t))| (a.clone(), raw[*s..*t].to_vec())).collect();
        w.sort();
        let got = d.map(|v| {
            let mut v: Vec<(String, Vec<u8>)> = v.into_iter().map(|(a, h)| (a.to_string(), h.to_vec())).collect();
            v.sort();
            v
        });
        c.check(got.as_ref() == Ok(&w), "aggregate-decode", || format!("{got:?} want {w:?}"));
        c.stat("aggregate_decode", 1);
    }
    // and what was encoded decodes to what was meant
    let sorted: Vec<Addr> = by.iter().map(|k| Addr::unchecked(&addrs[*k])).collect();
    let back = no_panic(|| AggregateMetadata::from_hex(hb(&head), sorted).map(|(a, h)| (a.to_string(), h.to_vec())).collect::<Vec<_>>());
    let w: Vec<(String, Vec<u8>)> = by.iter().map(|k| (addrs[*k].clone(), parts[*k].clone())).collect();
    c.check(back.as_ref() == Ok(&w), "aggregate-round-trip", || format!("{back:?} want {w:?}"));
    if n > 0 {
        let k = c.rng.idx(n * 8);
        let s = no_panic(|| AggregateMetadata::from_hex(hb(&raw[..k]), l).collect::<Vec<_>>());
        c.check(s.is_err(), "aggregate-short", || format!("{k} of {} header bytes: {s:?}", n * 8));
    }
    c.eval(format!("agg|{n}|{bad}|{}", data.len()), n > 0);
}

fn igp(c: &mut Case) {
    let gas = c.rng.word();
    let n = *c.rng.pick(&[0usize, 1, 19, 20, 21, 32, 33, 64]);
    let refund = c.rng.bytes(n);
    let raw = [gas.as_slice(), &refund].concat();
    let lib = IGPMetadata { gas_limit: Uint256::from_be_bytes(gas.clone().try_into().unwrap()), refund_address: hb(&refund) };
    let e = no_panic(|| HexBinary::from(lib.clone()));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(raw.as_slice()), "igp-encode", || format!("{e:?} want {}", hex::encode(&raw)));
    let d = no_panic(|| IGPMetadata::from(hb(&raw)));
    c.check(d.as_ref() == Ok(&lib), "igp-decode", || format!("{d:?} want {lib:?}"));
    let k = c.rng.idx(32);
    let s = no_panic(|| IGPMetadata::from(hb(&raw[..k])));
    c.check(s.is_err(), "igp-short", || format!("{k}: {s:?}"));
    c.stat("igp_metadata", 1);
    c.eval(format!("igp|{n}|{k}"), true);
}

fn warp_msg(c: &mut Case) {
    let (rec, amount, md) = (c.rng.word(), c.rng.word(), blob(&mut c.rng));
    let raw = [rec.as_slice(), &amount, &md].concat();
    let lib = warp::Message { recipient: hb(&rec), amount: Uint256::from_be_bytes(amount.clone().try_into().unwrap()), metadata: hb(&md) };
    let e = no_panic(|| HexBinary::from(lib.clone()));
    c.check(e.as_ref().map(|v| v.as_slice()) == Ok(raw.as_slice()), "warp-encode", || format!("{e:?} want {}", hex::encode(&raw)));
    let d = no_panic(|| warp::Message::from(hb(&raw)));
    c.check(d.as_ref() == Ok(&lib), "warp-decode", || format!("{d:?} want {lib:?}"));
    c.stat("warp_message", 1);
    let k = c.rng.idx(64);
    let s = no_panic(|| warp::Message::from(hb(&raw[..k])));
    if c.check(s.is_err(), "warp-short", || format!("{k}: {s:?}")) {
        c.stat("warp_short_refused", 1);
    }
    c.eval(format!("warp|{}|{k}", md.len()), true);
}

fn run(c: &mut Case) {
    match c.rng.below(8) {
        0 | 1 => message(c),
        2 => multisig(c),
        3 => merkle_root(c),
        4 | 5 => aggregate(c),
        6 => igp(c),
        _ => warp_msg(c),
    }
}
