//! Addresses and hashes of the public library against independent implementations.
use crate::model::{eth_signed, keccak, pad32, Key};
use crate::run::{Case, Prop};
use crate::sim::no_panic;
use cosmwasm_std::HexBinary;
use hpl_interface::types;

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 1600000,
    thorough: 80000000,
    rule: "one judged address conversion or hash; nontrivial for every one; distinct by (function, prefix, length, leading zero bytes, corruption, outcome)",
    floors: &["round_trip_20", "round_trip_32", "padded_20", "eleven_zeros", "bad_length_refused", "corrupt_refused", "bad_prefix_refused", "other_chain", "eth_addr", "eth_hash", "keccak", "cosmos_addr", "mixed_case_refused"],
};

// an implementation of bech32 (BIP 173) of our own
const CS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(v: impl Iterator<Item = u8>) -> u32 {
    let mut c: u32 = 1;
    for x in v {
        let t = c >> 25;
        c = (c & 0x1ffffff) << 5 ^ x as u32;
        for (i, g) in [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3].iter().enumerate() {
            if t >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}
fn encode(hrp: &str, raw: &[u8]) -> String {
    let mut d = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in raw {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            d.push((acc >> bits & 31) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        d.push((acc << (5 - bits) & 31) as u8);
    }
    let h = hrp.as_bytes();
    let ex: Vec<u8> = h.iter().map(|b| b >> 5).chain([0]).chain(h.iter().map(|b| b & 31)).collect();
    let p = polymod(ex.iter().copied().chain(d.iter().copied()).chain([0; 6])) ^ 1;
    let mut s = format!("{hrp}1");
    for x in d.iter().copied().chain((0..6).map(|i| (p >> (5 * (5 - i)) & 31) as u8)) {
        s.push(CS[x as usize] as char);
    }
    s
}

fn run(c: &mut Case) {
    let hrp = *c.rng.pick(&["osmo", "neutron", "inj", "cosmos", "terra", "dual", "a", "x1y", "averyverylongprefixindeed"]);
    match c.rng.below(10) {
        0..=4 => {
            let long = c.rng.bool();
            let mut raw = c.rng.bytes(if long { 32 } else { 20 });
            let z = if c.rng.pct(50) { *c.rng.pick(&[1usize, 4, 8, 10, 11, 12, 13, 15, 16, 19]) } else { 0 };
            raw[..z].fill(0);
            if c.rng.pct(10) {
                let k = c.rng.idx(raw.len());
                raw[k..].fill(0);
            }
            let lead = raw.iter().take_while(|b| **b == 0).count();
            // a 32 bytes account whose first 12 bytes are zero cannot be told from a 20 bytes one
            let canon = if long && lead >= 12 { raw[12..].to_vec() } else { raw.clone() };
            let s = encode(hrp, &canon);
            let e = no_panic(|| types::bech32_encode(hrp, &raw));
            c.check(matches!(&e, Ok(Ok(a)) if a.as_str() == s), "encode", || format!("{hrp} {}: {e:?} want {s}", hex::encode(&raw)));
            let d = no_panic(|| types::bech32_decode(&s));
            c.check(matches!(&d, Ok(Ok(a)) if *a == canon), "decode", || format!("{s}: {d:?} want {}", hex::encode(&canon)));
            let h = no_panic(|| types::bech32_to_h256(&s));
            c.check(matches!(&h, Ok(Ok(a)) if *a == pad32(&canon)), "to-h256", || format!("{s}: {h:?}"));
            // and back, on this chain and on another one
            let p = pad32(&canon);
            let b = no_panic(|| types::bech32_encode(hrp, &p));
            c.check(matches!(&b, Ok(Ok(a)) if a.as_str() == s), "round-trip", || format!("{s}: {b:?}"));
            let o = no_panic(|| types::bech32_encode("other", &p));
            c.check(matches!(&o, Ok(Ok(a)) if a.as_str() == encode("other", &canon)), "other-chain", || format!("{s}: {o:?}"));
            c.stat("other_chain", 1);
            c.stat(if canon.len() == 32 { "round_trip_32" } else { "round_trip_20" }, 1);
            if long && lead >= 12 {
                c.stat("padded_20", 1);
            }
            if long && lead == 11 {
                c.stat("eleven_zeros", 1);
            }
            // one wrong character
            let mut t: Vec<u8> = s.clone().into_bytes();
            let k = c.rng.range(hrp.len() as u64 + 1, t.len() as u64 - 1) as usize;
            let old = t[k];
            while t[k] == old {
                t[k] = *c.rng.pick(CS);
            }
            let t = String::from_utf8(t).unwrap();
            let d = no_panic(|| types::bech32_to_h256(&t));
            if c.check(!matches!(d, Ok(Ok(_))), "corrupt-accepted", || format!("{t} (was {s}): {d:?}")) {
                c.stat("corrupt_refused", 1);
            }
            let mut u = s.clone().into_bytes();
            if let Some(k) = (hrp.len() + 1..u.len()).find(|k| u[*k].is_ascii_lowercase()) {
                u[k] = u[k].to_ascii_uppercase();
                let u = String::from_utf8(u).unwrap();
                let d = no_panic(|| types::bech32_to_h256(&u));
                if c.check(!matches!(d, Ok(Ok(_))), "mixed-case-accepted", || format!("{u}: {d:?}")) {
                    c.stat("mixed_case_refused", 1);
                }
            }
            c.eval(format!("addr|{hrp}|{long}|{lead}"), true);
        }
        5 => {
            let n = loop {
                let n = c.rng.below(70) as usize;
                if n != 20 && n != 32 {
                    break n;
                }
            };
            let raw = c.rng.bytes(n);
            let e = no_panic(|| types::bech32_encode(hrp, &raw));
            if c.check(!matches!(e, Ok(Ok(_))), "length-accepted", || format!("{n} bytes: {e:?}")) {
                c.stat("bad_length_refused", 1);
            }
            let bad = *c.rng.pick(&["", "Osmo", "os mo", "osmö", "osmo\u{7f}"]);
            let e = no_panic(|| types::bech32_encode(bad, &c.rng.bytes(20)));
            // an upper-case letter in an otherwise lower-case prefix, or no printable prefix at all
            if c.check(!matches!(e, Ok(Ok(_))), "prefix-accepted", || format!("{bad:?}: {e:?}")) {
                c.stat("bad_prefix_refused", 1);
            }
            c.eval(format!("bad|{n}|{bad}"), true);
        }
        6 | 7 => {
            let n = *c.rng.pick(&[0usize, 1, 9, 10, 31, 32, 33, 64, 99, 100, 101, 135, 136, 137, 999, 1000]);
            let b = c.rng.bytes(n);
            let k = no_panic(|| types::keccak256_hash(&b));
            c.check(matches!(&k, Ok(h) if h.as_slice() == keccak(&[&b])), "keccak", || format!("{}: {k:?}", hex::encode(&b)));
            c.stat("keccak", 1);
            let want = keccak(&[format!("\x19Ethereum Signed Message:\n{n}").as_bytes(), &b]);
            let e = no_panic(|| types::eth_hash(HexBinary::from(b.as_slice())));
            c.check(matches!(&e, Ok(Ok(h)) if h.as_slice() == want), "eth-hash", || format!("{n} bytes: {e:?}"));
            if n == 32 {
                let h: [u8; 32] = b.clone().try_into().unwrap();
                c.check(eth_signed(&h) == want, "model", || "reference models disagree".into());
            }
            c.stat("eth_hash", 1);
            let s = no_panic(|| types::sha256_digest(&b));
            c.check(matches!(&s, Ok(Ok(h)) if *h == crate::sim::sha(&b)), "sha256", || format!("{s:?}"));
            use ripemd::Digest;
            let w: [u8; 20] = ripemd::Ripemd160::digest(&b).into();
            let r = no_panic(|| types::ripemd160_digest(&b));
            c.check(matches!(&r, Ok(Ok(h)) if *h == w), "ripemd", || format!("{r:?}"));
            c.eval(format!("hash|{n}|{}", b.first().copied().unwrap_or(0)), true);
        }
        _ => {
            let seed = c.rng.bytes(16);
            let k = Key::new(&seed);
            let vk = k.sk.verifying_key();
            let full = vk.to_encoded_point(false).as_bytes().to_vec();
            let a = no_panic(|| types::eth_addr(HexBinary::from(full.as_slice())));
            c.check(matches!(&a, Ok(Ok(h)) if h.as_slice() == k.addr), "eth-addr", || format!("{a:?} want {}", hex::encode(k.addr)));
            c.stat("eth_addr", 1);
            let comp = vk.to_encoded_point(true).as_bytes().to_vec();
            use ripemd::Digest;
            let w: [u8; 20] = ripemd::Ripemd160::digest(crate::sim::sha(&comp)).into();
            let p = no_panic(|| types::pub_to_addr(HexBinary::from(comp.as_slice())));
            c.check(matches!(&p, Ok(Ok(h)) if h.as_slice() == w), "cosmos-addr", || format!("{p:?}"));
            c.stat("cosmos_addr", 1);
            c.eval(format!("key|{}", hex::encode(&k.addr[..2])), true);
        }
    }
}
