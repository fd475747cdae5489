//! Independent reference models (written from the Hyperlane specification).
use sha3::{Digest, Keccak256};

pub fn keccak(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Keccak256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Msg {
    pub version: u8,
    pub nonce: u32,
    pub origin: u32,
    pub sender: [u8; 32],
    pub dest: u32,
    pub recipient: [u8; 32],
    pub body: Vec<u8>,
}

impl Msg {
    pub fn encode(&self) -> Vec<u8> {
        let mut o = vec![self.version];
        o.extend(self.nonce.to_be_bytes());
        o.extend(self.origin.to_be_bytes());
        o.extend(self.sender);
        o.extend(self.dest.to_be_bytes());
        o.extend(self.recipient);
        o.extend(&self.body);
        o
    }
    pub fn decode(b: &[u8]) -> Option<Msg> {
        if b.len() < 77 {
            return None;
        }
        let u = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap());
        Some(Msg {
            version: b[0],
            nonce: u(1),
            origin: u(5),
            sender: b[9..41].try_into().unwrap(),
            dest: u(41),
            recipient: b[45..77].try_into().unwrap(),
            body: b[77..].to_vec(),
        })
    }
    pub fn id(&self) -> [u8; 32] {
        keccak(&[&self.encode()])
    }
}

pub fn pad32(raw: &[u8]) -> [u8; 32] {
    let mut o = [0u8; 32];
    o[32 - raw.len()..].copy_from_slice(raw);
    o
}

/// address bytes denoted by a 32-byte hyperlane address on a cosmos chain
pub fn unpad(w: &[u8]) -> Vec<u8> {
    if w.len() == 32 && w[..12].iter().all(|b| *b == 0) {
        w[12..].to_vec()
    } else {
        w.to_vec()
    }
}

/// depth-32 incremental merkle tree, kept as plain leaves plus branch
#[derive(Clone)]
pub struct Tree {
    pub leaves: Vec<[u8; 32]>,
    pub branch: [[u8; 32]; 32],
    pub count: u64,
}

pub fn zeros() -> [[u8; 32]; 33] {
    let mut z = [[0u8; 32]; 33];
    for i in 1..33 {
        z[i] = keccak(&[&z[i - 1], &z[i - 1]]);
    }
    z
}

impl Tree {
    pub fn new() -> Self {
        Tree { leaves: vec![], branch: [[0; 32]; 32], count: 0 }
    }
    pub fn insert(&mut self, leaf: [u8; 32]) -> bool {
        if self.count >= (1u64 << 32) - 1 {
            return false;
        }
        self.leaves.push(leaf);
        self.count += 1;
        let mut size = self.count;
        let mut node = leaf;
        for i in 0..32 {
            if size & 1 == 1 {
                self.branch[i] = node;
                return true;
            }
            node = keccak(&[&self.branch[i], &node]);
            size >>= 1;
        }
        false
    }
    /// root from the branch, per specification
    pub fn root(&self) -> [u8; 32] {
        let z = zeros();
        let mut cur = [0u8; 32];
        for i in 0..32 {
            cur = if (self.count >> i) & 1 == 1 {
                keccak(&[&self.branch[i], &cur])
            } else {
                keccak(&[&cur, &z[i]])
            };
        }
        cur
    }
    /// root recomputed bottom-up over all leaves (a second, structurally different oracle)
    pub fn full_root(leaves: &[[u8; 32]]) -> [u8; 32] {
        let z = zeros();
        let mut level: Vec<[u8; 32]> = leaves.to_vec();
        for zi in z.iter().take(32) {
            let mut next = Vec::with_capacity(level.len() / 2 + 1);
            for p in level.chunks(2) {
                let r = if p.len() == 2 { p[1] } else { *zi };
                next.push(keccak(&[&p[0], &r]));
            }
            level = next;
        }
        level.first().copied().unwrap_or(z[32])
    }
    pub fn proof(leaves: &[[u8; 32]], mut idx: usize) -> [[u8; 32]; 32] {
        let z = zeros();
        let mut out = [[0u8; 32]; 32];
        let mut level: Vec<[u8; 32]> = leaves.to_vec();
        for i in 0..32 {
            let sib = idx ^ 1;
            out[i] = level.get(sib).copied().unwrap_or(z[i]);
            let mut next = vec![];
            for p in level.chunks(2) {
                let r = if p.len() == 2 { p[1] } else { z[i] };
                next.push(keccak(&[&p[0], &r]));
            }
            level = next;
            idx >>= 1;
        }
        out
    }
}

// ---- checkpoint digest and signatures
pub fn eth_signed(h: &[u8; 32]) -> [u8; 32] {
    keccak(&[b"\x19Ethereum Signed Message:\n32", h])
}

pub fn checkpoint_digest(origin: u32, tree_addr: &[u8; 32], root: &[u8; 32], index: u32, id: &[u8; 32]) -> [u8; 32] {
    let dh = keccak(&[&origin.to_be_bytes(), tree_addr, b"HYPERLANE"]);
    eth_signed(&keccak(&[&dh, root, &index.to_be_bytes(), id]))
}

pub fn announce_digest(domain: u32, mailbox: &[u8], location: &str) -> [u8; 32] {
    let dh = keccak(&[&domain.to_be_bytes(), &pad32(mailbox), b"HYPERLANE_ANNOUNCEMENT"]);
    eth_signed(&keccak(&[&dh, location.as_bytes()]))
}

#[derive(Clone)]
pub struct Key {
    pub sk: k256::ecdsa::SigningKey,
    pub addr: [u8; 20],
}

impl Key {
    pub fn new(seed: &[u8]) -> Key {
        let mut s = crate::sim::sha(seed);
        loop {
            if let Ok(sk) = k256::ecdsa::SigningKey::from_slice(&s) {
                let p = sk.verifying_key().to_encoded_point(false);
                let h = keccak(&[&p.as_bytes()[1..]]);
                return Key { sk, addr: h[12..].try_into().unwrap() };
            }
            s = crate::sim::sha(&s);
        }
    }
    pub fn sign(&self, digest: &[u8; 32]) -> Vec<u8> {
        let (s, r) = self.sk.sign_prehash_recoverable(digest).unwrap();
        let mut o = s.to_bytes().to_vec();
        o.push(27 + r.to_byte());
        o
    }
    /// the malleated twin of a signature: (r, n-s, v^1)
    pub fn sign_high_s(&self, digest: &[u8; 32]) -> Vec<u8> {
        let o = self.sign(digest);
        let s = k256::ecdsa::Signature::from_slice(&o[..64]).unwrap();
        let (r, sv) = (s.r(), s.s());
        let neg = -*sv;
        let s2 = k256::ecdsa::Signature::from_scalars(r.to_bytes(), neg.to_bytes()).unwrap();
        let mut out = s2.to_bytes().to_vec();
        out.push(if o[64] == 27 { 28 } else { 27 });
        out
    }
}

/// independent recovery: the signer of a 65-byte signature, if it is well-formed (v in {27,28})
pub fn recover(digest: &[u8; 32], sig: &[u8]) -> Option<[u8; 20]> {
    if sig.len() != 65 || !(27..=28).contains(&sig[64]) {
        return None;
    }
    let s = k256::ecdsa::Signature::from_slice(&sig[..64]).ok()?;
    let (s, mut id) = match s.normalize_s() {
        Some(n) => (n, sig[64] - 27 ^ 1),
        None => (s, sig[64] - 27),
    };
    id &= 1;
    let k = k256::ecdsa::VerifyingKey::recover_from_prehash(
        digest,
        &s,
        k256::ecdsa::RecoveryId::from_byte(id)?,
    )
    .ok()?;
    let p = k.to_encoded_point(false);
    Some(keccak(&[&p.as_bytes()[1..]])[12..].try_into().unwrap())
}

// ---- 256/512-bit arithmetic for the gas formula
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Big(pub Vec<u32>); // little endian

impl Big {
    pub fn from_u128(v: u128) -> Big {
        Big((0..4).map(|i| (v >> (32 * i)) as u32).collect()).trim()
    }
    pub fn from_be(b: &[u8]) -> Big {
        let mut v = vec![];
        for c in b.rchunks(4) {
            let mut x = 0u32;
            for y in c {
                x = x << 8 | *y as u32;
            }
            v.push(x);
        }
        Big(v).trim()
    }
    fn trim(mut self) -> Big {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() * 32 - x.leading_zeros() as usize,
        }
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut r = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, b) in o.0.iter().enumerate() {
                let t = r[i + j] + *a as u64 * *b as u64 + c;
                r[i + j] = t & 0xffff_ffff;
                c = t >> 32;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                let t = r[k] + c;
                r[k] = t & 0xffff_ffff;
                c = t >> 32;
                k += 1;
            }
        }
        Big(r.into_iter().map(|x| x as u32).collect()).trim()
    }
    pub fn div_u64(&self, d: u64) -> Big {
        let mut r: u128 = 0;
        let mut out = vec![0u32; self.0.len()];
        for i in (0..self.0.len()).rev() {
            let cur = r << 32 | self.0[i] as u128;
            out[i] = (cur / d as u128) as u32;
            r = cur % d as u128;
        }
        Big(out).trim()
    }
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut cur = self.clone();
        let mut parts = vec![];
        while !cur.is_zero() {
            let q = cur.div_u64(1_000_000_000);
            let mut low: u64 = 0;
            // remainder = cur - q*1e9, only low limb needed modulo 2^64
            let qm = q.mul(&Big::from_u128(1_000_000_000));
            let lo = |b: &Big| b.0.first().copied().unwrap_or(0) as u64 | (b.0.get(1).copied().unwrap_or(0) as u64) << 32;
            low = low.wrapping_add(lo(&cur).wrapping_sub(lo(&qm)));
            parts.push(low);
            cur = q;
        }
        let mut s = parts.pop().unwrap().to_string();
        while let Some(p) = parts.pop() {
            s += &format!("{p:09}");
        }
        s
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.bits() > 128 {
            return None;
        }
        let mut v = 0u128;
        for (i, x) in self.0.iter().enumerate() {
            v |= (*x as u128) << (32 * i);
        }
        Some(v)
    }
}

/// floor(gas * price * rate / 10^10); `.1` says whether the 256-bit intermediates fit
pub fn gas_price(gas: &Big, price: u128, rate: u128) -> (Big, bool) {
    let a = gas.mul(&Big::from_u128(price));
    let b = a.mul(&Big::from_u128(rate));
    (b.div_u64(10_000_000_000), a.bits() <= 256 && b.bits() <= 256)
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn dec() {
        assert_eq!(Big::from_u128(u128::MAX).dec(), u128::MAX.to_string());
        assert_eq!(Big::from_u128(1_000_000_000).dec(), "1000000000");
    }
}
