//! The merkle tree library: insertion, root and inclusion proofs at every size up to the full tree.
use crate::model::{keccak, zeros, Tree};
use crate::run::{Case, Prop};
use crate::sim::no_panic;
use cosmwasm_std::HexBinary;
use hpl_interface::types::MerkleTree;

pub const PROP: Prop = Prop {
    id: "C31",
    run,
    quick: 40000,
    thorough: 2000000,
    rule: "one judged insertion, root or inclusion proof; nontrivial beyond the first leaf; distinct by (operation, bit pattern of the count, position in the tree, alteration, outcome)",
    floors: &["from_empty", "from_deep", "carry", "proof", "wrong_leaf_differs", "wrong_index_differs", "wrong_sibling_differs", "full_refused", "last_leaf", "zero_hashes"],
};

fn arr(b: &[[u8; 32]; 32]) -> [HexBinary; 32] {
    b.iter().map(|x| HexBinary::from(x.as_slice())).collect::<Vec<_>>().try_into().unwrap()
}

fn check_state(c: &mut Case, lib: &MerkleTree, m: &Tree, what: &str) {
    let r = no_panic(|| lib.root());
    c.check(matches!(&r, Ok(Ok(h)) if h.as_slice() == m.root()), "root", || format!("{what} count {}: {r:?} want {}", m.count, hex::encode(m.root())));
    c.check(lib.count == m.count as u128, "count", || format!("{what}: {} want {}", lib.count, m.count));
    // entries of the branch at set bits of the count are what the root depends on
    for i in 0..32 {
        if m.count >> i & 1 == 1 {
            c.check(lib.branch[i].as_slice() == m.branch[i], "branch", || format!("{what} count {} level {i}", m.count));
        }
    }
}

fn run(c: &mut Case) {
    let z = zeros();
    if c.rng.pct(60) {
        // a real tree from scratch, with proofs
        let mut lib = MerkleTree::default();
        let mut m = Tree::new();
        check_state(c, &lib, &m, "empty");
        let n = if c.rng.pct(10) { c.rng.range(1, 140) } else { c.rng.range(1, 20) };
        for _ in 0..n {
            let leaf: [u8; 32] = c.rng.word().try_into().unwrap();
            let r = no_panic(|| {
                let mut t = lib.clone();
                t.insert(HexBinary::from(leaf.as_slice())).map(|_| t)
            });
            m.insert(leaf);
            match r {
                Ok(Ok(t)) => lib = t,
                x => {
                    c.viol("insert-refused", format!("count {}: {x:?}", m.count - 1));
                    return;
                }
            }
            check_state(c, &lib, &m, "inserted");
        }
        c.stat("from_empty", 1);
        let root = Tree::full_root(&m.leaves);
        c.check(root == m.root(), "model", || "reference models disagree".into());
        for _ in 0..3 {
            let i = c.rng.idx(m.leaves.len());
            let p = Tree::proof(&m.leaves, i);
            let f = |leaf: &[u8; 32], p: &[[u8; 32]; 32], i: u128| no_panic(|| MerkleTree::branch_root(HexBinary::from(leaf.as_slice()), arr(p), i));
            let g = f(&m.leaves[i], &p, i as u128);
            c.check(matches!(&g, Ok(h) if h.as_slice() == root), "proof", || format!("leaf {i} of {n}: {g:?} want {}", hex::encode(root)));
            c.stat("proof", 1);
            let mut leaf = m.leaves[i];
            leaf[c.rng.idx(32)] ^= 1 << c.rng.below(8);
            let g = f(&leaf, &p, i as u128);
            c.check(!matches!(&g, Ok(h) if h.as_slice() == root), "wrong-leaf", || format!("leaf {i} of {n} altered still proves"));
            c.stat("wrong_leaf_differs", 1);
            let lvl = c.rng.idx(32);
            let mut q = p;
            q[lvl][c.rng.idx(32)] ^= 1 << c.rng.below(8);
            let g = f(&m.leaves[i], &q, i as u128);
            c.check(!matches!(&g, Ok(h) if h.as_slice() == root), "wrong-sibling", || format!("leaf {i} of {n} level {lvl}"));
            c.stat("wrong_sibling_differs", 1);
            // another position only if the two subtrees there are not the same
            let mut cur = m.leaves[i];
            let mut diff = [false; 32];
            for (k, s) in p.iter().enumerate() {
                diff[k] = cur != *s;
                cur = if i >> k & 1 == 1 { keccak(&[s, &cur]) } else { keccak(&[&cur, s]) };
            }
            if diff[lvl] {
                let g = f(&m.leaves[i], &p, (i as u128) ^ 1 << lvl);
                c.check(!matches!(&g, Ok(h) if h.as_slice() == root), "wrong-index", || format!("leaf {i} of {n} claimed at {}", i ^ 1 << lvl));
                c.stat("wrong_index_differs", 1);
            }
            c.eval(format!("proof|{n}|{i}|{lvl}"), n > 1);
        }
        let k = no_panic(MerkleTree::zeroes);
        c.check(matches!(&k, Ok(Ok(l)) if l.iter().zip(&z).all(|(a, b)| a == b)), "zero-hashes", || "differ from the hashes of empty subtrees".into());
        c.stat("zero_hashes", 1);
    } else {
        // an arbitrary later state
        let full = (1u64 << 32) - 1;
        let count = match c.rng.below(6) {
            0 => full - c.rng.below(3),
            1 => (1u64 << c.rng.range(1, 31)) - 1,
            2 => (1u64 << c.rng.range(1, 31)) - 2,
            3 => (c.rng.next() as u32 as u64) & !(u64::MAX << c.rng.range(1, 32)),
            _ => (c.rng.next() as u32 as u64).min(full),
        };
        let mut m = Tree::new();
        m.count = count;
        for b in m.branch.iter_mut() {
            *b = c.rng.word().try_into().unwrap();
        }
        let mut lib = MerkleTree { branch: arr(&m.branch), count: count as u128 };
        check_state(c, &lib, &m, "start");
        for _ in 0..4 {
            let leaf: [u8; 32] = c.rng.word().try_into().unwrap();
            let before = m.count;
            let r = no_panic(|| {
                let mut t = lib.clone();
                t.insert(HexBinary::from(leaf.as_slice())).map(|_| t)
            });
            let ok = m.insert(leaf);
            c.check(ok == matches!(r, Ok(Ok(_))), "capacity", || format!("count {before}: {:?}", r.as_ref().map(|x| x.is_ok())));
            match (ok, r) {
                (true, Ok(Ok(t))) => lib = t,
                (false, _) => {
                    c.stat("full_refused", 1);
                }
                _ => return,
            }
            if ok && m.count == full {
                c.stat("last_leaf", 1);
            }
            if before & 1 == 1 {
                c.stat("carry", 1);
            }
            check_state(c, &lib, &m, "inserted");
            c.eval(format!("insert|{before}|{ok}"), true);
        }
        c.stat("from_deep", 1);
    }
}
