use crate::related;
use vmon::{hex, Case, Mon};
use vref::hash::sha256;
use witnet_crypto::hash::{calculate_sha256, Sha256, EMPTY_SHA256};
use witnet_crypto::merkle::{
    merkle_tree_root, sha256_concat, FullMerkleTree, InclusionProof, ProgressiveMerkleTree,
};

type H = [u8; 32];

pub fn cat(a: &H, b: &H) -> H {
    sha256(&[&a[..], &b[..]].concat())
}

/// The documented tree: layer by layer, an unpaired last node is promoted.
fn layers(leaves: &[H]) -> Vec<Vec<H>> {
    let mut out = vec![];
    let mut cur = leaves.to_vec();
    if cur.is_empty() {
        return out;
    }
    loop {
        out.push(cur.clone());
        if cur.len() == 1 {
            return out;
        }
        let mut next = vec![];
        let mut i = 0;
        while i < cur.len() {
            if i + 1 < cur.len() {
                next.push(cat(&cur[i], &cur[i + 1]));
            } else {
                next.push(cur[i]);
            }
            i += 2;
        }
        cur = next;
    }
}
pub fn ref_root(leaves: &[H]) -> H {
    layers(leaves).last().map(|l| l[0]).unwrap_or_else(|| sha256(b""))
}

/// Leaves with repetitions, all-equal runs, zero hashes and internal nodes reused as leaves.
fn gen_leaves(c: &mut Case, n: usize) -> Vec<H> {
    let mode = c.rng.below(7);
    let sp = special();
    let mut v: Vec<H> = vec![];
    for _ in 0..n {
        let h = match mode {
            0 => c.rng.arr(),
            1 if !v.is_empty() && c.rng.chance(1, 2) => *c.rng.pick(&v),
            2 if v.len() >= 2 && c.rng.chance(1, 3) => {
                let (a, b) = (*c.rng.pick(&v), *c.rng.pick(&v));
                cat(&a, &b)
            }
            3 => [c.rng.below(2) as u8; 32],
            4 if c.rng.chance(1, 4) => *c.rng.pick(&sp),
            5 => *c.rng.pick(&sp),
            _ => c.rng.arr(),
        };
        v.push(h);
    }
    if mode == 6 {
        v.sort();
        if c.rng.bool() {
            v.reverse();
        }
    }
    v
}

/// Values that stand for something elsewhere: hashes of nothing, of a zero, of a hash of nothing; the least, the greatest.
pub fn special() -> Vec<H> {
    let e = sha256(b"");
    vec![e, [0; 32], [0xff; 32], cat(&e, &e), sha256(&e), cat(&[0; 32], &[0; 32]), sha256(&[0]), sha256(&[0; 32]), [0x80; 32]]
}

fn size(c: &mut Case, max: u64) -> usize {
    match c.rng.below(4) {
        0 => c.rng.below(10) as usize,
        1 => {
            let p = 1u64 << c.rng.below(10);
            (p + c.rng.below(3)).saturating_sub(1).min(max) as usize
        }
        _ => c.rng.below(max + 1) as usize,
    }
}

pub fn roots(m: &mut Mon) {
    m.rule("Leaf lists of every size 0..=300 plus random sizes to 2100 (random, repeated, all-equal and internal-node-valued leaves); one-shot, incremental (checked after every push) and full-tree roots compared with a layer-by-layer reference using an independent SHA-256; message hashing compared with the reference on all lengths 0..=300 and random ones. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread, and lists and messages far beyond the usual sizes. Non-trivial: >= 2 leaves (distinct leaf lists counted) or a non-empty message.");
    m.require("push_checked", 1000);
    let body = |c: &mut Case, n: usize| {
        let leaves = gen_leaves(c, n);
        let sh: Vec<Sha256> = leaves.iter().map(|h| Sha256(*h)).collect();
        let want = ref_root(&leaves);
        if n >= 2 {
            c.nontrivial(&leaves);
        }
        c.sample(|| format!("{n} leaves, root {}", hex(&want)));
        if let Some(r) = c.nopanic("one_shot_panic", || format!("{n} leaves"), || merkle_tree_root(&sh)) {
            c.check(r.0 == want, "one_shot_root", || format!("{n} leaves: got {} want {}", hex(&r.0), hex(&want)));
        }
        let full = c.nopanic("full_panic", || format!("{n} leaves"), || FullMerkleTree::sha256(sh.clone()));
        if let Some(full) = full {
            let r = full.root();
            c.check(r.0 == want, "full_root", || format!("{n} leaves: got {} want {}", hex(&r.0), hex(&want)));
            let nodes: Vec<Vec<H>> = full.nodes().iter().map(|l| l.iter().map(|x| x.0).collect()).collect();
            c.check(nodes == layers(&leaves), "full_nodes", || format!("{n} leaves: node layers differ from the documented tree"));
        }
        // Incremental: the root is checked at every prefix (bounded for large inputs).
        let mut p = ProgressiveMerkleTree::sha256();
        c.check(p.root().0 == sha256(b""), "progressive_empty", || "root of no leaves".into());
        for (i, x) in sh.iter().enumerate() {
            p.push(*x);
            if n <= 64 || i + 1 == n || i % 37 == 0 {
                let w = ref_root(&leaves[..=i]);
                let r = p.root();
                c.event("push_checked");
                c.check(r.0 == w, "progressive_root", || format!("after {} pushes: got {} want {}", i + 1, hex(&r.0), hex(&w)));
                // Reading the root must not disturb it.
                c.check(p.root().0 == w, "progressive_root_twice", || format!("after {} pushes", i + 1));
            }
        }
    };
    m.run_par("sizes", 301, |c| {
        let n = c.index as usize;
        body(c, n)
    });
    let n = m.n(1_800, 24_000);
    m.run_par("random", n, |c| {
        let n = size(c, 2100);
        body(c, n)
    });
    m.run("empty_constant", 1, |c| {
        c.check(EMPTY_SHA256.0 == sha256(b""), "empty_constant", || hex(&EMPTY_SHA256.0));
    });
    let n = m.n(12_000, 160_000);
    m.run_par("hash", n, |c| {
        let len = if c.index <= 300 { c.index as usize } else { c.rng.len(5000) };
        let msg = c.rng.bytes(len);
        if len > 0 {
            c.nontrivial(&msg);
        }
        let h = calculate_sha256(&msg);
        let w = sha256(&msg);
        c.event("message_hashed");
        c.check(h.0 == w, "sha256", || format!("message {}: got {} want {}", hex(&msg), hex(&h.0), hex(&w)));
        c.check(format!("{h:?}") == hex(&w), "sha256_debug", || format!("{h:?}"));
        let (a, b): (H, H) = (c.rng.arr(), c.rng.arr());
        c.check(sha256_concat(Sha256(a), Sha256(b)).0 == cat(&a, &b), "sha256_concat", || format!("{} {}", hex(&a), hex(&b)));
    });
    related::roots(m);
}

fn mix(a: u64, b: u64) -> u64 {
    // An order-sensitive, cheap combiner for generic trees.
    vmon::h64(&(a, b, 0x5eedu64))
}
static EMPTY_U64: u64 = 77;

pub fn proofs(m: &mut Mon) {
    m.rule("Trees of every size 0..=130 (all indices) and random sizes to 1100 and to 70,000 (random indices), proofs of up to 60 levels rebuilt from their parts, SHA-256 trees and generic trees over u64. For each index: proof exists iff in range, lemma and position bits equal the reference path, verifies for its leaf and root only; wrong element, wrong root, wrong leaf, tampered, truncated, extended, reordered lemmas and flipped positions must be rejected. Non-trivial: trees with >= 2 leaves, counted by (leaves, index).");
    m.require("proof_verified", 1000);
    m.require("forgery_rejected", 1000);
    m.require("big_trees", 10);
    let body = |c: &mut Case, n: usize, all: bool| {
        let leaves: Vec<H> = if c.rng.chance(1, 3) { gen_leaves(c, n) } else { (0..n).map(|_| c.rng.arr()).collect() };
        let sh: Vec<Sha256> = leaves.iter().map(|h| Sha256(*h)).collect();
        let ls = layers(&leaves);
        let root = ref_root(&leaves);
        let t = FullMerkleTree::sha256(sh.clone());
        for bad in [n, n + 1, n + 2, n * 2 + 1, usize::MAX, usize::MAX - 1] {
            let r = c.nopanic("proof_panic", || format!("{n} leaves index {bad}"), || t.inclusion_proof(bad).is_none());
            c.check(r != Some(false), "out_of_range", || format!("{n} leaves: a proof exists for index {bad}"));
        }
        if n == 0 {
            return;
        }
        let idx: Vec<usize> = if all { (0..n).collect() } else { (0..8).map(|_| c.rng.idx(n)).chain([0, n - 1]).collect() };
        c.sample(|| format!("{n} leaves, {} proofs, root {}", idx.len(), hex(&root)));
        for i in idx {
            if n >= 2 {
                c.nontrivial(&(root, i));
            }
            // Reference path.
            let mut lemma: Vec<H> = vec![];
            let mut bits = 0usize;
            let mut j = i;
            for l in &ls {
                let sib = j ^ 1;
                if sib < l.len() {
                    if j & 1 == 1 {
                        bits |= 1 << lemma.len();
                    }
                    lemma.push(l[sib]);
                }
                j >>= 1;
            }
            let p = match t.inclusion_proof(i) {
                Some(p) => p,
                None => {
                    c.violate("missing_proof", format!("{n} leaves, index {i}: no proof"));
                    continue;
                }
            };
            let got: Vec<H> = p.lemma().iter().map(|x| x.0).collect();
            c.check(got == lemma, "lemma", || format!("{n} leaves, index {i}: lemma differs from the path"));
            c.check(p.proof_index() == bits, "proof_index", || format!("{n} leaves, index {i}: {} != {bits}", p.proof_index()));
            c.check(p.verify(sh[i], Sha256(root)), "complete", || format!("{n} leaves, index {i}: own proof rejected"));
            c.check(p.root(sh[i]).0 == root, "proof_root", || format!("{n} leaves, index {i}: root from proof differs"));
            c.event("proof_verified");
            // A proof rebuilt from its parts behaves the same.
            let q = InclusionProof::sha256(p.proof_index(), p.lemma().to_vec());
            c.check(q.verify(sh[i], Sha256(root)), "rebuilt", || format!("{n} leaves, index {i}: rebuilt proof rejected"));
            // Soundness: reference verifier decides what each tampered statement should give.
            let refv = |bits: usize, lem: &[H], e: &H| {
                let mut x = *e;
                for (k, h) in lem.iter().enumerate() {
                    x = if (bits >> k) & 1 == 1 { cat(h, &x) } else { cat(&x, h) };
                }
                x
            };
            let mut vals = special();
            vals.extend([root, leaves[i], leaves[c.rng.idx(n)]]);
            vals.extend(lemma.first());
            vals.extend(lemma.last());
            for _ in 0..10 {
              let mut e = leaves[i];
              let mut r = root;
              let mut lem = lemma.clone();
              let mut b = bits;
              let mut kinds = vec![];
              let mut kind = 0;
              for _ in 0..*c.rng.pick(&[1, 1, 1, 2, 2, 3]) {
                kind = c.rng.below(16);
                kinds.push(kind);
                match kind {
                    0 => e[c.rng.idx(32)] ^= 1 << c.rng.below(8),
                    1 => r[c.rng.idx(32)] ^= 1 << c.rng.below(8),
                    2 => e = leaves[c.rng.idx(n)],
                    3 if !lem.is_empty() => {
                        let k = c.rng.idx(lem.len());
                        lem[k][c.rng.idx(32)] ^= 1 << c.rng.below(8)
                    }
                    4 if !lem.is_empty() => b ^= 1 << c.rng.idx(lem.len()),
                    5 => {
                        lem.pop();
                    }
                    6 => lem.push(c.rng.arr()),
                    7 if lem.len() >= 2 => {
                        let (x, y) = (c.rng.idx(lem.len()), c.rng.idx(lem.len()));
                        lem.swap(x, y);
                    }
                    // values known from elsewhere, in every place
                    8 => e = *c.rng.pick(&vals),
                    9 => r = *c.rng.pick(&vals),
                    10 if !lem.is_empty() => {
                        let k = c.rng.idx(lem.len());
                        lem[k] = *c.rng.pick(&vals)
                    }
                    11 => {
                        let k = c.rng.idx(lem.len() + 1);
                        lem.insert(k, *c.rng.pick(&vals));
                        if c.rng.bool() {
                            b = (b & ((1 << k) - 1)) | ((b >> k) << (k + 1)) | (usize::from(c.rng.bool()) << k);
                        }
                    }
                    12 if !lem.is_empty() => {
                        let k = c.rng.idx(lem.len());
                        let x = lem[k];
                        lem.insert(k, x)
                    }
                    13 if !lem.is_empty() => {
                        let k = c.rng.idx(lem.len());
                        lem.remove(k);
                    }
                    14 => lem.clear(),
                    15 => b ^= 1 << (lem.len() + c.rng.idx(4)),
                    _ => e = root,
                }
              }
                let want = refv(b, &lem, &e) == r;
                let p2 = InclusionProof::sha256(b, lem.iter().map(|x| Sha256(*x)).collect());
                let got = p2.verify(Sha256(e), Sha256(r));
                if !want {
                    c.event("forgery_rejected");
                }
                c.check(got == want, if want { "tampered_false_reject" } else { "forgery_accepted" }, || {
                    format!("{n} leaves, index {i}, tamper kinds {kinds:?}: verify={got}, should be {want}")
                });
                let at = p2.root(Sha256(e)).0;
                c.check(at == refv(b, &lem, &e), "tampered_root", || format!("{n} leaves, index {i}, tamper kinds {kinds:?}: root of the tampered proof"));
                // Only the statement that was proven may verify with the genuine proof.
                if kinds.len() == 1 && (kind == 0 || kind == 1) {
                    let got = p.verify(Sha256(e), Sha256(r));
                    c.check(!got, "wrong_statement", || format!("{n} leaves, index {i}: proof accepted for another element or root"));
                }
            }
        }
    };
    m.run_par("sizes", 131, |c| {
        let n = c.index as usize;
        body(c, n, true)
    });
    let k = m.n(1_200, 20_000);
    m.run_par("random", k, |c| {
        let n = size(c, 1100);
        body(c, n, false)
    });
    // Proofs of many levels: big trees, and lemmas as they come from elsewhere.
    let k = m.n(24, 200);
    m.run_par("big", k, |c| {
        let n = match c.rng.below(3) {
            0 => (1usize << (10 + c.rng.below(7))) + c.rng.idx(3) - 1,
            _ => 1_000 + c.rng.idx(70_000),
        };
        c.event("big_trees");
        body(c, n, false)
    });
    let k = m.n(2_000, 40_000);
    m.run_par("levels", k, |c| {
        let levels = c.rng.idx(61);
        let lemma: Vec<H> = (0..levels).map(|_| c.rng.arr()).collect();
        let bits = c.rng.u64() as usize & ((1 << levels) - 1);
        let e: H = c.rng.arr();
        let r = lemma.iter().enumerate().fold(e, |x, (k, h)| if (bits >> k) & 1 == 1 { cat(h, &x) } else { cat(&x, h) });
        let p = InclusionProof::sha256(bits, lemma.iter().map(|x| Sha256(*x)).collect());
        c.nontrivial(&(bits, levels, r));
        c.check(p.root(Sha256(e)).0 == r && p.verify(Sha256(e), Sha256(r)), "levels_root", || format!("{levels} levels, positions {bits:#b}"));
        c.check(p.proof_index() == bits && p.lemma().len() == levels, "levels_parts", || format!("{levels} levels, positions {bits:#b}"));
        if levels > 0 {
            let k = c.rng.idx(levels);
            let turned = InclusionProof::sha256(bits ^ (1 << k), p.lemma().to_vec());
            c.check(!turned.verify(Sha256(e), Sha256(r)), "levels_turned", || format!("{levels} levels, position {k} turned"));
        }
    });
    let k = m.n(1_200, 12_000);
    m.run_par("generic", k, |c| {
        let n = size(c, 200);
        let leaves: Vec<u64> = (0..n).map(|_| c.rng.u64()).collect();
        let t = FullMerkleTree::new(leaves.clone(), mix, &EMPTY_U64);
        let mut ls = vec![leaves.clone()];
        while ls.last().unwrap().len() > 1 {
            let nx = ls.last().unwrap().chunks(2).map(|x| if x.len() == 2 { mix(x[0], x[1]) } else { x[0] }).collect();
            ls.push(nx);
        }
        let want = if n == 0 { EMPTY_U64 } else { ls.last().unwrap()[0] };
        c.check(t.root() == want, "generic_root", || format!("{n} leaves"));
        if n > 1 {
            c.nontrivial(&leaves);
        }
        for i in 0..n {
            let p = t.inclusion_proof(i);
            let ok = p.as_ref().map(|p| p.verify(leaves[i], want) && !p.verify(leaves[i] ^ 1, want));
            c.check(ok == Some(true), "generic_proof", || format!("{n} leaves index {i}"));
        }
        c.check(t.inclusion_proof(n).is_none(), "generic_range", || format!("{n}"));
    });
}
