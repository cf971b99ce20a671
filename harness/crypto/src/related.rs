//! Histories of calls with related inputs, on one value and one thread: an answer depends on its own inputs only.
use crate::{keys, merkle};
use vmon::{hex, Case, Mon};
use vref::{aes::Aes256, hash, scalar, words};
use witnet_crypto::cipher::{decrypt_aes_cbc, encrypt_aes_cbc};
use witnet_crypto::hash::{calculate_sha256, Sha256};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, PK, SK};
use witnet_crypto::merkle::{merkle_tree_root, FullMerkleTree, ProgressiveMerkleTree};
use witnet_crypto::mnemonic::Mnemonic;
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_crypto::signature::{sign, verify};
use witnet_protected::Protected;

/// Short strings of few letters, so that many of them look alike joined or cut.
fn alike(c: &mut Case, max: u64) -> Vec<u8> {
    (0..c.rng.below(max + 1)).map(|_| *c.rng.pick(&[0u8, b'a', b'a', b'b'])).collect()
}

pub fn roots(m: &mut Mon) {
    let n = m.n(600, 8_000);
    m.run_par("related", n, |c| {
        let k = 1 + c.rng.idx(90);
        let mut leaves: Vec<[u8; 32]> = (0..k).map(|_| c.rng.arr()).collect();
        let spare: [u8; 32] = c.rng.arr();
        for _ in 0..12 {
            let l = leaves.len();
            let (i, j) = (c.rng.idx(l), c.rng.idx(l));
            match c.rng.below(6) {
                0 => leaves.swap(i, j),
                4 => leaves[i] = *c.rng.pick(&merkle::special()),
                1 => leaves[i] = if leaves[i] == spare { c.rng.arr() } else { spare },
                2 => leaves[i][31] ^= 1,
                3 if l > 1 => {
                    leaves.remove(i);
                }
                _ => leaves.push(leaves[i]),
            }
            let want = merkle::ref_root(&leaves);
            let sh: Vec<Sha256> = leaves.iter().map(|h| Sha256(*h)).collect();
            let mut p = ProgressiveMerkleTree::sha256();
            sh.iter().for_each(|x| p.push(*x));
            let got = [merkle_tree_root(&sh).0, p.root().0, FullMerkleTree::sha256(sh.clone()).root().0];
            c.event("root of a changed list");
            c.check(got == [want; 3], "related_root", || format!("{} leaves: {:?} want {}", leaves.len(), got.map(|g| hex(&g)), hex(&want)));
        }
        c.nontrivial(&leaves);
    });
    // more leaves than usual, and long messages
    let n = m.n(12, 60);
    m.run_par("big", n, |c| {
        let k = match c.index % 4 {
            0 => (1usize << (12 + c.rng.below(6))) + c.rng.idx(3) - 1,
            1 => 65_536 + c.rng.idx(70_000),
            _ => 2_000 + c.rng.idx(30_000),
        };
        let leaves: Vec<[u8; 32]> = (0..k).map(|_| c.rng.arr()).collect();
        let want = merkle::ref_root(&leaves);
        let sh: Vec<Sha256> = leaves.iter().map(|h| Sha256(*h)).collect();
        let mut p = ProgressiveMerkleTree::sha256();
        sh.iter().for_each(|x| p.push(*x));
        c.event("big list");
        c.nontrivial(&want);
        for (w, r) in [("one_shot", merkle_tree_root(&sh)), ("progressive", p.root()), ("full", FullMerkleTree::sha256(sh.clone()).root())] {
            c.check(r.0 == want, "big_root", || format!("{w} of {k} leaves: {} want {}", hex(&r.0), hex(&want)));
        }
        let l = *c.rng.pick(&[65_535usize, 65_536, 65_537, 1 << 20, (1 << 20) + 3, 300_000]);
        let msg = c.rng.bytes(l);
        c.check(calculate_sha256(&msg).0 == hash::sha256(&msg), "big_message", || format!("{l} bytes"));
    });
}

pub fn bip32(m: &mut Mon) {
    let n = m.n(600, 12_000);
    m.run_par("related", n, |c| {
        let sks: Vec<[u8; 32]> = (0..2).map(|_| keys::gen_sk(c)).collect();
        let ccs: Vec<[u8; 32]> = (0..2).map(|_| c.rng.arr()).collect();
        let ids: Vec<u32> = (0..3).map(|_| keys::gen_index(c)).flat_map(|i| [i, i ^ 0x8000_0000]).collect();
        let exts: Vec<ExtendedSK> = (0..4).map(|i| ExtendedSK::new(SK::from_slice(&sks[i / 2]).unwrap(), Protected::from(&ccs[i % 2][..]))).collect();
        let mut path: Vec<u32> = vec![];
        for _ in 0..14 {
            match c.rng.below(5) {
                0 => path.clear(),
                1 => {
                    path.pop();
                }
                2 if !path.is_empty() => {
                    let i = c.rng.idx(path.len());
                    path[i] = *c.rng.pick(&ids);
                }
                _ => path.push(*c.rng.pick(&ids)),
            }
            path.truncate(5);
            let i = c.rng.idx(4);
            let want = path.iter().try_fold((sks[i / 2], ccs[i % 2].to_vec()), |(k, h), x| keys::ckd(&k, &h, *x).map(|(k, h)| (k, h.to_vec())));
            let got = exts[i].derive(&KeyPath::from(path.clone())).ok();
            c.event("key of a related path");
            let ok = got.as_ref().map(|k| (keys::sk_bytes(k), keys::cc(k))) == want;
            c.check(ok, "related_key", || format!("sk {} chain {} path {}", hex(&sks[i / 2]), hex(&ccs[i % 2]), keys::show_path(&path)));
            if let (Some(k), Some((s, h))) = (got, want) {
                let p = ExtendedPK::from_secret_key(&k);
                c.check(p.key.serialize() == keys::pubkey(&s) && p.chain_code.as_ref() == &h[..], "related_public", || keys::show_path(&path));
            }
            let (a, b) = (alike(c, 3), alike(c, 3));
            let (seed, key) = ([&[7u8; 16], &a[..]].concat(), b);
            if let Some(Ok(k)) = c.nopanic("master_panic", || hex(&seed), || MasterKeyGen::new(&seed[..]).with_key(&key).generate()) {
                let h = hash::hmac512(&key, &[&seed]);
                c.check(keys::sk_bytes(&k) == h[..32] && keys::cc(&k) == h[32..], "related_master", || format!("seed {} key {}", hex(&seed), hex(&key)));
            }
        }
        c.nontrivial(&(sks, ccs, path));
    });
}

pub fn slip32(m: &mut Mon) {
    let n = m.n(600, 12_000);
    m.run_par("related", n, |c| {
        let sks: Vec<[u8; 32]> = (0..2).map(|_| keys::gen_sk(c)).collect();
        let ccs: Vec<[u8; 32]> = (0..2).map(|_| c.rng.arr()).collect();
        let ids: Vec<u32> = (0..3).map(|_| keys::gen_index(c)).collect();
        let mut path: Vec<u32> = vec![];
        let mut last = String::new();
        for _ in 0..12 {
            match c.rng.below(4) {
                0 => {
                    path.pop();
                }
                1 if !path.is_empty() => {
                    let i = c.rng.idx(path.len());
                    path[i] = *c.rng.pick(&ids);
                }
                _ => path.push(*c.rng.pick(&ids)),
            }
            let (sk, cc) = (*c.rng.pick(&sks), *c.rng.pick(&ccs));
            let ext = ExtendedSK::new(SK::from_slice(&sk).unwrap(), Protected::from(&cc[..]));
            let want = keys::encode(&path, &cc, 0, &sk);
            let got = ext.to_slip32(&KeyPath::from(path.clone())).ok();
            c.event("related export");
            c.check(got.as_deref() == Some(&want[..]), "related_export", || format!("{got:?} want {want}"));
            // the export, the one before, and a spoilt one
            let mut bad = want.clone().into_bytes();
            let i = 5 + c.rng.idx(bad.len() - 5);
            bad[i] = if bad[i] == b'q' { b'p' } else { b'q' };
            for s in [want.clone(), String::from_utf8(bad).unwrap(), std::mem::replace(&mut last, want.clone()), want] {
                let w = keys::ref_import(&s);
                let g = ExtendedSK::from_slip32(&s).ok().map(|(k, p)| (keys::sk_bytes(&k), keys::cc(&k), p));
                let w = w.map(|(k, h, p)| (k, h.to_vec(), KeyPath::from(p)));
                c.check(g == w, "related_import", || format!("{s}: {}", if w.is_some() { "is an export" } else { "is none" }));
            }
        }
        c.nontrivial(&last);
    });
}

pub fn aes(m: &mut Mon) {
    let n = m.n(900, 20_000);
    m.run_par("related", n, |c| {
        let keys: Vec<[u8; 32]> = (0..2).map(|_| c.rng.arr()).collect();
        let ivs: Vec<[u8; 16]> = (0..2).map(|_| c.rng.arr()).collect();
        let l = c.rng.len(80);
        let text = c.rng.bytes(l);
        let mut seen = vec![];
        for _ in 0..16 {
            let (k, iv) = (*c.rng.pick(&keys), *c.rng.pick(&ivs));
            let r = Aes256::new(&k);
            c.event("related text");
            if c.rng.bool() || seen.is_empty() {
                let e = c.rng.idx(text.len() + 1);
                let mut t = text[..e].to_vec();
                if e > 0 && c.rng.bool() {
                    t[e - 1] ^= 1;
                }
                let want = r.cbc_encrypt(&iv, &t);
                let got = encrypt_aes_cbc(&k, &t, &iv).ok();
                c.check(got.as_ref() == Some(&want), "related_encrypt", || format!("key {} iv {} text {}", hex(&k), hex(&iv), hex(&t)));
                seen.push(want);
            } else {
                let mut t: Vec<u8> = c.rng.pick(&seen).clone();
                if c.rng.chance(1, 3) {
                    let i = c.rng.idx(t.len());
                    t[i] ^= 1 << c.rng.below(8);
                }
                let want = r.cbc_decrypt(&iv, &t);
                let got = decrypt_aes_cbc(&k, &t, &iv).ok();
                c.check(got == want, "related_decrypt", || format!("key {} iv {} text {}", hex(&k), hex(&iv), hex(&t)));
            }
        }
        c.nontrivial(&seen);
    });
    let n = m.n(12, 60);
    m.run_par("big", n, |c| {
        let (k, iv): ([u8; 32], [u8; 16]) = (c.rng.arr(), c.rng.arr());
        let l = *c.rng.pick(&[65_520usize, 65_535, 65_536, 65_537, 131_072, 300_000, 1 << 20]) + c.rng.idx(3);
        let t = c.rng.bytes(l);
        let want = Aes256::new(&k).cbc_encrypt(&iv, &t);
        let got = encrypt_aes_cbc(&k, &t, &iv).ok();
        c.event("big text");
        c.check(got.as_ref() == Some(&want), "big_encrypt", || format!("{l} bytes"));
        c.check(decrypt_aes_cbc(&k, &want, &iv).ok() == Some(t), "big_decrypt", || format!("{l} bytes"));
        c.nontrivial(&want);
    });
}

pub fn kdf(m: &mut Mon) {
    let n = m.n(1_500, 30_000);
    m.run_par("related", n, |c| {
        let mut p = alike(c, 4);
        let mut s = alike(c, 4);
        let mut it = 1 + c.rng.below(4) as u32;
        for _ in 0..12 {
            match c.rng.below(8) {
                // moves the border between the two
                0 if !p.is_empty() => s.insert(0, p.pop().unwrap()),
                1 if !s.is_empty() => p.push(s.remove(0)),
                2 => std::mem::swap(&mut p, &mut s),
                3 => p.push(0),
                4 => s.push(0),
                5 => it = 1 + c.rng.below(4) as u32,
                6 => p = alike(c, 4),
                _ => s = alike(c, 4),
            }
            let want = hash::pbkdf2_256(&p, &s, it);
            let got = pbkdf2_sha256(&p, &s, it);
            c.event("related derivation");
            c.check(got.as_ref() == &want[..], "related_pbkdf2", || format!("password {} salt {} iterations {it}", hex(&p), hex(&s)));
        }
        c.nontrivial(&(p, s, it));
    });
    // counts past every narrower integer
    const COUNTS: [u32; 8] = [65_535, 65_536, 65_537, 100_001, 131_073, 262_147, 500_009, 1_000_003];
    let n = m.n(8, 40);
    m.run_par("counts", n, |c| {
        let it = COUNTS[c.index as usize % 8] + if c.index < 8 { 0 } else { c.rng.below(3_000) as u32 };
        let (a, b) = (c.rng.len(40), c.rng.len(40));
        let (p, s) = (c.rng.bytes(a), c.rng.bytes(b));
        c.event("many iterations");
        c.nontrivial(&(&p, &s, it));
        c.check(pbkdf2_sha256(&p, &s, it).as_ref() == &hash::pbkdf2_256(&p, &s, it)[..], "count_pbkdf2", || format!("password {} salt {} iterations {it}", hex(&p), hex(&s)));
    });
    let n = m.n(24, 120);
    m.run_par("big", n, |c| {
        let (a, b) = (c.rng.idx(70_000), c.rng.idx(70_000));
        let (p, s) = (c.rng.bytes(a), c.rng.bytes(b));
        let it = if c.rng.bool() { 1 } else { 3 };
        c.event("long password or salt");
        c.nontrivial(&(a, b));
        c.check(pbkdf2_sha256(&p, &s, it).as_ref() == &hash::pbkdf2_256(&p, &s, it)[..], "big_pbkdf2", || format!("{a} and {b} bytes, {it} iterations"));
    });
}

pub fn ecdsa(m: &mut Mon) {
    let n = m.n(300, 6_000);
    m.run_par("related", n, |c| {
        let ks: Vec<[u8; 32]> = (0..2).map(|_| keys::gen_sk(c)).collect();
        let mut zs: Vec<[u8; 32]> = (0..2).map(|_| c.rng.arr()).collect();
        let mut z = zs[0];
        z[c.rng.idx(32)] ^= 1;
        zs.push(z);
        // (key, digest) by signature
        let mut made = vec![];
        for _ in 0..8 {
            let (k, z) = (*c.rng.pick(&ks), *c.rng.pick(&zs));
            let sk = SK::from_slice(&k).unwrap();
            let Ok(s) = sign(sk, &z) else { return c.violate("related_sign", format!("secret {} digest {}", hex(&k), hex(&z))) };
            made.push((k, z, s));
            for _ in 0..4 {
                let (k, z) = (*c.rng.pick(&ks), *c.rng.pick(&zs));
                let (k2, z2, s) = c.rng.pick(&made).clone();
                let pk = PK::from_secret_key_global(&SK::from_slice(&k).unwrap());
                let got = verify(&pk, &z, &s).is_ok();
                c.event("related verification");
                c.check(got == (k == k2 && z == z2), "related_verify", || format!("secret {} digest {} for {} {}: {got}", hex(&k), hex(&z), hex(&k2), hex(&z2)));
            }
            let same: Vec<_> = made.iter().filter(|x| x.0 == k && x.1 == z).map(|x| x.2).collect();
            c.check(same.iter().all(|x| *x == same[0]), "related_sign", || format!("secret {} digest {}", hex(&k), hex(&z)));
            let nonce = scalar::rfc6979(&k, &z);
            let r = PK::from_secret_key_global(&SK::from_slice(&nonce).unwrap()).serialize();
            c.check(same[0].serialize_compact()[..32] == scalar::reduce(&r[1..].try_into().unwrap()) || z >= scalar::N, "related_sign", || format!("secret {} digest {}", hex(&k), hex(&z)));
        }
        c.nontrivial(&(ks, zs));
    });
}

pub fn mnemonic(m: &mut Mon) {
    let n = m.n(48, 900);
    m.run_par("related", n, |c| {
        let ent: Vec<Vec<u8>> = (0..2).map(|_| c.rng.bytes(16)).collect();
        let phrases: Vec<String> = ent.iter().map(|e| words::encode(e)).collect();
        let mns: Vec<Mnemonic> = phrases.iter().map(|p| Mnemonic::from_phrase_ref(p).ok().unwrap()).collect();
        for _ in 0..8 {
            let i = c.rng.idx(2);
            let pass = (*c.rng.pick(&["", "a", "A", "a ", " a", "aa", "a\0", "a\n", "\na", "a\r\n", "a\t", "\ta", " ", "  ", "\n", "a  a", "a a", "\"a\"", "mnemonic", "\u{7f}", "\0"])).to_string();
            let want = words::seed(&phrases[i], &pass);
            let fresh = Mnemonic::from_phrase_ref(&phrases[i]).ok().unwrap();
            let mn = if c.rng.chance(1, 4) { &fresh } else { &mns[i] };
            let got = if c.rng.bool() { mn.seed_ref(&pass) } else { mn.seed(&pass.as_str().into()) };
            c.event("seed of a related passphrase");
            c.check(got.as_bytes() == &want[..], "related_seed", || format!("{} / {pass:?}", phrases[i]));
            c.check(mn.words() == phrases[i], "related_words", || phrases[i].clone());
        }
        c.nontrivial(&phrases);
    });
}
