use crate::related;
use std::collections::HashSet;
use vmon::{hex, Case, Mon};
use vref::{aes::Aes256, hash, scalar, words};
use witnet_crypto::cipher::{decrypt_aes_cbc, encrypt_aes_cbc, generate_random};
use witnet_crypto::key::{PK, SK};
use witnet_crypto::mnemonic::{Lang, Length, Mnemonic, MnemonicGenerator};
use witnet_crypto::pbkdf2::pbkdf2_sha256;
use witnet_crypto::secp256k1::{ecdsa::Signature as EcdsaSig, Scalar};
use witnet_crypto::signature::{sign, verify};

pub fn aes(m: &mut Mon) {
    m.rule("Encryption of every plaintext length 0..=160 and random lengths to 5000 compared with an independent AES-256-CBC/PKCS#7; decryption returns the plaintext; ciphertexts that are bit-flipped, truncated, random, or opened under another key or IV decrypt exactly as the reference decides (content or error); key/IV lengths other than 32/16 rejected; never a panic. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread, and texts to 1 MiB. Non-trivial: a non-empty plaintext or a ciphertext of at least one block.");
    m.require("round_trip", 300);
    m.require("tampered_rejected", 300);
    m.require("bad_length_rejected", 50);
    let n = m.n(18_000, 400_000);
    m.run_par("aes", n, |c| {
        let key: [u8; 32] = c.rng.arr();
        let iv: [u8; 16] = c.rng.arr();
        let len = if c.index <= 160 { c.index as usize } else if c.rng.chance(1, 4) { c.rng.len(5000) } else { c.rng.len(200) };
        let mut pt = c.rng.bytes(len);
        if c.rng.chance(1, 3) {
            // text ending in bytes that look like padding
            let v = 1 + c.rng.below(17) as u8;
            let k = c.rng.below(20) as usize;
            let l = pt.len();
            pt[l.saturating_sub(k)..].fill(v);
        }
        let r = Aes256::new(&key);
        let want = r.cbc_encrypt(&iv, &pt);
        if !pt.is_empty() {
            c.nontrivial(&(key, iv, &pt));
        }
        let ctx = || format!("key {} iv {} plaintext {}", hex(&key), hex(&iv), hex(&pt));
        c.sample(ctx);
        let Some(ct) = c.nopanic("encrypt_panic", ctx, || encrypt_aes_cbc(&key, &pt, &iv)) else { return };
        let ct = match ct {
            Ok(x) => x,
            Err(e) => return c.violate("encrypt_err", format!("{e}: {}", ctx())),
        };
        c.check(ct == want, "encrypt", || format!("{}: got {} want {}", ctx(), hex(&ct), hex(&want)));
        match c.nopanic("decrypt_panic", ctx, || decrypt_aes_cbc(&key, &ct, &iv)) {
            Some(Ok(p)) => {
                c.event("round_trip");
                c.check(p == pt, "round_trip", || format!("{}: got {}", ctx(), hex(&p)));
            }
            Some(Err(e)) => c.violate("decrypt_err", format!("{e}: {}", ctx())),
            None => {}
        }
        for _ in 0..6 {
            let mut k2 = key;
            let mut iv2 = iv;
            let mut ct2 = want.clone();
            match c.rng.below(7) {
                0 => k2[c.rng.idx(32)] ^= 1 << c.rng.below(8),
                1 => iv2[c.rng.idx(16)] ^= 1 << c.rng.below(8),
                2 => {
                    let i = c.rng.idx(ct2.len());
                    ct2[i] ^= 1 << c.rng.below(8)
                }
                3 => {
                    let k = c.rng.idx(ct2.len() + 1);
                    ct2.truncate(k)
                }
                4 => {
                    let k = 16 * c.rng.below(5) as usize;
                    ct2 = c.rng.bytes(k)
                }
                5 => {
                    let k = 1 + c.rng.below(20) as usize;
                    ct2.extend(c.rng.bytes(k))
                }
                _ => {
                    let l = ct2.len() / 16;
                    ct2.truncate(16 * c.rng.idx(l + 1))
                }
            }
            let want = Aes256::new(&k2).cbc_decrypt(&iv2, &ct2);
            let ctx = || format!("key {} iv {} ciphertext {}", hex(&k2), hex(&iv2), hex(&ct2));
            let Some(got) = c.nopanic("decrypt_panic", ctx, || decrypt_aes_cbc(&k2, &ct2, &iv2)) else { continue };
            if want.is_none() {
                c.event("tampered_rejected");
            }
            c.check(got.as_ref().ok() == want.as_ref(), "decrypt_tampered", || {
                format!("{}: got {:?}, reference {:?}", ctx(), got.as_ref().map(|x| hex(x)).map_err(|e| e.to_string()), want.as_ref().map(|x| hex(x)))
            });
        }
        let (mut kl, mut il) = (32usize, 16usize);
        while kl == 32 && il == 16 {
            if c.rng.bool() {
                kl = *c.rng.pick(&[0, 1, 16, 24, 31, 32, 33, 64]);
            }
            if c.rng.bool() {
                il = *c.rng.pick(&[0, 1, 8, 12, 15, 16, 17, 32]);
            }
        }
        let (bk, bi) = (c.rng.bytes(kl), c.rng.bytes(il));
        let ctx = || format!("key of {kl} bytes, iv of {il} bytes");
        let e = c.nopanic("bad_length_panic", ctx, || encrypt_aes_cbc(&bk, &pt, &bi).is_err());
        let d = c.nopanic("bad_length_panic", ctx, || decrypt_aes_cbc(&bk, &want, &bi).is_err());
        c.check(e != Some(false) && d != Some(false), "bad_length_accepted", ctx);
        c.event("bad_length_rejected");
    });
    related::aes(m);
}

pub fn kdf(m: &mut Mon) {
    m.rule("Password/salt pairs of lengths 0..=200 (around the 64-byte HMAC block in particular), iteration counts 1..=50 plus a few large ones, compared with an independent PBKDF2-HMAC-SHA256. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread, and passwords and salts to 70 kB. Non-trivial: counted by (password, salt, iterations).");
    m.require("derived", 300);
    let n = m.n(18_000, 240_000);
    m.run_par("kdf", n, |c| {
        let (pl, sl) = (c.rng.len(200), c.rng.len(200));
        let pw = c.rng.bytes(pl);
        let salt = c.rng.bytes(sl);
        let it = match c.rng.below(20) {
            0 => 1,
            1 => 2,
            2 if c.tier == vmon::Tier::Thorough => 10_000,
            3 => 1 + c.rng.below(2000) as u32,
            _ => 1 + c.rng.below(50) as u32,
        };
        let want = hash::pbkdf2_256(&pw, &salt, it);
        c.nontrivial(&(&pw, &salt, it));
        c.event("derived");
        let ctx = || format!("password {} salt {} iterations {it}", hex(&pw), hex(&salt));
        c.sample(ctx);
        let Some(got) = c.nopanic("panic", ctx, || pbkdf2_sha256(&pw, &salt, it)) else { return };
        c.check(got.as_ref() == &want[..], "pbkdf2", || format!("{}: got {} want {}", ctx(), hex(&got), hex(&want)));
    });
    related::kdf(m);
}

fn gen_scalar(c: &mut Case) -> [u8; 32] {
    loop {
        let mut k: [u8; 32] = c.rng.arr();
        match c.rng.below(10) {
            0 => k[..31].fill(0),
            1 => {
                k = scalar::N;
                k[31] -= 1 + c.rng.below(60) as u8;
            }
            _ => {}
        }
        if scalar::valid(&k) {
            return k;
        }
    }
}

fn x_of(p: &PK) -> [u8; 32] {
    p.serialize()[1..].try_into().unwrap()
}

/// Textbook ECDSA verification (with the low-s rule), on group operations only.
fn ref_verify(q: &PK, z: &[u8; 32], r: &[u8; 32], s: &[u8; 32]) -> bool {
    if !scalar::valid(r) || !scalar::valid(s) || scalar::is_high(s) {
        return false;
    }
    let w = scalar::inv(s);
    let u1 = scalar::mul(&scalar::reduce(z), &w);
    let u2 = scalar::mul(r, &w);
    let ctx = witnet_crypto::secp256k1::SECP256K1;
    let b = match q.mul_tweak(ctx, &Scalar::from_be_bytes(u2).unwrap()) {
        Ok(b) => b,
        Err(_) => return false,
    };
    let p = if u1 == [0; 32] {
        b
    } else {
        let a = PK::from_secret_key_global(&SK::from_slice(&u1).unwrap());
        match a.combine(&b) {
            Ok(p) => p,
            Err(_) => return false,
        }
    };
    scalar::reduce(&x_of(&p)) == *r
}

pub fn ecdsa(m: &mut Mon) {
    m.rule("Random and edge secret keys and 32-byte digests: the signature equals an independent RFC-6979 low-s ECDSA signature, verifies under its key, and verification of arbitrary (key, digest, signature) triples - other keys, other digests, bit-flipped, swapped, high-s, zero and random signatures - agrees with a textbook verifier; digests whose length is not 32 are rejected by both operations. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread. Non-trivial: counted by (key, digest).");
    m.require("signed", 50);
    m.require("forgery_rejected", 200);
    m.require("length_rejected", 50);
    let n = m.n(1_500, 32_000);
    m.run_par("ecdsa", n, |c| {
        let d = gen_scalar(c);
        let z: [u8; 32] = match c.rng.below(8) {
            0 => [0; 32],
            1 => [0xff; 32],
            2 => scalar::N,
            _ => c.rng.arr(),
        };
        c.nontrivial(&(d, z));
        let sk = SK::from_slice(&d).unwrap();
        let pk = PK::from_secret_key_global(&sk);
        let ctx = || format!("secret {} digest {}", hex(&d), hex(&z));
        c.sample(ctx);
        let Some(sig) = c.nopanic("sign_panic", ctx, || sign(sk, &z)) else { return };
        let sig = match sig {
            Ok(s) => s,
            Err(e) => return c.violate("sign_err", format!("{e}: {}", ctx())),
        };
        c.event("signed");
        let k = scalar::rfc6979(&d, &z);
        let r = scalar::reduce(&x_of(&PK::from_secret_key_global(&SK::from_slice(&k).unwrap())));
        let mut s = scalar::mul(&scalar::inv(&k), &scalar::add(&scalar::reduce(&z), &scalar::mul(&r, &d)));
        if scalar::is_high(&s) {
            s = scalar::sub(&scalar::N, &s);
        }
        let want = [r, s].concat();
        let got = sig.serialize_compact();
        // RFC 6979 reduces the digest before seeding the nonce and libsecp256k1 does not: for the
        // digests above the group order (probability 2^-128) only validity is required.
        c.check(got[..] == want[..] || z >= scalar::N, "signature", || format!("{}: got {} want {}", ctx(), hex(&got), hex(&want)));
        c.check(verify(&pk, &z, &sig).is_ok(), "own_rejected", ctx);
        for _ in 0..8 {
            let mut z2 = z;
            let mut sg = got;
            let mut q = pk;
            match c.rng.below(13) {
                0 => z2[c.rng.idx(32)] ^= 1 << c.rng.below(8),
                1 => sg[c.rng.idx(64)] ^= 1 << c.rng.below(8),
                2 => q = PK::from_secret_key_global(&SK::from_slice(&gen_scalar(c)).unwrap()),
                3 => {
                    // the malleated (high-s) twin
                    let hs = scalar::sub(&scalar::N, got[32..].try_into().unwrap());
                    sg[32..].copy_from_slice(&hs);
                }
                4 => {
                    let (a, b) = got.split_at(32);
                    sg = [b, a].concat().try_into().unwrap();
                }
                5 => sg[32..].fill(0),
                6 => sg = c.rng.arr(),
                // keys that have something in common with the signer's, and digests with this one
                8 => q = pk.negate(witnet_crypto::secp256k1::SECP256K1),
                9 => {
                    let t = *c.rng.pick(&[2u8, 3, 5]);
                    let mut w = [0; 32];
                    w[31] = t;
                    q = pk.mul_tweak(witnet_crypto::secp256k1::SECP256K1, &Scalar::from_be_bytes(w).unwrap()).unwrap()
                }
                10 => z2.reverse(),
                11 => {
                    let k = c.rng.idx(32);
                    z2[k..].fill(0)
                }
                12 => z2 = c.rng.pick(&[vref::hash::sha256(&z), [0; 32], scalar::sub(&[0; 32], &scalar::reduce(&z)), r]).to_owned(),
                _ => {
                    let k = c.rng.idx(2) * 32;
                    sg[k..k + 32].fill(0)
                }
            }
            let Ok(parsed) = EcdsaSig::from_compact(&sg) else { continue };
            let want = ref_verify(&q, &z2, sg[..32].try_into().unwrap(), sg[32..].try_into().unwrap());
            let ctx = || format!("digest {} key {} signature {}", hex(&z2), hex(&q.serialize()), hex(&sg));
            let Some(got) = c.nopanic("verify_panic", ctx, || verify(&q, &z2, &parsed).is_ok()) else { continue };
            if !want {
                c.event("forgery_rejected");
            }
            c.check(got == want, "verify", || format!("{}: verify={got}, textbook={want}", ctx()));
        }
        let l = *c.rng.pick(&[0usize, 1, 20, 31, 33, 64]);
        let bad = c.rng.bytes(l);
        let a = c.nopanic("len_panic", || format!("{l}"), || sign(sk, &bad).is_err());
        let b = c.nopanic("len_panic", || format!("{l}"), || verify(&pk, &bad, &sig).is_err());
        c.check(a != Some(false) && b != Some(false), "length_accepted", || format!("digest of {l} bytes accepted"));
        // Neither the digest with something around it, nor a part of it, nor its text.
        let mut odd: Vec<(&str, Vec<u8>)> = vec![];
        for k in [1, 8, 16, 31, 32, 33, 64, 96] {
            odd.push(("zeros after", [&z[..], &vec![0; k]].concat()));
            odd.push(("zeros before", [&vec![0; k], &z[..]].concat()));
            odd.push(("noise after", [&z[..], &c.rng.bytes(k)].concat()));
            odd.push(("noise before", [&c.rng.bytes(k), &z[..]].concat()));
        }
        odd.push(("twice", [z, z].concat()));
        odd.push(("its hash after", [z, vref::hash::sha256(&z)].concat()));
        odd.push(("its text", hex(&z).into_bytes()));
        odd.push(("a prefix", z[..c.rng.idx(32)].to_vec()));
        odd.push(("a suffix", z[1 + c.rng.idx(31)..].to_vec()));
        for (what, d) in odd {
            let b = c.nopanic("len_panic", || what.to_string(), || verify(&pk, &d, &sig).is_err() && sign(sk, &d).is_err());
            c.check(b != Some(false), "length_accepted", || format!("digest of {} bytes accepted ({what}): {}", d.len(), hex(&d)));
        }
        c.event("length_rejected");
    });
    related::ecdsa(m);
}

fn len_of(i: usize) -> (Length, usize) {
    match i {
        0 => (Length::Words12, 16),
        1 => (Length::Words15, 20),
        2 => (Length::Words18, 24),
        3 => (Length::Words21, 28),
        _ => (Length::Words24, 32),
    }
}

pub fn mnemonic(m: &mut Mon) {
    m.rule("Phrases built from random and constant entropy of each legal size by an independent BIP-39 encoder are accepted and keep their words; phrases with a substituted, swapped, dropped or foreign word are accepted iff the reference checksum holds; generated phrases of each length decode in the reference; the seed equals PBKDF2-HMAC-SHA512(phrase, 'mnemonic'+NFKD(passphrase), 2048) for ASCII and non-ASCII passphrases (protected and plain entry points agree). Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread and on the same phrase. Non-trivial: counted by phrase.");
    m.require("accepted", 100);
    m.require("rejected", 100);
    m.require("seed_checked", 20);
    m.require("generated", 50);
    let n = m.n(9_000, 120_000);
    m.run_par("phrases", n, |c| {
        let (_, eb) = len_of(c.rng.idx(5));
        let ent = match c.rng.below(6) {
            0 => vec![0u8; eb],
            1 => vec![0xff; eb],
            2 => vec![0x80; eb],
            _ => c.rng.bytes(eb),
        };
        let good = words::encode(&ent);
        let mut w: Vec<String> = good.split(' ').map(String::from).collect();
        let l = words::list();
        match c.rng.below(7) {
            0 | 1 => {}
            2 => {
                let i = c.rng.idx(w.len());
                w[i] = c.rng.pick(&l).to_string();
            }
            3 => {
                let (i, j) = (c.rng.idx(w.len()), c.rng.idx(w.len()));
                w.swap(i, j);
            }
            4 => {
                let i = c.rng.idx(w.len());
                w.remove(i);
            }
            5 => {
                let i = c.rng.idx(w.len());
                w[i] = (*c.rng.pick(&["witnet", "abandonn", "zoo0", "", "ábaco", "ZOO"])).to_string();
            }
            _ => w.push(c.rng.pick(&l).to_string()),
        }
        let phrase = w.join(" ");
        let want = words::decode(&phrase).is_some();
        c.nontrivial(&phrase);
        c.sample(|| phrase.clone());
        let ctx = || phrase.clone();
        for k in 0..4 {
            let Some(r) = c.nopanic("parse_panic", ctx, || match k {
                0 => Mnemonic::from_phrase(phrase.as_str().into()),
                1 => Mnemonic::from_phrase_ref(&phrase),
                2 => Mnemonic::from_phrase_lang(phrase.as_str().into(), Lang::English),
                _ => Mnemonic::from_phrase_lang_ref(&phrase, Lang::English),
            }) else { continue };
            c.check(r.is_ok() == want, "accepts", || format!("entry point {k}: accepted={} reference={want}: {phrase}", r.is_ok()));
            if let Ok(mn) = r {
                c.event("accepted");
                c.check(mn.words() == phrase, "words", || format!("{} vs {phrase}", mn.words()));
            } else {
                c.event("rejected");
            }
        }
        if c.index % 12 == 0 {
            let mn = Mnemonic::from_phrase_ref(&good);
            let Ok(mn) = mn else { return };
            let k = c.rng.len(150);
            let (pass, nfkd) = match c.rng.below(8) {
                0 => (String::new(), String::new()),
                // U+00E9 decomposes to e + U+0301; U+FB01 to "fi" under compatibility rules.
                1 => ("caf\u{e9}".to_string(), "cafe\u{301}".to_string()),
                2 => ("\u{fb01}n\u{2460}".to_string(), "fin1".to_string()),
                // white space and marks that a reader of lines or of files might drop
                3 | 4 => {
                    const W: [&str; 9] = ["\n", "\r\n", "\r", "\t", " ", "\u{feff}", "\0", "\"", "'"];
                    let k = c.rng.len(20);
                    let mut s = c.rng.ascii(k);
                    for _ in 0..=c.rng.below(2) {
                        let w = *c.rng.pick(&W);
                        s = if c.rng.bool() { s + w } else { w.to_string() + &s };
                    }
                    (s.clone(), s)
                }
                5 => {
                    let s = c.rng.ascii(k) + &"x".repeat(k);
                    (s.clone(), s)
                }
                _ => {
                    let s = c.rng.ascii(k);
                    (s.clone(), s)
                }
            };
            let want = words::seed(&good, &nfkd);
            let a = mn.seed(&pass.as_str().into());
            let b = mn.seed_ref(&pass);
            c.event("seed_checked");
            c.check(a.as_bytes() == &want[..], "seed", || format!("{good} / {pass:?}: {} want {}", hex(a.as_bytes()), hex(&want)));
            c.check(b.as_bytes() == &want[..], "seed_ref", || format!("{good} / {pass:?}"));
            let r: &[u8] = a.as_ref();
            c.check(r == &want[..], "seed_as_ref", || good.clone());
        }
    });
    let n = m.n(1_800, 20_000);
    m.run_par("generate", n, |c| {
        let (l, eb) = len_of((c.index % 5) as usize);
        let dflt = c.index % 11 == 10;
        let Some(g) = c.nopanic("generate_panic", || format!("{eb} bytes"), || {
            if dflt { Mnemonic::build().generate() } else { MnemonicGenerator::new().with_lang(Lang::English).with_len(l).generate() }
        }) else { return };
        let want = if dflt { 16 } else { eb };
        c.event("generated");
        let e = words::decode(g.words());
        c.nontrivial(g.words());
        c.check(e.as_ref().map(Vec::len) == Some(want), "generated_invalid", || format!("{} (wanted {want} bytes of entropy)", g.words()));
        let again = Mnemonic::from_phrase_ref(g.words());
        c.check(again.is_ok(), "generated_rejected", || g.words().to_string());
    });
    related::mnemonic(m);
}

/// Bit-level statistics over many draws of the same length.
struct Bits {
    n: u64,
    ones: Vec<u64>,
    /// pairs of adjacent bytes equal, at the same offset
    seen: HashSet<Vec<u8>>,
    dup: Option<Vec<u8>>,
    pair_eq: Vec<u64>,
}
impl Bits {
    fn new(len: usize) -> Self {
        Bits { n: 0, ones: vec![0; len * 8], seen: HashSet::new(), dup: None, pair_eq: vec![0; len] }
    }
    fn add(&mut self, b: &[u8]) {
        self.n += 1;
        for (i, x) in b.iter().enumerate() {
            for k in 0..8 {
                self.ones[i * 8 + k] += u64::from((x >> k) & 1);
            }
            // equality with the first byte and with the byte half-way
            let h = b[(i + b.len() / 2) % b.len()];
            self.pair_eq[i] += u64::from(b.len() > 1 && *x == h);
        }
        if !self.seen.insert(b.to_vec()) {
            self.dup = Some(b.to_vec());
        }
    }
}

pub fn fresh(m: &mut Mon) {
    m.rule("Many draws of random byte strings (six usual lengths, all lengths below 140, and sizes up to 300 000 drawn in turn by 8 threads, where no 10 bytes may occur twice at any offset) and of generated mnemonics (5 lengths, entropy recovered by the reference decoder), on 8 threads at once: exact length, no repeated draw, every bit position balanced within 8 standard deviations, no two halves correlated. Non-trivial: counted by drawn value.");
    m.require("draws", 5000);
    m.require("mnemonics", 1000);
    m.require("mixed_draws", 1000);
    let per = m.n(18_000, 160_000);
    m.run("random_bytes", 6, |c| {
        let len = [16usize, 32, 12, 64, 33, 24][c.index as usize];
        let draws: Vec<Vec<Vec<u8>>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| s.spawn(move || (0..per / 8).map(|_| generate_random(len).expect("rng")).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut st = Bits::new(len);
        for d in draws.iter().flatten() {
            c.event("draws");
            c.nontrivial(d);
            c.check(d.len() == len, "length", || format!("asked {len}, got {}", d.len()));
            if d.len() == len {
                st.add(d);
            }
        }
        judge(c, "random", &st);
    });
    // Every small length: exact, and each bit balanced (and so never constant).
    let per = m.n(1_500, 12_000);
    m.run_par("lengths", 140, |c| {
        let len = c.index as usize;
        let mut st = Bits::new(len);
        for _ in 0..per {
            let r = generate_random(len);
            if !c.check(r.as_ref().map(Vec::len).ok() == Some(len), "length", || format!("{len}: {:?}", r.as_ref().map(Vec::len))) {
                return;
            }
            c.event("small_draws");
            st.add(&r.unwrap());
        }
        if len < 12 {
            // Short values do repeat by chance.
            st.dup = None;
        }
        judge(c, "small", &st);
    });
    // Many threads drawing values of all sizes in turn: no 10 bytes of any value occur anywhere else, at
    // any offset, in any value drawn by any thread (windows are sampled by their content).
    let rounds = m.n(24, 200);
    m.run("mixed_sizes", rounds, |c| {
        let sizes: Vec<Vec<usize>> = (0..8)
            .map(|_| {
                (0..60)
                    .map(|_| match c.rng.below(8) {
                        0 => c.rng.below(64) as usize,
                        1 => *c.rng.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]),
                        2 => c.rng.below(70_000) as usize,
                        3 => [65_535usize, 65_536, 65_537, 131_072, 300_001][c.rng.idx(5)],
                        _ => 65 + c.rng.below(3000) as usize,
                    })
                    .collect()
            })
            .collect();
        let all: Vec<Vec<(usize, Result<Vec<u8>, String>)>> = std::thread::scope(|s| {
            let hs: Vec<_> = sizes
                .iter()
                .map(|z| s.spawn(move || z.iter().map(|n| (*n, generate_random(*n).map_err(|e| e.to_string()))).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut seen: HashSet<u128> = HashSet::new();
        for (len, r) in all.into_iter().flatten() {
            let Ok(v) = r else {
                c.violate("length", format!("{len}: {r:?}"));
                return;
            };
            if !c.check(v.len() == len, "length", || format!("asked {len}, got {}", v.len())) {
                return;
            }
            c.event("mixed_draws");
            c.nontrivial(&(len, v.get(..16)));
            for (at, w) in v.windows(10).enumerate() {
                let x = w.iter().fold(0u128, |a, b| a << 8 | u128::from(*b));
                // One window in eight, and all windows at both ends.
                if (x % 8 == 0 || at < 3 || at + 13 > len) && !seen.insert(x) {
                    c.violate("window_repeated", format!("the bytes {} at {at} of a value of {len} bytes occur elsewhere too", hex(w)));
                    return;
                }
            }
            if len >= 1024 {
                let ones: u64 = v.iter().map(|b| u64::from(b.count_ones())).sum();
                let n = len as f64 * 8.0;
                let dev = (ones as f64 - n / 2.0).abs() / (n / 4.0).sqrt();
                c.check(dev < 8.0, "biased", || format!("{ones} ones in {len} bytes ({dev:.1} sd)"));
            }
        }
    });
    let per = m.n(9_000, 60_000);
    m.run("mnemonics", 5, |c| {
        let i = c.index as usize;
        let eb = len_of(i).1;
        let mut st = Bits::new(eb);
        let all: Vec<Vec<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|_| s.spawn(move || (0..per / 8).map(|_| MnemonicGenerator::new().with_len(len_of(i).0).generate().words().to_string()).collect::<Vec<_>>()))
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for w in all.iter().flatten() {
            match words::decode(w) {
                Some(e) if e.len() == eb => {
                    c.event("mnemonics");
                    c.nontrivial(w);
                    st.add(&e);
                }
                _ => c.violate("entropy_size", format!("{w} does not carry {eb} bytes of entropy")),
            }
        }
        judge(c, "mnemonic", &st);
    });
}

fn judge(c: &mut Case, what: &str, st: &Bits) {
    if let Some(d) = &st.dup {
        c.violate("repeated", format!("{what}: value drawn twice: {}", hex(d)));
    }
    let n = st.n as f64;
    let sd = (n / 4.0).sqrt();
    for (i, o) in st.ones.iter().enumerate() {
        let dev = (*o as f64 - n / 2.0).abs() / sd;
        c.check(dev < 8.0, "biased_bit", || format!("{what}: bit {i} is one in {o} of {n} draws ({dev:.1} sd)"));
    }
    for (i, e) in st.pair_eq.iter().enumerate() {
        // expected n/256; 8 sd plus slack
        let lim = n / 256.0 + 8.0 * (n / 256.0).sqrt() + 8.0;
        c.check((*e as f64) < lim, "correlated", || format!("{what}: byte {i} repeats in {e} of {n} draws"));
    }
}
