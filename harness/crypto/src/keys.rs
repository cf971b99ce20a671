use crate::related;
use vmon::{hex, Case, Mon};
use vref::{bech32, hash, scalar};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen, PK, SK};
use witnet_protected::Protected;

type B = [u8; 32];

pub fn sk_bytes(k: &ExtendedSK) -> B {
    k.secret_key.secret_bytes()
}
pub fn cc(k: &ExtendedSK) -> Vec<u8> {
    k.chain_code().as_ref().to_vec()
}
pub fn pubkey(sk: &B) -> [u8; 33] {
    PK::from_secret_key_global(&SK::from_slice(sk).unwrap()).serialize()
}

/// CKDpriv of BIP-32. None when IL is not a valid scalar or the sum is zero.
pub fn ckd(k: &B, c: &[u8], i: u32) -> Option<(B, B)> {
    let h = if i >= 0x8000_0000 {
        hash::hmac512(c, &[&[0], k, &i.to_be_bytes()])
    } else {
        hash::hmac512(c, &[&pubkey(k), &i.to_be_bytes()])
    };
    let il: B = h[..32].try_into().unwrap();
    let ir: B = h[32..].try_into().unwrap();
    if !scalar::valid(&il) {
        return None;
    }
    let s = scalar::add(&il, k);
    scalar::valid(&s).then_some((s, ir))
}

pub fn gen_index(c: &mut Case) -> u32 {
    match c.rng.below(6) {
        0 => c.rng.below(5) as u32,
        1 => 0x8000_0000 + c.rng.below(5) as u32,
        2 => 0x7fff_ffff - c.rng.below(3) as u32,
        3 => u32::MAX - c.rng.below(3) as u32,
        4 => *c.rng.pick(&[0x8000_0000 + 3, 0x8000_0000 + 4919, 0, 1]),
        _ => c.rng.u32(),
    }
}

pub fn gen_sk(c: &mut Case) -> B {
    loop {
        let k: B = match c.rng.below(8) {
            0 => {
                let mut k = [0; 32];
                k[31] = 1 + c.rng.below(200) as u8;
                k
            }
            1 => {
                let mut k = scalar::N;
                k[31] -= 1 + c.rng.below(0x40) as u8;
                k
            }
            2 => {
                // leading zero bytes
                let mut k: B = c.rng.arr();
                let z = c.rng.below(31) as usize;
                k[..z].fill(0);
                k
            }
            _ => c.rng.arr(),
        };
        if scalar::valid(&k) {
            return k;
        }
    }
}

pub fn show_path(p: &[u32]) -> String {
    let mut s = "m".to_string();
    for i in p {
        if *i >= 0x8000_0000 {
            s += &format!("/{}'", i - 0x8000_0000);
        } else {
            s += &format!("/{i}");
        }
    }
    s
}

pub fn bip32(m: &mut Mon) {
    m.rule("Master keys from seeds of every length 0..=80 (random and constant) with the default and custom HMAC keys of length 0..200; child and path derivation (depth 0..=12, and up to 300; hardened, normal and boundary indices; keys near 0 and near the curve order) compared bit by bit with an independent BIP-32 built on reference HMAC-SHA512 and own mod-n addition; derive(p)+derive(q)=derive(p++q); public counterpart; path display and builder. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread and on the same keys. Non-trivial: a successful derivation, counted by (key, chain code, path).");
    m.require("derived", 500);
    m.require("derived_deep", 30);
    m.require("seed_rejected", 20);
    let n = m.n(3_600, 80_000);
    m.run_par("master", n, |c| {
        let len = if c.index <= 80 { c.index as usize } else { c.rng.below(81) as usize };
        let seed = if c.rng.chance(1, 8) { vec![c.rng.u8(); len] } else { c.rng.bytes(len) };
        let custom = c.rng.bool();
        let klen = if custom { c.rng.len(200) } else { 0 };
        let key = if custom { c.rng.bytes(klen) } else { b"Bitcoin seed".to_vec() };
        let r = c.nopanic("master_panic", || hex(&seed), || {
            let g = MasterKeyGen::new(&seed[..]);
            if custom { g.with_key(&key).generate() } else { g.generate() }
        });
        let Some(r) = r else { return };
        if !(16..=64).contains(&len) {
            c.event("seed_rejected");
            c.check(r.is_err(), "seed_len", || format!("seed of {len} bytes accepted"));
            return;
        }
        let h = hash::hmac512(&key, &[&seed]);
        let il: B = h[..32].try_into().unwrap();
        match r {
            Ok(k) => {
                c.nontrivial(&(&seed, &key));
                c.event("master_generated");
                c.check(sk_bytes(&k) == il, "master_key", || format!("seed {} key {}", hex(&seed), hex(&key)));
                c.check(cc(&k) == h[32..], "master_chain", || format!("seed {} key {}", hex(&seed), hex(&key)));
                c.check(k.concat().as_ref() == &h[..], "concat", || hex(&seed));
                c.check(k.secret().as_ref() == &h[..32], "secret", || hex(&seed));
            }
            Err(e) => c.violate("master_err", format!("valid seed {} rejected: {e}", hex(&seed))),
        }
    });
    let n = m.n(9_000, 240_000);
    m.run_par("derive", n, |c| {
        let sk = gen_sk(c);
        // Chain codes are normally 32 bytes; other lengths are legal HMAC keys.
        let cl = if c.rng.chance(1, 20) { c.rng.len(160) } else { 32 };
        let mut chain = c.rng.bytes(cl);
        if c.rng.chance(1, 20) {
            // Zero bytes at either end count like any other.
            let z = 1 + c.rng.below(4) as usize;
            let l = chain.len();
            if c.rng.bool() { chain[l.saturating_sub(z)..].fill(0) } else { chain[..z.min(l)].fill(0) }
        }
        let deep = c.rng.chance(1, 60);
        let depth = if deep { *c.rng.pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300]) } else { c.rng.below(13) as usize };
        let path: Vec<u32> = (0..depth).map(|_| gen_index(c)).collect();
        let ext = ExtendedSK::new(SK::from_slice(&sk).unwrap(), Protected::from(&chain[..]));
        // Reference
        let mut rk = sk;
        let mut rc = chain.clone();
        let mut want = Some(());
        let mut inter = vec![];
        for i in &path {
            match ckd(&rk, &rc, *i) {
                Some((k, ch)) => {
                    rk = k;
                    rc = ch.to_vec();
                    inter.push((rk, rc.clone()));
                }
                None => {
                    want = None;
                    break;
                }
            }
        }
        let kp = KeyPath::from(path.clone());
        let ctx = || format!("sk {} chain {} path {}", hex(&sk), hex(&chain), show_path(&path));
        c.sample(ctx);
        let Some(r) = c.nopanic("derive_panic", ctx, || ext.derive(&kp)) else { return };
        match (&r, want) {
            (Ok(k), Some(())) => {
                c.nontrivial(&(sk, &chain, &path));
                c.event("derived");
                c.check(sk_bytes(k) == rk, "derived_key", || format!("{}: got {} want {}", ctx(), hex(&sk_bytes(k)), hex(&rk)));
                c.check(cc(k) == rc, "derived_chain", || format!("{}: got {} want {}", ctx(), hex(&cc(k)), hex(&rc)));
                let pk = ExtendedPK::from_secret_key(k);
                c.check(pk.key.serialize() == pubkey(&rk) && pk.chain_code.as_ref() == &rc[..], "public", ctx);
                let plain: PK = pk.into();
                c.check(plain.serialize() == pubkey(&rk), "public_into", ctx);
                let s: SK = k.clone().into();
                c.check(s.secret_bytes() == rk, "secret_into", ctx);
                // Composition over every split point, and child-by-child.
                for split in (0..=depth).filter(|s| !deep || [0, 1, depth / 2, depth].contains(s)) {
                    let (a, b) = path.split_at(split);
                    let r2 = ext.derive(&KeyPath::from(a.to_vec())).and_then(|x| x.derive(&KeyPath::from(b.to_vec())));
                    let ok = matches!(&r2, Ok(x) if x == k);
                    c.check(ok, "composition", || format!("{} split {split}", ctx()));
                }
                let mut step = ext.clone();
                for (j, idx) in kp.iter().enumerate() {
                    c.check(*idx.as_ref() == path[j], "path_iter", ctx);
                    c.check(idx.is_hardened() == (path[j] >= 0x8000_0000), "is_hardened", || format!("{:#x}", path[j]));
                    match step.child(idx) {
                        Ok(x) => {
                            c.check(sk_bytes(&x) == inter[j].0 && cc(&x) == inter[j].1, "child", || format!("{} level {j}", ctx()));
                            step = x;
                        }
                        Err(e) => {
                            c.violate("child_err", format!("{} level {j}: {e}", ctx()));
                            break;
                        }
                    }
                }
                if deep {
                    c.event("derived_deep");
                }
                c.check(ext.concat().as_ref() == &[&sk[..], &chain[..]].concat()[..], "concat_any", ctx);
                c.check(k.concat().as_ref() == &[&rk[..], &rc[..]].concat()[..], "concat_derived", ctx);
                // Deriving does not change the parent.
                c.check(sk_bytes(&ext) == sk && cc(&ext) == chain, "parent_changed", ctx);
            }
            (Err(e), Some(())) => c.violate("derive_err", format!("{}: {e}", ctx())),
            (Ok(_), None) => c.violate("derive_should_fail", ctx()),
            (Err(_), None) => c.event("invalid_child"),
        }
        // The builder, the display form and the properties of the path.
        let mut b = KeyPath::default();
        for i in &path {
            b = if *i >= 0x8000_0000 { b.hardened(i - 0x8000_0000) } else { b.index(*i) };
        }
        c.check(b == kp, "builder", || show_path(&path));
        c.check(kp.to_string() == show_path(&path), "display", || format!("{kp} vs {}", show_path(&path)));
        c.check(kp.depth() == depth && kp.is_master() == (depth == 0), "depth", || show_path(&path));
        let over = if c.rng.chance(1, 8) { c.rng.below(2) } else { c.rng.below(1 << 31) };
        let bad = 0x8000_0000u32.saturating_add(over as u32);
        let r = c.guard(|| KeyPath::default().hardened(bad));
        c.check(r.is_err(), "hardened_overflow", || format!("hardened({bad:#x}) gave {r:?}"));
        let r = c.guard(|| KeyPath::default().index(bad));
        c.check(r.is_err(), "index_overflow", || format!("index({bad:#x}) gave {r:?}"));
    });
    related::bip32(m);
}

pub fn encode(path: &[u32], chain: &[u8], prefix: u8, sk: &[u8]) -> String {
    let mut b = vec![path.len() as u8];
    for i in path {
        b.extend_from_slice(&i.to_be_bytes());
    }
    b.extend_from_slice(chain);
    b.push(prefix);
    b.extend_from_slice(sk);
    bech32::encode("xprv", &b)
}

/// What a SLIP-32 private key string means, decided independently.
pub fn ref_import(s: &str) -> Option<(B, B, Vec<u32>)> {
    let (hrp, d) = bech32::decode(s)?;
    if hrp != "xprv" {
        return None;
    }
    let b = bech32::from5(&d)?;
    let depth = *b.first()? as usize;
    if b.len() != 1 + 4 * depth + 65 {
        return None;
    }
    let path = b[1..1 + 4 * depth].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    let rest = &b[1 + 4 * depth..];
    let chain: B = rest[..32].try_into().unwrap();
    if rest[32] != 0 {
        return None;
    }
    let sk: B = rest[33..].try_into().unwrap();
    scalar::valid(&sk).then_some((sk, chain, path))
}

pub fn slip32(m: &mut Mon) {
    m.rule("Export of random extended keys for every path depth 0..=255 (and deeper, which must fail cleanly): the string equals an independent SLIP-32 encoding, and imports back to the same key, chain code and path. Import of hostile strings (bit flips, case changes, truncation, wrong prefix, wrong length, non-zero key prefix, zero or overflowing key, random text): accepted iff an independent decoder accepts, same content, never a panic. Sequences of calls with related inputs (cut, joined, swapped, one bit apart) on one thread. Non-trivial: a round trip or a hostile string that still passes the bech32 checksum, counted by string.");
    m.require("round_trip", 256);
    m.require("rejected_checksum_ok", 50);
    m.require("rejected", 300);
    let rt = |c: &mut Case, depth: usize| {
        let sk = gen_sk(c);
        let chain: B = c.rng.arr();
        let path: Vec<u32> = (0..depth).map(|_| gen_index(c)).collect();
        let ext = ExtendedSK::new(SK::from_slice(&sk).unwrap(), Protected::from(&chain[..]));
        let kp = KeyPath::from(path.clone());
        let ctx = || format!("depth {depth}, sk {}", hex(&sk));
        let Some(r) = c.nopanic("export_panic", ctx, || ext.to_slip32(&kp)) else { return };
        if depth > 255 {
            c.event("too_deep");
            c.check(r.is_err(), "too_deep_accepted", ctx);
            return;
        }
        let s = match r {
            Ok(s) => s,
            Err(e) => return c.violate("export_err", format!("{}: {e}", ctx())),
        };
        let want = encode(&path, &chain, 0, &sk);
        c.check(s == want, "export_bytes", || format!("{}: got {s} want {want}", ctx()));
        c.nontrivial(&s);
        c.sample(|| s.clone());
        for t in [s.clone(), s.to_uppercase()] {
            match c.nopanic("import_panic", || t.clone(), || ExtendedSK::from_slip32(&t)) {
                Some(Ok((k, p))) => {
                    c.event("round_trip");
                    c.check(k == ext && sk_bytes(&k) == sk && cc(&k) == chain, "round_trip_key", ctx);
                    c.check(p == kp, "round_trip_path", || format!("{}: got {p}", ctx()));
                }
                Some(Err(e)) => c.violate("round_trip_err", format!("{}: {e}", ctx())),
                None => {}
            }
        }
    };
    m.run_par("depths", 300, |c| {
        let d = c.index as usize;
        rt(c, d)
    });
    let n = m.n(3_000, 40_000);
    m.run_par("export", n, |c| {
        let d = c.rng.below(12) as usize;
        rt(c, d)
    });
    let n = m.n(36_000, 1_200_000);
    m.run_par("hostile", n, |c| {
        let depth = match c.rng.below(5) {
            0 => 0,
            1 => c.rng.below(256) as usize,
            _ => c.rng.below(8) as usize,
        };
        let path: Vec<u32> = (0..depth).map(|_| gen_index(c)).collect();
        let mut sk = gen_sk(c);
        let mut chain = c.rng.bytes(32);
        let mut prefix = 0u8;
        let s = match c.rng.below(13) {
            0 => {
                // One or more corrupted characters.
                let mut s = encode(&path, &chain, 0, &sk).into_bytes();
                for _ in 0..=c.rng.below(3) {
                    let i = c.rng.idx(s.len());
                    s[i] = 33 + c.rng.below(94) as u8;
                }
                String::from_utf8(s).unwrap()
            }
            1 => {
                prefix = c.rng.u8();
                encode(&path, &chain, prefix, &sk)
            }
            2 => {
                sk = [0; 32];
                encode(&path, &chain, 0, &sk)
            }
            3 => {
                sk = scalar::N;
                if c.rng.bool() {
                    sk = [0xff; 32];
                }
                encode(&path, &chain, 0, &sk)
            }
            4 => {
                // declared depth does not match the payload
                let mut b = vec![c.rng.u8()];
                let n = c.rng.len(400);
                b.extend(c.rng.bytes(n));
                bech32::encode("xprv", &b)
            }
            5 => {
                let delta = c.rng.below(3) as usize;
                if c.rng.bool() {
                    chain.truncate(32 - 1 - delta);
                } else {
                    chain.extend(c.rng.bytes(1 + delta));
                }
                encode(&path, &chain, 0, &sk)
            }
            6 => {
                let h = *c.rng.pick(&["xpub", "xprv1", "xpr", "wit", "twit", "x", "xprvv"]);
                let (_, d) = bech32::decode(&encode(&path, &chain, 0, &sk)).unwrap();
                bech32::encode5(h, &d)
            }
            7 => {
                let s = encode(&path, &chain, 0, &sk);
                let k = c.rng.idx(s.len() + 1);
                s[..k].to_string()
            }
            8 => {
                let mut s = encode(&path, &chain, 0, &sk);
                let extra = c.rng.below(4) as usize;
                s.push_str(&c.rng.ascii(extra));
                s
            }
            9 => {
                // mixed case
                let s = encode(&path, &chain, 0, &sk);
                s.chars().map(|x| if c.rng.chance(1, 10) { x.to_ascii_uppercase() } else { x }).collect()
            }
            10 => {
                let k = c.rng.len(200);
                c.rng.unicode(k)
            }
            11 => {
                // valid checksum over arbitrary 5-bit groups, including bad bit padding
                let k = c.rng.len(200);
                let d: Vec<u8> = (0..k).map(|_| c.rng.below(32) as u8).collect();
                bech32::encode5("xprv", &d)
            }
            _ => {
                // good key with non-zero padding bits at the end
                let (_, mut d) = bech32::decode(&encode(&path, &chain, 0, &sk)).unwrap();
                if c.rng.bool() {
                    let l = d.len();
                    d[l - 1] ^= 1 + c.rng.below(31) as u8;
                } else {
                    d.push(c.rng.below(32) as u8);
                }
                bech32::encode5("xprv", &d)
            }
        };
        let want = ref_import(&s);
        if bech32::decode(&s).is_some() {
            c.nontrivial(&s);
            if want.is_none() {
                c.event("rejected_checksum_ok");
            }
        }
        c.sample(|| s.clone());
        let _ = prefix;
        let Some(got) = c.nopanic("import_panic", || s.clone(), || ExtendedSK::from_slip32(&s)) else { return };
        match (got, want) {
            (Ok((k, p)), Some((wk, wc, wp))) => {
                c.event("accepted");
                let same = sk_bytes(&k) == wk && cc(&k) == wc && p == KeyPath::from(wp);
                c.check(same, "import_content", || s.clone());
            }
            (Ok(_), None) => c.violate("import_accepts", format!("malformed key string accepted: {s}")),
            (Err(e), Some(_)) => c.violate("import_rejects", format!("well-formed key string rejected ({e}): {s}")),
            (Err(_), None) => c.event("rejected"),
        }
    });
    related::slip32(m);
}
