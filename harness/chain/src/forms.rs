//! C20 storage and JSON forms; C21 text forms of addresses, hashes, pointers and signatures.
use crate::gen;
use serde::{de::DeserializeOwned, Serialize};
use std::fmt::Debug;
use std::str::FromStr;
use vmon::{hex, Case, Mon, Rng};
use witnet_crypto::secp256k1;
use witnet_data_structures::chain::*;
use witnet_data_structures::fee::{deserialize_fee_backwards_compatible, Fee};
use witnet_data_structures::utxo_pool::UtxoSelectionStrategy;
use witnet_data_structures::wit::Wit;

fn both<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, name: &str, x: &T) {
    c.eval(1);
    c.event(name);
    let what = || format!("{name}: {x:?}");
    match c.nopanic("bincode-panics", what, || bincode::serialize(x)) {
        Some(Ok(b)) => {
            let y = c.nopanic("bincode-panics", what, || bincode::deserialize::<T>(&b));
            if let Some(y) = y {
                c.check(y.as_ref().ok() == Some(x), &format!("storage-{name}"), || format!("{x:?} is stored as {} and read as {y:?}", hex(&b)));
                if let Ok(y) = y {
                    c.check(bincode::serialize(&y).ok().as_ref() == Some(&b), &format!("storage-stable-{name}"), what);
                }
            }
            if b.len() > 30 {
                c.nontrivial(&b);
            }
        }
        Some(Err(e)) => c.violate(&format!("storage-{name}"), format!("{e}: {x:?}")),
        None => {}
    }
    json(c, name, x);
}

fn json<T: Serialize + DeserializeOwned + PartialEq + Debug>(c: &mut Case, name: &str, x: &T) {
    let what = || format!("{name}: {x:?}");
    match c.nopanic("json-panics", what, || serde_json::to_string(x)) {
        Some(Ok(s)) => {
            let y = c.nopanic("json-panics", what, || serde_json::from_str::<T>(&s));
            if let Some(y) = y {
                c.check(y.as_ref().ok() == Some(x), &format!("json-{name}"), || format!("{x:?} is written as {s} and read as {y:?}"));
            }
            // Through the generic JSON value, as JSON-RPC parameters travel.
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) {
                let y = serde_json::from_value::<T>(v);
                c.check(y.as_ref().ok() == Some(x), &format!("json-value-{name}"), || format!("{x:?} is written as {s} and read as {y:?}"));
            }
        }
        Some(Err(e)) => c.violate(&format!("json-{name}"), format!("{e}: {x:?}")),
        None => {}
    }
}

/// Bincode of the retrieval format before it had bodies and headers: kind, url, script.
fn old_retrieve(kind: u32, url: &str, script: &[u8]) -> Vec<u8> {
    let mut o = kind.to_le_bytes().to_vec();
    o.extend((url.len() as u64).to_le_bytes());
    o.extend(url.as_bytes());
    o.extend((script.len() as u64).to_le_bytes());
    o.extend(script);
    o
}

fn chain_info(r: &mut Rng) -> ChainInfo {
    let mut i = ChainInfo::default();
    i.environment = match r.below(3) {
        0 => Environment::Mainnet,
        1 => Environment::Testnet,
        _ => Environment::Development,
    };
    i.highest_block_checkpoint = gen::beacon(r);
    i.highest_superblock_checkpoint = gen::beacon(r);
    i.highest_vrf_output = CheckpointVRF { checkpoint: r.edgy_u32(), hash_prev_vrf: gen::hash(r) };
    i.consensus_constants.checkpoint_zero_timestamp = r.edgy_u64() as i64;
    i.consensus_constants.checkpoints_period = r.edgy_u32() as u16;
    i.consensus_constants.genesis_hash = gen::hash(r);
    i.consensus_constants.bootstrapping_committee = gen::many(r, 4, |r| gen::text(r, 10));
    i.consensus_constants.initial_block_reward = r.edgy_u64();
    i
}

pub fn storage(m: &mut Mon) {
    m.rule("Random persistent and JSON-RPC objects of every kind are written in the storage (bincode) and JSON forms and read back; old storage forms and string-encoded numbers are read; non-trivial: a distinct stored form of more than 30 bytes.");
    for k in ["block", "transaction", "retrieve", "old retrieve", "strategy", "number as string", "chain info", "fee"] {
        m.require(k, 20);
    }
    let n = m.n(40_000, 800_000);
    m.run_par("objects", n, |c| {
        let r = &mut c.rng;
        match r.below(14) {
            0 | 1 => {
                let b = gen::block(r);
                both(c, "block", &b)
            }
            2 | 3 => {
                let t = gen::tx(r);
                both(c, "transaction", &t)
            }
            4 => {
                let s = gen::superblock(r);
                both(c, "superblock", &s)
            }
            5 => {
                let s = gen::sbv(r);
                both(c, "vote", &s)
            }
            6 => {
                let x = gen::retrieve(r);
                both(c, "retrieve", &x)
            }
            7 => {
                let x = gen::dro(r);
                both(c, "data request", &x)
            }
            8 => {
                let (a, b, h) = (gen::ptr(r), gen::pkh(r), gen::hash(r));
                both(c, "pointer", &a);
                both(c, "address", &b);
                both(c, "hash", &h)
            }
            9 => {
                let x = gen::inv(r);
                both(c, "inventory", &x)
            }
            10 => {
                let from = if r.bool() { Some(gen::pkh(r)) } else { None };
                let s = match r.below(3) {
                    0 => UtxoSelectionStrategy::Random { from },
                    1 => UtxoSelectionStrategy::BigFirst { from },
                    _ => UtxoSelectionStrategy::SmallFirst { from },
                };
                c.event("strategy");
                c.eval(1);
                json(c, "strategy", &s)
            }
            11 => {
                let x = chain_info(r);
                both(c, "chain info", &x)
            }
            12 => {
                let x = gen::keyed(r);
                both(c, "signature", &x)
            }
            _ => {
                let x = gen::vto(r);
                both(c, "output", &x)
            }
        }
    });
    m.run_par("old forms", n / 4, |c| {
        let x = gen::retrieve(&mut c.rng);
        let k = c.rng.below(3) as u32;
        let kind = [RADType::Unknown, RADType::HttpGet, RADType::Rng][k as usize].clone();
        let old = old_retrieve(k, &x.url, &x.script);
        let want = RADRetrieve { kind, url: x.url.clone(), script: x.script.clone(), body: vec![], headers: vec![] };
        c.eval(1);
        c.event("old retrieve");
        let got = c.nopanic("old-form-panics", || hex(&old), || bincode::deserialize::<RADRetrieve>(&old));
        if let Some(got) = got {
            c.check(got.as_ref().ok() == Some(&want), "old-retrieve", || format!("{want:?} read as {got:?}"));
        }
        // Inside a list, followed by other objects, both generations mixed.
        let mut list = 3u64.to_le_bytes().to_vec();
        list.extend(&old);
        list.extend(bincode::serialize(&x).unwrap());
        list.extend(&old);
        let got = bincode::deserialize::<Vec<RADRetrieve>>(&list);
        let want = vec![want.clone(), x.clone(), want];
        c.check(got.as_ref().ok() == Some(&want), "mixed-retrieve-list", || format!("{want:?} read as {got:?}"));
        let bad = c.rng.range(4, u32::MAX as u64) as u32;
        let got = c.nopanic("old-form-panics", || format!("{bad}"), || bincode::deserialize::<RADRetrieve>(&old_retrieve(bad, "", &[])));
        c.check(matches!(got, Some(Err(_)) | None), "unknown-format-accepted", || format!("{bad}: {got:?}"));
    });
    m.run_par("numbers", n / 4, |c| {
        c.eval(1);
        c.event("number as string");
        let v = gen::vto(&mut c.rng);
        let addr = serde_json::to_string(&v.pkh).unwrap();
        for s in [
            format!(r#"{{"pkh":{addr},"value":"{}","time_lock":{}}}"#, v.value, v.time_lock),
            format!(r#"{{"time_lock":{},"value":{},"pkh":{addr}}}"#, v.time_lock, v.value),
        ] {
            let got = serde_json::from_str::<ValueTransferOutput>(&s);
            c.check(got.as_ref().ok() == Some(&v), "number-from-string", || format!("{s} -> {got:?}"));
        }
        for bad in ["-1", "1.5", "18446744073709551616", "", "1e3", "0x10", " 1"] {
            let s = format!(r#"{{"pkh":{addr},"value":"{bad}","time_lock":0}}"#);
            let got = serde_json::from_str::<ValueTransferOutput>(&s);
            c.check(got.is_err(), "bad-number-accepted", || format!("{s} -> {got:?}"));
        }
        c.event("fee");
        let n = c.rng.edgy_u64();
        let abs = Fee::absolute_from_nanowits(n);
        for s in [format!("{n}"), format!("\"{n}\""), format!("{{\"absolute\":{n}}}"), format!("{{\"absolute\":\"{n}\"}}")] {
            let got = deserialize_fee_backwards_compatible(&mut serde_json::Deserializer::from_str(&s));
            c.check(got.as_ref().ok() == Some(&abs), "fee-form", || format!("{s} -> {got:?}"));
        }
        let f = c.rng.edgy_u32() as f64 / 8.0;
        let rel = Fee::relative_from_float(f);
        for s in [format!("{{\"relative\":{f:?}}}"), format!("{{\"relative\":\"{f:?}\"}}"), serde_json::to_string(&rel).unwrap()] {
            let got = deserialize_fee_backwards_compatible(&mut serde_json::Deserializer::from_str(&s));
            c.check(got.as_ref().ok() == Some(&rel), "fee-form", || format!("{s} -> {got:?}"));
        }
        let got: Result<Fee, _> = serde_json::from_str(&serde_json::to_string(&abs).unwrap());
        c.check(got.as_ref().ok() == Some(&abs), "fee-form", || format!("{abs:?} -> {got:?}"));
    });
    m.run_par("hostile storage", n, |c| {
        // Corrupted records end in an object or an error, never a crash.
        let t = gen::block(&mut c.rng);
        let mut b = bincode::serialize(&t).unwrap();
        for _ in 0..c.rng.range(1, 3) {
            if b.is_empty() {
                break;
            }
            let i = c.rng.idx(b.len());
            match c.rng.below(3) {
                0 => b[i] ^= 1 << c.rng.below(8),
                1 => b.truncate(i),
                _ => b[i] = c.rng.u8(),
            }
        }
        c.eval(1);
        c.event("corrupted record");
        c.nopanic("corrupted-record-panics", || hex(&b), || bincode::deserialize::<Block>(&b).is_ok());
    });
}

const ENVS: [Environment; 3] = [Environment::Mainnet, Environment::Testnet, Environment::Development];
fn prefix(e: Environment) -> &'static str {
    if e == Environment::Mainnet { "wit" } else { "twit" }
}

pub fn text(m: &mut Mon) {
    m.rule("Addresses, hashes, pointers and recoverable signatures are written as text and read back in every environment; mutated texts are judged by an independent bech32/hex decoder; non-trivial: a distinct text that differs from a valid one.");
    for k in ["address", "address refused", "hash", "pointer", "recoverable", "recoverable refused", "wit"] {
        m.require(k, 20);
    }
    let n = m.n(6_000, 300_000);
    m.run_par("addresses", n, |c| {
        let k = gen::pkh(&mut c.rng);
        for e in ENVS {
            c.eval(1);
            c.event("address");
            let s = k.bech32(e);
            c.check(s == vref::bech32::encode(prefix(e), k.as_ref()), "address-text", || format!("{e}: {s} for {}", hex(k.as_ref())));
            for e2 in ENVS {
                let got = PublicKeyHash::from_bech32(e2, &s);
                let same = prefix(e) == prefix(e2);
                c.check(got.as_ref().ok() == Some(&k).filter(|_| same), "address-environment", || format!("{s} of {e} read in {e2}: {got:?}"));
            }
            let mut t: Vec<char> = s.chars().collect();
            let edits = c.rng.range(1, 4);
            for _ in 0..edits {
                let i = c.rng.idx(t.len());
                match c.rng.below(6) {
                    0 => t[i] = *c.rng.pick(&['q', 'p', 'z', '1', 'b', 'i', 'o', ' ', 'é', 'Q']),
                    1 => {
                        t.remove(i);
                    }
                    2 => t.insert(i, *c.rng.pick(&['q', '1', 'l', '\u{0}', '7'])),
                    3 => t.truncate(i),
                    4 => t[i] = t[i].to_ascii_uppercase(),
                    _ => {
                        let j = c.rng.idx(t.len());
                        t.swap(i, j)
                    }
                }
                if t.is_empty() {
                    break;
                }
            }
            let t: String = t.into_iter().collect();
            c.nontrivial(t.as_bytes());
            judge(c, e, &t);
        }
        // Well-formed bech32 of a wrong size or another prefix.
        let n = c.rng.len(40);
        let b = c.rng.bytes(n);
        let e = *c.rng.pick(&ENVS);
        let hrp = *c.rng.pick(&["wit", "twit", "xprv", "w", "witt", "tb", "TWIT"]);
        judge(c, e, &vref::bech32::encode(&hrp.to_lowercase(), &b));
        c.check(PublicKeyHash::from_bytes(&b).is_ok() == (b.len() == 20), "address-length", || hex(&b));
        let h = k.to_hex();
        c.check(h == hex(k.as_ref()) && PublicKeyHash::from_hex(&h).ok() == Some(k), "address-hex", || h.clone());
        let bad = &h[..c.rng.idx(40)];
        c.check(PublicKeyHash::from_hex(bad).is_err(), "address-hex", || bad.into());
    });
    m.run_par("hashes", n, |c| {
        let h = gen::hash(&mut c.rng);
        c.eval(1);
        c.event("hash");
        let s = h.to_string();
        c.check(s == hex(&h.data()), "hash-text", || s.clone());
        c.check(Hash::from_str(&s).ok() == Some(h) && Hash::from_str(&s.to_uppercase()).ok() == Some(h), "hash-text", || s.clone());
        let mut t: Vec<char> = s.chars().collect();
        let i = c.rng.idx(64);
        match c.rng.below(4) {
            0 => t[i] = *c.rng.pick(&['g', 'G', ' ', 'é', '-', '\0', 'x']),
            1 => {
                t.remove(i);
            }
            2 => t.insert(i, 'a'),
            _ => t.truncate(i),
        }
        let t: String = t.into_iter().collect();
        c.nontrivial(t.as_bytes());
        let got = c.nopanic("hash-panics", || t.clone(), || Hash::from_str(&t));
        c.check(matches!(got, Some(Err(_)) | None), "bad-hash-accepted", || format!("{t} {got:?}"));
        let p = gen::ptr(&mut c.rng);
        c.event("pointer");
        let s = format!("{}:{}", hex(&p.transaction_id.data()), p.output_index);
        c.check(p.to_string() == s && OutputPointer::from_str(&s).ok() == Some(p), "pointer-text", || s.clone());
        let bad = match c.rng.below(6) {
            0 => t.clone(),
            1 => format!("{}:{}", hex(&p.transaction_id.data()), p.output_index as u64 + (1 << 32)),
            2 => format!("{}:-1", hex(&p.transaction_id.data())),
            3 => format!("{t}:{}", p.output_index),
            4 => format!("{}:", hex(&p.transaction_id.data())),
            _ => format!(":{}", p.output_index),
        };
        let got = c.nopanic("pointer-panics", || bad.clone(), || OutputPointer::from_str(&bad));
        c.check(matches!(got, Some(Err(_)) | None), "bad-pointer-accepted", || format!("{bad} {got:?}"));
        let g = c.rng.unicode(6);
        c.nopanic("pointer-panics", || g.clone(), || (OutputPointer::from_str(&g).is_ok(), Hash::from_str(&g).is_ok()));
        let d = c.rng.edgy_u64().max(1);
        let (q, rem) = h.div_mod(d);
        // q * d + rem is the hash again, computed bytewise.
        let mut acc: Vec<u8> = vec![];
        let mut carry = rem as u128;
        for b in q.data().iter().rev() {
            let v = *b as u128 * d as u128 + carry;
            acc.push(v as u8);
            carry = v >> 8;
        }
        acc.reverse();
        c.check(rem < d && carry == 0 && acc == h.data(), "hash-div-mod", || format!("{h} / {d} = {q}, {rem}"));
        c.event("wit");
        let w = c.rng.edgy_u64();
        c.check(Wit::from_nanowits(w).to_string() == format!("{}.{:09}", w / 1_000_000_000, w % 1_000_000_000), "wit-text", || format!("{w}"));
    });
    m.run_par("recoverable", n / 4, |c| {
        let secp = secp256k1::Secp256k1::new();
        let sk = loop {
            if let Ok(k) = secp256k1::SecretKey::from_slice(&c.rng.arr::<32>()) {
                break k;
            }
        };
        let pk = secp256k1::PublicKey::from_secret_key(&secp, &sk);
        let addr = gen::pkh(&mut c.rng);
        let mut msg = [0u8; 32];
        msg[..20].copy_from_slice(addr.as_ref());
        c.check(addr.as_secp256k1_msg() == msg, "address-message", || hex(&msg));
        let sig = secp.sign_ecdsa(&secp256k1::Message::from_digest(msg), &sk);
        let ks = KeyedSignature { signature: sig.into(), public_key: pk.into() };
        c.eval(1);
        c.event("recoverable");
        let Some(Ok(bytes)) = c.nopanic("recoverable-panics", || format!("{ks:?}"), || ks.clone().to_recoverable_bytes(&msg)) else {
            c.violate("recoverable-fails", format!("{ks:?}"));
            return;
        };
        let want: [u8; 33] = pk.serialize();
        c.check(PublicKey::from_bytes(want) == ks.public_key && ks.public_key.to_bytes() == want, "public-key-bytes", || hex(&want));
        let back = KeyedSignature::from_recoverable_hex(&hex(&bytes), &msg);
        c.check(back.as_ref().ok() == Some(&ks), "recoverable-round-trip", || format!("{ks:?} -> {} -> {back:?}", hex(&bytes)));
        // A signature over something else recovers another key, never this one.
        let mut other = msg;
        other[c.rng.idx(32)] ^= 1 << c.rng.below(8);
        let got = KeyedSignature::from_recoverable_slice(&bytes, &other);
        c.check(got.as_ref().map(|k| k.public_key != ks.public_key).unwrap_or(true), "recovers-for-other-message", || format!("{got:?}"));
        // Hostile forms.
        let mut b = bytes.to_vec();
        match c.rng.below(6) {
            0 => b.truncate(c.rng.below(66) as usize),
            1 => b = vec![],
            2 => b[0] = c.rng.u8(),
            3 => b.push(0),
            4 => {
                let i = c.rng.idx(65);
                b[i] ^= 1 << c.rng.below(8)
            }
            _ => b = vec![c.rng.below(5) as u8; c.rng.below(70) as usize],
        }
        let ml = *c.rng.pick(&[0usize, 20, 31, 32, 32, 32, 33]);
        let mm = c.rng.bytes(ml);
        let mm = if ml == 32 { msg.to_vec() } else { mm };
        c.nontrivial(&b);
        let h = if c.rng.chance(1, 8) { c.rng.unicode(9) } else { hex(&b) };
        if let Some(got) = c.nopanic("recoverable-panics", || format!("{h:?} for message {}", hex(&mm)), || KeyedSignature::from_recoverable_hex(&h, &mm)) {
            match got {
                Ok(k) => {
                    // Whatever is accepted verifies as a signature of that key over the message.
                    let ok = b.len() == 65 && mm.len() == 32 && {
                        let s = secp256k1::ecdsa::Signature::from_compact(&b[1..]).map(|mut s| {
                            s.normalize_s();
                            s
                        });
                        let p = secp256k1::PublicKey::from_slice(&k.public_key.to_bytes());
                        match (s, p) {
                            (Ok(s), Ok(p)) => secp.verify_ecdsa(&secp256k1::Message::from_digest_slice(&mm).unwrap(), &s, &p).is_ok(),
                            _ => false,
                        }
                    };
                    c.check(ok, "recovered-key-did-not-sign", || format!("{h} {} {k:?}", hex(&mm)));
                }
                Err(_) => c.event("recoverable refused"),
            }
        }
        let junk = {
            let n = c.rng.len(40);
            c.rng.bytes(n)
        };
        c.check(PublicKey::try_from_slice(&junk).is_ok() == (junk.len() == 33), "public-key-length", || hex(&junk));
    });
}

fn judge(c: &mut Case, e: Environment, t: &str) {
    // Accepted exactly when it is bech32 (either checksum of BIP-173/BIP-350) of 20 bytes under the
    // prefix of the environment.
    let want = decode_either(t).filter(|(h, b)| h == prefix(e) && b.len() == 20).map(|x| x.1);
    let got = c.nopanic("address-panics", || format!("{t:?}"), || PublicKeyHash::from_bech32(e, t));
    let Some(got) = got else { return };
    if got.is_err() {
        c.event("address refused");
    }
    let g = got.as_ref().ok().map(|k| k.as_ref().to_vec());
    c.check(g == want, "address-judgement", || format!("{t:?} in {e}: {got:?} instead of {want:?}"));
}

fn decode_either(t: &str) -> Option<(String, Vec<u8>)> {
    let (h, d) = vref::bech32::decode(t)?;
    Some((h, vref::bech32::from5(&d)?))
}
