//! C18 wire round trip, canonical bytes and identities; C19 hostile bytes.
use crate::{gen, wire};
use protobuf::Message as _;
use vmon::{hex, Case, Mon, Rng};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, Versioned, VersionedHashable};
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::*;
use ProtocolVersion::*;

const VERSIONS: [ProtocolVersion; 4] = [V1_7, V1_8, V2_0, V2_1];

/// What a message looks like to a peer speaking `v`: version 1.7 knows nothing of staking.
fn seen(m: &Message, v: ProtocolVersion) -> Message {
    let mut m = m.clone();
    if v == V1_7 {
        if let Command::Block(b) = &mut m.kind {
            b.txns.stake_txns.clear();
            b.txns.unstake_txns.clear();
            b.block_header.merkle_roots.stake_hash_merkle_root = Hash::default();
            b.block_header.merkle_roots.unstake_hash_merkle_root = Hash::default();
        }
    }
    m
}

pub fn roundtrip(m: &mut Mon) {
    m.rule("Random protocol objects of every kind (all optional parts present and absent, edge values) are encoded for every protocol version, compared byte by byte with an independent encoder, decoded, and hashed; non-trivial: a distinct message of more than 40 bytes.");
    let n = m.n(20_000, 800_000);
    for k in ["block", "transaction", "superblock", "vote", "version", "peers", "inventory", "last beacon", "legacy", "every tx kind"] {
        m.require(k, 20);
    }
    m.run_par("messages", n, |c| {
        let msg = gen::message(&mut c.rng);
        let k = match &msg.kind {
            Command::Block(_) => "block",
            Command::Transaction(_) => "transaction",
            Command::SuperBlock(_) => "superblock",
            Command::SuperBlockVote(_) => "vote",
            Command::Version(_) => "version",
            Command::Peers(_) => "peers",
            Command::InventoryAnnouncement(_) | Command::InventoryRequest(_) => "inventory",
            Command::LastBeacon(_) => "last beacon",
            Command::Verack(_) | Command::GetPeers(_) => "empty",
        };
        c.event(k);
        for v in VERSIONS {
            c.eval(1);
            let Some(Ok(bytes)) = c.nopanic("encode-panics", || format!("{msg:?}"), || msg.to_versioned_pb_bytes(v)) else {
                c.violate("encode-fails", format!("{v} {msg:?}"));
                continue;
            };
            let want = wire::message(&msg, v);
            c.check(bytes == want, &format!("encoding-{k}"), || format!("{v}: {msg:?}\n got {}\nwant {}", hex(&bytes), hex(&want)));
            let Some(back) = c.nopanic("decode-panics", || hex(&bytes), || Message::from_versioned_pb_bytes(&bytes)) else { continue };
            let want = seen(&msg, v);
            if v == V1_7 && k == "block" {
                c.event("legacy");
            }
            match back {
                Ok(b) => {
                    c.check(b == want, &format!("round-trip-{k}"), || format!("{v}: sent {want:?}\n received {b:?}"));
                }
                Err(e) => c.violate(&format!("decode-own-{k}"), format!("{v}: {e}: {msg:?}")),
            }
            if v == V2_1 {
                if bytes.len() > 40 {
                    c.nontrivial(&bytes);
                }
                let direct = Message::from_pb_bytes(&bytes);
                c.check(direct.as_ref().ok() == Some(&msg), "round-trip-plain", || format!("{msg:?} -> {direct:?}"));
                c.check(msg.to_pb_bytes().ok().as_ref() == Some(&bytes), "plain-encoding", || format!("{msg:?}"));
            }
        }
        c.sample(|| format!("{k}: {msg:?}"));
    });
    m.run_par("identities", n, |c| {
        let t = gen::tx(&mut c.rng);
        c.event("every tx kind");
        let want = wire::tx_hash(&t);
        let bytes = t.to_pb_bytes().unwrap();
        c.check(bytes == wire::tx(&t), "tx-encoding", || format!("{t:?}"));
        c.check(t.size() as usize == bytes.len(), "tx-size", || format!("{} for {} bytes: {t:?}", t.size(), bytes.len()));
        c.nontrivial(&bytes);
        c.check(t.hash() == want, "tx-hash", || format!("{} instead of {want}: {t:?}", t.hash()));
        c.check(t.hash() == want, "tx-hash-second-time", || format!("{t:?}"));
        let u: Transaction = Transaction::from_pb_bytes(&bytes).unwrap();
        c.check(u == t && u.hash() == want, "tx-hash-after-decoding", || format!("{t:?} {u:?}"));
        for v in VERSIONS {
            c.eval(1);
            c.check(t.versioned_hash(v) == want, "tx-versioned-hash", || format!("{v} {} instead of {want}: {t:?}", t.versioned_hash(v)));
        }
        if let Transaction::DataRequest(d) = &t {
            let (a, b) = (d.body.data_poi_hash(V1_7), d.body.rest_poi_hash(V1_7));
            c.check(wire::cat(a, b) == want, "dr-poi-split", || format!("{t:?}"));
        }
        if let Transaction::Tally(d) = &t {
            let (a, b) = (d.data_poi_hash(), d.rest_poi_hash(V1_7));
            c.check(wire::cat(a, b) == want, "tally-poi-split", || format!("{t:?}"));
        }
        // Another transaction never shares the identity: change one thing that the hash must cover.
        let mut bytes2 = bytes.clone();
        if !bytes2.is_empty() {
            let i = c.rng.idx(bytes2.len());
            bytes2[i] ^= 1 << c.rng.below(8);
            if let Ok(u) = Transaction::from_pb_bytes(&bytes2) {
                let same_body = wire::tx_hash(&u) == want;
                c.check((u.hash() == want) == same_body, "identity-covers-body", || format!("{t:?} / {u:?}"));
            }
        }
        // Blocks and superblocks
        let h = gen::header(&mut c.rng);
        for v in VERSIONS {
            let mut h2 = h.clone();
            if v == V1_7 {
                // the legacy header has no staking roots: they do not enter its hash
                h2.merkle_roots.stake_hash_merkle_root = gen::hash(&mut c.rng);
                h2.merkle_roots.unstake_hash_merkle_root = gen::hash(&mut c.rng);
            }
            let want = wire::header_hash(&h, v);
            c.check(h2.versioned_hash(v) == want, "header-hash", || format!("{v} {h:?}"));
            let b = Block::new(h.clone(), gen::keyed(&mut c.rng), BlockTransactions::default());
            c.check(b.versioned_hash(v) == want, "block-hash", || format!("{v} {h:?}"));
            if v == V1_7 {
                c.check(b.hash() == want, "block-memo-hash", || format!("{h:?}"));
            }
        }
        c.check(h.hash() == wire::header_hash(&h, V2_1), "header-plain-hash", || format!("{h:?}"));
        let s = gen::superblock(&mut c.rng);
        c.check(s.hash() == wire::superblock_hash(&s), "superblock-hash", || format!("{s:?}"));
        c.check(s.to_pb_bytes().unwrap() == wire::superblock(&s), "superblock-encoding", || format!("{s:?}"));
        let v = gen::sbv(&mut c.rng);
        let mut msg = v.superblock_index.to_be_bytes().to_vec();
        msg.extend(v.superblock_hash.as_ref());
        c.check(v.bn256_signature_message() == msg, "vote-bls-message", || format!("{v:?}"));
        msg.extend(&v.bn256_signature.signature);
        c.check(v.secp256k1_signature_message() == msg, "vote-ecdsa-message", || format!("{v:?}"));
    });
    // The merkle roots a block header commits to.
    m.run_par("merkle roots", n / 4, |c| {
        let t = gen::txns(&mut c.rng);
        for v in VERSIONS {
            c.eval(1);
            let r = BlockMerkleRoots::from_transactions(&t, v);
            let root = |hs: Vec<Hash>| {
                let mut l: Vec<Hash> = hs;
                if l.is_empty() {
                    return Hash::SHA256(vref::hash::sha256(b""));
                }
                while l.len() > 1 {
                    l = l.chunks(2).map(|p| if p.len() == 2 { wire::cat(p[0], p[1]) } else { p[0] }).collect();
                }
                l[0]
            };
            macro_rules! roots {
                ($f:ident) => {
                    root(t.$f.iter().map(|x| wire::tx_hash(&x.clone().into())).collect())
                };
            }
            let want = BlockMerkleRoots {
                mint_hash: wire::tx_hash(&t.mint.clone().into()),
                vt_hash_merkle_root: roots!(value_transfer_txns),
                dr_hash_merkle_root: roots!(data_request_txns),
                commit_hash_merkle_root: roots!(commit_txns),
                reveal_hash_merkle_root: roots!(reveal_txns),
                tally_hash_merkle_root: roots!(tally_txns),
                stake_hash_merkle_root: if v >= V1_8 { roots!(stake_txns) } else { Hash::default() },
                unstake_hash_merkle_root: if v >= V2_0 { roots!(unstake_txns) } else { Hash::default() },
            };
            c.check(r == want, "merkle-roots", || format!("{v}: {r:?}\n want {want:?}"));
        }
        let bh = gen::hash(&mut c.rng);
        let ps = t.create_pointers_to_transactions(bh);
        c.check(ps.len() == t.len(), "pointer-count", || format!("{} vs {}", ps.len(), t.len()));
        for (h, p) in &ps {
            c.eval(1);
            let got = t.get(p.transaction_index);
            c.check(p.block_hash == bh && got.as_ref().map(|t| t.hash()) == Some(*h), "pointer-resolves", || format!("{h} {p:?} {got:?}"));
        }
        let mut all: Vec<Hash> = ps.iter().map(|p| p.0).collect();
        let mut want: Vec<Hash> = vec![t.mint.hash()];
        want.extend(t.value_transfer_txns.iter().map(|t| t.hash()));
        want.extend(t.data_request_txns.iter().map(|t| t.hash()));
        want.extend(t.commit_txns.iter().map(|t| t.hash()));
        want.extend(t.reveal_txns.iter().map(|t| t.hash()));
        want.extend(t.tally_txns.iter().map(|t| t.hash()));
        want.extend(t.stake_txns.iter().map(|t| t.hash()));
        want.extend(t.unstake_txns.iter().map(|t| t.hash()));
        all.sort();
        want.sort();
        c.check(all == want, "pointers-cover-block", || format!("{all:?} {want:?}"));
        c.event("block pointers");
    });
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        let n = b.len();
        match r.below(9) {
            0 if n > 0 => {
                let i = r.idx(n);
                b[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.idx(n);
                b[i] = r.u8();
            }
            2 => b.truncate(r.idx(n + 1)),
            3 => {
                let k = r.len(12);
                let x = r.bytes(k);
                let at = r.idx(n + 1);
                b.splice(at..at, x);
            }
            4 if n > 0 => {
                let i = r.idx(n);
                let j = (i + 1 + r.idx(30)).min(n);
                b.drain(i..j);
            }
            5 if n > 0 => {
                let i = r.idx(n);
                let j = (i + 1 + r.idx(60)).min(n);
                let x = b[i..j].to_vec();
                let at = r.idx(n + 1);
                b.splice(at..at, x);
            }
            6 if n > 0 => {
                let i = r.idx(n);
                b[i] = *r.pick(&[0, 0x7f, 0x80, 0xff, 0x0a, 0x12]);
            }
            7 => b.extend([0xff, 0xff, 0xff, 0xff, 0x0f]),
            _ => {
                let x = wire::message(&gen::message(r), V2_1);
                b.extend(x);
            }
        }
    }
}

/// Drop a whole field of a random nested message: walks the encoding as (tag, value) pairs.
fn drop_field(r: &mut Rng, b: &[u8], depth: u32) -> Vec<u8> {
    let mut fields: Vec<(usize, usize, Option<(usize, usize)>)> = vec![];
    let mut i = 0;
    let varint = |i: &mut usize| -> Option<u64> {
        let mut x = 0u64;
        for k in 0..10 {
            let c = *b.get(*i)?;
            *i += 1;
            x |= u64::from(c & 0x7f) << (7 * k);
            if c < 0x80 {
                return Some(x);
            }
        }
        None
    };
    while i < b.len() {
        let s = i;
        let Some(t) = varint(&mut i) else { return b.to_vec() };
        let mut body = None;
        match t & 7 {
            0 => {
                if varint(&mut i).is_none() {
                    return b.to_vec();
                }
            }
            1 => i += 8,
            5 => i += 4,
            2 => {
                let Some(l) = varint(&mut i) else { return b.to_vec() };
                let l = l as usize;
                if l > b.len().saturating_sub(i) {
                    return b.to_vec();
                }
                body = Some((i, i + l));
                i += l;
            }
            _ => return b.to_vec(),
        }
        if i > b.len() {
            return b.to_vec();
        }
        fields.push((s, i, body));
    }
    if fields.is_empty() {
        return vec![];
    }
    let k = r.idx(fields.len());
    let (s, e, body) = fields[k];
    let mut out = b[..s].to_vec();
    match body {
        Some((x, y)) if depth > 0 && y > x && r.chance(3, 4) => {
            let inner = drop_field(r, &b[x..y], depth - 1);
            out.push(b[s]);
            let mut l = inner.len() as u64;
            while l >= 0x80 {
                out.push(l as u8 | 0x80);
                l >>= 7;
            }
            out.push(l as u8);
            out.extend(inner);
        }
        _ => match r.below(3) {
            0 => {}
            1 => {
                out.extend(&b[s..e]);
                out.extend(&b[s..e]);
            }
            _ => {
                if let Some((x, y)) = body {
                    out.push(b[s]);
                    let x2 = &b[x..x + (y - x).min(r.idx(40))];
                    out.push(x2.len() as u8 & 0x7f);
                    out.extend(x2);
                }
            }
        },
    }
    out.extend(&b[e..]);
    out
}

fn probe(c: &mut Case, b: &[u8]) {
    c.eval(1);
    let d = || hex(b);
    let r = c.nopanic("hostile-message-panics", d, || Message::from_versioned_pb_bytes(b));
    match r {
        Some(Ok(m)) => {
            c.event("accepted");
            // Whatever was accepted has one meaning: it encodes, and decodes to itself.
            let Some(again) = c.nopanic("reencode-panics", d, || m.to_versioned_pb_bytes(V2_1).unwrap()) else { return };
            let m2 = c.nopanic("redecode-panics", d, || Message::from_versioned_pb_bytes(&again));
            if let Some(m2) = m2 {
                c.check(m2.as_ref().ok() == Some(&m), "accepted-not-stable", || format!("{} -> {m:?} -> {m2:?}", hex(b)));
            }
            c.nopanic("display-panics", d, || m.kind.to_string());
            c.nontrivial(&again);
        }
        Some(Err(_)) => c.event("refused"),
        None => {}
    }
    c.nopanic("hostile-plain-panics", d, || Message::from_pb_bytes(b).is_ok());
}

pub fn hostile(m: &mut Mon) {
    m.rule("Valid encodings (all message kinds, legacy and current layout) with flipped, inserted, removed, repeated and truncated bytes, and with whole fields of nested messages dropped, doubled or emptied; plus random bytes and every encoding of 0..2 bytes. Non-trivial: a distinct accepted hostile encoding.");
    let n = m.n(40_000, 2_000_000);
    m.require("accepted", 500);
    m.require("refused", 5_000);
    m.require("field dropped", 500);
    m.run_par("mutated", n, |c| {
        let msg = gen::message(&mut c.rng);
        let v = *c.rng.pick(&VERSIONS);
        let mut b = wire::message(&msg, v);
        if c.rng.bool() {
            for _ in 0..c.rng.range(1, 2) {
                let d = c.rng.below(8) as u32;
                b = drop_field(&mut c.rng, &b, d);
            }
            c.event("field dropped");
        } else {
            mutate(&mut c.rng, &mut b);
        }
        probe(c, &b);
    });
    m.run_par("objects", n, |c| {
        let t = gen::tx(&mut c.rng);
        let mut b = wire::tx(&t);
        if c.rng.bool() {
            let d = c.rng.below(6) as u32;
            b = drop_field(&mut c.rng, &b, d);
        } else {
            mutate(&mut c.rng, &mut b);
        }
        let d = || hex(&b);
        if let Some(Ok(t)) = c.nopanic("hostile-tx-panics", d, || Transaction::from_pb_bytes(&b)) {
            c.event("accepted");
            let h = c.nopanic("hostile-tx-hash-panics", d, || (t.hash(), t.weight(), t.size(), t.signatures()));
            if let Some((h, ..)) = h {
                c.check(h == wire::tx_hash(&t), "hostile-tx-hash", || format!("{t:?}"));
            }
            let again = Transaction::from_pb_bytes(&t.to_pb_bytes().unwrap());
            c.check(again.ok().as_ref() == Some(&t), "hostile-tx-unstable", || format!("{t:?}"));
        } else {
            c.event("refused");
        }
        macro_rules! try_as {
            ($($t:ty),*) => { $( c.nopanic("hostile-object-panics", || format!("{} {}", stringify!($t), hex(&b)), || <$t>::from_pb_bytes(&b).is_ok()); )* }
        }
        try_as!(Block, SuperBlock, SuperBlockVote, BlockHeader, DataRequestOutput, CheckpointBeacon, OutputPointer, PublicKeyHash, Hash, Version, Peers, LastBeacon, KeyedSignature, StakeOutput, ConsensusConstants, InventoryAnnouncement);
    });
    m.run_par("random", n, |c| {
        let k = c.rng.len(300);
        let b = c.rng.bytes(k);
        probe(c, &b);
    });
    m.run("tiny", 1 + 256 + 65536, |c| {
        let i = c.index;
        let b = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        probe(c, &b);
    });
    let _ = witnet_data_structures::proto::schema::witnet::Message::new().compute_size();
}
