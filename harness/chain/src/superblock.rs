//! C27: superblock voting: committees, votes and consensus against an independent count.
//! C28: proofs of inclusion of data requests and tallies, from the transaction up to the superblock.
use crate::gen;
use crate::mempool::signed_by;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{Case, Mon};
use vref::hash::sha256;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::superblock::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::set_environment;

fn h32(h: &Hash) -> [u8; 32] {
    let Hash::SHA256(b) = h;
    *b
}
fn rem(h: &[u8; 32], m: u64) -> u64 {
    h.iter().fold(0u128, |a, b| (a * 256 + u128::from(*b)) % u128::from(m)) as u64
}
fn committee(ars: &[PublicKeyHash], size: usize, index: u32, prev: &Hash, new_rules: bool) -> BTreeSet<PublicKeyHash> {
    let n = ars.len();
    if n < size {
        return ars.iter().cloned().collect();
    }
    if new_rules {
        let h = sha256(&[&h32(prev)[..], &index.to_be_bytes()].concat());
        let first = rem(&h, n as u64) as usize;
        let each = n / size;
        (0..size).map(|i| ars[(first + i * each + usize::from(h[i % 32]) % each) % n]).collect()
    } else {
        let first = usize::from(h32(prev)[0]) + usize::from(sha256(&index.to_be_bytes())[0]);
        (0..size).map(|i| ars[(first + i * (n / size)) % n]).collect()
    }
}
/// Root of a tree where a lone last node moves up unchanged.
fn root(l: &[[u8; 32]]) -> [u8; 32] {
    if l.is_empty() {
        return sha256(b"");
    }
    let mut l = l.to_vec();
    while l.len() > 1 {
        l = l.chunks(2).map(|c| if c.len() == 2 { sha256(&[c[0], c[1]].concat()) } else { c[0] }).collect();
    }
    l[0]
}

pub fn voting(m: &mut Mon) {
    m.rule("Histories of votes (repeated, double, re-signed, early, late, from outsiders), consensus queries, superblock constructions and restarts run over the real superblock state and an independent count; committees are recomputed; non-trivial: a distinct history in which some superblock reached consensus and another did not.");
    for k in ["same as local", "different", "no consensus", "unknown", "double vote", "seen", "outsider", "bad index", "early vote", "early vote counted", "re-signed vote", "synchronized superblock", "restart", "old committee rule", "new committee rule", "whole set signs", "mainnet committee"] {
        m.require(k, 20);
    }
    set_environment(Environment::Development);
    m.run_par("histories", m.n(15_000, 400_000), history);
    set_environment(Environment::Mainnet);
    m.run_par("committees", m.n(30_000, 600_000), committees);
    m.run_par("mainnet histories", m.n(1_000, 20_000), |c| {
        // The committee is fixed from some index on
        let mut s = SuperBlockState::new(Hash::default(), vec![]);
        let index = *c.rng.pick(&[304_897, 304_898, 400_000, u32::MAX - 1]);
        let ars: Vec<PublicKeyHash> = (0..5).map(|_| gen::pkh(&mut c.rng)).collect();
        let mut seen = BTreeSet::new();
        for i in 0..2 {
            let sb = s.build_superblock(&[], ARSIdentities::new(ars.clone()), 100, index, Hash::SHA256([i; 32]), &AltKeys::default(), None, 3_100_000 + c.rng.below(1000) as u32);
            let mut p = s.signing_committee_pretty();
            p.sort();
            c.check(sb.signing_committee_length as usize == p.len() && s.get_committee_length() as usize == p.len(), "fixed-length", || format!("{sb:?}"));
            c.check(p.len() == 12 && !p.iter().any(|x| ars.iter().any(|a| a.to_string() == *x)), "fixed-committee", || format!("{p:?}"));
            seen.insert(p);
        }
        c.eval(1);
        c.event("mainnet committee");
        c.check(seen.len() == 1, "fixed-committee-changes", || format!("{seen:?}"));
    });
}

fn committees(c: &mut Case) {
    let n = if c.rng.bool() { c.rng.range(1, 12) } else { c.rng.range(1, 300) } as usize;
    let size = if c.rng.bool() { c.rng.range(1, n as u64 + 2) } else { c.rng.range(1, 120) } as usize;
    let ars: Vec<PublicKeyHash> = (0..n).map(|_| PublicKeyHash::from_bytes(&c.rng.arr::<20>()).unwrap()).collect();
    let index = c.rng.edgy_u32();
    let prev = gen::hash(&mut c.rng);
    let new_rules = c.rng.bool();
    let epoch = if new_rules { 376_320 + c.rng.below(1000) as u32 } else { 376_319 - c.rng.below(1000) as u32 };
    let what = || format!("{n} identities, committee of {size}, index {index}, previous {prev}, epoch {epoch}");
    let Some(got) = c.nopanic("committee-panic", what, || calculate_superblock_signing_committee(ARSIdentities::new(ars.clone()), size as u32, index, prev, epoch)) else { return };
    c.eval(1);
    c.event(if n < size {
        "whole set signs"
    } else if new_rules {
        "new committee rule"
    } else {
        "old committee rule"
    });
    let got: BTreeSet<_> = got.into_iter().collect();
    c.check(got.len() == size.min(n), "committee-size", || format!("{} members; {}", got.len(), what()));
    c.check(got.iter().all(|x| ars.contains(x)), "committee-outsider", what);
    c.check(got == committee(&ars, size, index, &prev, new_rules), "committee", what);
    c.nontrivial(&(n, size, index));
}

#[derive(Default)]
struct M {
    previous: Vec<PublicKeyHash>,
    current: Vec<PublicKeyHash>,
    committee: BTreeSet<PublicKeyHash>,
    ours: Hash,
    index: u32,
    seen: BTreeSet<(usize, usize, u32, u8)>,
    votes: BTreeMap<PublicKeyHash, Hash>,
    bad: BTreeSet<PublicKeyHash>,
}
impl M {
    fn count(&mut self, who: PublicKeyHash, h: Hash) -> bool {
        if self.bad.contains(&who) || self.votes.get(&who).is_some_and(|x| *x != h) {
            self.votes.remove(&who);
            self.bad.insert(who);
            return false;
        }
        self.votes.insert(who, h);
        true
    }
}

fn history(c: &mut Case) {
    let n = c.rng.range(1, 9) as usize;
    let keys: Vec<PublicKey> = (0..n + 2)
        .map(|i| {
            let mut b: [u8; 33] = c.rng.arr();
            b[0] = 2;
            b[1] = i as u8;
            PublicKey::from_bytes(b)
        })
        .collect();
    let who: Vec<PublicKeyHash> = keys.iter().map(|k| k.pkh()).collect();
    let bls: Vec<Option<Bn256PublicKey>> = keys
        .iter()
        .map(|_| match c.rng.below(6) {
            0 => None,
            1 => Some(gen::bls_pk(&mut c.rng)),
            _ => Bn256SecretKey::from_slice(&c.rng.arr::<32>()).and_then(|k| Bn256PublicKey::from_secret_key(&k)).ok(),
        })
        .collect();
    let mut alt = AltKeys::default();
    let mut known: BTreeMap<PublicKeyHash, Bn256PublicKey> = BTreeMap::new();
    for (w, b) in who.iter().zip(&bls) {
        if let Some(b) = b {
            alt.insert_bn256(*w, b.clone());
            if b.is_valid() {
                known.insert(*w, b.clone());
            }
        }
    }
    let genesis = gen::hash(&mut c.rng);
    let boot: Vec<_> = if c.rng.chance(1, 6) { vec![] } else { who[..n].to_vec() };
    let mut real = SuperBlockState::new(genesis, boot.clone());
    let mut m = M { previous: boot.clone(), current: boot.clone(), committee: boot.iter().cloned().collect(), ours: genesis, ..M::default() };
    let mut log: Vec<String> = vec![format!("{} in the first committee", boot.len())];
    let mut reached = false;
    let mut failed = false;
    let mut doomed = false;
    for _ in 0..c.rng.range(5, 50) {
        let hashes = [m.ours, Hash::SHA256([1; 32]), Hash::SHA256([2; 32])];
        match c.rng.below(12) {
            0..=8 => {
                let k = c.rng.idx(keys.len());
                let h = if c.rng.chance(3, 4) { 0 } else { c.rng.idx(3) };
                let index = match c.rng.below(12) {
                    0 | 1 => m.index + 1,
                    2 => m.index.wrapping_sub(1),
                    3 => m.index + 2,
                    _ => m.index,
                };
                let variant = (c.rng.chance(1, 5)) as u8;
                let mut v = SuperBlockVote::new_unsigned(hashes[h], index);
                v.set_bn256_signature(Bn256Signature { signature: vec![variant; 3] });
                v.set_secp256k1_signature(signed_by(&keys[k]));
                log.push(format!("vote of {k} for {h} at {:+} variant {variant}", i64::from(index) - i64::from(m.index)));
                let cur = m.index;
                let Some(got) = c.nopanic("vote-panic", || log.join("; "), || real.add_vote(&v, cur)) else { return };
                // The seen set identifies votes by content, so "ours" and a fixed hash never collide here
                let id = (k, h, index, variant);
                let resigned = m.seen.iter().any(|x| (x.0, x.1, x.2) == (k, h, index) && x.3 != variant);
                let want = if m.seen.contains(&id) {
                    c.event("seen");
                    AddSuperBlockVote::AlreadySeen
                } else {
                    m.seen.insert(id);
                    if index == m.index && m.committee.contains(&who[k]) {
                        if resigned {
                            c.event("re-signed vote");
                        }
                        if !m.count(who[k], hashes[h]) {
                            c.event("double vote");
                            AddSuperBlockVote::DoubleVote
                        } else if h == 0 {
                            AddSuperBlockVote::ValidWithSameHash
                        } else {
                            AddSuperBlockVote::ValidButDifferentHash
                        }
                    } else if index == m.index || (index != m.index + 1 && m.previous.is_empty()) {
                        c.event("outsider");
                        AddSuperBlockVote::NotInSigningCommittee
                    } else if index == m.index + 1 {
                        c.event("early vote");
                        AddSuperBlockVote::MaybeValid
                    } else {
                        c.event("bad index");
                        AddSuperBlockVote::InvalidIndex
                    }
                };
                c.check(got == want, "vote", || format!("{got:?} instead of {want:?}; {}", log.join("; ")));
                c.check(real.contains(&v), "not-remembered", || log.join("; "));
            }
            9 => {
                c.event("restart");
                log.push("restart".into());
                let b = bincode::serialize(&real).unwrap();
                let x: SuperBlockState = bincode::deserialize(&b).unwrap();
                c.check(x == real, "restart", || log.join("; "));
                real = x;
            }
            _ => {
                let k = c.rng.below(n as u64 + 1) as usize;
                let new: Vec<PublicKeyHash> = if c.rng.chance(1, 8) { vec![] } else { who[..n].iter().cycle().skip(k).take(n).cloned().collect() };
                let size = c.rng.range(1, 10) as u32;
                let index = m.index + 1;
                let epoch = 3_500_000;
                let headers: Vec<BlockHeader> = gen::many(&mut c.rng, 3, gen::header);
                let last = gen::hash(&mut c.rng);
                let sync = c.rng.chance(1, 5).then(|| {
                    let mut s = gen::superblock(&mut c.rng);
                    s = SuperBlock::new(size, s.ars_root, s.data_request_root, index, s.last_block, s.last_block_in_previous_superblock, s.tally_root);
                    s
                });
                log.push(format!("superblock {index} with {} identities, committee of {size}{}", new.len(), if sync.is_some() { ", synchronized" } else { "" }));
                let given = if sync.is_some() { 1 } else { size };
                let Some(sb) = c.nopanic("build-panic", || log.join("; "), || real.build_superblock(&headers, ARSIdentities::new(new.clone()), given, index, last, &alt, sync.clone(), epoch)) else { return };
                m.previous = std::mem::replace(&mut m.current, new.clone());
                m.committee = committee(&m.previous, size as usize, index, &m.ours, true);
                m.index = index;
                let version = ProtocolVersion::from_epoch(epoch);
                let want = match sync {
                    Some(s) => {
                        c.event("synchronized superblock");
                        s
                    }
                    None => {
                        let leaves: Vec<[u8; 32]> = new.iter().filter_map(|p| known.get(p)).map(|b| sha256(&Bn256PublicKey::from_bytes(&b.public_key).unwrap().to_uncompressed().unwrap())).collect();
                        let dr: Vec<_> = headers.iter().map(|h| h32(&h.merkle_roots.dr_hash_merkle_root)).collect();
                        let ta: Vec<_> = headers.iter().map(|h| h32(&h.merkle_roots.tally_hash_merkle_root)).collect();
                        let empty = headers.is_empty();
                        SuperBlock::new(
                            m.committee.len() as u32,
                            Hash::SHA256(root(&leaves)),
                            if empty { Hash::default() } else { Hash::SHA256(root(&dr)) },
                            index,
                            headers.last().map(|h| h.versioned_hash(version)).unwrap_or(last),
                            last,
                            if empty { Hash::default() } else { Hash::SHA256(root(&ta)) },
                        )
                    }
                };
                c.check(sb == want, "superblock", || format!("{sb:?} instead of {want:?}; {}", log.join("; ")));
                m.ours = sb.hash();
                let b = real.get_beacon();
                c.check(b.checkpoint == index && b.hash_prev_block == m.ours, "beacon", || log.join("; "));
                m.votes.clear();
                m.bad.clear();
                doomed = false;
                for (k, h, i, _) in std::mem::take(&mut m.seen) {
                    if i == index && m.committee.contains(&who[k]) {
                        c.event("early vote counted");
                        // A vote for what was the local superblock back then
                        m.count(who[k], hashes[h]);
                    }
                }
            }
        }
        c.eval(1);
        // The state of the vote
        let total = m.committee.len();
        let quorum = total * 2 / 3;
        let mut per: BTreeMap<Hash, usize> = BTreeMap::new();
        for h in m.votes.values() {
            *per.entry(*h).or_default() += 1;
        }
        let max = per.values().max().copied().unwrap_or(0);
        let best: Vec<Hash> = per.iter().filter(|x| *x.1 == max).map(|x| *x.0).collect();
        let h = || log.join("; ");
        let mut ok = c.check(real.get_committee_length() as usize == total, "committee-length", || format!("{} instead of {total}; {}", real.get_committee_length(), h()));
        let names: BTreeSet<String> = real.signing_committee_pretty().into_iter().collect();
        ok &= c.check(names == m.committee.iter().map(|x| x.to_string()).collect(), "committee-members", || format!("{names:?}; {}", h()));
        ok &= c.check(real.valid_votes_counter() == m.votes.len(), "votes", || format!("{} instead of {}; {}", real.valid_votes_counter(), m.votes.len(), h()));
        let list: Vec<(PublicKeyHash, Hash)> = real.get_current_superblock_votes().into_iter().map(|v| (v.secp256k1_signature.public_key.pkh(), v.superblock_hash)).collect();
        let n = list.len();
        let list: BTreeMap<_, _> = list.into_iter().collect();
        ok &= c.check(n == m.votes.len() && list == m.votes, "votes-listed", || format!("{list:?} instead of {:?}; {}", m.votes, h()));
        for x in hashes {
            let got = real.votes_counter_from_superblock(&x);
            ok &= c.check(got == per.get(&x).copied().unwrap_or(0), "votes-per-superblock", || format!("{got} for {x} instead of {:?}; {}", per.get(&x), h()));
        }
        let got = real.most_voted_superblock();
        ok &= c.check(got.map(|x| x.1).unwrap_or(0) == max && got.is_none_or(|x| best.contains(&x.0)), "most-voted", || format!("{got:?}; {}", h()));
        let Some(got) = c.nopanic("consensus-panic", || log.join("; "), || real.has_consensus()) else { return };
        if total > 0 && max > 0 && max >= quorum && best.len() > 1 {
            c.check(false, &format!("two-superblocks-in-consensus-committee-of-{total}"), || format!("{best:?} both have {max} of {total} votes: {got:?}; {}", h()));
            continue;
        }
        let want = if total == 0 {
            SuperBlockConsensus::SameAsLocal
        } else if max == 0 {
            SuperBlockConsensus::Unknown
        } else if max >= quorum {
            reached = true;
            if best[0] == m.ours {
                c.event("same as local");
                SuperBlockConsensus::SameAsLocal
            } else {
                c.event("different");
                SuperBlockConsensus::Different(best[0])
            }
        } else if max + total - m.votes.len() - m.bad.len() >= quorum {
            c.event("unknown");
            SuperBlockConsensus::Unknown
        } else {
            c.event("no consensus");
            failed = true;
            SuperBlockConsensus::NoConsensus
        };
        ok &= c.check(got == want, "consensus", || format!("{got:?} instead of {want:?}, votes {:?} of {total}, {} double; {}", per, m.bad.len(), h()));
        // Once a consensus is impossible, no further vote brings it back
        ok &= c.check(!doomed || matches!(got, SuperBlockConsensus::NoConsensus | SuperBlockConsensus::Unknown), "revived", h);
        doomed |= got == SuperBlockConsensus::NoConsensus;
        if !ok {
            return;
        }
    }
    if reached && failed {
        c.nontrivial(&log);
    }
}

pub fn inclusion(m: &mut Mon) {
    m.rule("Superblocks over random blocks are built by the real code; for every data request and tally the proof it gives is folded independently from the data hash of the transaction to the root in the superblock, and hostile variations (other transaction, other index, changed sibling) must not fold to it; non-trivial: a distinct set of blocks with a proof of at least three levels.");
    for k in ["request proven", "tally proven", "absent refused", "variation refused", "empty block", "one block", "many blocks"] {
        m.require(k, 20);
    }
    m.run_par("superblocks", m.n(6_000, 100_000), |c| {
        let version = *c.rng.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0]);
        let nb = *c.rng.pick(&[1usize, 1, 2, 3, 5, 10]);
        let mut blocks = vec![];
        for _ in 0..nb {
            let mut b = gen::block(&mut c.rng);
            let max = *c.rng.pick(&[0u64, 1, 3, 9]);
            let drs: Vec<DRTransaction> = (0..c.rng.below(max + 1)).map(|_| gen::drt(&mut c.rng)).collect();
            let tas: Vec<TallyTransaction> = (0..c.rng.below(max + 1)).map(|_| gen::tally(&mut c.rng)).collect();
            if drs.is_empty() && tas.is_empty() {
                c.event("empty block");
            }
            b.txns.data_request_txns = drs;
            b.txns.tally_txns = tas;
            // The roots as every validator computes them, over the identifiers of the transactions
            b.block_header.merkle_roots.dr_hash_merkle_root = Hash::SHA256(root(&b.txns.data_request_txns.iter().map(|t| h32(&t.versioned_hash(version))).collect::<Vec<_>>()));
            b.block_header.merkle_roots.tally_hash_merkle_root = Hash::SHA256(root(&b.txns.tally_txns.iter().map(|t| h32(&t.versioned_hash(version))).collect::<Vec<_>>()));
            blocks.push(b);
        }
        c.event(if nb == 1 { "one block" } else { "many blocks" });
        let headers: Vec<BlockHeader> = blocks.iter().map(|b| b.block_header.clone()).collect();
        let sb = mining_build_superblock(&headers, &[], 1, gen::hash(&mut c.rng), 1, version);
        let mut deep = false;
        let all: Vec<(bool, usize, usize)> = blocks.iter().enumerate().flat_map(|(i, b)| (0..b.txns.data_request_txns.len()).map(move |j| (true, i, j)).chain((0..b.txns.tally_txns.len()).map(move |j| (false, i, j)))).collect();
        for (dr, i, j) in all {
            let (proof, leaf, target) = if dr {
                let t = &blocks[i].txns.data_request_txns[j];
                (sb.dr_proof_of_inclusion(&blocks, t), sha256(&t.body.dr_output.to_pb_bytes().unwrap()), sb.data_request_root)
            } else {
                let t = &blocks[i].txns.tally_txns[j];
                (sb.tally_proof_of_inclusion(&blocks, t, version), sha256(&[&h32(&t.dr_pointer)[..], &t.tally].concat()), sb.tally_root)
            };
            c.eval(1);
            let what = || format!("{} {j} of block {i} of {nb}: {proof:?}", if dr { "request" } else { "tally" });
            let Some(p) = &proof else {
                c.violate("no-proof", what());
                return;
            };
            c.event(if dr { "request proven" } else { "tally proven" });
            deep |= p.lemma.len() >= 4;
            let fold = |leaf: [u8; 32], index: usize, lemma: &[Hash]| {
                let mut x = leaf;
                for (l, s) in lemma.iter().enumerate() {
                    x = if (index >> l) & 1 == 1 { sha256(&[h32(s), x].concat()) } else { sha256(&[x, h32(s)].concat()) };
                }
                (x, index >> lemma.len())
            };
            c.check(fold(leaf, p.index, &p.lemma) == (h32(&target), 0), "proof", what);
            // A proof for one thing proves nothing else
            let other = sha256(&c.rng.arr::<8>());
            c.event("variation refused");
            c.check(fold(other, p.index, &p.lemma).0 != h32(&target), "proves-anything", what);
            if !p.lemma.is_empty() {
                let at = c.rng.idx(p.lemma.len());
                let mut l = p.lemma.clone();
                l[at] = Hash::SHA256(c.rng.arr());
                c.check(fold(leaf, p.index, &l).0 != h32(&target), "sibling-ignored", what);
                if h32(&p.lemma[at]) != leaf {
                    c.check(fold(leaf, p.index ^ (1 << at), &p.lemma).0 != h32(&target), "position-ignored", what);
                }
            }
        }
        // A transaction that is in none of the blocks has no proof
        let d = gen::drt(&mut c.rng);
        let t = gen::tally(&mut c.rng);
        if !blocks.iter().any(|b| b.txns.data_request_txns.contains(&d)) {
            c.check(sb.dr_proof_of_inclusion(&blocks, &d).is_none(), "absent-proven", || format!("{d:?}"));
            c.event("absent refused");
        }
        if !blocks.iter().any(|b| b.txns.tally_txns.contains(&t)) {
            c.check(sb.tally_proof_of_inclusion(&blocks, &t, version).is_none(), "absent-proven", || format!("{t:?}"));
        }
        if deep {
            c.nontrivial(&h32(&sb.hash()));
        }
    });
}
