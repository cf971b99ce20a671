//! C33: batches of signatures and eligibility proofs; C34: block rewards; C35: which candidate wins; C38: block headers.
use crate::world::*;
use std::cmp::Ordering;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::VersionedHashable;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::legacy::VrfSlots;
use witnet_validations::validations::*;

pub fn ctx() -> VrfCtx {
    VrfCtx::secp256k1().unwrap()
}
/// One more or one less, as a big number.
pub fn shift(h: Hash, up: bool) -> Hash {
    let Hash::SHA256(mut x) = h;
    for b in x.iter_mut().rev() {
        let (v, over) = if up { b.overflowing_add(1) } else { b.overflowing_sub(1) };
        *b = v;
        if !over {
            break;
        }
    }
    Hash::SHA256(x)
}
fn beacon(r: &mut Rng) -> CheckpointVRF {
    CheckpointVRF { checkpoint: if r.chance(1, 5) { 0 } else { r.edgy_u32() }, hash_prev_vrf: Hash::SHA256(r.arr()) }
}
/// The bytes that stand for an epoch and the last proof.
fn beacon_bytes(v: &CheckpointVRF) -> Vec<u8> {
    let mut b = vec![];
    if v.checkpoint != 0 {
        b.push(0x0d);
        b.extend(v.checkpoint.to_le_bytes());
    }
    b.extend(field(2, &hash_bytes(&v.hash_prev_vrf)));
    b
}
fn hash_bytes(h: &Hash) -> Vec<u8> {
    let Hash::SHA256(x) = h;
    field(1, x)
}
fn field(n: u8, data: &[u8]) -> Vec<u8> {
    [&[n << 3 | 2, data.len() as u8], data].concat()
}
pub fn claim_bytes(v: &CheckpointVRF, request: &Hash, withdrawer: Option<&PublicKeyHash>) -> Vec<u8> {
    let mut b = [field(1, &beacon_bytes(v)), field(2, &hash_bytes(request))].concat();
    if let Some(w) = withdrawer {
        b.extend(field(3, &field(1, w.as_ref())));
    }
    b
}
/// A key or a signature that may be damaged.
fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    match r.below(3) {
        0 => {
            b.pop();
        }
        1 => b.push(r.u8()),
        _ if !b.is_empty() => {
            let n = b.len();
            b[r.idx(n)] ^= 1 << r.below(8);
        }
        _ => {}
    }
}

pub fn signatures(m: &mut Mon) {
    m.rule("Batches of up to six transaction and block signatures, superblock votes, and mining and witnessing proofs (before and since 2.0), each one right or wrong in one way, are verified at once: accepted exactly when every one of them is right, with the block proofs' hashes in order. The proofs are made over messages encoded here, byte by byte. Non-trivial: a distinct batch with one wrong item.");
    for k in ["transaction signature", "block signature", "vote", "block proof", "request proof before 2.0", "request proof since 2.0", "batch accepted", "batch refused"] {
        m.require(k, 300);
    }
    for k in ["target missed by one", "target just met", "proof for something else", "malformed vote key", "malformed vote signature"] {
        m.require(k, 50);
    }
    versions();
    m.run_par("batches", m.n(12_000, 250_000), batch);
}
fn target(c: &mut Case, h: Hash, ok: &mut bool, bad: bool) -> Hash {
    if bad && c.rng.bool() {
        *ok = false;
        return match c.rng.below(3) {
            0 => Hash::SHA256([0; 32]),
            _ => {
                c.event("target missed by one");
                shift(h, false)
            }
        };
    }
    match c.rng.below(3) {
        0 => Hash::SHA256([0xff; 32]),
        1 => shift(h, true),
        _ => {
            c.event("target just met");
            h
        }
    }
}
fn batch(c: &mut Case) {
    let mut vrf = ctx();
    let n = c.rng.below(7) as usize;
    let wrong_at = if c.rng.bool() { usize::MAX } else { c.rng.idx(n.max(1)) };
    let mut items = vec![];
    let mut hashes = vec![];
    let mut all = true;
    let mut text = vec![];
    for at in 0..n {
        let bad = at == wrong_at;
        let i = c.rng.idx(20);
        let mut ok = true;
        let kind = c.rng.below(6);
        let what;
        match kind {
            0 | 1 => {
                what = if kind == 0 { "transaction signature" } else { "block signature" };
                let mut data: [u8; 32] = c.rng.arr();
                let s = sign(i, Hash::SHA256(data));
                let mut pk = witnet_crypto::secp256k1::PublicKey::from_secret_key_global(&who(i).sk);
                if bad {
                    ok = false;
                    if c.rng.bool() {
                        data[c.rng.idx(32)] ^= 1 << c.rng.below(8);
                    } else {
                        pk = witnet_crypto::secp256k1::PublicKey::from_secret_key_global(&who(i + 1).sk);
                    }
                }
                let signature = s.signature.try_into().unwrap();
                items.push(if kind == 0 {
                    SignaturesToVerify::SecpTx { public_key: pk, data: data.to_vec(), signature }
                } else {
                    SignaturesToVerify::SecpBlock { public_key: pk, data: data.to_vec(), signature }
                });
            }
            2 => {
                what = "vote";
                let mut v = SuperBlockVote::new_unsigned(Hash::SHA256(c.rng.arr()), c.rng.u32());
                v.set_bn256_signature(Bn256Signature { signature: c.rng.bytes(33) });
                let Hash::SHA256(h) = v.superblock_hash;
                let message = [&v.superblock_index.to_be_bytes()[..], &h[..], &v.bn256_signature.signature[..]].concat();
                v.set_secp256k1_signature(sign(i, Hash::SHA256(vref::hash::sha256(&message))));
                if bad {
                    ok = false;
                    match c.rng.below(5) {
                        0 => v.superblock_index ^= 1,
                        1 => v.superblock_hash = Hash::SHA256(c.rng.arr()),
                        2 => v.bn256_signature.signature[3] ^= 1,
                        3 => {
                            c.event("malformed vote key");
                            let mut b = v.secp256k1_signature.public_key.to_bytes();
                            b[0] = *c.rng.pick(&[0, 1, 4, 5, 0xff]);
                            v.secp256k1_signature.public_key = PublicKey::from_bytes(b);
                        }
                        _ => {
                            c.event("malformed vote signature");
                            let Signature::Secp256k1(s) = &mut v.secp256k1_signature.signature;
                            s.der = if c.rng.bool() { vec![] } else { c.rng.bytes(70) };
                        }
                    }
                }
                items.push(SignaturesToVerify::SuperBlockVote { superblock_vote: v });
            }
            3 => {
                what = "block proof";
                let mut v = beacon(&mut c.rng);
                let (proof, h) = VrfProof::create(&mut vrf, &who(i).vsk, &VrfMessage::set_data(beacon_bytes(&v))).unwrap();
                let target_hash = target(c, h, &mut ok, bad);
                if bad && ok {
                    ok = false;
                    c.event("proof for something else");
                    if c.rng.bool() {
                        v.checkpoint ^= 1;
                    } else {
                        v.hash_prev_vrf = Hash::SHA256(c.rng.arr());
                    }
                }
                if ok {
                    hashes.push(h);
                }
                items.push(SignaturesToVerify::VrfBlock { proof: BlockEligibilityClaim { proof }, vrf_input: v, target_hash });
            }
            _ => {
                let since = kind == 5;
                what = if since { "request proof since 2.0" } else { "request proof before 2.0" };
                let mut v = beacon(&mut c.rng);
                let mut dr = Hash::SHA256(c.rng.arr());
                let mut w = Some(who(c.rng.idx(20)).pkh);
                let m = claim_bytes(&v, &dr, if since { w.as_ref() } else { None });
                let (proof, h) = VrfProof::create(&mut vrf, &who(i).vsk, &VrfMessage::set_data(m)).unwrap();
                let mut at = if since { V2_AT + c.rng.below(3) as u32 } else { *c.rng.pick(&[0, V1_8_AT, V2_AT - 1]) };
                let target_hash = target(c, h, &mut ok, bad);
                if bad && ok {
                    ok = false;
                    c.event("proof for something else");
                    match c.rng.below(4) {
                        0 => v.checkpoint ^= 1,
                        1 => dr = Hash::SHA256(c.rng.arr()),
                        2 if since => w = Some(who(25).pkh),
                        _ => at = if since { V2_AT - 1 } else { V2_AT },
                    }
                } else if !since && c.rng.bool() {
                    w = None;
                }
                items.push(SignaturesToVerify::VrfDr { proof: DataRequestEligibilityClaim { proof }, vrf_input: v, dr_hash: dr, target_hash, withdrawer: w, inclusion_epoch: Some(at) });
            }
        }
        c.event(what);
        text.push(format!("{what}{}", if ok { "" } else { " (wrong)" }));
        all &= ok;
    }
    let describe = || format!("{text:?}");
    let copy = items.clone();
    let Some(got) = c.nopanic("panic", || format!("{text:?}: {copy:?}"), || verify_signatures(items, &mut vrf)) else { return };
    c.eval(1);
    c.event(if all { "batch accepted" } else { "batch refused" });
    match got {
        Ok(h) => {
            c.check(all, "batch-accepted", || format!("{}: {copy:?}", describe()));
            if all {
                c.check(h == hashes, "batch-hashes", || format!("{h:?} instead of {hashes:?}; {}", describe()));
            }
        }
        Err(e) => {
            c.check(!all, "batch-refused", || format!("{e}: {}: {copy:?}", describe()));
        }
    }
    if !all {
        c.nontrivial(&format!("{copy:?}"));
    }
    // Proofs damaged or taken by another identity, one at a time
    let v = beacon(&mut c.rng);
    let (i, j) = (c.rng.idx(20), c.rng.idx(19));
    let j = if j >= i { j + 1 } else { j };
    let claim = BlockEligibilityClaim::create(&mut vrf, &who(i).vsk, v).unwrap();
    let h = claim.proof_to_hash(&mut vrf).unwrap();
    c.check(claim.verify(&mut vrf, v).ok() == Some(h), "own-proof", || format!("{v:?}"));
    c.check(claim.proof.pkh() == who(i).pkh, "proof-owner", || format!("{i}"));
    c.check(BlockEligibilityClaim::create(&mut vrf, &who(i).vsk, v).unwrap() == claim, "proof-deterministic", || format!("{v:?}"));
    let other = BlockEligibilityClaim::create(&mut vrf, &who(j).vsk, v).unwrap();
    let mut b = serde_json::to_value(&claim).unwrap();
    b["proof"]["public_key"] = serde_json::to_value(&other).unwrap()["proof"]["public_key"].clone();
    let stolen: BlockEligibilityClaim = serde_json::from_value(b).unwrap();
    let Some(got) = c.nopanic("panic", || format!("{stolen:?}"), || stolen.verify(&mut vrf, v).is_ok()) else { return };
    c.check(!got, "proof-stolen", || format!("{i} as {j}"));
    let mut b = serde_json::to_value(&claim).unwrap();
    let mut p = claim.proof.get_proof();
    damage(&mut c.rng, &mut p);
    b["proof"]["proof"] = serde_json::to_value(&p).unwrap();
    let broken: BlockEligibilityClaim = serde_json::from_value(b).unwrap();
    let Some(got) = c.nopanic("panic", || format!("{broken:?}"), || broken.verify(&mut vrf, v).ok()) else { return };
    c.check(got.is_none(), "proof-damaged", || format!("{broken:?}"));
    let Some(_) = c.nopanic("panic", || format!("{broken:?}"), || broken.proof_to_hash(&mut vrf).ok()) else { return };
    // The same identity proves the same request under its first withdrawer only
    let dr = Hash::SHA256(c.rng.arr());
    let claim = DataRequestEligibilityClaim::create(&mut vrf, &who(i).vsk, v, dr).unwrap();
    c.check(claim.verify_v1(&mut vrf, v, dr).is_ok(), "request-proof", || format!("{v:?} {dr}"));
    c.check(claim.verify_v2(&mut vrf, v, dr, Some(who(j).pkh)).is_err(), "request-proof-version", || format!("{v:?} {dr}"));
}

pub fn rewards(m: &mut Mon) {
    m.rule("The reward of a block, for every reward and halving period, over random and boundary epochs, against repeated halving; the announced total against the sum over all epochs (directly, epoch by epoch, for small periods); non-trivial: a distinct reward and period.");
    m.require("reward", 10_000);
    m.require("total by epochs", 200);
    m.run_par("rewards", m.n(100_000, 3_000_000), reward);
}
fn reward(c: &mut Case) {
    let r = &mut c.rng;
    let initial = match r.below(4) {
        0 => 250 * WIT,
        1 => r.below(1 << 12),
        2 => r.edgy_u64(),
        _ => r.u64(),
    };
    let period = match r.below(4) {
        0 => 3_500_000,
        1 => r.range(1, 5) as u32,
        2 => r.range(1, u64::from(u32::MAX)) as u32,
        _ => 1 << r.below(32),
    };
    let at = |initial: u64, period: u32, epoch: u32| {
        let mut x = initial;
        let mut e = u64::from(epoch);
        for _ in 0..70 {
            if e < u64::from(period) {
                return x;
            }
            e -= u64::from(period);
            x /= 2;
        }
        0
    };
    for _ in 0..6 {
        let epoch = match c.rng.below(3) {
            0 => c.rng.edgy_u32(),
            1 => (u64::from(period) * c.rng.below(70)).min(u64::from(u32::MAX)) as u32,
            _ => (u64::from(period) * c.rng.below(70)).saturating_sub(1).min(u64::from(u32::MAX)) as u32,
        };
        let Some(got) = c.nopanic("panic", || format!("{initial} every {period} at {epoch}"), || block_reward(epoch, initial, period)) else { return };
        c.event("reward");
        c.eval(1);
        c.check(got == at(initial, period, epoch), "reward", || format!("{got} at {epoch} from {initial} every {period}"));
    }
    // No more than this is ever issued
    let mut total: u128 = 0;
    let mut x = initial;
    while x > 0 {
        total += u128::from(x) * u128::from(period);
        x /= 2;
    }
    if let Ok(want) = u64::try_from(total) {
        let Some(got) = c.nopanic("panic", || format!("total of {initial} every {period}"), || total_block_reward(initial, period)) else { return };
        c.check(got == want, "total", || format!("{got} instead of {want} for {initial} every {period}"));
        if period < 50 && initial < 1 << 12 {
            c.event("total by epochs");
            let mut sum = 0u64;
            for e in 0..13 * period {
                sum += block_reward(e, initial, period);
            }
            c.check(sum == got, "total-by-epochs", || format!("{sum} handed out, {got} announced, for {initial} every {period}"));
        }
    }
    c.nontrivial(&(initial, period));
}

pub fn candidates(m: &mut Mon) {
    m.rule("Sets of block candidates with colliding slots, reputations, activity, powers and proofs are compared pairwise: as the documented criteria say, and as a total order (antisymmetric, transitive, one winner whatever the order they arrive in); non-trivial: a distinct set decided by each criterion.");
    for k in ["by slot", "by reputation", "by activity", "by proof", "by block hash", "by power", "the same"] {
        m.require(k, 300);
    }
    m.run_par("candidates", m.n(60_000, 2_000_000), compare);
}
#[derive(Clone, Debug)]
struct Candidate {
    hash: Hash,
    rep: u32,
    vrf: Hash,
    active: bool,
    power: u64,
}
fn compare(c: &mut Case) {
    use witnet_data_structures::proto::versioning::ProtocolVersion::*;
    let r = &mut c.rng;
    let small = |r: &mut Rng| {
        let mut h = [0u8; 32];
        h[0] = r.below(4) as u8;
        h[31] = r.below(2) as u8;
        Hash::SHA256(h)
    };
    let mut limits: Vec<Hash> = (0..r.below(5)).map(|_| small(r)).collect();
    limits.sort();
    let slots = VrfSlots::new(limits.clone());
    let version = *r.pick(&[V1_7, V1_8, V2_0]);
    let mut all: Vec<Candidate> = (0..r.range(2, 6))
        .map(|_| Candidate { hash: small(r), rep: *r.pick(&[0, 0, 1, 1000]), vrf: small(r), active: r.bool(), power: r.below(3) * 1000 })
        .collect();
    let go = |a: &Candidate, b: &Candidate| compare_block_candidates(a.hash, Reputation(a.rep), a.vrf, a.active, Power::from(a.power), b.hash, Reputation(b.rep), b.vrf, b.active, Power::from(b.power), &slots, version);
    let text = || format!("{version:?}, slots {limits:?}");
    let mut order = vec![];
    for a in &all {
        for b in &all {
            let Some(got) = c.nopanic("panic", || format!("{a:?} {b:?}"), || go(a, b)) else { return };
            c.eval(1);
            let slot = |x: &Candidate| limits.iter().filter(|l| x.vrf > **l).count();
            let steps: Vec<(&str, Ordering)> = if version == V2_0 {
                vec![("by power", a.power.cmp(&b.power)), ("by proof", b.vrf.cmp(&a.vrf)), ("by block hash", b.hash.cmp(&a.hash))]
            } else {
                vec![
                    ("by slot", slot(b).cmp(&slot(a))),
                    ("by reputation", (a.rep > 0).cmp(&(b.rep > 0))),
                    ("by activity", a.active.cmp(&b.active)),
                    ("by proof", b.vrf.cmp(&a.vrf)),
                    ("by block hash", b.hash.cmp(&a.hash)),
                ]
            };
            let (why, want) = steps.into_iter().find(|x| x.1 != Ordering::Equal).unwrap_or(("the same", Ordering::Equal));
            c.event(why);
            c.check(got == want, "candidates", || format!("{got:?} instead of {want:?} ({why}): {a:?} or {b:?}; {}", text()));
            c.check(go(b, a) == got.reverse(), "candidates-antisymmetric", || format!("{a:?} {b:?}; {}", text()));
            order.push(got);
        }
    }
    for a in &all {
        for b in &all {
            for d in &all {
                if go(a, b) != Ordering::Less && go(b, d) != Ordering::Less {
                    c.check(go(a, d) != Ordering::Less, "candidates-transitive", || format!("{a:?} {b:?} {d:?}; {}", text()));
                }
            }
        }
    }
    // One by one, in any order, the same one stays
    let best = |all: &[Candidate]| {
        let mut best = all[0].clone();
        for x in &all[1..] {
            if go(x, &best) == Ordering::Greater {
                best = x.clone();
            }
        }
        best.hash
    };
    let first = best(&all);
    c.rng.shuffle(&mut all);
    let again = best(&all);
    c.check(first == again, "candidates-winner", || format!("{first} or {again}: {all:?}; {}", text()));
    c.nontrivial(&format!("{order:?} {all:?}"));
}

pub fn headers(m: &mut Mon) {
    m.rule("Blocks by random proposers, before and since 2.0, right or with one thing wrong (epoch, predecessor, proposer, proof, target, signature, a header field changed after signing), and genesis blocks right or changed, are judged by the real block validation and its signatures, and by rules written out over plain maps; non-trivial: a distinct wrong block.");
    for k in ["accepted before 2.0", "accepted since 2.0", "refused before 2.0", "refused since 2.0", "genesis accepted", "genesis refused"] {
        m.require(k, 200);
    }
    for k in ["from the future", "older than the tip", "another predecessor", "not among the proposers", "a proof above the target", "a proof of another epoch", "a proof by another", "signed by another", "changed after signing", "a malformed key", "a malformed signature"] {
        m.require(k, 30);
    }
    versions();
    m.run_par("headers", m.n(20_000, 400_000), header);
    m.run_par("genesis", m.n(8_000, 150_000), genesis);
}
fn constants(r: &mut Rng) -> ConsensusConstants {
    let mut k = consensus();
    k.bootstrap_hash = Hash::SHA256(r.arr());
    k.genesis_hash = Hash::SHA256(r.arr());
    k
}
pub fn consensus() -> ConsensusConstants {
    ConsensusConstants {
        checkpoint_zero_timestamp: T0,
        checkpoints_period: 45,
        bootstrap_hash: Hash::SHA256([1; 32]),
        genesis_hash: Hash::SHA256([2; 32]),
        max_vt_weight: 20_000,
        max_dr_weight: 80_000,
        activity_period: 2000,
        reputation_expire_alpha_diff: 20_000,
        reputation_issuance: 1,
        reputation_issuance_stop: 1 << 20,
        reputation_penalization_factor: 0.5,
        mining_backup_factor: 8,
        mining_replication_factor: 3,
        collateral_minimum: WIT,
        collateral_age: 1000,
        superblock_period: 10,
        extra_rounds: 3,
        minimum_difficulty: 4,
        epochs_with_minimum_difficulty: 0,
        bootstrapping_committee: vec![],
        superblock_signing_committee_size: 100,
        superblock_committee_decreasing_period: 5,
        superblock_committee_decreasing_step: 5,
        initial_block_reward: 250 * WIT,
        halving_period: 3_500_000,
    }
}
/// Sign the header as it is.
pub fn seal(b: &mut Block, i: usize) {
    let h = b.block_header.versioned_hash(version(b.block_header.beacon.checkpoint));
    *b = Block::new(b.block_header.clone(), sign(i, h), b.txns.clone());
}
fn header(c: &mut Case) {
    let mut vrf = ctx();
    let r = &mut c.rng;
    let mut k = constants(r);
    let epoch = match r.below(6) {
        0 => V1_8_AT - 1,
        1 => V1_8_AT + r.below(2) as u32,
        2 => V2_AT - 1,
        3 => V2_AT,
        4 => r.range(20, 900) as u32,
        _ => V2_AT + r.range(1, 100_000) as u32,
    };
    let since = epoch >= V2_AT;
    let mut current = epoch + if r.bool() { 0 } else { r.below(100) as u32 };
    let mut tip = CheckpointBeacon { checkpoint: epoch - r.below(3) as u32, hash_prev_block: Hash::SHA256(r.arr()) };
    let v = CheckpointVRF { checkpoint: epoch, hash_prev_vrf: Hash::SHA256(r.arr()) };
    // Stakers
    let mut t = StakesTracker::default();
    let mut powers = vec![];
    for i in 0..r.range(2, 12) as usize {
        let (coins, since) = (MIN_STAKE + r.below(50) * MIN_STAKE, epoch.saturating_sub(1 + r.below(100) as u32));
        t.add_stake(StakeKey { validator: who(i).pkh, withdrawer: who(i).pkh }, Wit::from_nanowits(coins), since, true, Wit::from_nanowits(0)).unwrap();
        powers.push(((coins / WIT) * u64::from(epoch - since), who(i).pkh, i));
    }
    powers.sort();
    powers.reverse();
    let rf = *r.pick(&[1u16, 4, 8]);
    let places: Vec<usize> = powers.iter().take(usize::from(rf).min(powers.len() * 2 / 3)).map(|x| x.2).collect();
    // Active identities
    let mut rep = ReputationEngine::new(10);
    let ids = r.below(12) as usize;
    rep.ars_mut().push_activity((0..ids).map(|i| who(i).pkh).collect::<Vec<_>>());
    k.mining_backup_factor = r.range(1, 8) as u32;
    let limit = (u64::MAX / (ids as u64).max(4)).saturating_mul(u64::from(k.mining_backup_factor));
    let mut limit = low((limit >> 32) as u32);
    let mut i = if since { if places.is_empty() { 0 } else { *r.pick(&places) } } else { r.idx(20) };
    let mut broken: Vec<&str> = vec![];
    let what = if r.chance(1, 4) { 99 } else { r.below(11) };
    let mut proof_by = i;
    let mut signer = i;
    let mut proof_of = v;
    match what {
        0 => {
            current = epoch - 1;
            broken.push("from the future");
        }
        1 => {
            tip.checkpoint = epoch + 1;
            broken.push("older than the tip");
        }
        3 if since => {
            i = r.idx(20);
            proof_by = i;
            signer = i;
        }
        4 => {
            if r.bool() {
                proof_of.checkpoint -= 1;
            } else {
                proof_of.hash_prev_vrf = Hash::SHA256(r.arr());
            }
            broken.push("a proof of another epoch");
        }
        5 => {
            proof_by = i + 1;
            broken.push("a proof by another");
        }
        6 => {
            signer = i + 1;
            broken.push("signed by another");
        }
        _ => {}
    }
    let claim = BlockEligibilityClaim::create(&mut vrf, &who(proof_by).vsk, proof_of).unwrap();
    let h = claim.proof_to_hash(&mut vrf).unwrap();
    if !since && h > limit && what != 3 {
        // Make it pass, by making it easier
        k.epochs_with_minimum_difficulty = u32::MAX;
        k.minimum_difficulty = 1;
        limit = low(u32::MAX);
    }
    if !since && h > limit {
        broken.push("a proof above the target");
    }
    if since && !places.contains(&signer) {
        broken.push("not among the proposers");
    }
    let mut b = Block::new(
        BlockHeader {
            signals: r.u32(),
            beacon: CheckpointBeacon { checkpoint: epoch, hash_prev_block: tip.hash_prev_block },
            merkle_roots: BlockMerkleRoots {
                mint_hash: Hash::SHA256(r.arr()),
                vt_hash_merkle_root: Hash::SHA256(r.arr()),
                dr_hash_merkle_root: Hash::SHA256(r.arr()),
                commit_hash_merkle_root: Hash::SHA256(r.arr()),
                reveal_hash_merkle_root: Hash::SHA256(r.arr()),
                tally_hash_merkle_root: Hash::SHA256(r.arr()),
                stake_hash_merkle_root: Hash::SHA256(r.arr()),
                unstake_hash_merkle_root: Hash::SHA256(r.arr()),
            },
            proof: claim,
            bn256_public_key: if r.bool() { None } else { Some(some_bn256(r)) },
        },
        KeyedSignature::default(),
        BlockTransactions::default(),
    );
    if what == 2 {
        b.block_header.beacon.hash_prev_block = Hash::SHA256(r.arr());
        broken.push("another predecessor");
    }
    seal(&mut b, signer);
    match what {
        7 | 8 => {
            let mut x = b.block_header.clone();
            let m = &mut x.merkle_roots;
            let other = Hash::SHA256(r.arr());
            match r.below(if epoch < V1_8_AT { 8 } else { 10 }) {
                0 => m.mint_hash = other,
                1 => m.vt_hash_merkle_root = other,
                2 => m.dr_hash_merkle_root = other,
                3 => m.commit_hash_merkle_root = other,
                4 => m.reveal_hash_merkle_root = other,
                5 => m.tally_hash_merkle_root = other,
                6 => x.signals ^= 1 << r.below(32),
                7 => x.bn256_public_key = if x.bn256_public_key.is_some() { None } else { Some(some_bn256(r)) },
                8 => m.stake_hash_merkle_root = other,
                _ => m.unstake_hash_merkle_root = other,
            }
            b = Block::new(x, b.block_sig.clone(), b.txns.clone());
            broken.push("changed after signing");
        }
        9 => {
            let mut s = b.block_sig.clone();
            let mut x = s.public_key.to_bytes();
            x[0] = *r.pick(&[0, 4, 5, 0xff]);
            s.public_key = PublicKey::from_bytes(x);
            b = Block::new(b.block_header.clone(), s, b.txns.clone());
            broken.push("a malformed key");
        }
        10 => {
            let mut s = b.block_sig.clone();
            let Signature::Secp256k1(x) = &mut s.signature;
            x.der = if r.bool() { vec![] } else { r.bytes(71) };
            b = Block::new(b.block_header.clone(), s, b.txns.clone());
            broken.push("a malformed signature");
        }
        _ => {}
    }
    let want = broken.is_empty();
    let text = || format!("current epoch {current}, tip {tip:?}, vrf {v:?}, rf {rf} so {places:?}, {ids} identities, backup {}, {broken:?}: {b:?} signed by {signer}", k.mining_backup_factor);
    let w = wips(&[], epoch);
    let mut s = vec![];
    let Some(got) = c.nopanic("panic", text, || validate_block(&b, current, v, tip, &mut s, &rep, &k, &w, &t, version(epoch), rf).and_then(|_| verify_signatures(s, &mut vrf))) else { return };
    c.eval(1);
    for x in &broken {
        c.event(x);
    }
    c.event(&format!("{} {} 2.0", if want { "accepted" } else { "refused" }, if since { "since" } else { "before" }));
    match got {
        Ok(hashes) => {
            c.check(want, "block-accepted", text);
            if want {
                c.check(hashes == vec![h], "block-proof-hash", || format!("{hashes:?} instead of {h}; {}", text()));
            }
        }
        Err(e) => {
            c.check(!want, "block-refused", || format!("{e}; {}", text()));
        }
    }
    if !want {
        c.nontrivial(&text());
    }
}
fn low(first: u32) -> Hash {
    let mut h = [0xff; 32];
    h[..4].copy_from_slice(&first.to_be_bytes());
    Hash::SHA256(h)
}
fn genesis(c: &mut Case) {
    let mut vrf = ctx();
    let r = &mut c.rng;
    let mut k = constants(r);
    let vtts: Vec<VTTransaction> = (0..r.below(4))
        .map(|_| VTTransaction::new(VTTransactionBody::new(vec![], (0..r.range(1, 3)).map(|_| ValueTransferOutput { pkh: who(r.idx(20)).pkh, value: r.u64(), time_lock: r.below(9) }).collect()), vec![]))
        .collect();
    let good = Block::genesis(k.bootstrap_hash, vtts.clone());
    k.genesis_hash = good.versioned_hash(version(0));
    let mut b = good.clone();
    let what = r.below(9);
    let mut header = b.block_header.clone();
    let mut sig = b.block_sig.clone();
    let mut txns = b.txns.clone();
    match what {
        0 => sig = sign(0, Hash::SHA256([3; 32])),
        1 => header.signals ^= 2,
        2 => {
            let t = VTTransaction::new(VTTransactionBody::new(vec![], vec![ValueTransferOutput { pkh: who(3).pkh, value: 1, time_lock: 0 }]), vec![]);
            txns.value_transfer_txns.push(t);
        }
        3 => txns.mint = MintTransaction::new(0, vec![ValueTransferOutput { pkh: who(3).pkh, value: 1, time_lock: 0 }]),
        4 if !vtts.is_empty() => {
            txns.value_transfer_txns.pop();
        }
        5 => header.proof = BlockEligibilityClaim::create(&mut vrf, &who(1).vsk, CheckpointVRF::default()).unwrap(),
        6 => k.genesis_hash = Hash::SHA256(r.arr()),
        _ => {}
    }
    if what < 6 {
        b = Block::new(header, sig, txns);
    }
    let want = b == good && what != 6;
    let tip = CheckpointBeacon { checkpoint: 0, hash_prev_block: k.bootstrap_hash };
    let text = || format!("change {what}: {b:?}");
    let mut s = vec![];
    let rep = ReputationEngine::new(10);
    let Some(got) = c.nopanic("panic", text, || {
        validate_block(&b, 7, CheckpointVRF::default(), tip, &mut s, &rep, &k, &wips(&[], 0), &StakesTracker::default(), version(0), 4).and_then(|_| verify_signatures(s, &mut vrf)).is_ok()
    }) else {
        return;
    };
    c.eval(1);
    c.event(if want { "genesis accepted" } else { "genesis refused" });
    c.check(got == want, if want { "genesis-refused" } else { "genesis-accepted" }, text);
    if !want {
        c.nontrivial(&text());
    }
}
/// Not looked into by what is checked here.
fn some_bn256(r: &mut Rng) -> Bn256PublicKey {
    serde_json::from_value(serde_json::json!({ "public_key": r.bytes(65) })).unwrap()
}
