//! Identities, protocol versions, times and the plain maps that play the ledger in the oracles.
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;
use vmon::Rng;
use witnet_crypto::secp256k1;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::utxo_pool::UnspentOutputsPool;
use witnet_data_structures::wit::Wit;

pub const WIT: u64 = 1_000_000_000;
pub const MIN_STAKE: u64 = 10_000 * WIT;
pub const MAX_STAKE: u64 = 10_000_000 * WIT;
pub const V1_8_AT: u32 = 1_000;
pub const V2_AT: u32 = 3_000_000;
pub const T0: i64 = 1_000_000;
pub const UNSTAKE_DELAY: u64 = 1_209_600;

pub fn versions() {
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_8, V1_8_AT, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V2_0, V2_AT, 20);
}
pub fn version(epoch: u32) -> ProtocolVersion {
    if epoch >= V2_AT {
        ProtocolVersion::V2_0
    } else if epoch >= V1_8_AT {
        ProtocolVersion::V1_8
    } else {
        ProtocolVersion::V1_7
    }
}
pub fn epochs() -> EpochConstants {
    EpochConstants { checkpoint_zero_timestamp: T0, checkpoints_period: 45, checkpoint_zero_timestamp_wit2: T0 + 45 * i64::from(V2_AT), checkpoints_period_wit2: 20 }
}
/// When an epoch starts, in seconds.
pub fn time(epoch: u32) -> i64 {
    if epoch < V2_AT {
        T0 + 45 * i64::from(epoch)
    } else {
        T0 + 45 * i64::from(V2_AT) + 20 * i64::from(epoch - V2_AT)
    }
}
pub const ALL_WIPS: [&str; 13] = [
    "WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0017-0018-0019", "WIP0020-0021", "WIP0022", "WIP0023", "WIP0024", "WIP0025", "WIP0026", "WIP0027",
    "WIP0028",
];
pub fn wips(but: &[&str], epoch: u32) -> ActiveWips {
    let mut m = HashMap::new();
    for w in ALL_WIPS {
        if !but.contains(&w) {
            m.insert(w.to_string(), 0);
        }
    }
    ActiveWips { active_wips: m, block_epoch: epoch }
}

pub struct Who {
    pub sk: secp256k1::SecretKey,
    pub vsk: SecretKey,
    pub pk: PublicKey,
    pub pkh: PublicKeyHash,
}
pub fn who(i: usize) -> &'static Who {
    static ALL: OnceLock<Vec<Who>> = OnceLock::new();
    &ALL.get_or_init(|| {
        (1..=40u8)
            .map(|i| {
                let mut b = [i; 32];
                b[0] = 7;
                let sk = secp256k1::SecretKey::from_slice(&b).unwrap();
                let p = secp256k1::PublicKey::from_secret_key_global(&sk);
                let pk = PublicKey::from(p);
                Who { vsk: SecretKey::from(sk), sk, pkh: pk.pkh(), pk }
            })
            .collect()
    })[i]
}
pub fn index_of(pkh: &PublicKeyHash) -> Option<usize> {
    (0..40).find(|i| who(*i).pkh == *pkh)
}
pub fn sign(i: usize, h: Hash) -> KeyedSignature {
    let Hash::SHA256(b) = h;
    KeyedSignature { signature: Signature::from(witnet_crypto::signature::sign(who(i).sk, &b).unwrap()), public_key: who(i).pk.clone() }
}
/// Whether the signature is one by its public key over that message.
pub fn signed_ok(k: &KeyedSignature, h: Hash) -> bool {
    let Hash::SHA256(b) = h;
    let Ok(p) = secp256k1::PublicKey::from_slice(&k.public_key.to_bytes()) else { return false };
    let Signature::Secp256k1(s) = &k.signature;
    let Ok(s) = secp256k1::ecdsa::Signature::from_der(&s.der) else { return false };
    witnet_crypto::signature::verify(&p, &b, &s).is_ok()
}

/// The unspent outputs: value, owner, lock, and the block they are from.
#[derive(Clone, Default)]
pub struct Coins(pub BTreeMap<OutputPointer, (ValueTransferOutput, u32)>);
impl Coins {
    pub fn pool(&self) -> UnspentOutputsPool {
        let mut p = UnspentOutputsPool::default();
        for (k, (v, b)) in &self.0 {
            p.insert(*k, v.clone(), *b);
        }
        p
    }
    pub fn add(&mut self, r: &mut Rng, owner: usize, value: u64, time_lock: u64, block: u32) -> OutputPointer {
        let p = OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: r.below(4) as u32 };
        self.0.insert(p, (ValueTransferOutput { pkh: who(owner).pkh, value, time_lock }, block));
        p
    }
    pub fn total(&self) -> u128 {
        self.0.values().map(|(v, _)| u128::from(v.value)).sum()
    }
    /// What the inputs are worth; nothing when any of them cannot be spent at that time.
    pub fn spendable(&self, inputs: &[Input], now: i64) -> Option<u64> {
        let mut total: u128 = 0;
        for (i, x) in inputs.iter().enumerate() {
            if inputs[..i].contains(x) {
                return None;
            }
            let (v, _) = self.0.get(x.output_pointer())?;
            if i128::from(v.time_lock) > i128::from(now) {
                return None;
            }
            total += u128::from(v.value);
        }
        u64::try_from(total).ok()
    }
    /// One good signature by the owner of each input, in the same order.
    pub fn signed(&self, inputs: &[Input], signatures: &[KeyedSignature], h: Hash) -> bool {
        inputs.len() == signatures.len()
            && inputs.iter().zip(signatures).all(|(i, s)| self.0.get(i.output_pointer()).is_some_and(|(v, _)| v.pkh == s.public_key.pkh()) && signed_ok(s, h))
    }
}

/// The stakes: one entry per validator and withdrawer.
#[derive(Clone, Default, Debug)]
pub struct Staked(pub BTreeMap<(PublicKeyHash, PublicKeyHash), Entry>);
#[derive(Clone, Default, Debug, PartialEq)]
pub struct Entry {
    pub coins: u64,
    /// Epoch of the last change, and the one both powers count from.
    pub since: u32,
}
impl Staked {
    pub fn tracker(&self) -> StakesTracker {
        let mut t = StakesTracker::default();
        for ((v, w), e) in &self.0 {
            t.add_stake(StakeKey { validator: *v, withdrawer: *w }, Wit::from_nanowits(e.coins), e.since, true, Wit::from_nanowits(0)).unwrap();
        }
        t
    }
    pub fn of(&self, v: &PublicKeyHash) -> Option<(PublicKeyHash, &Entry)> {
        self.0.iter().find(|(k, _)| k.0 == *v).map(|(k, e)| (k.1, e))
    }
    pub fn validators(&self) -> usize {
        let mut v: Vec<_> = self.0.keys().map(|k| k.0).collect();
        v.dedup();
        v.len()
    }
    pub fn power(e: &Entry, now: u32) -> u64 {
        (e.coins / WIT) * u64::from(now.saturating_sub(e.since))
    }
    /// Powers, largest first; equal ones by address, largest first.
    pub fn rank(&self, now: u32) -> Vec<(u64, PublicKeyHash, PublicKeyHash)> {
        let mut v: Vec<_> = self.0.iter().map(|(k, e)| (Self::power(e, now), k.0, k.1)).collect();
        v.sort();
        v.reverse();
        v
    }
}
/// A fraction of `n` parts that sum to `total`.
pub fn split(r: &mut Rng, total: u64, n: usize) -> Vec<u64> {
    let mut left = total;
    let mut out = vec![];
    for i in 0..n {
        let x = if i + 1 == n { left } else { r.below(left / 2 + 1) };
        out.push(x);
        left -= x;
    }
    out
}
