//! C31: all the transactions of a block together, one after another.
use crate::commits::checked;
use crate::sigs::{claim_bytes, consensus, ctx};
use crate::tally::{bare_commit, output, own_tally, value};
use crate::tx::{good_rad, locked, request_weight, sign_inputs, spoil_signatures};
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::UtxoDiff;
use witnet_data_structures::vrf::*;
use witnet_validations::validations::*;

pub fn blocks(m: &mut Mon) {
    m.rule("Blocks of up to thirty transactions of all eight kinds (spending each other's outputs, committing, revealing and tallying requests of a live pool), valid ones and ones broken in one way, before and since 2.0, are judged by the real validation with all the signatures it asks for, and by an own one that applies the transactions one by one to plain maps: same verdict, same coins afterwards (with the block they count from), no value made or lost, and the pool of requests left alone. Non-trivial: a distinct broken block.");
    for k in ["block accepted", "block refused"] {
        m.require(k, 500);
    }
    for k in ["spends an output of the same block", "requests", "commits", "reveals", "tallies", "stakes", "unstakes", "too many witnesses", "weight just met", "weight exceeded", "value conserved", "genesis", "old output keeps its block"] {
        m.require(k, 50);
    }
    versions();
    m.run_par("blocks", m.n(8_000, 120_000), block);
    m.run_par("heavy", m.n(120, 1_500), heavy);
    m.run_par("genesis", m.n(4_000, 60_000), genesis);
}

pub struct World {
    epoch: u32,
    version: ProtocolVersion,
    number: u32,
    now: i64,
    coins: Coins,
    stakes: Staked,
    pool: DataRequestPool,
    since: HashMap<Hash, u32>,
    wips: ActiveWips,
    k: ConsensusConstants,
    k2: ConsensusConstantsWit2,
    rep: ReputationEngine,
    vrf: CheckpointVRF,
}
/// Outputs of the same block that count from an older one.
type Ages = Vec<(OutputPointer, u32)>;

impl World {
    /// What remains after a transaction.
    fn apply<'a>(&self, live: &mut Coins, fresh: &mut HashSet<OutputPointer>, ages: &mut Ages, inputs: impl IntoIterator<Item = &'a Input>, outputs: &[ValueTransferOutput], h: Hash) {
        let mut owners = HashSet::new();
        let (mut newest, mut newest_known) = (0, 0);
        let mut chained = false;
        for i in inputs {
            if let Some((o, b)) = live.0.remove(i.output_pointer()) {
                owners.insert(o.pkh);
                newest = newest.max(b);
                if fresh.contains(i.output_pointer()) {
                    chained = true;
                } else {
                    newest_known = newest_known.max(b);
                }
            }
        }
        for (i, o) in outputs.iter().enumerate() {
            let mut o = o.clone();
            let p = OutputPointer { transaction_id: h, output_index: i as u32 };
            let kept = owners.len() == 1 && owners.contains(&o.pkh);
            if self.version == ProtocolVersion::V2_0 && i128::from(o.time_lock) < i128::from(T0) {
                o.time_lock += self.now as u64;
            }
            if kept && chained {
                ages.push((p, newest_known));
            }
            live.0.insert(p, (o, if kept { newest } else { self.number }));
            fresh.insert(p);
        }
    }
    fn v2(&self) -> bool {
        self.version == ProtocolVersion::V2_0
    }
    fn too_many(&self, o: &DataRequestOutput) -> bool {
        self.v2() && usize::from(o.witnesses) > self.stakes.validators() / 4
    }
    fn free(&self, live: &Coins, owner: impl Fn(usize) -> bool) -> Vec<OutputPointer> {
        live.0.iter().filter(|(_, (o, _))| i128::from(o.time_lock) <= i128::from(self.now) && index_of(&o.pkh).is_some_and(&owner)).map(|x| *x.0).collect()
    }
}
fn take(r: &mut Rng, mut v: Vec<OutputPointer>, max: u64) -> Vec<Input> {
    r.shuffle(&mut v);
    v.truncate(r.range(1, max) as usize);
    v.into_iter().map(Input::new).collect()
}
fn worth(live: &Coins, inputs: &[Input]) -> u64 {
    inputs.iter().map(|i| live.0[i.output_pointer()].0.value).sum()
}

/// A request of somebody, in the pool.
fn asked(r: &mut Rng, pool: &mut DataRequestPool, o: DataRequestOutput, since: u32) -> Hash {
    let mut t = DRTransaction::new(DRTransactionBody::new(vec![Input::new(OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 0 })], o, vec![]), vec![]);
    let h = t.versioned_hash(version(since));
    t.signatures = vec![sign(r.idx(6), h)];
    pool.process_data_request(&t, since, Some(Hash::SHA256(r.arr()))).unwrap();
    h
}
struct Plan {
    committing: Vec<Hash>,
    revealing: Vec<(Hash, Vec<RevealTransaction>)>,
    tallying: Vec<Hash>,
}
fn world(r: &mut Rng) -> (World, Plan) {
    let epoch = match r.below(6) {
        0 => 500 + r.below(400) as u32,
        1 => V1_8_AT + 100 + r.below(400) as u32,
        2 => 2_500_000 + r.below(400) as u32,
        _ => V2_AT + 100_000 + r.below(10_000) as u32,
    };
    let version = version(epoch);
    let v2 = version == ProtocolVersion::V2_0;
    let number = 20_000 + r.below(1000) as u32;
    let mut w = World {
        epoch,
        version,
        number,
        now: time(epoch),
        coins: Coins::default(),
        stakes: Staked::default(),
        pool: DataRequestPool::new(3),
        since: HashMap::new(),
        wips: wips(if !v2 && r.chance(1, 6) { &["WIP0008"] } else { &[] }, epoch),
        k: consensus(),
        k2: ConsensusConstantsWit2 { checkpoint_zero_timestamp: T0, checkpoints_period: 45 },
        rep: ReputationEngine::new(100),
        vrf: CheckpointVRF { checkpoint: epoch, hash_prev_vrf: Hash::SHA256(r.arr()) },
    };
    w.k.minimum_difficulty = 1;
    if r.chance(1, 3) {
        w.k.max_vt_weight = *r.pick(&[500, 493 * 2, 2000]);
        w.k.max_dr_weight = *r.pick(&[3000, 10_000]);
    }
    // Wallets are 0 to 5, validators 20 to 39
    for _ in 0..r.range(4, 12) {
        let lock = match r.below(10) {
            0 => w.now as u64 + r.below(2),
            1 => w.now as u64 - r.below(2),
            _ => 0,
        };
        let wallets = if r.bool() { 2 } else { 6 };
        let (owner, value, block) = (r.idx(wallets), r.range(1, 3000 * WIT), r.below(u64::from(number)) as u32);
        w.coins.add(r, owner, value, lock, block);
    }
    let validators = if v2 || r.bool() { r.range(8, 20) as usize } else { 0 };
    for i in 20..20 + validators {
        let coins = 2 * MIN_STAKE + r.below(20) * MIN_STAKE;
        let withdrawer = if r.bool() { i } else { r.idx(6) };
        if version != ProtocolVersion::V1_7 {
            w.stakes.0.insert((who(i).pkh, who(withdrawer).pkh), Entry { coins, since: epoch - 5 - r.below(80) as u32 });
        }
    }
    for i in 20..40 {
        if !v2 || r.chance(1, 4) {
            let value = r.range(100, 200) * WIT;
            w.coins.add(r, i, value, 0, r.clone().below(6000) as u32);
            w.coins.add(r, i, WIT, 0, r.clone().below(6000) as u32);
        }
    }
    let mut plan = Plan { committing: vec![], revealing: vec![], tallying: vec![] };
    let busy = r.below(4);
    let ask = |r: &mut Rng, w: &mut World, back: u32| {
        let mut o = output(r);
        o.witnesses = r.range(1, 3).min(if v2 { (validators / 4) as u64 } else { 3 }) as u16;
        if r.bool() {
            o.collateral = 0;
        }
        let since = epoch - back - r.below(3) as u32;
        let h = asked(r, &mut w.pool, o, since);
        w.since.insert(h, since);
        h
    };
    // Tallies first: each step moves all of the requests in the pool
    let promise = |r: &mut Rng, w: &mut World, h: Hash| {
        let witnesses = usize::from(w.pool.data_request_state(&h).unwrap().data_request.witnesses);
        let mut order: Vec<usize> = (20..40).collect();
        r.shuffle(&mut order);
        let mut said = vec![];
        for i in &order[..witnesses] {
            let t = RevealTransaction::new(RevealTransactionBody::new(h, value(r, 1).0, who(*i).pkh), vec![]);
            let s = sign(*i, t.hash());
            let Signature::Secp256k1(x) = &s.signature;
            w.pool.process_commit(&bare_commit(*i, h, Hash::SHA256(vref::hash::sha256(&x.der))), epoch - 1, &Hash::default()).unwrap();
            said.push(RevealTransaction::new(t.body, vec![s]));
        }
        said
    };
    for _ in 0..r.below(busy + 1) {
        let h = ask(r, &mut w, 6);
        let said = promise(r, &mut w, h);
        let s = w.pool.data_request_state_mutable(&h).unwrap();
        s.update_stage(3, false);
        for t in &said {
            if r.chance(4, 5) {
                w.pool.process_reveal(t, epoch - 1, &Hash::default()).unwrap();
            }
        }
        let s = w.pool.data_request_state_mutable(&h).unwrap();
        while s.stage != DataRequestStage::TALLY {
            s.update_stage(3, false);
        }
        plan.tallying.push(h);
    }
    for _ in 0..r.below(busy + 1) {
        let h = ask(r, &mut w, 4);
        let mut said = promise(r, &mut w, h);
        w.pool.data_request_state_mutable(&h).unwrap().update_stage(3, false);
        if r.chance(1, 3) {
            let t = said.remove(0);
            w.pool.process_reveal(&t, epoch - 1, &Hash::default()).unwrap();
        }
        plan.revealing.push((h, said));
    }
    for _ in 0..r.below(busy + 1) {
        let h = ask(r, &mut w, 1);
        let s = w.pool.data_request_state_mutable(&h).unwrap();
        for _ in 0..r.below(3) {
            s.update_stage(3, false);
        }
        plan.committing.push(h);
    }
    (w, plan)
}

/// The transactions of a block, most often all valid.
fn fill(r: &mut Rng, w: &World, plan: &Plan) -> BlockTransactions {
    let mut vrf = ctx();
    let mut b = BlockTransactions::default();
    let mut live = w.coins.clone();
    let mut fresh = HashSet::new();
    let mut ages = vec![];
    let mut fees: u64 = 0;
    let wallet = |i: usize| i < 6;
    for _ in 0..r.below(5) {
        let mut free = w.free(&live, wallet);
        // Prefer what was just created
        if r.bool() && free.iter().any(|p| fresh.contains(p)) {
            free.retain(|p| fresh.contains(p));
        }
        if r.bool() {
            if let Some(first) = free.first().and_then(|p| live.0.get(p)).map(|x| x.0.pkh) {
                free.retain(|p| live.0[p].0.pkh == first);
            }
        }
        if free.is_empty() {
            break;
        }
        let inputs = take(r, free, 3);
        let have = worth(&live, &inputs);
        let fee = r.below(have.min(WIT) + 1).min(have - 1);
        let n = r.range(1, 3) as usize;
        let own = index_of(&live.0[inputs[0].output_pointer()].0.pkh).unwrap();
        let outputs: Vec<_> = split(r, have - fee, n)
            .into_iter()
            .filter(|x| *x > 0)
            .map(|value| ValueTransferOutput { pkh: who(if r.bool() { own } else { r.idx(6) }).pkh, value, time_lock: match r.below(5) {
                0 => r.below(T0 as u64 + 5),
                1 => r.below(2 * w.now as u64),
                _ => 0,
            } })
            .collect();
        let mut t = VTTransaction::new(VTTransactionBody::new(inputs.clone(), outputs.clone()), vec![]);
        let h = t.versioned_hash(w.version);
        t.signatures = sign_inputs(&live, &inputs, h);
        w.apply(&mut live, &mut fresh, &mut ages, &inputs, &outputs, h);
        fees += fee;
        b.value_transfer_txns.push(t);
    }
    // Commits
    let tracker = w.stakes.tracker();
    for q in &plan.committing {
        if r.chance(1, 4) {
            continue;
        }
        let s = w.pool.data_request_state(q).unwrap();
        let since = w.since[q];
        let required = if s.data_request.collateral == 0 { w.k.collateral_minimum } else { s.data_request.collateral };
        let mut order: Vec<usize> = (20..40).collect();
        r.shuffle(&mut order);
        let mut left = s.data_request.witnesses;
        let back = w.number - w.k2.get_collateral_age(&w.wips);
        for i in order {
            if left == 0 {
                break;
            }
            let mut inputs = vec![];
            let mut outputs = vec![];
            if since < V2_AT {
                let mut sum = 0;
                for p in w.free(&live, |o| o == i) {
                    if sum >= required {
                        break;
                    }
                    if live.0[&p].1 <= back && !fresh.contains(&p) {
                        sum += live.0[&p].0.value;
                        inputs.push(Input::new(p));
                    }
                }
                if sum < required {
                    continue;
                }
                if sum > required {
                    outputs.push(ValueTransferOutput { pkh: who(i).pkh, value: sum - required, time_lock: 0 });
                }
            }
            let withdrawer = w.stakes.of(&who(i).pkh).map(|x| x.0);
            let m = claim_bytes(&w.vrf, q, if since >= V2_AT { withdrawer.as_ref() } else { None });
            let (proof, _) = VrfProof::create(&mut vrf, &who(i).vsk, &VrfMessage::set_data(m)).unwrap();
            let mut t = CommitTransaction::new(CommitTransactionBody::new(*q, Hash::SHA256(r.arr()), DataRequestEligibilityClaim { proof }, inputs.clone(), outputs.clone(), None), vec![]);
            let h = t.versioned_hash(w.version);
            t.signatures = vec![sign(i, t.hash())];
            let pool = live.pool();
            if !checked(&t, &w.pool, w.vrf, &w.rep, w.epoch, &UtxoDiff::new(&pool, w.number), w.k.collateral_minimum, w.k2.get_collateral_age(&w.wips), w.number, 1, &w.wips, w.k.superblock_period, version(since), &tracker, &mut vrf) {
                continue;
            }
            w.apply(&mut live, &mut fresh, &mut ages, &inputs, &outputs, h);
            fees += s.data_request.commit_and_reveal_fee;
            b.commit_txns.push(t);
            left -= 1;
        }
        if left > 0 {
            // Nobody else can: leave it for later, but with what was made of it
            if r.chance(3, 4) {
                let done: Vec<_> = b.commit_txns.iter().filter(|t| t.body.dr_pointer == *q).cloned().collect();
                b.commit_txns.retain(|t| t.body.dr_pointer != *q);
                fees -= done.len() as u64 * s.data_request.commit_and_reveal_fee;
                for t in done {
                    for i in 0..t.body.outputs.len() {
                        live.0.remove(&OutputPointer { transaction_id: t.versioned_hash(w.version), output_index: i as u32 });
                    }
                    for i in &t.body.collateral {
                        live.0.insert(*i.output_pointer(), w.coins.0[i.output_pointer()].clone());
                    }
                }
            }
        }
    }
    for (q, said) in &plan.revealing {
        for t in said {
            if r.chance(3, 4) {
                b.reveal_txns.push(t.clone());
                fees += w.pool.data_request_state(q).unwrap().data_request.commit_and_reveal_fee;
            }
        }
    }
    // Requests
    let mut immediate = vec![];
    for _ in 0..r.below(3) {
        let free = w.free(&live, wallet);
        if free.is_empty() {
            break;
        }
        let inputs = take(r, free, 3);
        let have = worth(&live, &inputs);
        let mut o = output(r);
        o.data_request = good_rad(r);
        o.witnesses = if w.v2() && r.chance(1, 3) { (w.stakes.validators() / 4 + 1) as u16 } else { r.range(1, 3) as u16 };
        let each = have / u64::from(o.witnesses);
        o.commit_and_reveal_fee = o.commit_and_reveal_fee.min(each / 8);
        o.witness_reward = (each / 2).min(o.witness_reward.max(WIT)).max(1);
        o.collateral = 0;
        let Some(left) = locked(&o).and_then(|l| have.checked_sub(l)) else { continue };
        let change = r.below(left + 1);
        let first = live.0[inputs[0].output_pointer()].0.pkh;
        let outputs = if change > 0 { vec![ValueTransferOutput { pkh: first, value: change, time_lock: 0 }] } else { vec![] };
        let mut t = DRTransaction::new(DRTransactionBody::new(inputs.clone(), o.clone(), outputs.clone()), vec![]);
        let h = t.versioned_hash(w.version);
        t.signatures = sign_inputs(&live, &inputs, h);
        if w.k.collateral_minimum > o.witness_reward.saturating_mul(125) {
            continue;
        }
        w.apply(&mut live, &mut fresh, &mut ages, &inputs, &outputs, h);
        fees += left - change;
        if w.too_many(&o) {
            immediate.push(t.clone());
        }
        b.data_request_txns.push(t);
    }
    // Tallies
    let mut pool = w.pool.clone();
    for t in &immediate {
        resolve(w, &mut pool, t);
    }
    let mut due: Vec<Hash> = plan.tallying.iter().copied().chain(immediate.iter().map(|t| t.versioned_hash(w.version))).collect();
    r.shuffle(&mut due);
    for q in due {
        let s = pool.data_request_state(&q).unwrap().clone();
        let v = version(s.epoch);
        let t = own_tally(&pool, &q, w.k.collateral_minimum, &w.wips, immediate.iter().any(|t| t.versioned_hash(w.version) == q), v);
        let with = immediate.iter().map(|t| t.versioned_hash(w.version)).collect();
        if let Ok((_, fee)) = validate_tally_transaction(&t, &mut pool.clone(), &w.k, &w.wips, &with, Some(w.stakes.validators()), v) {
            fees += fee;
        }
        w.apply(&mut live, &mut fresh, &mut ages, [], &t.outputs, t.versioned_hash(w.version));
        b.tally_txns.push(t);
    }
    // Stakes
    if w.version != ProtocolVersion::V1_7 {
        let mut validators: Vec<usize> = (14..40).collect();
        r.shuffle(&mut validators);
        for v in validators.iter().take(r.below(3) as usize) {
            let have = w.stakes.of(&who(*v).pkh);
            let withdrawer = have.map_or(who(r.idx(6)).pkh, |x| x.0);
            let mut free = w.free(&live, wallet);
            free.retain(|p| live.0[p].0.value > MIN_STAKE);
            if free.is_empty() {
                break;
            }
            let inputs = take(r, free, 1);
            let value = MIN_STAKE + r.below(worth(&live, &inputs) - MIN_STAKE);
            let left = worth(&live, &inputs) - value;
            let change = r.below(left + 1);
            let own = live.0[inputs[0].output_pointer()].0.pkh;
            let change_output = if change > 0 { Some(ValueTransferOutput { pkh: own, value: change, time_lock: 0 }) } else { None };
            // The authorization is not looked at
            let by = if r.chance(1, 3) { 9 } else { *v };
            let output = StakeOutput { authorization: sign(by, Hash::SHA256([3; 32])), key: StakeKey { validator: who(*v).pkh, withdrawer }, value };
            let mut t = StakeTransaction::new(StakeTransactionBody::new(inputs.clone(), output, change_output.clone()), vec![]);
            let h = t.versioned_hash(w.version);
            t.signatures = sign_inputs(&live, &inputs, h);
            let outputs: Vec<_> = change_output.into_iter().collect();
            w.apply(&mut live, &mut fresh, &mut ages, &inputs, &outputs, h);
            fees += left - change;
            b.stake_txns.push(t);
        }
    }
    if w.v2() {
        let mut v: Vec<_> = w.stakes.0.iter().collect();
        r.shuffle(&mut v);
        for ((validator, withdrawer), e) in v.into_iter().take(r.below(3) as usize) {
            let t = unstake(r, validator, withdrawer, e);
            fees += t.body.fee;
            w.apply(&mut live, &mut fresh, &mut ages, [], &[t.body.withdrawal.clone()], t.versioned_hash(w.version));
            b.unstake_txns.push(t);
        }
    }
    b.mint = mint(r, w, fees);
    b
}
fn unstake(r: &mut Rng, validator: &PublicKeyHash, withdrawer: &PublicKeyHash, e: &Entry) -> UnstakeTransaction {
    let amount = if r.chance(1, 3) { e.coins } else { 1 + r.below(e.coins - MIN_STAKE) };
    let fee = r.below(amount.min(WIT));
    let mut t = UnstakeTransaction::new(
        UnstakeTransactionBody::new(*validator, ValueTransferOutput { pkh: *withdrawer, value: amount - fee, time_lock: UNSTAKE_DELAY }, fee, u64::from(e.since)),
        KeyedSignature::default(),
    );
    t.signature = sign(index_of(withdrawer).unwrap(), t.hash());
    t
}
fn mint(r: &mut Rng, w: &World, fees: u64) -> MintTransaction {
    let outputs = if w.v2() {
        vec![]
    } else {
        let all = fees + 250 * WIT;
        let part = if r.bool() { 0 } else { r.below(all) };
        [all - part, part].iter().filter(|x| **x > 0).map(|value| ValueTransferOutput { pkh: who(r.idx(40)).pkh, value: *value, time_lock: 0 }).collect()
    };
    MintTransaction::new(w.epoch, outputs)
}
/// A request that is tallied in the block that it comes with.
fn resolve(w: &World, pool: &mut DataRequestPool, t: &DRTransaction) {
    if pool.process_data_request(t, w.epoch, Some(Hash::default())).is_ok() {
        pool.data_request_state_mutable(&t.versioned_hash(w.version)).unwrap().set_stage(DataRequestStage::TALLY);
    }
}
fn root<T: VersionedHashable>(v: &[T], version: ProtocolVersion) -> Hash {
    fn go(x: &[[u8; 32]]) -> [u8; 32] {
        match x {
            [] => vref::hash::sha256(&[]),
            [a] => *a,
            _ => {
                let next: Vec<[u8; 32]> = x.chunks(2).map(|c| if c.len() == 2 { vref::hash::sha256(&c.concat()) } else { c[0] }).collect();
                go(&next)
            }
        }
    }
    let x: Vec<[u8; 32]> = v
        .iter()
        .map(|t| {
            let Hash::SHA256(x) = t.versioned_hash(version);
            x
        })
        .collect();
    Hash::SHA256(go(&x))
}
fn roots(w: &World, b: &BlockTransactions) -> BlockMerkleRoots {
    let v = w.version;
    BlockMerkleRoots {
        mint_hash: b.mint.versioned_hash(v),
        vt_hash_merkle_root: root(&b.value_transfer_txns, v),
        dr_hash_merkle_root: root(&b.data_request_txns, v),
        commit_hash_merkle_root: root(&b.commit_txns, v),
        reveal_hash_merkle_root: root(&b.reveal_txns, v),
        tally_hash_merkle_root: root(&b.tally_txns, v),
        stake_hash_merkle_root: if v == ProtocolVersion::V1_7 { Hash::default() } else { root(&b.stake_txns, v) },
        unstake_hash_merkle_root: if w.v2() { root(&b.unstake_txns, v) } else { Hash::default() },
    }
}
fn seal(w: &World, txns: BlockTransactions) -> Block {
    let header = BlockHeader {
        beacon: CheckpointBeacon { checkpoint: w.epoch, hash_prev_block: Hash::SHA256([9; 32]) },
        merkle_roots: roots(w, &txns),
        ..BlockHeader::default()
    };
    Block::new(header, KeyedSignature::default(), txns)
}

struct Verdict {
    coins: Coins,
    ages: Ages,
    chained: bool,
    margins: Vec<(u32, u32)>,
}
/// The rules, one transaction after another.
fn judge(w: &World, block: &Block) -> Result<Verdict, String> {
    let b = &block.txns;
    let mut vrf = ctx();
    let mut live = w.coins.clone();
    let mut fresh = HashSet::new();
    let mut ages = vec![];
    let mut chained = false;
    let mut fees: u128 = 0;
    let mut margins = vec![];
    let tracker = w.stakes.tracker();
    let said = |what: &'static str| move |e: anyhow::Error| format!("{what}: {e}");
    if !b.stake_txns.is_empty() && w.version == ProtocolVersion::V1_7 {
        return Err("stakes too early".into());
    }
    if !b.unstake_txns.is_empty() && !w.v2() {
        return Err("unstakes too early".into());
    }
    let mut signed = |s: Vec<SignaturesToVerify>| verify_signatures(s, &mut vrf).map(|_| ());
    let mut weight = 0;
    for t in &b.value_transfer_txns {
        let pool = live.pool();
        let mut s = vec![];
        let (i, o, fee) = validate_vt_transaction(t, &UtxoDiff::new(&pool, w.number), w.epoch, epochs(), &mut s, w.k.max_vt_weight, None).map_err(said("transfer"))?;
        signed(s).map_err(said("transfer"))?;
        fees += u128::from(fee);
        weight += 133 * i.len() as u32 + 360 * o.len() as u32;
        chained |= i.iter().any(|x| fresh.contains(x.output_pointer()));
        let o: Vec<_> = o.into_iter().cloned().collect();
        w.apply(&mut live, &mut fresh, &mut ages, i, &o, t.versioned_hash(w.version));
    }
    margins.push((weight, w.k.max_vt_weight));
    let mut commits: BTreeMap<Hash, HashSet<PublicKeyHash>> = BTreeMap::new();
    for t in &b.commit_txns {
        // The coins of a witness are those it had before the block
        let mut had = live.clone();
        had.0.retain(|p, _| !fresh.contains(p));
        let pool = had.pool();
        let mut s = vec![];
        let v = w.since.get(&t.body.dr_pointer).map_or(ProtocolVersion::V1_7, |e| version(*e));
        let (q, _, fee) = validate_commit_transaction(
            t, &w.pool, w.vrf, &mut s, &w.rep, w.epoch, epochs(), &UtxoDiff::new(&pool, w.number), w.k.collateral_minimum, w.k2.get_collateral_age(&w.wips), w.number, w.k.minimum_difficulty, &w.wips,
            w.k.superblock_period, v, &tracker, w.k.extra_rounds + 1, if w.version == ProtocolVersion::V1_7 { 0 } else { MIN_STAKE },
        )
        .map_err(said("commit"))?;
        signed(s).map_err(said("commit"))?;
        fees += u128::from(fee);
        if t.body.collateral.iter().any(|x| fresh.contains(x.output_pointer())) {
            return Err("young collateral".into());
        }
        if !commits.entry(q).or_default().insert(t.body.proof.proof.pkh()) {
            return Err("commits twice".into());
        }
        w.apply(&mut live, &mut fresh, &mut ages, &t.body.collateral, &t.body.outputs, t.versioned_hash(w.version));
    }
    for (q, who) in &commits {
        if who.len() != usize::from(w.pool.data_request_state(q).unwrap().data_request.witnesses) {
            return Err("number of commits".into());
        }
    }
    let mut reveals = HashSet::new();
    for t in &b.reveal_txns {
        let mut s = vec![];
        fees += u128::from(validate_reveal_transaction(t, &w.pool, &mut s).map_err(said("reveal"))?);
        signed(s).map_err(said("reveal"))?;
        if !reveals.insert((t.body.dr_pointer, t.body.pkh)) {
            return Err("reveals twice".into());
        }
    }
    // Requests: those that wait for commits take up room too
    let mut weight = 0u32;
    if w.wips.active_wips.contains_key("WIP0008") {
        // Left for the next block
        for h in w.pool.get_dr_output_pointers_by_epoch(w.epoch) {
            if !commits.contains_key(&h) {
                let o = w.pool.get_dr_output(&h).unwrap();
                let t = DRTransaction::new(DRTransactionBody::new(vec![], o, vec![]), vec![]);
                weight += request_weight(&t);
            }
        }
    }
    let mut pool_then = w.pool.clone();
    let mut immediate = HashSet::new();
    for t in &b.data_request_txns {
        let pool = live.pool();
        let mut s = vec![];
        let (i, o, fee) =
            validate_dr_transaction(t, &UtxoDiff::new(&pool, w.number), w.epoch, epochs(), &mut s, w.k.collateral_minimum, w.k.max_dr_weight, 125, &w.wips, Some(w.version)).map_err(said("request"))?;
        signed(s).map_err(said("request"))?;
        fees += u128::from(fee);
        chained |= i.iter().any(|x| fresh.contains(x.output_pointer()));
        let o: Vec<_> = o.into_iter().cloned().collect();
        w.apply(&mut live, &mut fresh, &mut ages, i, &o, t.versioned_hash(w.version));
        weight += request_weight(t);
        if weight > w.k.max_dr_weight {
            return Err(format!("request weight {weight}"));
        }
        if w.too_many(&t.body.dr_output) {
            resolve(w, &mut pool_then, t);
            immediate.insert(t.versioned_hash(w.version));
        }
    }
    if !b.data_request_txns.is_empty() {
        margins.push((weight, w.k.max_dr_weight));
    }
    let due = pool_then.get_tally_ready_drs();
    let mut tallied = HashSet::new();
    for t in &b.tally_txns {
        let v = pool_then.data_request_state(&t.dr_pointer).map_or(ProtocolVersion::V1_7, |s| version(s.epoch));
        let (o, fee) = validate_tally_transaction(t, &mut pool_then, &w.k, &w.wips, &immediate, Some(w.stakes.validators()), v).map_err(said("tally"))?;
        fees += u128::from(fee);
        if !tallied.insert(t.dr_pointer) {
            return Err("tallied twice".into());
        }
        let o: Vec<_> = o.into_iter().cloned().collect();
        w.apply(&mut live, &mut fresh, &mut ages, [], &o, t.versioned_hash(w.version));
    }
    if due != tallied {
        return Err("a tally is missing".into());
    }
    let mut weight = 0;
    let mut seen = HashSet::new();
    for t in &b.stake_txns {
        let pool = live.pool();
        let mut s = vec![];
        let (i, o, fee, _, change) = validate_stake_transaction(t, &UtxoDiff::new(&pool, w.number), w.epoch, epochs(), &mut s, &tracker, MIN_STAKE, MAX_STAKE).map_err(said("stake"))?;
        signed(s).map_err(said("stake"))?;
        fees += u128::from(fee);
        if !seen.insert(o.key.validator) {
            return Err("stakes twice".into());
        }
        weight += 133 * i.len() as u32 + 105 + 36 * u32::from(change.is_some());
        chained |= i.iter().any(|x| fresh.contains(x.output_pointer()));
        let o: Vec<_> = change.iter().cloned().collect();
        w.apply(&mut live, &mut fresh, &mut ages, i, &o, t.versioned_hash(w.version));
    }
    margins.push((weight, 20_000));
    let mut seen = HashSet::new();
    for t in &b.unstake_txns {
        let (fee, _, o) = validate_unstake_transaction(t, w.epoch, &tracker, MIN_STAKE, UNSTAKE_DELAY).map_err(said("unstake"))?;
        fees += u128::from(fee);
        if !seen.insert(t.body.operator) {
            return Err("unstakes twice".into());
        }
        let o: Vec<_> = o.into_iter().cloned().collect();
        w.apply(&mut live, &mut fresh, &mut ages, [], &o, t.versioned_hash(w.version));
    }
    margins.push((153 * b.unstake_txns.len() as u32, 5_000));
    for (weight, limit) in &margins {
        if weight > limit {
            return Err(format!("weight {weight} of {limit}"));
        }
    }
    // What the miner gets
    if b.mint.epoch != w.epoch {
        return Err("mint of another epoch".into());
    }
    if w.v2() {
        if !b.mint.outputs.is_empty() {
            return Err("mint since 2.0".into());
        }
    } else {
        let all: u128 = b.mint.outputs.iter().map(|o| u128::from(o.value)).sum();
        if all != fees + u128::from(250 * WIT) || b.mint.outputs.len() > 2 || b.mint.outputs.iter().any(|o| o.value == 0) {
            return Err(format!("mint of {all} with fees {fees}"));
        }
    }
    w.apply(&mut live, &mut fresh, &mut ages, [], &b.mint.outputs, b.mint.versioned_hash(w.version));
    if block.block_header.merkle_roots != roots(w, b) {
        return Err("roots".into());
    }
    Ok(Verdict { coins: live, ages, chained, margins })
}

/// One thing wrong; true when the roots are already as they should stay.
fn spoil(r: &mut Rng, w: &World, b: &mut BlockTransactions) -> &'static str {
    fn again<T: Clone>(r: &mut Rng, v: &mut Vec<T>) -> bool {
        if v.is_empty() {
            return false;
        }
        let x = r.pick(v).clone();
        let at = r.idx(v.len() + 1);
        v.insert(at, x);
        true
    }
    fn less<T>(r: &mut Rng, v: &mut Vec<T>) -> bool {
        if v.is_empty() {
            return false;
        }
        v.remove(r.idx(v.len()));
        true
    }
    for _ in 0..20 {
        let ok = match r.below(19) {
            0 => (again(r, &mut b.value_transfer_txns), "transfer twice"),
            1 => (again(r, &mut b.data_request_txns), "request twice"),
            2 => (again(r, &mut b.commit_txns), "commit twice"),
            3 => (again(r, &mut b.reveal_txns), "reveal twice"),
            4 => (again(r, &mut b.tally_txns), "tally twice"),
            5 => (again(r, &mut b.stake_txns), "stake twice"),
            6 => (again(r, &mut b.unstake_txns), "unstake twice"),
            7 => (less(r, &mut b.commit_txns), "a commit less"),
            8 => (less(r, &mut b.tally_txns), "a tally less"),
            9 => {
                b.value_transfer_txns.reverse();
                (b.value_transfer_txns.len() > 1, "transfers in reverse")
            }
            10 => {
                // Two transactions spend the same output
                let spent: Vec<Input> = b.value_transfer_txns.iter().flat_map(|t| t.body.inputs.clone()).chain(b.data_request_txns.iter().flat_map(|t| t.body.inputs.clone())).collect();
                if spent.is_empty() {
                    continue;
                }
                let i = *r.pick(&spent);
                let Some((o, _)) = w.coins.0.get(i.output_pointer()) else { continue };
                let mut t = VTTransaction::new(VTTransactionBody::new(vec![i], vec![ValueTransferOutput { pkh: who(1).pkh, value: o.value, time_lock: 0 }]), vec![]);
                let h = t.versioned_hash(w.version);
                t.signatures = sign_inputs(&w.coins, &[i], h);
                let at = r.idx(b.value_transfer_txns.len() + 1);
                b.value_transfer_txns.insert(at, t);
                (true, "output spent twice")
            }
            11 => {
                let mut outputs = b.mint.outputs.clone();
                match r.below(4) {
                    0 => outputs.push(ValueTransferOutput { pkh: who(3).pkh, value: 1, time_lock: 0 }),
                    1 => outputs.push(ValueTransferOutput { pkh: who(3).pkh, value: 0, time_lock: 0 }),
                    2 if !outputs.is_empty() => outputs[0].value += 1,
                    _ if !outputs.is_empty() => outputs[0].value -= 1,
                    _ => continue,
                }
                b.mint = MintTransaction::new(w.epoch, outputs);
                (true, "another mint")
            }
            12 => {
                b.mint = MintTransaction::new(w.epoch ^ 1, b.mint.outputs.clone());
                (true, "mint of another epoch")
            }
            13 => {
                // Three parts
                if b.mint.outputs.is_empty() || b.mint.outputs[0].value < 3 {
                    continue;
                }
                let mut o = b.mint.outputs.clone();
                while o.len() < 3 {
                    let mut x = o[0].clone();
                    x.value = 1;
                    o[0].value -= 1;
                    o.push(x);
                }
                b.mint = MintTransaction::new(w.epoch, o);
                (true, "mint in three parts")
            }
            14 => match r.below(5) {
                0 if !b.value_transfer_txns.is_empty() => {
                    let at = r.idx(b.value_transfer_txns.len());
                    let t = &mut b.value_transfer_txns[at];
                    let h = t.hash();
                    spoil_signatures(r, &mut t.signatures, h);
                    (true, "signature of a transfer")
                }
                1 if !b.data_request_txns.is_empty() => {
                    let at = r.idx(b.data_request_txns.len());
                    let t = &mut b.data_request_txns[at];
                    let h = t.versioned_hash(w.version);
                    spoil_signatures(r, &mut t.signatures, h);
                    (true, "signature of a request")
                }
                2 if !b.commit_txns.is_empty() => {
                    let at = r.idx(b.commit_txns.len());
                    let t = &mut b.commit_txns[at];
                    let h = t.hash();
                    spoil_signatures(r, &mut t.signatures, h);
                    (true, "signature of a commit")
                }
                3 if !b.reveal_txns.is_empty() => {
                    let at = r.idx(b.reveal_txns.len());
                    let t = &mut b.reveal_txns[at];
                    let h = t.hash();
                    spoil_signatures(r, &mut t.signatures, h);
                    (true, "signature of a reveal")
                }
                _ if !b.stake_txns.is_empty() => {
                    let at = r.idx(b.stake_txns.len());
                    let t = &mut b.stake_txns[at];
                    let h = t.hash();
                    spoil_signatures(r, &mut t.signatures, h);
                    (true, "signature of a stake")
                }
                _ => continue,
            },
            15 => {
                let output = StakeOutput { authorization: sign(3, Hash::SHA256([3; 32])), key: StakeKey { validator: who(3).pkh, withdrawer: who(3).pkh }, value: MIN_STAKE };
                if w.version != ProtocolVersion::V1_7 {
                    // The same validator again, from other coins
                    let Some(t) = b.stake_txns.first().cloned() else { continue };
                    let mut o = t.body.output.clone();
                    if r.bool() {
                        o.key.withdrawer = who(7).pkh;
                    }
                    let used: Vec<_> = b.stake_txns.iter().flat_map(|t| t.body.inputs.clone()).collect();
                    let mut free = w.free(&w.coins, |i| i < 6);
                    free.retain(|p| w.coins.0[p].0.value >= o.value && !used.contains(&Input::new(*p)));
                    let Some(p) = free.first() else { continue };
                    o.value = MIN_STAKE;
                    if r.bool() {
                        o.authorization = sign(r.idx(40), Hash::SHA256([4; 32]));
                    }
                    let i = vec![Input::new(*p)];
                    let mut t = StakeTransaction::new(StakeTransactionBody::new(i.clone(), o, None), vec![]);
                    t.signatures = sign_inputs(&w.coins, &i, t.hash());
                    b.stake_txns.push(t);
                } else {
                    b.stake_txns.push(StakeTransaction::new(StakeTransactionBody::new(vec![], output, None), vec![]));
                }
                (true, "another stake")
            }
            16 if !w.v2() => {
                b.unstake_txns.push(UnstakeTransaction::new(UnstakeTransactionBody::new(who(3).pkh, ValueTransferOutput { pkh: who(3).pkh, value: 1, time_lock: UNSTAKE_DELAY }, 0, 0), sign(3, Hash::default())));
                (true, "unstake before 2.0")
            }
            17 => {
                // The same witness twice, in place of another one
                if b.commit_txns.len() < 2 {
                    continue;
                }
                b.commit_txns[0] = b.commit_txns[1].clone();
                (true, "commit of one witness in place of another")
            }
            18 => (true, "roots"),
            _ => continue,
        };
        if ok.0 {
            return ok.1;
        }
    }
    "roots"
}

fn block(c: &mut Case) {
    let r = &mut c.rng;
    let (mut w, plan) = world(r);
    // Something to stake with
    for _ in 0..r.below(4) {
        let (o, v) = (r.idx(6), MIN_STAKE + r.below(MIN_STAKE));
        w.coins.add(r, o, v, 0, 77);
    }
    let mut b = fill(r, &w, &plan);
    // Sometimes the limits are just met, or missed
    if r.chance(1, 3) {
        let less = u32::from(r.bool());
        let x: u32 = b.value_transfer_txns.iter().map(|t| 133 * t.body.inputs.len() as u32 + 360 * t.body.outputs.len() as u32).sum();
        let mut y: u32 = b.data_request_txns.iter().map(request_weight).sum();
        if w.wips.active_wips.contains_key("WIP0008") {
            for h in w.pool.get_dr_output_pointers_by_epoch(w.epoch) {
                if !b.commit_txns.iter().any(|t| t.body.dr_pointer == h) {
                    y += request_weight(&DRTransaction::new(DRTransactionBody::new(vec![], w.pool.get_dr_output(&h).unwrap(), vec![]), vec![]));
                }
            }
        }
        if r.bool() && x > 0 {
            w.k.max_vt_weight = x - less;
        } else if !b.data_request_txns.is_empty() {
            w.k.max_dr_weight = y - less;
        }
    }
    let spoiled = r.bool();
    let mut what = "nothing";
    if spoiled {
        what = spoil(r, &w, &mut b);
        if what != "another mint" && what != "mint in three parts" && what != "mint of another epoch" && r.bool() {
            // A miner would count the fees of what is there; here it may or may not be right
            b.mint = MintTransaction::new(b.mint.epoch, b.mint.outputs.clone());
        }
    }
    let mut block = seal(&w, b);
    if what == "roots" {
        let m = &mut block.block_header.merkle_roots;
        let x = [
            &mut m.mint_hash,
            &mut m.vt_hash_merkle_root,
            &mut m.dr_hash_merkle_root,
            &mut m.commit_hash_merkle_root,
            &mut m.reveal_hash_merkle_root,
            &mut m.tally_hash_merkle_root,
            &mut m.stake_hash_merkle_root,
            &mut m.unstake_hash_merkle_root,
        ];
        let at = r.idx(8);
        *x.into_iter().nth(at).unwrap() = if r.bool() { Hash::default() } else { Hash::SHA256(r.arr()) };
        block = Block::new(block.block_header, block.block_sig, block.txns);
    }
    decide(c, &w, &block, what);
}
fn decide(c: &mut Case, w: &World, block: &Block, what: &str) {
    let b = &block.txns;
    let want = judge(w, block);
    let text = || format!("{:?} at {} block {}, limits {} and {}; broken: {what}; own verdict {:?}; {b:?}", w.version, w.epoch, w.number, w.k.max_vt_weight, w.k.max_dr_weight, want.as_ref().map(|_| ()).map_err(|e| e.clone()));
    let utxo_set = w.coins.pool();
    let mut pool = w.pool.clone();
    let mut sigs = vec![];
    let tracker = w.stakes.tracker();
    let got = c.nopanic("panic", text, || {
        validate_block_transactions(&utxo_set, &mut pool, block, w.vrf, &mut sigs, &w.rep, epochs(), w.number, &w.k, &w.k2, &w.wips, None, &tracker)
    });
    let Some(got) = got else { return };
    c.eval(1);
    let got = match got {
        Ok(d) => match c.nopanic("panic", text, || verify_signatures(sigs, &mut ctx())) {
            None => return,
            Some(v) => v.map(|_| d),
        },
        Err(e) => Err(e),
    };
    for (n, k) in [
        (b.data_request_txns.len(), "requests"),
        (b.commit_txns.len(), "commits"),
        (b.reveal_txns.len(), "reveals"),
        (b.tally_txns.len(), "tallies"),
        (b.stake_txns.len(), "stakes"),
        (b.unstake_txns.len(), "unstakes"),
    ] {
        if n > 0 && want.is_ok() {
            c.event(k);
        }
    }
    let many: Vec<Hash> = b.data_request_txns.iter().filter(|t| w.too_many(&t.body.dr_output)).map(|t| t.versioned_hash(w.version)).collect();
    // The pool is that of the node, which also judges other blocks for this epoch
    if pool != w.pool {
        c.check(false, "pool-changed", || format!("{pool:?}; {}", text()));
    }
    match (&want, got) {
        (Ok(v), Ok(diff)) => {
            c.event("block accepted");
            if v.chained {
                c.event("spends an output of the same block");
            }
            if !many.is_empty() {
                c.event("too many witnesses");
            }
            if v.margins.iter().any(|m| m.0 == m.1 && m.0 > 0) {
                c.event("weight just met");
            }
            let mut after = w.coins.pool();
            diff.apply(&mut after);
            let got: BTreeMap<OutputPointer, (ValueTransferOutput, u32)> = after.iter().collect();
            let differ: Vec<_> = v.coins.0.iter().filter(|(k, x)| got.get(*k) != Some(x)).map(|(k, x)| (*k, x.clone(), got.get(k).cloned())).collect();
            let extra: Vec<_> = got.keys().filter(|k| !v.coins.0.contains_key(*k)).collect();
            if v.coins.0.iter().any(|(k, x)| x.1 != w.number && !w.coins.0.contains_key(k)) {
                c.event("old output keeps its block");
            }
            let known = !differ.is_empty()
                && extra.is_empty()
                && differ.iter().all(|(k, x, g)| g.as_ref().is_some_and(|g| g.0 == x.0 && v.ages.contains(&(*k, g.1))));
            let sig = if known { "output-chained-within-a-block-looks-older" } else { "coins-after" };
            c.check(differ.is_empty() && extra.is_empty(), sig, || format!("differ (own, real): {differ:?}, extra: {extra:?}; {}", text()));
            let total: u128 = got.values().map(|x| u128::from(x.0.value)).sum();
            conserved(c, w, b, total, &text);
        }
        (Ok(_), Err(e)) => {
            c.check(false, "block-refused", || format!("{e}; {}", text()));
        }
        (Err(_), Ok(_)) => {
            c.check(false, "block-accepted", text);
        }
        (Err(e), Err(_)) => {
            c.event("block refused");
            if e.starts_with("weight ") || e.starts_with("request weight") {
                c.event("weight exceeded");
            }
            c.nontrivial(&format!("{what} {e} {:?}", roots(w, b)));
        }
    }
}
/// Coins and what requests lock: nothing more comes out than goes in.
fn conserved(c: &mut Case, w: &World, b: &BlockTransactions, after: u128, text: &impl Fn() -> String) {
    let of = |h: &Hash| w.pool.data_request_state(h).unwrap();
    let collateral = |o: &DataRequestOutput| i128::from(if o.collateral == 0 { w.k.collateral_minimum } else { o.collateral });
    let mut change: i128 = 0;
    for t in &b.stake_txns {
        change -= i128::from(t.body.output.value);
    }
    for t in &b.data_request_txns {
        change -= i128::from(locked(&t.body.dr_output).unwrap());
    }
    if w.v2() {
        // The fees of the requests in the pool and the rewards go to stakes, which is settled elsewhere
        let mut most = change;
        for t in &b.tally_txns {
            if let Some(s) = w.pool.data_request_state(&t.dr_pointer) {
                most += i128::from(locked(&s.data_request).unwrap());
            } else if let Some(t) = b.data_request_txns.iter().find(|d| d.versioned_hash(w.version) == t.dr_pointer) {
                most += i128::from(locked(&t.body.dr_output).unwrap());
            }
        }
        for t in &b.unstake_txns {
            most += i128::from(t.body.withdrawal.value);
        }
        c.check(after as i128 <= w.coins.total() as i128 + most, "value-created", text);
        c.event("value conserved");
        return;
    }
    change += i128::from(250 * WIT);
    for t in &b.commit_txns {
        let o = &of(&t.body.dr_pointer).data_request;
        change += i128::from(o.commit_and_reveal_fee) - collateral(o);
    }
    for t in &b.reveal_txns {
        change += i128::from(of(&t.body.dr_pointer).data_request.commit_and_reveal_fee);
    }
    for t in &b.tally_txns {
        let s = of(&t.dr_pointer);
        let o = &s.data_request;
        let (n, m) = (s.info.commits.len() as i128, s.info.reveals.len() as i128);
        let honest = n - t.out_of_consensus.len() as i128;
        let lost = if honest > 0 { t.out_of_consensus.iter().filter(|p| !t.error_committers.contains(p)).count() as i128 * collateral(o) } else { 0 };
        change += i128::from(locked(o).unwrap()) + n * collateral(o) - (n + m) * i128::from(o.commit_and_reveal_fee) - lost;
    }
    c.check(after as i128 == w.coins.total() as i128 + change, "value", || format!("{after} after {} and {change}; {}", w.coins.total(), text()));
    c.event("value conserved");
}

/// Around the limits of stakes and unstakes.
fn heavy(c: &mut Case) {
    let r = &mut c.rng;
    let (mut w, _) = world(r);
    w.epoch = V2_AT + 200_000;
    w.now = time(w.epoch);
    w.version = ProtocolVersion::V2_0;
    w.wips = wips(&[], w.epoch);
    w.pool = DataRequestPool::new(3);
    w.k = consensus();
    w.stakes = Staked::default();
    for i in 0..36 {
        w.stakes.0.insert((who(i).pkh, who(i).pkh), Entry { coins: 2 * MIN_STAKE, since: w.epoch - 10 });
    }
    let mut b = BlockTransactions::default();
    if r.bool() {
        for ((v, x), e) in w.stakes.0.iter().take(30 + r.below(5) as usize) {
            b.unstake_txns.push(unstake(r, v, x, e));
        }
    } else {
        // 133 for each input, 105 and 36 for the outputs: 149 inputs and no change just fit
        let n = *r.pick(&[146, 148, 149, 150]);
        w.coins = Coins::default();
        for _ in 0..n {
            w.coins.add(r, 0, 100 * WIT, 0, 5);
        }
        let mut all: Vec<Input> = w.coins.0.keys().map(|p| Input::new(*p)).collect();
        let second = if r.bool() { all.split_off(n - 10) } else { vec![] };
        let big = w.coins.add(r, 0, 2 * MIN_STAKE, 0, 5);
        let big2 = w.coins.add(r, 0, 2 * MIN_STAKE, 0, 5);
        all[0] = Input::new(big);
        for (v, mut inputs) in [(37, all), (38, second)] {
            if inputs.is_empty() {
                continue;
            }
            if v == 38 {
                inputs[0] = Input::new(big2);
            }
            let value = MIN_STAKE;
            let change = if r.bool() { Some(ValueTransferOutput { pkh: who(0).pkh, value: 5, time_lock: 0 }) } else { None };
            let output = StakeOutput { authorization: sign(v, Hash::SHA256([3; 32])), key: StakeKey { validator: who(v).pkh, withdrawer: who(1).pkh }, value };
            let mut t = StakeTransaction::new(StakeTransactionBody::new(inputs.clone(), output, change), vec![]);
            t.signatures = sign_inputs(&w.coins, &inputs, t.hash());
            b.stake_txns.push(t);
        }
    }
    b.mint = MintTransaction::new(w.epoch, vec![]);
    let block = seal(&w, b);
    decide(c, &w, &block, "heavy");
}

fn genesis(c: &mut Case) {
    let r = &mut c.rng;
    let (mut w, _) = world(r);
    w.epoch = 0;
    w.number = 0;
    w.version = ProtocolVersion::V1_7;
    w.now = time(0);
    w.pool = DataRequestPool::new(3);
    w.coins = Coins::default();
    w.wips = wips(&["WIP0008"], 0);
    let mut b = BlockTransactions::default();
    // All that the blocks will ever mint has to fit too
    let reserve: u128 = {
        let mut x = u128::from(w.k.initial_block_reward);
        let mut total = 0;
        while x > 0 {
            total += x * u128::from(w.k.halving_period);
            x /= 2;
        }
        total
    };
    let most = u128::from(u64::MAX) - reserve;
    let mut left = most;
    let mut what = "nothing";
    let n = r.range(1, 4);
    for i in 0..n {
        let mut outputs: Vec<ValueTransferOutput> = (0..r.range(1, 4)).map(|_| ValueTransferOutput { pkh: who(r.idx(9)).pkh, value: r.range(1, 1 << 55), time_lock: r.below(1 << 30) }).collect();
        let sum: u128 = outputs.iter().map(|o| u128::from(o.value)).sum();
        left -= sum;
        if i + 1 == n && r.bool() {
            let over = u64::from(r.bool());
            outputs.push(ValueTransferOutput { pkh: who(0).pkh, value: left as u64 + over, time_lock: 0 });
        }
        let mut inputs = vec![];
        let mut signatures = vec![];
        match r.below(12) {
            0 => {
                outputs.clear();
                what = "no outputs";
            }
            1 => {
                outputs[0].value = 0;
                what = "an output of nothing";
            }
            2 => {
                inputs.push(Input::new(OutputPointer::default()));
                what = "an input";
            }
            3 => {
                signatures = (0..r.range(1, 300)).map(|_| KeyedSignature::default()).collect();
                what = "signatures";
            }
            _ => {}
        }
        b.value_transfer_txns.push(VTTransaction::new(VTTransactionBody::new(inputs, outputs), signatures));
    }
    b.mint = MintTransaction::new(0, vec![]);
    let block = seal(&w, b);
    w.k.genesis_hash = block.hash();
    let b = &block.txns;
    let sum: u128 = b.value_transfer_txns.iter().flat_map(|t| &t.body.outputs).map(|o| u128::from(o.value)).sum();
    let want = what == "nothing" && sum <= most;
    let text = || format!("{what}, {sum} of {most}: {b:?}");
    let utxo_set = w.coins.pool();
    let mut pool = w.pool.clone();
    let mut sigs = vec![];
    let tracker = w.stakes.tracker();
    let got = c.nopanic("panic", text, || validate_block_transactions(&utxo_set, &mut pool, &block, w.vrf, &mut sigs, &w.rep, epochs(), 0, &w.k, &w.k2, &w.wips, None, &tracker));
    let Some(got) = got else { return };
    c.eval(1);
    c.event("genesis");
    match got {
        Err(e) => {
            c.check(!want, "genesis-refused", || format!("{e}; {}", text()));
            c.nontrivial(&text());
        }
        Ok(d) => {
            if c.check(want, "genesis-accepted", text) {
                let mut after = w.coins.pool();
                d.apply(&mut after);
                let got: BTreeMap<OutputPointer, (ValueTransferOutput, u32)> = after.iter().collect();
                let want: BTreeMap<_, _> = b
                    .value_transfer_txns
                    .iter()
                    .flat_map(|t| t.body.outputs.iter().enumerate().map(|(i, o)| (OutputPointer { transaction_id: t.hash(), output_index: i as u32 }, (o.clone(), 0))))
                    .collect();
                c.check(got == want, "genesis-coins", text);
            }
        }
    }
}
