//! C36: commits and reveals: which ones are let into a block.
use crate::sigs::{claim_bytes, ctx};
use crate::tx::spoil_signatures;
use crate::world::*;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::UtxoDiff;
use witnet_data_structures::vrf::*;
use witnet_validations::eligibility::current::{Eligibility, Eligible};
use witnet_validations::eligibility::legacy::calculate_reppoe_threshold;
use witnet_validations::validations::*;

pub fn admitted(m: &mut Mon) {
    m.rule("Commits and reveals for requests in every stage, round and protocol version, valid ones and ones broken in up to three ways, are judged by the real validation with all the signatures and proofs it asks to verify, and by rules written out over plain maps (the share of collateral, age, owner, locks, stake, previous balance, proof, signature, commitment); non-trivial: a distinct broken one.");
    for k in ["commit accepted", "commit accepted since 2.0", "reveal accepted"] {
        m.require(k, 500);
    }
    for k in ["commit refused", "reveal refused"] {
        m.require(k, 1000);
    }
    for k in ["collateral from this block", "collateral of the age limit", "collateral one block too young", "committer without balance", "committer with just the balance", "stake just enough", "stake one short", "proof above the target", "extra commit round"] {
        m.require(k, 20);
    }
    versions();
    m.run_par("commits", m.n(40_000, 600_000), commit);
    m.run_par("reveals", m.n(20_000, 300_000), reveal);
}

struct Request {
    hash: Hash,
    output: DataRequestOutput,
    since: u32,
    round: u16,
}
/// A request in the pool, in its first or in a later commit round.
fn request(r: &mut Rng, pool: &mut DataRequestPool, since: u32, now: i64) -> Request {
    let mut output = DataRequestOutput {
        witnesses: match r.below(4) {
            0 => 1,
            1 => r.range(2, 126),
            _ => r.range(2, 12),
        } as u16,
        witness_reward: r.below(100 * WIT),
        commit_and_reveal_fee: r.below(WIT),
        min_consensus_percentage: 51,
        collateral: match r.below(5) {
            0 | 1 => 0,
            2 => r.range(1, 20) * WIT,
            3 if since >= V2_AT && r.bool() => u64::MAX - r.below(2) * r.below(2 * MIN_STAKE),
            3 => WIT,
            _ => r.range(WIT, 500 * WIT),
        },
        ..DataRequestOutput::default()
    };
    output.data_request.time_lock = match r.below(6) {
        0 => now as u64,
        1 => now as u64 + 1,
        2 => r.edgy_u64(),
        _ => 0,
    };
    let i = r.idx(20);
    let body = DRTransactionBody::new(vec![Input::new(OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 0 })], output.clone(), vec![]);
    let mut t = DRTransaction::new(body, vec![]);
    let hash = t.versioned_hash(version(since));
    t.signatures = vec![sign(i, hash)];
    pool.process_data_request(&t, since, Some(Hash::SHA256(r.arr()))).unwrap();
    let mut round = 0;
    for _ in 0..r.below(5) {
        if round <= 3 {
            pool.update_data_request_stages(Some(1000), Some(since));
            round += 1;
        }
    }
    Request { hash, output, since, round }
}
struct Setting {
    epoch: u32,
    since: u32,
    v2: bool,
    wips: ActiveWips,
    lock_rule: bool,
    number: u32,
    age: u32,
    period: u16,
}
fn setting(r: &mut Rng) -> Setting {
    let epoch = match r.below(6) {
        0 => V1_8_AT - 1 + r.below(3) as u32,
        1 => 2_245_000 + r.below(3) as u32,
        2 => 2_245_001 + r.below(500_000) as u32,
        3 => V2_AT + r.below(2) as u32,
        _ => V2_AT + 100_000 + r.below(10_000) as u32,
    };
    let since = epoch - r.range(1, 6).min(u64::from(epoch)) as u32;
    let lock_rule = r.chance(1, 3);
    let off: &[&str] = if lock_rule { &["WIP0008"] } else { &[] };
    let mut off = off.to_vec();
    if r.chance(1, 4) {
        off.push("WIP0014-0016");
    }
    Setting {
        epoch,
        since,
        v2: since >= V2_AT,
        wips: wips(&off, epoch),
        lock_rule,
        number: r.range(200, 5000) as u32,
        age: *r.pick(&[0, 1, 40, 1000, 9999]),
        period: *r.pick(&[1, 10, 10, 60]),
    }
}

fn commit(c: &mut Case) {
    let s = setting(&mut c.rng);
    let mut vrf = ctx();
    let now = time(s.epoch);
    let r = &mut c.rng;
    let mut pool = DataRequestPool::new(3);
    let q = request(r, &mut pool, s.since, now);
    let minimum = *r.pick(&[WIT, WIT, 5 * WIT, 1]);
    let required = if q.output.collateral == 0 { minimum } else { q.output.collateral };
    let me = r.idx(20);
    let other = 20 + r.idx(5);

    // The stakes
    let mut ev: Vec<&str> = vec![];
    let mut stakes = Staked::default();
    for i in 0..r.below(12) as usize {
        let coins = MIN_STAKE + r.below(100) * MIN_STAKE;
        let since = s.epoch - r.below(100) as u32 - 1;
        stakes.0.insert((who(i + 25).pkh, who(if r.bool() { i + 25 } else { 1 }).pkh), Entry { coins, since });
    }
    if r.chance(5, 6) {
        let coins = match r.below(6) {
            0 => {
                ev.push("stake just enough");
                MIN_STAKE.saturating_add(required)
            }
            1 => {
                ev.push("stake one short");
                MIN_STAKE.saturating_add(required - 1)
            }
            2 => MIN_STAKE,
            _ => MIN_STAKE.saturating_add(required).saturating_add(r.below(200) * MIN_STAKE),
        };
        let w = if r.bool() { me } else { r.idx(40) };
        stakes.0.insert((who(me).pkh, who(w).pkh), Entry { coins, since: s.epoch - r.below(300) as u32 });
    }
    for e in stakes.0.values_mut() {
        e.coins = e.coins.min(MAX_STAKE);
    }
    let tracker = stakes.tracker();
    // What a huge collateral would take is nobody's
    let share = required.min(1000 * WIT);

    // The coins: some of mine are mature, some belong to others, are locked or young
    let limit = s.number.saturating_sub(s.age);
    let mut coins = Coins::default();
    let settled = s.number.saturating_sub(2 * u32::from(s.period));
    let mut mine = vec![];
    for _ in 0..r.range(1, 5) {
        let block = match r.below(6) {
            0 => limit,
            1 => r.below(u64::from(settled) + 1) as u32,
            _ => r.below(u64::from(limit) + 1) as u32,
        };
        let value = match r.below(3) {
            0 => share,
            1 => r.range(1, share),
            _ => r.range(1, 200 * WIT),
        };
        let lock = if r.chance(1, 8) { now as u64 } else { 0 };
        mine.push(coins.add(r, me, value, lock, block));
    }
    let poor = r.chance(1, 6);
    if !poor {
        let owned: u64 = coins.0.values().filter(|(_, b)| *b < settled).map(|x| x.0.value).sum();
        let just = r.chance(1, 4);
        let more = (100 * WIT).saturating_sub(owned);
        if just && more > 1 {
            let short = r.bool();
            coins.add(r, me, more - u64::from(short), 0, settled - 1);
        } else {
            let (v, b) = (more + r.below(WIT), r.below(u64::from(settled)) as u32);
            coins.add(r, me, v, 0, b);
        }
    }
    for _ in 0..r.below(3) {
        coins.add(r, other, r.clone().range(1, 300 * WIT), 0, r.clone().below(u64::from(limit) + 1) as u32);
    }
    // Earlier transactions of the same block
    let mut fresh = vec![];
    let mut gone = vec![];
    if r.chance(1, 4) {
        let p = OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 0 };
        let o = ValueTransferOutput { pkh: who(me).pkh, value: r.range(share, 2 * share), time_lock: 0 };
        fresh.push((p, o));
    }
    if r.chance(1, 5) {
        let p = *r.pick(&mine);
        gone.push(p);
    }

    // The commit
    let mut ways = vec![];
    let mut inputs: Vec<Input> = vec![];
    let mut outputs: Vec<ValueTransferOutput> = vec![];
    if !s.v2 || r.chance(1, 3) {
        let mut chosen = mine.clone();
        chosen.retain(|p| !gone.contains(p) || r.clone().chance(1, 3));
        r.shuffle(&mut chosen);
        let mut sum = 0u64;
        for p in chosen {
            if sum >= share {
                break;
            }
            sum += coins.0[&p].0.value;
            inputs.push(Input::new(p));
        }
        if sum < share {
            // Not enough: take another one, mature and mine
            let p = OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 0 };
            let o = ValueTransferOutput { pkh: who(me).pkh, value: share - sum + r.below(2) * r.below(WIT), time_lock: 0 };
            sum += o.value;
            // Straight into the pool below
            coins.0.insert(p, (o, limit.min(r.below(u64::from(limit) + 1) as u32)));
            inputs.push(Input::new(p));
        }
        let target = if s.v2 && r.bool() { 0 } else { share };
        if sum > target {
            outputs.push(ValueTransferOutput { pkh: who(me).pkh, value: sum - target, time_lock: r.below(2) * r.below(1 << 33) });
        }
    }
    let mut request_hash = q.hash;
    let mut proof_for = q.hash;
    let mut prover = me;
    let mut vrf_input = CheckpointVRF { checkpoint: s.epoch, hash_prev_vrf: Hash::SHA256(r.arr()) };
    let mut message_since = s.v2;
    let mut withdrawer = stakes.of(&who(me).pkh).map(|x| x.0);
    let n = match r.below(5) {
        0 | 1 => 0,
        2 | 3 => 1,
        _ => r.range(2, 3),
    };
    let mut stage = DataRequestStage::COMMIT;
    for _ in 0..n {
        ways.push(match r.below(17) {
            0 => {
                request_hash = Hash::SHA256(r.arr());
                "unknown request"
            }
            1 => {
                stage = *r.pick(&[DataRequestStage::REVEAL, DataRequestStage::TALLY]);
                "request in another stage"
            }
            2 => {
                outputs.push(ValueTransferOutput { pkh: who(me).pkh, value: r.range(1, 3), time_lock: 0 });
                "another output"
            }
            3 => {
                if let Some(o) = outputs.first_mut() {
                    o.value = *r.pick(&[0, o.value.wrapping_add(1), o.value.wrapping_sub(1), u64::MAX, o.value.wrapping_add(required)]);
                } else {
                    outputs.push(ValueTransferOutput { pkh: who(me).pkh, value: r.below(2), time_lock: 0 });
                }
                "output of another value"
            }
            4 => {
                if let Some(o) = outputs.first_mut() {
                    o.pkh = who(other).pkh;
                }
                "output to somebody else"
            }
            5 => {
                if let Some((p, o)) = fresh.first() {
                    inputs = vec![Input::new(*p)];
                    outputs = if o.value > share { vec![ValueTransferOutput { pkh: who(me).pkh, value: o.value - share, time_lock: 0 }] } else { vec![] };
                }
                "collateral from this block"
            }
            6 => {
                let at = coins.0.keys().find(|p| coins.0[*p].0.pkh == who(other).pkh).copied();
                if let Some(p) = at {
                    let v = coins.0[&p].0.value;
                    inputs = vec![Input::new(p)];
                    outputs = if v > share { vec![ValueTransferOutput { pkh: who(me).pkh, value: v - share, time_lock: 0 }] } else { vec![] };
                }
                "somebody else's collateral"
            }
            7 => {
                if !inputs.is_empty() {
                    let x = *r.pick(&inputs);
                    let v = coins.0.get(x.output_pointer()).map_or(0, |x| x.0.value);
                    inputs.push(x);
                    if let Some(o) = outputs.first_mut() {
                        o.value = o.value.saturating_add(v);
                    } else if v > 0 {
                        outputs.push(ValueTransferOutput { pkh: who(me).pkh, value: v, time_lock: 0 });
                    }
                }
                "collateral twice"
            }
            8 => {
                for i in &inputs {
                    if let Some((o, _)) = coins.0.get_mut(i.output_pointer()) {
                        o.time_lock = *r.pick(&[now as u64 + 1, now as u64, u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1 + now as u64]);
                    }
                }
                "locked collateral"
            }
            9 => {
                for i in &inputs {
                    if let Some((_, b)) = coins.0.get_mut(i.output_pointer()) {
                        *b = (limit + r.below(2) as u32).min(s.number);
                    }
                }
                "collateral around the age limit"
            }
            10 => {
                prover = other;
                "somebody else's proof"
            }
            11 => {
                proof_for = Hash::SHA256(r.arr());
                "proof for another request"
            }
            12 => {
                message_since = !message_since;
                "proof of the other version"
            }
            13 => {
                withdrawer = Some(who(other).pkh);
                "proof for another withdrawer"
            }
            14 => {
                inputs.clear();
                outputs.clear();
                "no collateral"
            }
            15 => {
                if !inputs.is_empty() {
                    let at = r.idx(inputs.len());
                    inputs[at] = Input::new(OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 1 });
                }
                "unknown collateral"
            }
            _ => "signature",
        });
    }
    let utxo_set = coins.pool();
    let mut diff = UtxoDiff::new(&utxo_set, s.number);
    for (p, o) in &fresh {
        diff.insert_utxo(*p, o.clone(), None);
    }
    for p in &gone {
        diff.remove_utxo(*p);
    }
    if stage != DataRequestStage::COMMIT {
        pool.data_request_state_mutable(&q.hash).unwrap().set_stage(stage);
    }
    let m = claim_bytes(&vrf_input, &proof_for, if message_since { withdrawer.as_ref() } else { None });
    let (proof, vrf_hash) = VrfProof::create(&mut vrf, &who(prover).vsk, &VrfMessage::set_data(m)).unwrap();
    // The signer is the one who owns the collateral unless the proof is also somebody else's
    let mut t = CommitTransaction::new(
        CommitTransactionBody::new(request_hash, Hash::SHA256(r.arr()), DataRequestEligibilityClaim { proof }, inputs.clone(), outputs.clone(), None),
        vec![],
    );
    let h = t.hash();
    t.signatures = vec![sign(me, h)];
    if ways.contains(&"signature") {
        let w = spoil_signatures(r, &mut t.signatures, h);
        *ways.iter_mut().find(|x| **x == "signature").unwrap() = w;
    }
    if r.chance(1, 12) {
        // Another checkpoint than the one proven
        vrf_input.checkpoint += 1;
        ways.push("proof for another epoch");
    }
    // With a thousand witnesses or low difficulty everybody is in; the others are often above the target
    let difficulty = *r.pick(&[1, 1, 4, 30]);
    let rep = ReputationEngine::new(100);

    // The verdict
    let owner = who(prover).pkh;
    let mut no: Vec<&str> = vec![];
    let mut rule = |ok: bool, why: &'static str| {
        if !ok {
            no.push(why);
        }
    };
    rule(request_hash == q.hash && stage == DataRequestStage::COMMIT, "request");
    rule(t.signatures.len() == 1 && t.signatures[0].public_key.pkh() == owner && signed_ok(&t.signatures[0], h), "signature");
    rule(outputs.len() <= 1 && outputs.iter().all(|o| o.value > 0 && o.pkh == owner), "outputs");
    let mut sum: u128 = 0;
    for (i, x) in inputs.iter().enumerate() {
        let p = x.output_pointer();
        let found = fresh.iter().find(|f| f.0 == *p).map(|f| (f.1.clone(), s.number)).or(coins.0.get(p).cloned()).filter(|_| !gone.contains(p));
        let Some((o, b)) = found else {
            rule(false, "unknown");
            continue;
        };
        sum += u128::from(o.value);
        rule(o.pkh == owner, "owner");
        rule(!inputs[..i].contains(x), "twice");
        rule(i128::from(o.time_lock) <= i128::from(now), "locked");
        rule(u64::from(b) + u64::from(s.age) <= u64::from(s.number) || b == 0, "age");
        if fresh.iter().any(|f| f.0 == *p) {
            ev.push("collateral from this block");
        }
        if s.age > 0 && b == limit {
            ev.push("collateral of the age limit");
        }
        if s.age > 0 && b == limit + 1 {
            ev.push("collateral one block too young");
        }
        if !s.v2 && s.epoch > 2_245_000 {
            let balance: u128 = coins.0.iter().filter(|(k, v)| v.0.pkh == o.pkh && v.1 < settled && !gone.contains(k)).map(|x| u128::from(x.1 .0.value)).sum();
            rule(balance >= 100 * u128::from(WIT), "balance");
            ev.push(match balance {
                100_000_000_000 => "committer with just the balance",
                x if x < 100_000_000_000 => "committer without balance",
                _ => "committer with balance",
            });
        }
    }
    let out: u128 = outputs.iter().map(|o| u128::from(o.value)).sum();
    let put = i128::try_from(sum).unwrap() - i128::try_from(out).unwrap();
    rule(put == i128::from(required) || (s.v2 && put == 0), "collateral");
    if s.lock_rule {
        rule(i128::from(q.output.data_request.time_lock) <= i128::from(now), "request locked");
    }
    let staked = stakes.of(&owner);
    let target = if s.v2 {
        rule(staked.is_some_and(|e| u128::from(e.1.coins) >= u128::from(MIN_STAKE) + u128::from(required)), "stake");
        let e = tracker.witnessing_eligibility(owner, s.epoch, q.output.witnesses, q.round, 4).unwrap();
        rule(e.0 == Eligible::Yes, "eligible");
        e.1
    } else {
        let witnesses = u32::from(q.output.witnesses);
        // Half of the witnesses stand by, and twice as many each extra round
        let spare = if q.round == 0 { witnesses / 2 } else { (witnesses << (q.round - 1)) / 2 };
        calculate_reppoe_threshold(&rep, &owner, (witnesses + spare) as u16, difficulty, &s.wips).0
    };
    let first = staked.map(|x| x.0);
    let right = proof_for == request_hash && vrf_input.checkpoint == s.epoch && if s.v2 { message_since && withdrawer == first } else { !message_since || withdrawer.is_none() };
    rule(right, "proof");
    rule(vrf_hash <= target, "target");
    for e in ev {
        c.event(e);
    }
    if vrf_hash > target {
        c.event("proof above the target");
    }
    if q.round > 1 {
        c.event("extra commit round");
    }

    let text = || format!("epoch {} since {}, {:?}, round {}, needs {required}, block {} age {}, period {}, {ways:?}; broken rules {no:?}; {} in {} out; {t:?}", s.epoch, s.since, stage, q.round, s.number, s.age, s.period, sum, out);
    let mut sigs = vec![];
    let got = c.nopanic("panic", text, || {
        validate_commit_transaction(
            &t, &pool, vrf_input, &mut sigs, &rep, s.epoch, epochs(), &diff, minimum, s.age, s.number, difficulty, &s.wips, s.period, version(s.since), &tracker, 4, MIN_STAKE,
        )
    });
    let Some(got) = got else { return };
    c.eval(1);
    let got = match got {
        Ok(x) => c.nopanic("panic", text, || verify_signatures(sigs, &mut vrf)).and_then(|v| v.map(|_| x).map_err(|e| format!("{e}")).into()),
        Err(e) => Some(Err(format!("{e}"))),
    };
    let Some(got) = got else { return };
    match &got {
        Ok(x) => {
            if c.check(no.is_empty(), "commit-accepted", text) {
                c.check(*x == (q.hash, q.output.witnesses, q.output.commit_and_reveal_fee), "commit-result", || format!("{x:?}; {}", text()));
            }
        }
        Err(e) => {
            c.check(!no.is_empty(), "commit-refused", || format!("{e}; {}", text()));
        }
    }
    if no.is_empty() {
        c.event("commit accepted");
        if s.v2 {
            c.event("commit accepted since 2.0");
        }
    } else {
        c.event("commit refused");
        c.nontrivial(&format!("{no:?} {ways:?} {h}"));
    }
}

fn reveal(c: &mut Case) {
    let s = setting(&mut c.rng);
    let mut vrf = ctx();
    let r = &mut c.rng;
    let mut pool = DataRequestPool::new(3);
    let q = request(r, &mut pool, s.since, time(s.epoch));
    // Who commits to what
    let mut order: Vec<usize> = (0..12).collect();
    r.shuffle(&mut order);
    let committers = order[..r.range(1, 5) as usize].to_vec();
    let mut promised: Vec<(usize, RevealTransaction)> = vec![];
    for i in &committers {
        // Some promise a reveal that names somebody else
        let named = if r.chance(1, 6) { r.idx(14) } else { *i };
        let mut t = RevealTransaction::new(RevealTransactionBody::new(q.hash, { let n = r.below(12) as usize; r.bytes(n) }, who(named).pkh), vec![]);
        let h = t.hash();
        t.signatures = vec![sign(*i, h)];
        let Signature::Secp256k1(x) = &t.signatures[0].signature;
        let commitment = Hash::SHA256(vref::hash::sha256(&x.der));
        let proof = DataRequestEligibilityClaim { proof: VrfProof::default() };
        let mut b = serde_json::to_value(&proof).unwrap();
        b["proof"]["public_key"] = serde_json::to_value(&who(*i).pk).unwrap();
        let proof: DataRequestEligibilityClaim = serde_json::from_value(b).unwrap();
        let commit = CommitTransaction::new(CommitTransactionBody::new(q.hash, commitment, proof, vec![], vec![], None), vec![sign(*i, h)]);
        pool.process_commit(&commit, s.epoch, &Hash::default()).unwrap();
        promised.push((*i, t));
    }
    let stage = *r.pick(&[DataRequestStage::REVEAL, DataRequestStage::REVEAL, DataRequestStage::REVEAL, DataRequestStage::REVEAL, DataRequestStage::COMMIT, DataRequestStage::TALLY]);
    pool.update_data_request_stages(Some(1000), Some(s.epoch));
    let mut revealed = vec![];
    for (i, t) in &promised {
        if t.body.pkh == who(*i).pkh && r.chance(1, 3) {
            pool.process_reveal(t, s.epoch, &Hash::default()).unwrap();
            revealed.push(*i);
        }
    }
    pool.data_request_state_mutable(&q.hash).unwrap().set_stage(stage);
    for _ in 0..3 {
        let r = &mut c.rng;
        let (i, mut t) = r.pick(&promised).clone();
        let mut ways = vec![];
        let mut signer = i;
        let mut keep = true;
        if t.body.pkh != who(i).pkh {
            ways.push("promised in another name");
        }
        match r.below(10) {
            0 => {
                t.body.dr_pointer = Hash::SHA256(r.arr());
                keep = r.bool();
                ways.push("another request");
            }
            1 => {
                t.body.reveal.push(1);
                keep = r.bool();
                ways.push("another value");
            }
            2 => {
                t.body.pkh = who(r.idx(14)).pkh;
                keep = r.bool();
                ways.push("in another name");
            }
            3 => {
                signer = r.idx(14);
                t.body.pkh = who(signer).pkh;
                keep = false;
                ways.push("somebody else's reveal");
            }
            4 => {
                signer = r.idx(14);
                keep = false;
                ways.push("signed by somebody else");
            }
            _ => {}
        }
        // The memoized hash does not follow the fields
        t = RevealTransaction::new(RevealTransactionBody::new(t.body.dr_pointer, t.body.reveal.clone(), t.body.pkh), t.signatures);
        let h = t.hash();
        if !keep {
            t.signatures = vec![sign(signer, h)];
        }
        if r.chance(1, 5) {
            ways.push(spoil_signatures(r, &mut t.signatures, h));
        }
        let mut no = vec![];
        let mut rule = |ok: bool, why: &'static str| {
            if !ok {
                no.push(why);
            }
        };
        rule(t.body.dr_pointer == q.hash && stage == DataRequestStage::REVEAL, "request");
        rule(t.signatures.len() == 1 && t.signatures[0].public_key.pkh() == t.body.pkh && signed_ok(&t.signatures[0], h), "signature");
        let by = index_of(&t.body.pkh);
        rule(by.is_some_and(|i| committers.contains(&i)), "commit");
        rule(!by.is_some_and(|i| revealed.contains(&i)), "again");
        // Signatures are deterministic here: what was promised is this very signature
        let promise = by.and_then(|i| promised.iter().find(|p| p.0 == i)).map(|p| p.1.signatures[0].signature.clone());
        rule(promise.is_some() && promise.as_ref() == t.signatures.first().map(|s| &s.signature), "promise");
        let text = || format!("{stage:?}, committers {committers:?}, revealed {revealed:?}, {ways:?}, broken rules {no:?}, {t:?}");
        let mut sigs = vec![];
        let Some(got) = c.nopanic("panic", text, || validate_reveal_transaction(&t, &pool, &mut sigs)) else { return };
        c.eval(1);
        let got = match got {
            Ok(fee) => match c.nopanic("panic", text, || verify_signatures(sigs, &mut vrf)) {
                None => return,
                Some(v) => v.map(|_| fee).map_err(|e| format!("{e}")),
            },
            Err(e) => Err(format!("{e}")),
        };
        match &got {
            Ok(fee) => {
                if c.check(no.is_empty(), "reveal-accepted", text) {
                    c.check(*fee == q.output.commit_and_reveal_fee, "reveal-fee", || format!("{fee}; {}", text()));
                }
            }
            Err(e) => {
                c.check(!no.is_empty(), "reveal-refused", || format!("{e}; {}", text()));
            }
        }
        if no.is_empty() {
            c.event("reveal accepted");
        } else {
            c.event("reveal refused");
            c.nontrivial(&format!("{no:?} {ways:?} {h}"));
        }
    }
}

/// Whether the validation and all the proofs it asks for pass.
#[allow(clippy::too_many_arguments)]
pub fn checked(
    t: &CommitTransaction, pool: &DataRequestPool, vrf_input: CheckpointVRF, rep: &ReputationEngine, epoch: u32, diff: &UtxoDiff<'_>, minimum: u64, age: u32, number: u32, difficulty: u32, w: &ActiveWips,
    period: u16, v: ProtocolVersion, tracker: &StakesTracker, vrf: &mut VrfCtx,
) -> bool {
    let mut sigs = vec![];
    validate_commit_transaction(t, pool, vrf_input, &mut sigs, rep, epoch, epochs(), diff, minimum, age, number, difficulty, w, period, v, tracker, 4, MIN_STAKE).is_ok() && verify_signatures(sigs, vrf).is_ok()
}
