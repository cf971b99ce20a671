//! C30: single transactions: what is accepted, and at which fee, against rules written out anew.
use crate::world::*;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::utxo_pool::UtxoDiff;
use witnet_data_structures::vrf::VrfCtx;
use witnet_validations::validations::*;

pub fn accepted(m: &mut Mon) {
    m.rule("Value transfers, data requests, stakes and unstakes, valid ones and ones broken in up to three ways, are judged by the real validation (alone, and as a newly received transaction) with all the signatures it asks to verify, and by rules written out over plain maps: same verdict, same fee; non-trivial: a distinct broken transaction.");
    for k in ["transfer accepted", "request accepted", "stake accepted", "unstake accepted"] {
        m.require(k, 200);
    }
    for k in ["transfer refused", "request refused", "stake refused", "unstake refused"] {
        m.require(k, 500);
    }
    versions();
    m.run_par("transfers", m.n(40_000, 600_000), transfer);
    m.run_par("requests", m.n(30_000, 500_000), request);
    m.run_par("stakes", m.n(30_000, 500_000), stake);
    m.run_par("unstakes", m.n(25_000, 400_000), unstake);
}

pub fn coins(r: &mut Rng, now: i64, people: usize) -> Coins {
    let mut c = Coins::default();
    for _ in 0..r.range(4, 12) {
        let lock = match r.below(14) {
            0 => now as u64,
            1 => now as u64 + 1,
            2 => now as u64 + r.below(100_000),
            3 => now as u64 - 1,
            4 => *r.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 + 2 + now as u64]),
            5 => r.below(now as u64),
            _ => 0,
        };
        let value = match r.below(8) {
            0 => r.range(1, 5),
            1 => r.below(1 << 62),
            2 => r.range(1, 20_000) * WIT,
            _ => r.below(20_000 * WIT) + 1,
        };
        let owner = r.idx(people);
        c.add(r, owner, value, lock, r.clone().below(1000) as u32);
    }
    c
}
/// Unlocked ones, at most `max`.
fn choose(r: &mut Rng, c: &Coins, now: i64, max: u64) -> Vec<Input> {
    let mut free: Vec<_> = c.0.iter().filter(|(_, (v, _))| i128::from(v.time_lock) <= i128::from(now)).map(|(k, _)| *k).collect();
    r.shuffle(&mut free);
    free.truncate(r.range(1, max) as usize);
    free.into_iter().map(Input::new).collect()
}
fn worth(c: &Coins, inputs: &[Input]) -> u64 {
    inputs.iter().map(|i| c.0[i.output_pointer()].0.value).fold(0u64, |a, b| a.saturating_add(b))
}
pub fn sign_inputs(c: &Coins, inputs: &[Input], h: Hash) -> Vec<KeyedSignature> {
    inputs.iter().map(|i| sign(c.0.get(i.output_pointer()).and_then(|v| index_of(&v.0.pkh)).unwrap_or(0), h)).collect()
}
/// Break the inputs before signing.
fn spoil_inputs(r: &mut Rng, c: &Coins, inputs: &mut Vec<Input>, now: i64) -> &'static str {
    match r.below(4) {
        0 => {
            let x = *r.pick(inputs);
            inputs.push(x);
            "an input twice"
        }
        1 => {
            let mut p = *inputs[0].output_pointer();
            if r.bool() {
                p.output_index ^= 1;
            } else {
                p.transaction_id = Hash::SHA256(r.arr());
            }
            let at = r.idx(inputs.len());
            inputs[at] = Input::new(p);
            "an unknown input"
        }
        2 => {
            let locked: Vec<_> = c.0.iter().filter(|(_, (v, _))| i128::from(v.time_lock) > i128::from(now)).map(|(k, _)| *k).collect();
            if let Some(k) = locked.first() {
                let at = r.idx(inputs.len());
                inputs[at] = Input::new(*k);
            }
            "a locked input"
        }
        _ => {
            inputs.clear();
            "no inputs"
        }
    }
}
/// Break the signatures.
pub fn spoil_signatures(r: &mut Rng, s: &mut Vec<KeyedSignature>, h: Hash) -> &'static str {
    if s.is_empty() {
        s.push(sign(0, h));
        return "a signature for nothing";
    }
    let at = r.idx(s.len());
    match r.below(9) {
        0 => {
            s.remove(at);
            "a signature less"
        }
        1 => {
            let x = s[at].clone();
            s.push(x);
            "a signature more"
        }
        2 => {
            let Hash::SHA256(mut b) = h;
            b[r.idx(32)] ^= 1 << r.below(8);
            let i = index_of(&s[at].public_key.pkh()).unwrap_or(0);
            s[at] = sign(i, Hash::SHA256(b));
            "signed something else"
        }
        3 => {
            s[at] = sign(20 + r.idx(5), h);
            "somebody else's signature"
        }
        4 => {
            let x = sign(20 + r.idx(5), h);
            s[at].signature = x.signature;
            "owner's key, somebody else's signature"
        }
        5 => {
            let Signature::Secp256k1(x) = &mut s[at].signature;
            let n = x.der.len();
            if n > 0 {
                x.der[r.idx(n)] ^= 1 << r.below(8);
            }
            "a bit of the signature flipped"
        }
        6 => {
            s[at].public_key = PublicKey::from_bytes({
                let mut b = s[at].public_key.to_bytes();
                b[r.idx(33)] ^= 1 << r.below(8);
                b
            });
            "a bit of the key flipped"
        }
        7 => {
            s[at] = KeyedSignature::default();
            "an empty signature"
        }
        _ => {
            let to = r.idx(s.len());
            s.swap(at, to);
            "signatures in another order"
        }
    }
}
fn verify(s: Vec<SignaturesToVerify>) -> bool {
    verify_signatures(s, &mut VrfCtx::secp256k1().unwrap()).is_ok()
}
fn pick_epoch(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => V1_8_AT - 1,
        1 => V1_8_AT,
        2 => V2_AT - 1,
        3 => V2_AT,
        4 => r.range(10, 900) as u32,
        5 => r.range(1_100, 100_000) as u32,
        _ => V2_AT + r.range(1, 1_000_000) as u32,
    }
}
const WIT2: ConsensusConstantsWit2 = ConsensusConstantsWit2 { checkpoint_zero_timestamp: T0, checkpoints_period: 45 };
/// The same transaction, as one received from the network.
#[allow(clippy::too_many_arguments)]
fn received(t: Transaction, c: &Coins, stakes: &StakesTracker, epoch: u32, w: &ActiveWips, vt: u32, dr: u32, min_collateral: u64) -> Option<u64> {
    let mut s = vec![];
    let pool = c.pool();
    let rep = ReputationEngine::new(1000);
    let r = validate_new_transaction(
        &t,
        (&rep, &pool, &DataRequestPool::new(3)),
        CheckpointVRF::default(),
        epoch,
        epochs(),
        2000,
        &mut s,
        min_collateral,
        1000,
        vt,
        dr,
        2,
        125,
        w,
        10,
        stakes,
        version(epoch),
        4,
        &WIT2,
    );
    match r {
        Ok(fee) if verify(s) => Some(fee),
        _ => None,
    }
}
fn verdict(c: &mut Case, kind: &str, got: Option<u64>, want: Option<u64>, broken: &[&str], text: impl Fn() -> String) {
    c.eval(1);
    c.event(&format!("{kind} {}", if want.is_some() { "accepted" } else { "refused" }));
    for b in broken {
        c.event(b);
    }
    match (got, want) {
        (Some(g), Some(w)) => c.check(g == w, &format!("{kind}-fee"), || format!("fee {g}, expected {w}; {}", text())),
        (Some(g), None) => c.check(false, &format!("{kind}-accepted"), || format!("accepted at a fee of {g}: {broken:?}; {}", text())),
        (None, Some(w)) => c.check(false, &format!("{kind}-refused"), || format!("refused a valid one with fee {w} ({broken:?}); {}", text())),
        _ => true,
    };
    if !broken.is_empty() {
        c.nontrivial(&text());
    }
}

fn transfer(c: &mut Case) {
    let epoch = pick_epoch(&mut c.rng);
    let now = time(epoch);
    let r = &mut c.rng;
    let led = coins(r, now, 5);
    let mut inputs = choose(r, &led, now, 4);
    if inputs.is_empty() {
        return;
    }
    let mut broken = vec![];
    let have = worth(&led, &inputs);
    let spend = match r.below(4) {
        0 => have,
        1 => have.saturating_sub(1),
        _ => r.below(have) + 1,
    };
    let n = r.range(1, 4) as usize;
    let mut outputs: Vec<ValueTransferOutput> = split(r, spend, n)
        .into_iter()
        .filter(|x| *x > 0)
        .map(|value| ValueTransferOutput { pkh: who(r.idx(6)).pkh, value, time_lock: if r.bool() { 0 } else { r.edgy_u64() } })
        .collect();
    let spoils = if r.chance(1, 4) { 0 } else { r.range(1, 2) };
    let mut late = false;
    for _ in 0..spoils {
        match r.below(6) {
            0 | 1 if !inputs.is_empty() => broken.push(spoil_inputs(r, &led, &mut inputs, now)),
            2 => {
                outputs.push(ValueTransferOutput { pkh: who(0).pkh, value: 0, time_lock: 0 });
                broken.push("an output of nothing");
            }
            3 => {
                outputs.push(ValueTransferOutput { pkh: who(0).pkh, value: have - spend + 1, time_lock: 0 });
                broken.push("more out than in");
            }
            4 => {
                let half = 1u64 << 63;
                for v in [half, half - r.below(2)] {
                    outputs.push(ValueTransferOutput { pkh: who(0).pkh, value: v, time_lock: 0 });
                }
                broken.push("outputs that overflow");
            }
            _ => late = true,
        }
    }
    let body = VTTransactionBody::new(inputs.clone(), outputs.clone());
    let mut t = VTTransaction::new(body, vec![]);
    let h = t.versioned_hash(ProtocolVersion::V1_7);
    t.signatures = sign_inputs(&led, &inputs, h);
    if late {
        match r.below(4) {
            0 => {
                let mut o = outputs.clone();
                if let Some(x) = o.first_mut() {
                    x.pkh = who(9).pkh;
                }
                outputs = o.clone();
                t.body = VTTransactionBody::new(inputs.clone(), o);
                broken.push("changed after signing");
            }
            _ => broken.push(spoil_signatures(r, &mut t.signatures, h)),
        }
    }
    let h = t.versioned_hash(ProtocolVersion::V1_7);
    let weight = 133 * inputs.len() as u32 + 360 * outputs.len() as u32;
    let limit = match r.below(5) {
        0 => weight.saturating_sub(1),
        1 => weight,
        _ => 20_000,
    };
    if limit < weight {
        broken.push("too heavy");
    }
    // Rules
    let out: u128 = outputs.iter().map(|o| u128::from(o.value)).sum();
    let sum = led.spendable(&inputs, now);
    let fee = sum.and_then(|i| u64::try_from(u128::from(i).checked_sub(out)?).ok());
    let ok = weight <= limit && !inputs.is_empty() && outputs.iter().all(|o| o.value > 0) && led.signed(&inputs, &t.signatures, h);
    let want = if ok { fee } else { None };
    let text = || format!("epoch {epoch}, limit {limit}, {t:?}");
    let mut sigs = vec![];
    let pool = led.pool();
    let diff = UtxoDiff::new(&pool, 1000);
    let got = c.nopanic("panic", text, || validate_vt_transaction(&t, &diff, epoch, epochs(), &mut sigs, limit, Some(version(epoch))).ok().map(|(_, _, fee)| fee));
    let Some(got) = got else { return };
    let got = got.filter(|_| verify(sigs));
    verdict(c, "transfer", got, want, &broken, text);
    let Some(got) = c.nopanic("panic", text, || received(Transaction::ValueTransfer(t.clone()), &led, &StakesTracker::default(), epoch, &wips(&[], epoch), limit, 80_000, WIT)) else { return };
    c.check(got == want, "transfer-received", || format!("{got:?}, expected {want:?}; {}", text()));
}

/// A request that is fine in itself.
pub fn good_rad(r: &mut Rng) -> RADRequest {
    let one = |r: &mut Rng| match r.below(4) {
        0 => RADRetrieve { kind: RADType::Rng, script: vec![0x80], ..Default::default() },
        1 => RADRetrieve { kind: RADType::HttpPost, url: "https://a.example/p".into(), script: vec![0x81, 0x18, 0x77], body: vec![1, 2, 3], headers: vec![("a".into(), "b".into())] },
        2 => RADRetrieve { kind: RADType::HttpHead, url: "https://a.example/h".into(), script: vec![0x80], ..Default::default() },
        _ => RADRetrieve { kind: RADType::HttpGet, url: "https://a.example/".into(), script: vec![0x81, 0x18, 0x77], ..Default::default() },
    };
    let n = r.range(1, 3);
    RADRequest {
        time_lock: 0,
        retrieve: (0..n).map(|_| one(r)).collect(),
        aggregate: RADAggregate { filters: vec![], reducer: *r.pick(&[2, 3, 5, 11]) },
        tally: RADTally { filters: if r.bool() { vec![] } else { vec![RADFilter { op: 8, args: vec![] }] }, reducer: *r.pick(&[2, 3, 5, 11]) },
    }
}
fn spoil_rad(r: &mut Rng, q: &mut RADRequest) -> &'static str {
    let at = if q.retrieve.is_empty() { return "nothing to retrieve" } else { r.idx(q.retrieve.len()) };
    match r.below(9) {
        0 => {
            q.retrieve.clear();
            "nothing to retrieve"
        }
        1 => {
            q.retrieve[at].script = vec![0x01];
            "a script that is not a list"
        }
        2 => {
            q.retrieve[at].script = vec![0x81];
            "a script cut short"
        }
        3 => {
            q.retrieve[at].script = vec![0x81, 0x18, 0xee];
            "an unknown operator"
        }
        4 => {
            q.retrieve[at] = RADRetrieve { kind: RADType::HttpGet, script: vec![0x80], ..Default::default() };
            "no address to get"
        }
        5 => {
            q.retrieve[at] = RADRetrieve { kind: RADType::Rng, script: vec![0x80], body: vec![1], ..Default::default() };
            "a body for a random number"
        }
        6 => {
            q.tally.reducer = *r.pick(&[0, 1, 4, 99, 256 + 2, 1 << 20]);
            "an unsupported reducer"
        }
        7 => {
            q.aggregate.filters = vec![RADFilter { op: *r.pick(&[0, 1, 99, 256 + 8]), args: vec![] }];
            "an unsupported filter"
        }
        _ => {
            q.tally.filters = vec![RADFilter { op: 5, args: vec![0x81] }];
            "filter arguments cut short"
        }
    }
}
fn rad_weight(q: &RADRequest) -> u32 {
    let f = |f: &Vec<RADFilter>| f.iter().map(|x| 4 + x.args.len()).sum::<usize>() + 4;
    let got: usize = q.retrieve.iter().map(|x| 1 + x.script.len() + x.url.len() + x.body.len() + x.headers.iter().map(|(k, v)| k.len() + v.len() + 6).sum::<usize>()).sum();
    (got + f(&q.aggregate.filters) + f(&q.tally.filters) + 8) as u32
}
pub fn request_weight(t: &DRTransaction) -> u32 {
    let w = u32::from(t.body.dr_output.witnesses);
    rad_weight(&t.body.dr_output.data_request) + 30 + w * (400 + 200 + 36) + 100 + 133 * t.body.inputs.len() as u32 + 36 * t.body.outputs.len() as u32
}
/// What the requester pays on top of the fee, when it can be represented.
pub fn locked(o: &DataRequestOutput) -> Option<u64> {
    u64::try_from((u128::from(o.witness_reward) + 2 * u128::from(o.commit_and_reveal_fee)) * u128::from(o.witnesses)).ok()
}

fn request(c: &mut Case) {
    let epoch = pick_epoch(&mut c.rng);
    let now = time(epoch);
    let r = &mut c.rng;
    let led = coins(r, now, 5);
    let mut inputs = choose(r, &led, now, 4);
    if inputs.is_empty() {
        return;
    }
    let mut broken = vec![];
    let have = worth(&led, &inputs);
    let min_collateral = *r.pick(&[1u64, WIT, 20 * WIT]);
    let ratio_off = r.chance(1, 4);
    let w = if ratio_off { wips(&["WIP0022"], epoch) } else { wips(&[], epoch) };
    let witnesses = r.range(1, 6) as u16;
    let per = have / u64::from(witnesses);
    let fee = r.below(per / 8 + 1);
    let reward = r.below(per - 2 * fee) + 1;
    let mut o = DataRequestOutput {
        data_request: good_rad(r),
        witness_reward: reward,
        witnesses,
        commit_and_reveal_fee: fee,
        min_consensus_percentage: *r.pick(&[51, 52, 70, 98, 99]),
        collateral: match r.below(5) {
            0 => 0,
            1 => min_collateral,
            2 => reward.saturating_mul(125),
            3 => reward.saturating_mul(124).saturating_add(r.below(reward)),
            _ => min_collateral + r.below(reward),
        },
    };
    let left = locked(&o).and_then(|l| have.checked_sub(l));
    let Some(left) = left else { return };
    let change = match r.below(3) {
        0 => left,
        _ => r.below(left + 1),
    };
    let first = led.0[inputs[0].output_pointer()].0.pkh;
    let mut outputs = vec![];
    if change > 0 && r.chance(3, 4) {
        outputs.push(ValueTransferOutput { pkh: first, value: change, time_lock: r.below(3) });
    }
    let mut late = false;
    let spoils = if r.chance(1, 4) { 0 } else { r.range(1, 2) };
    for _ in 0..spoils {
        match r.below(13) {
            0 if !inputs.is_empty() => broken.push(spoil_inputs(r, &led, &mut inputs, now)),
            1 => {
                outputs = vec![ValueTransferOutput { pkh: first, value: 0, time_lock: 0 }];
                broken.push("change of nothing");
            }
            2 => {
                outputs = vec![ValueTransferOutput { pkh: first, value: left + 1, time_lock: 0 }];
                broken.push("more out than in");
            }
            3 => {
                outputs = vec![ValueTransferOutput { pkh: first, value: 1, time_lock: 0 }, ValueTransferOutput { pkh: first, value: 1, time_lock: 0 }];
                broken.push("two change outputs");
            }
            4 => {
                outputs = vec![ValueTransferOutput { pkh: who(11).pkh, value: 1.max(change), time_lock: 0 }];
                broken.push("change for somebody else");
            }
            5 => {
                o.witnesses = 0;
                broken.push("no witnesses");
            }
            6 => {
                o.witness_reward = 0;
                broken.push("no reward");
            }
            7 => {
                o.min_consensus_percentage = *r.pick(&[0, 50, 100, 101, u32::MAX]);
                broken.push("impossible consensus");
            }
            8 => {
                o.collateral = min_collateral - 1;
                broken.push("too little collateral");
            }
            9 => {
                o.collateral = *r.pick(&[o.witness_reward.saturating_mul(125).saturating_add(1), u64::MAX, o.witness_reward.saturating_mul(126)]);
                broken.push("too much collateral for the reward");
            }
            10 => {
                // The total wraps around to something affordable
                match r.below(3) {
                    0 => {
                        o.witnesses = 2;
                        o.witness_reward = (1 << 63) + r.below(3);
                        o.commit_and_reveal_fee = 0;
                    }
                    1 => o.commit_and_reveal_fee = (1 << 63) - r.below(2),
                    _ => o.witness_reward = u64::MAX - r.below(4),
                }
                broken.push("a total that overflows");
            }
            11 => broken.push(spoil_rad(r, &mut o.data_request)),
            _ => late = true,
        }
    }
    let mut t = DRTransaction::new(DRTransactionBody::new(inputs.clone(), o.clone(), outputs.clone()), vec![]);
    let h = t.versioned_hash(version(epoch));
    t.signatures = sign_inputs(&led, &inputs, h);
    if late {
        if r.chance(1, 4) {
            o.min_consensus_percentage = 51 + (o.min_consensus_percentage.wrapping_add(1)) % 40;
            t.body = DRTransactionBody::new(inputs.clone(), o.clone(), outputs.clone());
            broken.push("changed after signing");
        } else {
            broken.push(spoil_signatures(r, &mut t.signatures, h));
        }
    }
    let h = t.versioned_hash(version(epoch));
    let weight = request_weight(&t);
    let limit = match r.below(5) {
        0 => weight.saturating_sub(1),
        1 => weight,
        _ => 80_000,
    };
    if limit < weight {
        broken.push("too heavy");
    }
    // Rules
    let rad_ok = !broken.iter().any(|b| {
        ["nothing to retrieve", "a script that is not a list", "a script cut short", "an unknown operator", "no address to get", "a body for a random number", "an unsupported reducer", "an unsupported filter", "filter arguments cut short"].contains(b)
    });
    let out: u128 = outputs.iter().map(|o| u128::from(o.value)).sum();
    let lock = locked(&o);
    let fee = led.spendable(&inputs, now).zip(lock).and_then(|(i, l)| u64::try_from(u128::from(i).checked_sub(out + u128::from(l))?).ok());
    let asked = if o.collateral == 0 { min_collateral } else { o.collateral };
    let ratio_ok = ratio_off || u128::from(asked) <= 125 * u128::from(o.witness_reward);
    let change_ok = match outputs.as_slice() {
        [] => true,
        [x] => x.value > 0 && inputs.first().and_then(|i| led.0.get(i.output_pointer())).is_some_and(|(v, _)| v.pkh == x.pkh),
        _ => false,
    };
    let ok = weight <= limit
        && !inputs.is_empty()
        && o.witnesses >= 1
        && o.witness_reward >= 1
        && (51..=99).contains(&o.min_consensus_percentage)
        && ratio_ok
        && (o.collateral == 0 || o.collateral >= min_collateral)
        && change_ok
        && rad_ok
        && led.signed(&inputs, &t.signatures, h);
    let want = if ok { fee } else { None };
    let text = || format!("epoch {epoch}, limit {limit}, minimum collateral {min_collateral}, ratio rule {}, {t:?}", !ratio_off);
    let mut sigs = vec![];
    let pool = led.pool();
    let diff = UtxoDiff::new(&pool, 1000);
    let got = c.nopanic("panic", text, || {
        validate_dr_transaction(&t, &diff, epoch, epochs(), &mut sigs, min_collateral, limit, 125, &w, Some(version(epoch))).ok().map(|(_, _, fee)| fee)
    });
    let Some(got) = got else { return };
    let got = got.filter(|_| verify(sigs));
    verdict(c, "request", got, want, &broken, text);
    let Some(got) = c.nopanic("panic", text, || received(Transaction::DataRequest(t.clone()), &led, &StakesTracker::default(), epoch, &w, 20_000, limit, min_collateral)) else { return };
    c.check(got == want, "request-received", || format!("{got:?}, expected {want:?}; {}", text()));
}

pub fn some_stakes(r: &mut Rng, epoch: u32) -> Staked {
    let mut s = Staked::default();
    for v in 0..r.below(6) as usize {
        let w = if r.bool() { v } else { r.idx(6) };
        let coins = match r.below(5) {
            0 => MIN_STAKE,
            1 => MAX_STAKE,
            2 => MAX_STAKE - r.below(2 * MIN_STAKE),
            3 => MIN_STAKE + r.below(2 * MIN_STAKE),
            _ => r.range(MIN_STAKE, MAX_STAKE),
        };
        s.0.insert((who(v).pkh, who(w).pkh), Entry { coins, since: epoch.saturating_sub(r.below(1000) as u32) });
    }
    s
}

fn stake(c: &mut Case) {
    let epoch = pick_epoch(&mut c.rng);
    let now = time(epoch);
    let r = &mut c.rng;
    let mut led = coins(r, now, 5);
    for _ in 0..3 {
        let (o, v) = (r.idx(5), if r.bool() { MAX_STAKE } else { r.range(MIN_STAKE, MAX_STAKE) });
        led.add(r, o, v, 0, 10);
    }
    let st = some_stakes(r, epoch);
    let v = r.idx(7);
    let mut broken = vec![];
    let mut w = st.of(&who(v).pkh).map(|x| x.0).unwrap_or(who(r.idx(6)).pkh);
    let already = st.of(&who(v).pkh).map_or(0, |x| x.1.coins);
    let mut value = match r.below(4) {
        0 => MIN_STAKE,
        1 => MAX_STAKE - already,
        2 => (MAX_STAKE - already).saturating_sub(r.below(10)),
        _ => MIN_STAKE + r.below(MAX_STAKE - MIN_STAKE),
    };
    let mut inputs = choose(r, &led, now, 4);
    // Make sure that there is enough
    let missing = (value - value.min(worth(&led, &inputs))).saturating_add(r.below(50) * WIT).max(1);
    let big = led.add(r, 2, missing, 0, 10);
    if inputs.is_empty() || value > worth(&led, &inputs) || r.bool() {
        inputs.push(Input::new(big));
    }
    let have = worth(&led, &inputs);
    let left = have - value;
    let mut change = if left > 0 && r.bool() { Some(ValueTransferOutput { pkh: who(r.idx(5)).pkh, value: r.below(left) + 1, time_lock: 0 }) } else { None };
    let mut late = false;
    for _ in 0..(if r.chance(1, 4) { 0 } else { r.range(1, 2) }) {
        match r.below(8) {
            0 if !inputs.is_empty() => broken.push(spoil_inputs(r, &led, &mut inputs, now)),
            1 => {
                value = MIN_STAKE - 1 - r.below(2) * r.below(MIN_STAKE);
                broken.push("too little to stake");
            }
            2 => {
                value = MAX_STAKE - already + 1 + r.below(2) * r.below(1000 * WIT);
                broken.push("too much to stake");
            }
            3 => {
                w = who(8).pkh;
                broken.push("another withdrawer");
            }
            4 => {
                change = Some(ValueTransferOutput { pkh: who(1).pkh, value: left + 1, time_lock: 0 });
                broken.push("more out than in");
            }
            5 => {
                change = Some(ValueTransferOutput { pkh: who(1).pkh, value: (u64::MAX - value).saturating_add(1 + r.below(have)), time_lock: 0 });
                broken.push("change that overflows");
            }
            _ => late = true,
        }
    }
    let output = StakeOutput { authorization: sign(v, Hash::SHA256([3; 32])), key: StakeKey { validator: who(v).pkh, withdrawer: w }, value };
    let mut t = StakeTransaction::new(StakeTransactionBody::new(inputs.clone(), output, change.clone()), vec![]);
    let h = t.versioned_hash(ProtocolVersion::V1_7);
    t.signatures = sign_inputs(&led, &inputs, h);
    if late {
        broken.push(spoil_signatures(r, &mut t.signatures, h));
    }
    // Rules
    let out = u128::from(value) + change.as_ref().map_or(0, |x| u128::from(x.value));
    let fee = led.spendable(&inputs, now).and_then(|i| u64::try_from(u128::from(i).checked_sub(out)?).ok());
    let ok = epoch >= V1_8_AT
        && value >= MIN_STAKE
        && u128::from(already) + u128::from(value) <= u128::from(MAX_STAKE)
        && st.of(&who(v).pkh).is_none_or(|x| x.0 == w)
        && !inputs.is_empty()
        && led.signed(&inputs, &t.signatures, h);
    let want = if ok { fee } else { None };
    let text = || format!("epoch {epoch}, already staked {already}, {t:?}");
    let tracker = st.tracker();
    let mut sigs = vec![];
    let pool = led.pool();
    let diff = UtxoDiff::new(&pool, 1000);
    let got = c.nopanic("panic", text, || validate_stake_transaction(&t, &diff, epoch, epochs(), &mut sigs, &tracker, MIN_STAKE, MAX_STAKE).ok().map(|x| (x.2, x.3)));
    let Some(got) = got else { return };
    if let Some((_, w)) = got {
        c.eq("stake-weight", &w, &(133 * inputs.len() as u32 + 105 + 36 * u32::from(change.is_some())));
    }
    let got = got.filter(|_| verify(sigs)).map(|x| x.0);
    verdict(c, "stake", got, want, &broken, text);
    let Some(got) = c.nopanic("panic", text, || received(Transaction::Stake(t.clone()), &led, &tracker, epoch, &wips(&[], epoch), 20_000, 80_000, WIT)) else { return };
    c.check(got == want, "stake-received", || format!("{got:?}, expected {want:?}; {}", text()));
}

fn unstake(c: &mut Case) {
    let epoch = if c.rng.chance(1, 6) { pick_epoch(&mut c.rng) } else { V2_AT + c.rng.below(10_000) as u32 };
    let r = &mut c.rng;
    let mut st = some_stakes(r, epoch);
    let w = who(r.idx(6)).pkh;
    let v = r.idx(6);
    if st.of(&who(v).pkh).is_none() {
        st.0.insert((who(v).pkh, w), Entry { coins: r.range(MIN_STAKE, 4 * MIN_STAKE), since: epoch.saturating_sub(9) });
    }
    let (withdrawer, e) = st.of(&who(v).pkh).unwrap();
    let (have, nonce) = (e.coins, u64::from(e.since));
    let mut broken = vec![];
    let mut amount = match r.below(4) {
        0 => have,
        1 => have.saturating_sub(MIN_STAKE),
        2 => r.below(have.saturating_sub(MIN_STAKE) + 1),
        _ => have,
    };
    let mut operator = who(v).pkh;
    let mut by = index_of(&withdrawer).unwrap();
    let mut lock = *r.pick(&[UNSTAKE_DELAY, UNSTAKE_DELAY + 1, UNSTAKE_DELAY * 2]);
    let mut used = nonce;
    let mut to = withdrawer;
    let mut wrap = false;
    let mut late = false;
    for _ in 0..(if r.chance(1, 4) { 0 } else { r.range(1, 2) }) {
        match r.below(9) {
            0 => {
                amount = have - 1 - r.below(MIN_STAKE - 1).min(have - 1);
                broken.push("less than the minimum stays");
            }
            1 => {
                amount = have + 1 + r.below(WIT);
                broken.push("more than staked");
            }
            2 => {
                wrap = true;
                broken.push("amount and fee that overflow");
            }
            3 => {
                used = *r.pick(&[nonce + 1, nonce.saturating_sub(1), 0]);
                broken.push("another nonce");
            }
            4 => {
                lock = *r.pick(&[0, UNSTAKE_DELAY - 1]);
                broken.push("withdrawn too early");
            }
            5 => {
                operator = who(7 + r.idx(3)).pkh;
                broken.push("an operator without stake");
            }
            6 => {
                by = 9;
                broken.push("signed by somebody else");
                if r.bool() {
                    to = who(9).pkh;
                }
            }
            7 => {
                to = who(10).pkh;
                broken.push("to somebody else");
            }
            _ => late = true,
        }
    }
    let fee = match r.below(4) {
        0 => 0,
        1 => amount,
        _ => r.below(amount + 1),
    };
    let (value, fee) = if wrap { ((u64::MAX - fee).saturating_add(1 + r.below(amount.max(1))), fee.max(1)) } else { (amount - fee, fee) };
    let mut t = UnstakeTransaction::new(UnstakeTransactionBody::new(operator, ValueTransferOutput { pkh: to, value, time_lock: lock }, fee, used), KeyedSignature::default());
    let h = t.versioned_hash(ProtocolVersion::V1_7);
    t.signature = sign(by, h);
    if late {
        let mut s = vec![t.signature.clone()];
        let what = spoil_signatures(r, &mut s, h);
        if s.len() == 1 {
            broken.push(what);
            t.signature = s.remove(0);
        }
    }
    // Rules
    let signer = t.signature.public_key.pkh();
    let total = u128::from(value) + u128::from(fee);
    let entry = st.0.get(&(operator, signer));
    let ok = epoch >= V2_AT
        && entry.is_some_and(|e| total <= u128::from(e.coins) && u64::from(e.since) == used && (total == u128::from(e.coins) || u128::from(e.coins) - total >= u128::from(MIN_STAKE)))
        && lock >= UNSTAKE_DELAY
        && to == signer
        && signed_ok(&t.signature, h);
    let want = if ok { Some(fee) } else { None };
    let text = || format!("epoch {epoch}, staked {have} nonce {nonce}, {t:?}");
    let tracker = st.tracker();
    let got = c.nopanic("panic", text, || validate_unstake_transaction(&t, epoch, &tracker, MIN_STAKE, UNSTAKE_DELAY).ok().map(|(fee, w, o)| (fee, w, o.into_iter().cloned().collect::<Vec<_>>())));
    let Some(got) = got else { return };
    if let Some((_, w, o)) = &got {
        c.check(*w == 153 && *o == vec![t.body.withdrawal.clone()], "unstake-outputs", || format!("{w} {o:?}; {}", text()));
    }
    verdict(c, "unstake", got.map(|x| x.0), want, &broken, text);
    let Some(got) = c.nopanic("panic", text, || received(Transaction::Unstake(t.clone()), &Coins::default(), &tracker, epoch, &wips(&[], epoch), 20_000, 80_000, WIT)) else { return };
    c.check(got == want, "unstake-received", || format!("{got:?}, expected {want:?}; {}", text()));
}
