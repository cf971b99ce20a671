//! C32: the tally in a block has to be the one that every node works out for itself.
use crate::sigs::consensus;
use crate::world::*;
use std::collections::HashSet;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::{create_tally, DataRequestPool};
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage};
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_rad::error::RadError;
use witnet_rad::types::RadonTypes;
use witnet_validations::validations::*;

pub fn agreed(m: &mut Mon) {
    m.rule("Requests are committed to and revealed by up to 12 witnesses (in agreement, lying, failing, with garbage, or silent), before and since 2.0, with too many witnesses or with none; the tally that a node works out is accepted in any order of its lists, and changed in one detail it is refused; what it leaves for the miner is what is left of the values locked. Non-trivial: a distinct changed tally.");
    for k in ["agreed", "reordered", "since 2.0", "nobody honest", "some silent", "some lied", "some failed", "nobody committed", "too many witnesses", "requester is a witness", "with change"] {
        m.require(k, 100);
    }
    for k in ["value changed", "receiver changed", "output left out", "output added", "output twice", "time lock", "result changed", "honest one accused", "liar spared", "error forged", "error forgotten", "another request", "another stage", "tally of the other version", "blame moved", "failure moved", "another opinion"] {
        m.require(k, 50);
    }
    versions();
    m.run_par("tallies", m.n(25_000, 400_000), tally);
}
pub fn value(r: &mut Rng, main: i128) -> (Vec<u8>, &'static str) {
    let encode = |x: Result<RadonTypes, RadError>| {
        let report = RadonReport::from_result(x, &ReportContext::default());
        Vec::<u8>::try_from(&report).unwrap()
    };
    match r.below(9) {
        0 => (encode(Ok(RadonTypes::from(witnet_rad::types::integer::RadonInteger::from(main + 1 + i128::from(r.below(3) as u32))))), "another number"),
        1 => (encode(Ok(RadonTypes::from(witnet_rad::types::string::RadonString::from("x")))), "another type"),
        2 => (encode(Err(RadError::RetrieveTimeout)), "failure"),
        3 => (encode(Err(RadError::NoReveals)), "failure"),
        4 => ({ let n = r.below(6) as usize; r.bytes(n) }, "garbage"),
        _ => (encode(Ok(RadonTypes::from(witnet_rad::types::integer::RadonInteger::from(main)))), "number"),
    }
}
/// A commit by that identity, as the pool keeps it.
pub fn bare_commit(i: usize, request: Hash, commitment: Hash) -> CommitTransaction {
    let proof = DataRequestEligibilityClaim { proof: VrfProof::default() };
    let mut b = serde_json::to_value(&proof).unwrap();
    b["proof"]["public_key"] = serde_json::to_value(&who(i).pk).unwrap();
    let proof: DataRequestEligibilityClaim = serde_json::from_value(b).unwrap();
    CommitTransaction::new(CommitTransactionBody::new(request, commitment, proof, vec![], vec![], None), vec![sign(i, commitment)])
}
/// What a miner would put in the block.
pub fn own_tally(pool: &DataRequestPool, q: &Hash, minimum: u64, w: &ActiveWips, too_many: bool, v: ProtocolVersion) -> TallyTransaction {
    judged_tally(pool, q, minimum, w, too_many, v, |_, _| ())
}
/// What a miner would put in the block who had another opinion of the reveals.
fn judged_tally(pool: &DataRequestPool, q: &Hash, minimum: u64, w: &ActiveWips, too_many: bool, v: ProtocolVersion, opinion: impl FnOnce(&mut Vec<bool>, &mut Vec<bool>)) -> TallyTransaction {
    let s = pool.data_request_state(q).unwrap();
    let reveals = pool.get_reveals(q, w).unwrap();
    let committers: HashSet<PublicKeyHash> = s.info.commits.keys().copied().collect();
    let mut report = run_tally_panic_safe(
        &reveals,
        &s.data_request.data_request.tally,
        f64::from(s.data_request.min_consensus_percentage) / 100.0,
        committers.len(),
        w,
        too_many,
    );
    if let Stage::Tally(x) = &mut report.context.stage {
        opinion(&mut x.liars, &mut x.errors);
    }
    create_tally(*q, &s.data_request, s.pkh, &report, reveals.iter().map(|t| t.body.pkh).collect(), committers, minimum, tally_bytes_on_encode_error(), w, v)
}
pub fn output(r: &mut Rng) -> DataRequestOutput {
    let mut o = DataRequestOutput {
        witnesses: match r.below(5) {
            0 => 1,
            _ => r.range(1, 12),
        } as u16,
        witness_reward: r.range(1, 10 * WIT),
        commit_and_reveal_fee: r.below(3) * r.below(WIT),
        min_consensus_percentage: *r.pick(&[51, 51, 60, 70, 99]),
        collateral: *r.pick(&[0, WIT, 5 * WIT, 20 * WIT + 7]),
        ..DataRequestOutput::default()
    };
    let (filters, reducer) = match r.below(3) {
        0 => (vec![], 2),
        _ => (vec![RADFilter { op: 8, args: vec![] }], 2),
    };
    o.data_request = RADRequest { time_lock: 0, retrieve: vec![RADRetrieve::default()], aggregate: RADAggregate { filters: vec![], reducer: 2 }, tally: RADTally { filters, reducer } };
    o
}

fn tally(c: &mut Case) {
    let k = consensus();
    let r = &mut c.rng;
    let since = match r.below(4) {
        0 => V1_8_AT - 1 + r.below(2) as u32,
        1 => V2_AT - 1,
        2 => V2_AT,
        _ => V2_AT + 1 + r.below(100) as u32,
    };
    let v = version(since);
    let v2 = v == ProtocolVersion::V2_0;
    let off: &[&str] = match r.below(6) {
        0 if !v2 => &["WIP0023"],
        1 if !v2 => &["WIP0017-0018-0019", "WIP0020-0021"],
        _ => &[],
    };
    let w = wips(off, since + 3);
    let mut o = output(r);
    if v2 && r.bool() {
        // The change may be worth as much as a collateral
        o.collateral = o.witness_reward * r.range(1, u64::from(o.witnesses));
        if r.bool() {
            o.commit_and_reveal_fee = 0;
        }
    }
    let mut people: Vec<usize> = (0..16).collect();
    r.shuffle(&mut people);
    let requester = if r.chance(1, 5) { people[0] } else { 20 + r.idx(5) };
    let body = DRTransactionBody::new(vec![Input::new(OutputPointer { transaction_id: Hash::SHA256(r.arr()), output_index: 0 })], o.clone(), vec![]);
    let mut t = DRTransaction::new(body, vec![]);
    let q = t.versioned_hash(v);
    t.signatures = vec![sign(requester, q)];
    let mut pool = DataRequestPool::new(1);
    pool.process_data_request(&t, since, Some(Hash::SHA256(r.arr()))).unwrap();
    let many = v2 && r.chance(1, 6);
    // Enough validators, or just not
    let validators = usize::from(o.witnesses) * 4 + usize::from(v2) * r.below(3) as usize;
    let validators = if many { usize::from(o.witnesses) * 4 - 1 } else { validators };
    let witnesses = &people[..usize::from(o.witnesses)];
    let mut said = vec![];
    if !many && r.chance(8, 9) {
        let main = i128::from(r.below(4) as u32);
        for i in witnesses {
            let (bytes, what) = if r.chance(1, 12) {
                (vec![], "silence")
            } else if r.bool() {
                value(&mut r.clone(), main)
            } else {
                value(r, main)
            };
            let t = RevealTransaction::new(RevealTransactionBody::new(q, bytes, who(*i).pkh), vec![]);
            let s = sign(*i, t.hash());
            let Signature::Secp256k1(x) = &s.signature;
            pool.process_commit(&bare_commit(*i, q, Hash::SHA256(vref::hash::sha256(&x.der))), since + 1, &Hash::default()).unwrap();
            said.push((*i, what, RevealTransaction::new(t.body, vec![s])));
        }
    }
    pool.update_data_request_stages(Some(validators), Some(since + 1));
    for (_, what, t) in &said {
        if *what != "silence" {
            pool.process_reveal(t, since + 2, &Hash::default()).unwrap();
        }
    }
    for _ in 0..3 {
        if pool.data_request_state(&q).unwrap().stage != DataRequestStage::TALLY {
            pool.update_data_request_stages(Some(validators), Some(since + 2));
        }
    }
    let state = pool.data_request_state(&q).unwrap().clone();
    assert_eq!(state.stage, DataRequestStage::TALLY);
    let with: HashSet<Hash> = if many { [q].into_iter().collect() } else { HashSet::new() };
    let right = own_tally(&pool, &q, k.collateral_minimum, &w, many, v);
    let words: Vec<_> = said.iter().map(|x| (x.0, x.1)).collect();
    let text = |t: &TallyTransaction| format!("{v:?} since {since}, {} witnesses of {validators} validators, requester {requester}, reward {}, fee {}, collateral {}, said {words:?}, {off:?}; own {right:?}; judged {t:?}", o.witnesses, o.witness_reward, o.commit_and_reveal_fee, o.collateral);
    // Who is who
    let commits = state.info.commits.len();
    let reveals = state.info.reveals.len();
    let honest: Vec<PublicKeyHash> = state.info.commits.keys().filter(|p| !right.out_of_consensus.contains(p)).copied().collect();
    let collateral = if o.collateral == 0 { k.collateral_minimum } else { o.collateral };
    let change = right.outputs.last().is_some_and(|x| x.pkh == who(requester).pkh) || (v2 && !right.outputs.is_empty());

    // As it is, and in another order
    let mut same = right.clone();
    c.rng.shuffle(&mut same.out_of_consensus);
    c.rng.shuffle(&mut same.error_committers);
    let n = same.outputs.len();
    if change && n > 0 {
        c.rng.shuffle(&mut same.outputs[..n - 1]);
    }
    for (t, what) in [(&right, "agreed"), (&same, "reordered")] {
        let t = TallyTransaction::new(t.dr_pointer, t.tally.clone(), t.outputs.clone(), t.out_of_consensus.clone(), t.error_committers.clone());
        let got = c.nopanic("panic", || text(&t), || validate_tally_transaction(&t, &mut pool, &k, &w, &with, Some(validators), v).map(|x| (x.0.into_iter().cloned().collect::<Vec<_>>(), x.1)));
        let Some(got) = got else { return };
        c.eval(1);
        c.event(what);
        match got {
            Err(e) => {
                c.check(false, "own-tally-refused", || format!("{e}; {}", text(&t)));
            }
            Ok((outputs, fee)) => {
                c.check(outputs == t.outputs, "outputs", || text(&t));
                // What was locked is what comes out, goes to the miner or is lost by the liars
                let paid: u128 = outputs.iter().map(|x| u128::from(x.value)).sum();
                let shares = u128::from(o.commit_and_reveal_fee) * (commits + reveals) as u128;
                let locked = u128::from(o.witnesses) * (u128::from(o.witness_reward) + 2 * u128::from(o.commit_and_reveal_fee));
                if v2 {
                    let earned = u128::from(o.witness_reward) * honest.len() as u128;
                    c.check(fee == 0 && paid + shares + earned == locked, "value", || format!("fee {fee}, paid {paid}, locked {locked}; {}", text(&t)));
                } else {
                    let lost = if w.wip0023() && !honest.is_empty() {
                        u128::from(collateral) * right.out_of_consensus.iter().filter(|p| !right.error_committers.contains(p)).count() as u128
                    } else {
                        0
                    };
                    let put = u128::from(collateral) * commits as u128;
                    c.check(paid + shares + u128::from(fee) + lost == locked + put, "value", || format!("fee {fee}, paid {paid}, locked {locked}, put {put}, lost {lost}; {}", text(&t)));
                }
            }
        }
    }
    for (k, yes) in [
        ("since 2.0", v2),
        ("nobody honest", honest.is_empty() && reveals > 0),
        ("some silent", reveals < commits),
        ("some lied", right.out_of_consensus.iter().any(|p| !right.error_committers.contains(p) && state.info.reveals.contains_key(p))),
        ("some failed", !right.error_committers.is_empty() && !honest.is_empty()),
        ("nobody committed", commits == 0 && !many),
        ("too many witnesses", many),
        ("requester is a witness", state.info.commits.contains_key(&who(requester).pkh)),
        ("with change", change),
    ] {
        if yes {
            c.event(k);
        }
    }

    // With one thing changed
    for _ in 0..4 {
        let r = &mut c.rng;
        let mut t = right.clone();
        let mut v = v;
        let mut now = DataRequestStage::TALLY;
        let n = t.outputs.len();
        let at = r.idx(n.max(1));
        let what = match r.below(17) {
            0 if n > 0 => {
                let x = &mut t.outputs[at].value;
                let by = *r.pick(&[1, 2, WIT, o.commit_and_reveal_fee + 1, u64::MAX / 2]);
                *x = if r.bool() { x.saturating_add(by) } else { x.saturating_sub(by) };
                "value changed"
            }
            1 if n > 0 => {
                t.outputs[at].pkh = who(if r.chance(1, 4) { 26 + r.idx(4) } else { people[r.idx(usize::from(o.witnesses))] }).pkh;
                "receiver changed"
            }
            2 if n > 0 => {
                t.outputs.remove(at);
                "output left out"
            }
            3 => {
                let to = if r.bool() { requester } else { people[r.idx(12)] };
                let x = ValueTransferOutput { pkh: who(to).pkh, value: *r.pick(&[0, 1, o.witness_reward, collateral]), time_lock: 0 };
                let at = r.idx(n + 1);
                t.outputs.insert(at, x);
                "output added"
            }
            4 if n > 0 => {
                let x = t.outputs[at].clone();
                let to = r.idx(n);
                if r.bool() || to == at {
                    t.outputs.push(x);
                } else {
                    t.outputs[to] = x;
                }
                "output twice"
            }
            5 if n > 0 => {
                t.outputs[at].time_lock = *r.pick(&[1, 5, u64::MAX]);
                "time lock"
            }
            6 => {
                let at = r.idx(t.tally.len());
                match r.below(3) {
                    0 => t.tally[at] ^= 1 << r.below(8),
                    1 => t.tally.push(0),
                    _ => t.tally = tally_bytes_on_encode_error(),
                }
                "result changed"
            }
            7 if !honest.is_empty() => {
                t.out_of_consensus.push(*r.pick(&honest));
                "honest one accused"
            }
            8 if !t.out_of_consensus.is_empty() => {
                let at = r.idx(t.out_of_consensus.len());
                t.out_of_consensus.remove(at);
                "liar spared"
            }
            9 => {
                let free: Vec<usize> = people.iter().copied().filter(|i| !t.error_committers.contains(&who(*i).pkh)).collect();
                if free.is_empty() {
                    continue;
                }
                t.error_committers.push(who(*r.pick(&free)).pkh);
                "error forged"
            }
            10 if !t.error_committers.is_empty() => {
                let at = r.idx(t.error_committers.len());
                t.error_committers.remove(at);
                "error forgotten"
            }
            11 => {
                t.dr_pointer = Hash::SHA256(r.arr());
                "another request"
            }
            12 => {
                now = *r.pick(&[DataRequestStage::COMMIT, DataRequestStage::REVEAL]);
                "another stage"
            }
            13 if commits > 0 => {
                v = if v2 { ProtocolVersion::V1_8 } else { ProtocolVersion::V2_0 };
                "tally of the other version"
            }
            14 if !honest.is_empty() && !t.out_of_consensus.is_empty() => {
                let at = r.idx(t.out_of_consensus.len());
                t.out_of_consensus[at] = *r.pick(&honest);
                "blame moved"
            }
            15 if !t.error_committers.is_empty() => {
                let free: Vec<usize> = people.iter().copied().filter(|i| !t.error_committers.contains(&who(*i).pkh)).collect();
                let at = r.idx(t.error_committers.len());
                t.error_committers[at] = who(*r.pick(&free)).pkh;
                "failure moved"
            }
            16 if reveals > 0 => {
                // All of it worked out again from another opinion
                let k = consensus();
                t = judged_tally(&pool, &q, k.collateral_minimum, &w, many, v, |liars, errors| {
                    for _ in 0..r.range(1, 2) {
                        let at = r.idx(liars.len());
                        match r.below(4) {
                            0 => liars.swap(at, 0),
                            1 => errors[at] = !errors[at],
                            _ => liars[at] = !liars[at],
                        }
                    }
                });
                if t.out_of_consensus.iter().collect::<HashSet<_>>() == right.out_of_consensus.iter().collect() && t.error_committers.iter().collect::<HashSet<_>>() == right.error_committers.iter().collect() {
                    continue;
                }
                "another opinion"
            }
            _ => continue,
        };
        if t == right && now == DataRequestStage::TALLY && what != "tally of the other version" {
            continue;
        }
        // Only the order of the payments differs
        if !v2 && t.outputs.len() == n && t.outputs.iter().all(|x| right.outputs.contains(x)) && right.outputs.iter().all(|x| t.outputs.contains(x)) && what == "output twice" {
            continue;
        }
        // A tally that pays nobody is the same for both
        if what == "tally of the other version" && n <= usize::from(change) && honest.is_empty() && reveals == 0 && commits == 0 {
            continue;
        }
        let t = TallyTransaction::new(t.dr_pointer, t.tally, t.outputs, t.out_of_consensus, t.error_committers);
        pool.data_request_state_mutable(&q).unwrap().set_stage(now);
        let got = c.nopanic("panic", || format!("{what}; {}", text(&t)), || validate_tally_transaction(&t, &mut pool, &k, &w, &with, Some(validators), v).is_ok());
        pool.data_request_state_mutable(&q).unwrap().set_stage(DataRequestStage::TALLY);
        let Some(got) = got else { return };
        c.eval(1);
        c.event(what);
        c.check(!got, "changed-tally-accepted", || format!("{what}; {}", text(&t)));
        c.nontrivial(&format!("{what} {:?}", t.versioned_hash(v)));
    }
    if many {
        let got = c.nopanic("panic", || text(&right), || validate_tally_transaction(&right, &mut pool, &k, &w, &HashSet::new(), Some(validators), v).is_ok());
        if let Some(got) = got {
            c.check(!got || since == V2_AT, "too-many-without-request", || text(&right));
        }
    }
}
