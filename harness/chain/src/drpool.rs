//! C24: the life of data requests: histories of the pool against a small state machine.
//! C25: settlement: what a tally pays out against what the requester and the witnesses locked.
use crate::gen::{self, New_};
use crate::mempool::{claim, signed_by};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vmon::{Case, Mon};
use witnet_data_structures::chain::tapi::*;
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::radon_error::{ErrorLike, RadonError};
use witnet_data_structures::radon_report::*;
use witnet_data_structures::transaction::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Commit,
    Reveal,
    Tally,
}
struct Req {
    out: DataRequestOutput,
    owner: PublicKeyHash,
    epoch: Epoch,
    stage: S,
    commit_round: u32,
    reveal_round: u32,
    block: Option<Hash>,
    commits: BTreeMap<PublicKeyHash, CommitTransaction>,
    reveals: BTreeMap<PublicKeyHash, RevealTransaction>,
}

fn stage(s: DataRequestStage) -> S {
    match s {
        DataRequestStage::COMMIT => S::Commit,
        DataRequestStage::REVEAL => S::Reveal,
        DataRequestStage::TALLY => S::Tally,
    }
}
const V1_8_AT: u32 = 1000;
const V2_AT: u32 = 2000;
fn versions() {
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_7, 0, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V1_8, V1_8_AT, 45);
    witnet_data_structures::register_protocol_version(ProtocolVersion::V2_0, V2_AT, 20);
}
pub fn wips(on: &[&str], epoch: Epoch) -> ActiveWips {
    let mut m = HashMap::new();
    for w in on {
        m.insert(w.to_string(), 0);
    }
    ActiveWips { active_wips: m, block_epoch: epoch }
}

pub fn lifecycle(m: &mut Mon) {
    m.rule("Histories of data requests, commits, reveals, tallies (also in the wrong stage, for unknown requests and repeated), stage updates and restarts run over the real pool and one state machine per request; after every step all queries are compared; non-trivial: a distinct history in which a request was tallied after extra rounds.");
    for k in ["requested", "committed", "revealed", "tallied", "wrong stage refused", "unknown refused", "extra commit round", "extra reveal round", "no commits", "too many witnesses", "own reveal sent", "restart"] {
        m.require(k, 20);
    }
    versions();
    let n = m.n(15_000, 400_000);
    m.run_par("histories", n, life);
    m.run_par("backup witnesses", m.n(4_000, 100_000), |c| {
        let w = if c.rng.bool() { c.rng.range(0, 300) as u16 } else { c.rng.edgy_u32() as u16 };
        let round = if c.rng.bool() { c.rng.range(0, 8) as u16 } else { c.rng.edgy_u32() as u16 };
        let got = c.nopanic("panic", || format!("{w} {round}"), || calculate_backup_witnesses(w, round));
        let factor: u128 = 1u128 << (round.max(1) as u32 - 1).min(40);
        let want = ((w as u128 * factor.min(65535)).min(65535) / 2) as u16;
        c.eval(1);
        c.check(got == Some(want), "backup-witnesses", || format!("{w} witnesses, round {round}: {got:?}, expected {want}"));
    });
}

fn life(c: &mut Case) {
    let extra = c.rng.below(4) as u16;
    let base = *c.rng.pick(&[10u32, 995, 1990, 2500]);
    let mut epoch = base;
    let keys: Vec<PublicKey> = (0..6)
        .map(|_| {
            let mut b: [u8; 33] = c.rng.arr();
            b[0] = 2;
            PublicKey::from_bytes(b)
        })
        .collect();
    let me = &keys[0];
    let mut validators = c.rng.range(1, 60) as usize;
    let mut pool = DataRequestPool::new(extra);
    let mut model: BTreeMap<Hash, Req> = BTreeMap::new();
    let mut mine: BTreeMap<Hash, RevealTransaction> = BTreeMap::new();
    let mut done: Vec<Hash> = vec![];
    let mut done_info: BTreeMap<Hash, (Req, TallyTransaction, Hash)> = BTreeMap::new();
    let mut trace = format!("x{extra} v{validators} ");
    let mut interesting = false;
    let steps = c.rng.range(6, 40);
    for _ in 0..steps {
        c.eval(1);
        let ids: Vec<Hash> = model.keys().copied().collect();
        let target = match c.rng.below(12) {
            0 => Hash::SHA256(c.rng.arr()),
            1 if !done.is_empty() => *c.rng.pick(&done),
            _ if !ids.is_empty() => *c.rng.pick(&ids),
            _ => Hash::SHA256(c.rng.arr()),
        };
        match c.rng.below(16) {
            0..=2 => {
                let mut o = gen::dro(&mut c.rng);
                o.witnesses = c.rng.range(1, 5) as u16;
                if c.rng.chance(1, 6) {
                    o.witnesses = c.rng.range(1, 200) as u16;
                }
                o.witness_reward = c.rng.below(1 << 40);
                o.commit_and_reveal_fee = c.rng.below(1 << 40);
                o.collateral = if c.rng.bool() { 0 } else { c.rng.below(1 << 40) };
                let k = c.rng.idx(6);
                let t = DRTransaction::new(DRTransactionBody::new(gen::many(&mut c.rng, 2, gen::input), o.clone(), vec![]), vec![signed_by(&keys[k])]);
                let h = t.versioned_hash(ProtocolVersion::from_epoch(epoch));
                let b = Hash::SHA256(c.rng.arr());
                trace += &format!("D{}@{epoch} ", o.witnesses);
                c.event("requested");
                let r = pool.process_data_request(&t, epoch, Some(b));
                c.check(r.is_ok(), "request-refused", || format!("{r:?}; {trace}"));
                let unsigned = DRTransaction::new(t.body.clone(), vec![]);
                c.check(pool.clone().process_data_request(&unsigned, epoch, Some(b)).is_err(), "unsigned-request", || trace.clone());
                model.insert(h, Req { out: o, owner: keys[k].pkh(), epoch, stage: S::Commit, commit_round: 0, reveal_round: 0, block: Some(b), commits: BTreeMap::new(), reveals: BTreeMap::new() });
            }
            3..=6 => {
                for _ in 0..c.rng.range(1, 3) {
                    let k = c.rng.idx(6);
                    let t = CommitTransaction::new(
                        CommitTransactionBody::new(target, Hash::SHA256(c.rng.arr()), claim(&keys[k]), gen::many(&mut c.rng, 1, gen::input), vec![], None),
                        vec![signed_by(&keys[k])],
                    );
                    let before = pool.clone();
                    let r = c.nopanic("panic", || trace.clone(), || pool.process_commit(&t, epoch, &Hash::default()));
                    let Some(r) = r else { return };
                    trace += "C ";
                    match model.get_mut(&target) {
                        Some(q) if q.stage == S::Commit => {
                            c.event("committed");
                            c.check(r.is_ok(), "commit-refused", || format!("{r:?}; {trace}"));
                            q.commits.insert(keys[k].pkh(), t);
                            if k == 0 || c.rng.chance(1, 8) {
                                let rev = RevealTransaction::new(RevealTransactionBody::new(target, gen::blob(&mut c.rng, 5), me.pkh()), vec![signed_by(me)]);
                                pool.insert_reveal(target, rev.clone());
                                mine.insert(target, rev);
                            }
                        }
                        q => {
                            c.event(if q.is_some() { "wrong stage refused" } else { "unknown refused" });
                            c.check(r.is_err() && pool == before, "commit-accepted", || format!("{:?}; {trace}", q.map(|q| q.stage)));
                        }
                    }
                }
            }
            7..=9 => {
                let committers: Vec<usize> = match model.get(&target) {
                    Some(q) => (0..6).filter(|k| q.commits.contains_key(&keys[*k].pkh())).collect(),
                    None => vec![0],
                };
                for k in committers {
                    if c.rng.chance(1, 3) {
                        continue;
                    }
                    let t = RevealTransaction::new(RevealTransactionBody::new(target, gen::blob(&mut c.rng, 6), keys[k].pkh()), vec![signed_by(&keys[k])]);
                    let before = pool.clone();
                    let Some(r) = c.nopanic("panic", || trace.clone(), || pool.process_reveal(&t, epoch, &Hash::default())) else { return };
                    trace += "R ";
                    match model.get_mut(&target) {
                        Some(q) if q.stage == S::Reveal => {
                            c.event("revealed");
                            c.check(r.is_ok(), "reveal-refused", || format!("{r:?}; {trace}"));
                            q.reveals.insert(keys[k].pkh(), t);
                        }
                        q => {
                            c.event(if q.is_some() { "wrong stage refused" } else { "unknown refused" });
                            c.check(r.is_err() && pool == before, "reveal-accepted", || format!("{:?}; {trace}", q.map(|q| q.stage)));
                        }
                    }
                }
            }
            10 | 11 => {
                let t = TallyTransaction::new(target, gen::blob(&mut c.rng, 8), gen::many(&mut c.rng, 2, gen::vto), vec![], vec![]);
                let b = Hash::SHA256(c.rng.arr());
                let before = pool.clone();
                let Some(r) = c.nopanic("panic", || trace.clone(), || pool.process_tally(&t, &b)) else { return };
                trace += "T ";
                match model.get(&target).map(|q| q.stage) {
                    Some(S::Tally) => {
                        c.event("tallied");
                        c.check(r.is_ok(), "tally-refused", || format!("{r:?}; {trace}"));
                        let q = model.remove(&target).unwrap();
                        interesting |= q.commit_round > 1 || q.reveal_round > 1;
                        done.push(target);
                        done_info.insert(target, (q, t, b));
                    }
                    s => {
                        c.event(if s.is_some() { "wrong stage refused" } else { "unknown refused" });
                        c.check(r.is_err() && pool == before, "tally-accepted", || format!("{s:?}: {r:?}; {trace}"));
                    }
                }
            }
            12..=14 => {
                // End of a block.
                epoch += c.rng.range(1, 4) as u32;
                let now = epoch;
                // validators come and go while requests are in flight
                if c.rng.chance(1, 3) {
                    validators = c.rng.range(1, 60) as usize;
                }
                trace += &format!("U@{now} v{validators} ");
                let mut want = BTreeSet::new();
                for (h, q) in model.iter_mut() {
                    // settled by the block that includes the request, once wit/2 is there
                    if now >= V2_AT && q.epoch > V2_AT && q.out.witnesses as usize > validators / 4 {
                        c.event("validators left a request in flight");
                    }
                    let too_many = now >= V2_AT && q.epoch <= V2_AT && q.out.witnesses as usize > validators / 4;
                    match q.stage {
                        S::Commit if q.commits.is_empty() => {
                            if too_many {
                                c.event("too many witnesses");
                                q.stage = S::Tally;
                            } else if q.commit_round <= extra as u32 {
                                c.event("extra commit round");
                                q.commit_round += 1;
                            } else {
                                c.event("no commits");
                                q.stage = S::Tally;
                            }
                        }
                        S::Commit => {
                            q.stage = S::Reveal;
                            q.reveal_round = 1;
                        }
                        S::Reveal => {
                            if q.reveals.len() < q.out.witnesses as usize && q.reveal_round <= extra as u32 {
                                c.event("extra reveal round");
                                q.reveal_round += 1;
                            } else {
                                q.stage = S::Tally;
                            }
                        }
                        S::Tally => {}
                    }
                    if q.stage == S::Tally {
                        mine.remove(h);
                    }
                    if q.stage == S::Reveal && q.commits.contains_key(&me.pkh()) && !q.reveals.contains_key(&me.pkh()) {
                        if let Some(t) = mine.get(h) {
                            want.insert(t.hash());
                        }
                    }
                }
                let got = c.nopanic("panic", || trace.clone(), || pool.update_data_request_stages(Some(validators), Some(now)));
                if let Some(got) = got {
                    let n = got.len();
                    c.events("own reveal sent", n as u64);
                    let got: BTreeSet<Hash> = got.iter().map(|t| t.hash()).collect();
                    c.check(got == want && n == want.len(), "own-reveals", || format!("{got:?}, expected {want:?}; {trace}"));
                }
            }
            _ => {
                if c.rng.bool() {
                    c.event("restart");
                    trace += "restart ";
                    let b = bincode::serialize(&pool).unwrap();
                    match bincode::deserialize::<DataRequestPool>(&b) {
                        Ok(p) => {
                            c.check(p == pool, "restart", || trace.clone());
                            pool = p;
                        }
                        Err(e) => {
                            c.violate("restart", format!("{e}; {trace}"));
                            return;
                        }
                    }
                } else {
                    let infos = pool.finished_data_requests();
                    c.check(infos.len() == done_info.len(), "finished-count", || format!("{} finished, expected {}; {trace}", infos.len(), done_info.len()));
                    for i in infos {
                        let Some(h) = i.tally.as_ref().map(|t| t.dr_pointer) else {
                            c.violate("finished-without-tally", trace.clone());
                            continue;
                        };
                        let Some((q, t, b)) = done_info.remove(&h) else {
                            c.violate("finished-twice", trace.clone());
                            continue;
                        };
                        let ok = i.tally.as_ref() == Some(&t) && i.block_hash_tally_tx == Some(b) && i.block_hash_dr_tx == q.block && i.current_stage.is_none()
                            && i.commits == q.commits.clone().into_iter().collect() && i.reveals == q.reveals.clone().into_iter().collect()
                            && i.current_commit_round as u32 == q.commit_round && i.current_reveal_round as u32 == q.reveal_round;
                        c.check(ok, "finished-record", || format!("{i:?}; {trace}"));
                    }
                    c.check(pool.finished_data_requests().is_empty(), "finished-twice", || trace.clone());
                    done_info.clear();
                }
            }
        }
        if !same(c, &pool, &model, &done, epoch, &trace) {
            return;
        }
    }
    if interesting {
        c.nontrivial(&trace);
        c.sample(|| trace.clone());
    }
}

fn same(c: &mut Case, pool: &DataRequestPool, model: &BTreeMap<Hash, Req>, done: &[Hash], epoch: Epoch, trace: &str) -> bool {
    let mut ok = true;
    for (h, q) in model {
        let Some(s) = pool.data_request_state(h) else {
            return c.check(false, "request-lost", || format!("{h}; {trace}"));
        };
        ok &= c.check(
            stage(s.stage) == q.stage && s.info.current_stage.map(stage) == Some(q.stage),
            "stage",
            || format!("{h}: {:?} / {:?}, expected {:?}; {trace}", s.stage, s.info.current_stage, q.stage),
        );
        ok &= c.check(
            s.info.current_commit_round as u32 == q.commit_round && s.info.current_reveal_round as u32 == q.reveal_round,
            "rounds",
            || format!("{h}: {} {}, expected {} {}; {trace}", s.info.current_commit_round, s.info.current_reveal_round, q.commit_round, q.reveal_round),
        );
        ok &= c.check(s.pkh == q.owner && s.epoch == q.epoch && s.data_request == q.out && s.info.block_hash_dr_tx == q.block && s.info.tally.is_none(), "record", || format!("{h}: {s:?}; {trace}"));
        ok &= c.check(s.info.commits == q.commits.clone().into_iter().collect() && s.info.reveals == q.reveals.clone().into_iter().collect(), "answers", || format!("{h}: {:?}; {trace}", s.info));
        ok &= c.check(pool.get_dr_output(h).as_ref() == Some(&q.out), "output", || trace.to_string());
        let w = q.out.witnesses as u64;
        let want = ((w << q.commit_round.max(1).min(20) >> 1).min(65535) / 2) as u16;
        ok &= c.check(s.backup_witnesses() == want, "backup", || format!("{} for {w} witnesses in round {}, expected {want}", s.backup_witnesses(), q.commit_round));
    }
    for h in done {
        ok &= c.check(model.contains_key(h) || (pool.data_request_state(h).is_none() && pool.get_dr_output(h).is_none()), "finished-request-present", || format!("{h}; {trace}"));
    }
    ok &= c.check(pool.data_request_pool.len() == model.len(), "request-count", || format!("{} requests, expected {}; {trace}", pool.data_request_pool.len(), model.len()));
    for e in [epoch, epoch.saturating_sub(3), epoch.saturating_sub(9)] {
        let l = pool.get_dr_output_pointers_by_epoch(e);
        let n = l.len();
        let got: BTreeSet<Hash> = l.into_iter().collect();
        let want: BTreeSet<Hash> = model.iter().filter(|(_, q)| q.stage == S::Commit && q.epoch <= e).map(|(h, _)| *h).collect();
        ok &= c.check(got == want && n == got.len(), "open-for-commit", || format!("up to {e}: {got:?}, expected {want:?}; {trace}"));
    }
    let got: BTreeSet<Hash> = pool.get_tally_ready_drs().into_iter().collect();
    let want: BTreeSet<Hash> = model.iter().filter(|(_, q)| q.stage == S::Tally).map(|(h, _)| *h).collect();
    ok &= c.check(got == want, "tally-ready", || format!("{got:?}, expected {want:?}; {trace}"));
    for w in [wips(&[], epoch), wips(&["WIP0017-0018-0019"], epoch)] {
        let order = |h: &Hash, q: &Req| -> Vec<Hash> {
            let mut v: Vec<(Vec<u8>, Hash)> = q
                .reveals
                .iter()
                .map(|(k, t)| {
                    let b = if w.wip0019() {
                        let mut x = k.as_ref().to_vec();
                        x.extend(h.as_ref());
                        vref::hash::sha256(&x).to_vec()
                    } else {
                        k.as_ref().to_vec()
                    };
                    (b, t.hash())
                })
                .collect();
            v.sort();
            v.into_iter().map(|x| x.1).collect()
        };
        let all = pool.get_all_reveals(&w);
        for (h, q) in model {
            let want = order(h, q);
            let got: Option<Vec<Hash>> = pool.get_reveals(h, &w).map(|v| v.iter().map(|t| t.hash()).collect());
            ok &= c.check(got.as_ref() == Some(&want), "reveal-order", || format!("{got:?}, expected {want:?}; {trace}"));
            let expect = if q.stage == S::Tally { Some(want) } else { None };
            let got: Option<Vec<Hash>> = all.get(h).map(|v| v.iter().map(|t| t.hash()).collect());
            ok &= c.check(got == expect, "reveals-to-tally", || format!("{got:?}, expected {expect:?}; {trace}"));
        }
        ok &= c.check(all.keys().all(|h| model.contains_key(h)), "reveals-to-tally", || trace.to_string());
    }
    let min = 1_000_000_007u64;
    let mut want: i128 = 0;
    for q in model.values() {
        let o = &q.out;
        let total = (o.witness_reward as i128 + 2 * o.commit_and_reveal_fee as i128) * o.witnesses as i128;
        let coll = if o.collateral == 0 { min } else { o.collateral } as i128;
        want += total;
        if q.stage != S::Commit {
            let (n, k) = (q.commits.len() as i128, q.reveals.len() as i128);
            want = want + n * coll - (n + k) * o.commit_and_reveal_fee as i128;
        }
    }
    // Only whole, unsaturated sums are compared: more committers than witnesses cannot happen on chain.
    if model.values().all(|q| q.commits.len() <= q.out.witnesses as usize) {
        let got = pool.locked_wits_by_requests(min);
        ok &= c.check(got as i128 == want, "locked-wits", || format!("{got}, expected {want}; {trace}"));
    }
    ok
}

// --- settlement

#[derive(Clone, Debug)]
struct Res(bool, Vec<u8>);
#[derive(Clone, Debug)]
struct Failed;
impl std::fmt::Display for Failed {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("failed")
    }
}
impl std::error::Error for Failed {}
impl ErrorLike for Failed {
    fn encode_cbor_array(&self) -> Result<Vec<serde_cbor::Value>, anyhow::Error> {
        Ok(vec![])
    }
    fn decode_cbor_array(_: Vec<serde_cbor::Value>) -> Result<RadonError<Self>, anyhow::Error> {
        anyhow::bail!("not used")
    }
}
impl TypeLike for Res {
    type Error = Failed;
    fn encode(&self) -> Result<Vec<u8>, Failed> {
        if self.0 {
            Ok(self.1.clone())
        } else {
            Err(Failed)
        }
    }
    fn intercept(r: Result<Self, Failed>) -> Self {
        r.unwrap_or(Res(false, vec![]))
    }
}

pub fn settlement(m: &mut Mon) {
    m.rule("Random settlements: committers, revealers, lies and errors, rewards, fees and collaterals up to the supply, under every combination of consensus rules; the tally transaction is compared output by output with an independent settlement and all value is accounted for; non-trivial: a distinct settlement with at least one lie, one error or one missing reveal.");
    for k in ["all honest", "nobody honest", "some lied", "some failed", "some silent", "nobody committed", "collateral burned", "collateral shared", "staking rules", "old rules"] {
        m.require(k, 20);
    }
    let n = m.n(300_000, 6_000_000);
    m.run_par("settlements", n, settle);
}

fn settle(c: &mut Case) {
    let r = &mut c.rng;
    let witnesses = if r.chance(1, 20) { r.range(1, 200) } else { r.range(1, 8) } as usize;
    let commits = match r.below(6) {
        0 => 0,
        1 => r.idx(witnesses + 1),
        _ => witnesses,
    };
    let reveals = match r.below(5) {
        0 => r.idx(commits + 1),
        1 => 0,
        _ => commits,
    };
    // True means "out of consensus" / "an error".
    let p = r.below(4);
    let liars: Vec<bool> = (0..reveals).map(|_| r.below(4) < p && r.bool()).collect();
    let q = r.below(3);
    let errors: Vec<bool> = (0..reveals).map(|_| r.below(4) < q && r.bool()).collect();
    let big = 1u64 << r.range(1, 50);
    let mut o = gen::dro(r);
    o.witnesses = witnesses as u16;
    o.witness_reward = r.below(big);
    o.commit_and_reveal_fee = r.below(big);
    o.collateral = if r.chance(1, 3) { 0 } else { r.below(big) + 1 };
    let min = r.below(big) + 1;
    let coll = if o.collateral == 0 { min } else { o.collateral };
    let version = *r.pick(&[ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1]);
    let rules: &[&str] = match r.below(4) {
        0 => &[],
        1 => &["WIP0009-0011-0012"],
        _ => &["WIP0009-0011-0012", "WIP0023"],
    };
    let w = wips(rules, 5);
    let new = rules.contains(&"WIP0009-0011-0012");
    let burn = rules.contains(&"WIP0023");
    let mut people: Vec<PublicKeyHash> = (0..commits).map(|_| PublicKeyHash::from_bytes(&r.arr::<20>()).unwrap()).collect();
    people.dedup();
    if people.len() != commits {
        return;
    }
    let owner = if !people.is_empty() && r.chance(1, 5) { *r.pick(&people) } else { PublicKeyHash::from_bytes(&r.arr::<20>()).unwrap() };
    let honest: Vec<PublicKeyHash> = (0..reveals).filter(|i| !liars[*i]).map(|i| people[i]).collect();
    let lied = liars.iter().zip(&errors).filter(|(l, e)| **l && !**e).count();
    let failed = liars.iter().zip(&errors).filter(|(l, e)| **l && **e).count();
    let silent = commits - reveals;
    // Under the old rules a settlement with revealers but no honest one divided by zero; it never happens
    // on chain, where the mode always leaves someone in consensus.
    if !new && reveals > 0 && honest.is_empty() {
        return;
    }
    let h = gen::hash(r);
    let bytes = gen::blob(r, 20);
    let encodes = r.chance(9, 10);
    let meta = TallyMetaData { consensus: 1.0, liars: liars.clone(), errors: errors.clone(), subscript_partial_results: vec![] };
    let report = RadonReport { context: ReportContext::from_stage(Stage::Tally(meta)), partial_results: None, result: Res(encodes, bytes.clone()), running_time: Default::default() };
    let set: HashSet<PublicKeyHash> = people.iter().copied().collect();
    let ctx = format!("witnesses {witnesses}, commits {commits}, reveals {reveals}, liars {liars:?}, errors {errors:?}, reward {}, fee {}, collateral {coll}, rules {rules:?}, {version:?}", o.witness_reward, o.commit_and_reveal_fee);
    c.eval(1);
    for (k, yes) in [
        ("all honest", honest.len() == witnesses),
        ("nobody honest", honest.is_empty() && reveals > 0),
        ("some lied", lied > 0),
        ("some failed", failed > 0),
        ("some silent", silent > 0),
        ("nobody committed", commits == 0),
        ("collateral burned", burn && lied + silent > 0 && !honest.is_empty()),
        ("collateral shared", new && !burn && lied + silent > 0 && !honest.is_empty()),
        ("staking rules", version >= ProtocolVersion::V2_0),
        ("old rules", !new),
    ] {
        if yes {
            c.event(k);
        }
    }
    let fallback = vec![0xde, 0xad];
    let got = c.nopanic("panic", || ctx.clone(), || create_tally(h, &o, owner, &report, people[..reveals].to_vec(), set, min, fallback.clone(), &w, version));
    let Some(t) = got else { return };
    c.check(t.dr_pointer == h, "pointer", || ctx.clone());
    c.check(t.tally == if encodes { bytes } else { fallback }, "result", || format!("{:?}; {ctx}", t.tally));

    // The settlement as the rules have it.
    let nobody = if new { honest.is_empty() } else { reveals == 0 };
    let punished = (lied + silent) as u128;
    let mut want: Vec<(PublicKeyHash, u128)> = vec![];
    let mut leftover: u128 = 0;
    let mut burned: u128 = 0;
    let share = if honest.is_empty() { 0 } else { coll as u128 * punished / honest.len() as u128 };
    if nobody {
        want.extend(people.iter().map(|p| (*p, coll as u128)));
    } else {
        for i in 0..reveals {
            if !liars[i] {
                want.push((people[i], o.witness_reward as u128 + coll as u128 + if new && burn { 0 } else { share }));
            } else if errors[i] {
                want.push((people[i], coll as u128));
            }
        }
        if new && burn {
            burned = coll as u128 * punished;
        } else {
            leftover = coll as u128 * punished - share * honest.len() as u128;
        }
    }
    if version >= ProtocolVersion::V2_0 {
        want.clear();
    }
    let (n, f) = (witnesses as u128, o.commit_and_reveal_fee as u128);
    let change = o.witness_reward as u128 * (n - honest.len() as u128) + f * (n - reveals as u128) + f * (n - commits as u128);
    let mut sorted = |v: &mut Vec<(PublicKeyHash, u128)>| v.sort();
    let mut got: Vec<(PublicKeyHash, u128)> = t.outputs.iter().map(|x| (x.pkh, x.value as u128)).collect();
    let last = got.last().copied();
    if change > 0 {
        c.check(last == Some((owner, change)), "change", || format!("the last output is {last:?}, expected {change} for the requester; {ctx}"));
        got.pop();
    }
    sorted(&mut got);
    sorted(&mut want);
    c.check(got == want, "payments", || format!("{got:?}, expected {want:?}; {ctx}"));
    c.check(t.outputs.iter().all(|x| x.time_lock == 0), "time-lock", || ctx.clone());
    // Nothing is created or lost: request value + collaterals = payments + fees + leftover + burned.
    if version < ProtocolVersion::V2_0 {
        let input = n * (o.witness_reward as u128 + 2 * f) + commits as u128 * coll as u128;
        let paid: u128 = t.outputs.iter().map(|x| x.value as u128).sum();
        let fees = f * (commits + reveals) as u128;
        c.check(paid + fees + leftover + burned == input, "value-created-or-lost", || format!("in {input}, paid {paid}, fees {fees}, leftover {leftover}, burned {burned}; {ctx}"));
        // What validation adds up for the miner is exactly that leftover.
        let (_, extra) = if new {
            calculate_witness_reward(commits, lied + silent, failed, o.witness_reward, coll, burn)
        } else {
            calculate_witness_reward_before_second_hard_fork(commits, reveals, lied + silent, failed, o.witness_reward, coll)
        };
        c.check(extra as u128 == leftover, "leftover", || format!("{extra}, expected {leftover}; {ctx}"));
    } else {
        let input = n * (o.witness_reward as u128 + 2 * f);
        let paid: u128 = t.outputs.iter().map(|x| x.value as u128).sum();
        let rewards = honest.len() as u128 * o.witness_reward as u128;
        c.check(paid + f * (commits + reveals) as u128 + rewards == input, "value-created-or-lost", || format!("in {input}, paid {paid}; {ctx}"));
    }
    // Who is marked.
    let out: BTreeSet<_> = t.out_of_consensus.iter().copied().collect();
    let want_out: BTreeSet<_> = people.iter().filter(|p| nobody || !honest.contains(p)).copied().collect();
    c.check(out == want_out && out.len() == t.out_of_consensus.len(), "out-of-consensus", || format!("{out:?}, expected {want_out:?}; {ctx}"));
    let err: BTreeSet<_> = t.error_committers.iter().copied().collect();
    let want_err: BTreeSet<_> = (0..reveals).filter(|i| if nobody { new } else { errors[*i] }).map(|i| people[i]).collect();
    c.check(err == want_err && err.len() == t.error_committers.len(), "error-committers", || format!("{err:?}, expected {want_err:?}; {ctx}"));
    if lied + failed + silent > 0 {
        c.nontrivial(&ctx);
        c.sample(|| ctx.clone());
    }
}
#[allow(unused)]
fn _unused<T: New_>() {}
