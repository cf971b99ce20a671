//! C23: histories of the pool of pending transactions against a plain model.
use crate::gen;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::*;
use witnet_data_structures::data_request::DataRequestPool;
use witnet_data_structures::transaction::*;
use witnet_data_structures::vrf::*;
use witnet_data_structures::proto::schema::witnet as pb;
use witnet_data_structures::proto::ProtobufConvert;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
enum Kind {
    Vt,
    Dr,
    St,
    Ut,
}
const KINDS: [Kind; 4] = [Kind::Vt, Kind::Dr, Kind::St, Kind::Ut];

#[derive(Clone)]
struct Pending {
    kind: Kind,
    tx: Transaction,
    fee: u64,
    weight: u64,
    spends: BTreeSet<OutputPointer>,
}
impl Pending {
    /// Fee per weight unit, compared exactly.
    fn prio(&self) -> f64 {
        self.fee as f64 / self.weight as f64
    }
}
struct Model {
    txs: BTreeMap<Hash, Pending>,
    commits: BTreeMap<(Hash, PublicKeyHash), CommitTransaction>,
    reveals: BTreeMap<(Hash, PublicKeyHash), RevealTransaction>,
    limit: u64,
    factor: f64,
    min_fee: u64,
    ratio: u64,
    collateral_min: u64,
    recent: Vec<Hash>,
    older: Vec<Hash>,
}
impl Model {
    fn weight(&self, k: Kind) -> u64 {
        self.txs.values().filter(|p| p.kind == k).map(|p| p.weight).sum()
    }
    fn total(&self) -> u64 {
        self.weight(Kind::Vt) + self.weight(Kind::Dr) + self.weight(Kind::St)
    }
    /// Best first; equal priorities are ordered by hash, larger first.
    fn sorted(&self, k: Kind) -> Vec<Hash> {
        let mut v: Vec<(f64, Hash)> = self.txs.iter().filter(|(_, p)| p.kind == k).map(|(h, p)| (p.prio(), *h)).collect();
        v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap().then(b.1.cmp(&a.1)));
        v.into_iter().map(|x| x.1).collect()
    }
    fn evict(&mut self) -> Vec<Hash> {
        let mut out = vec![];
        while self.total() > self.limit {
            let more_vt = self.weight(Kind::Vt) as f64 >= self.weight(Kind::Dr) as f64 * self.factor;
            let order = if more_vt { [Kind::Vt, Kind::Dr, Kind::St] } else { [Kind::Dr, Kind::Vt, Kind::St] };
            let Some(h) = order.iter().find_map(|k| self.sorted(*k).last().copied()) else { break };
            self.txs.remove(&h);
            out.push(h);
        }
        out
    }
    fn drop_spenders(&mut self, of: &BTreeSet<OutputPointer>) {
        self.txs.retain(|_, p| p.spends.is_disjoint(of));
    }
}

pub fn claim(pk: &PublicKey) -> DataRequestEligibilityClaim {
    let mut p = pb::VrfProof::new_();
    p.set_proof(vec![1; 81]);
    p.set_public_key(pk.to_pb());
    DataRequestEligibilityClaim { proof: VrfProof::from_pb(p).unwrap() }
}
use gen::New_;

pub fn signed_by(pk: &PublicKey) -> KeyedSignature {
    KeyedSignature { signature: Signature::Secp256k1(Secp256k1Signature { der: vec![1; 70] }), public_key: pk.clone() }
}

fn some_inputs(r: &mut Rng, coins: &[OutputPointer]) -> Vec<Input> {
    (0..r.range(1, 3)).map(|_| Input::new(*r.pick(coins))).collect()
}

pub fn histories(m: &mut Mon) {
    m.rule("Histories of insertions, removals, confirmations, evictions, commit and reveal collection and clearing run over the real pool and a plain model; after every step contents, order, weights and answers are compared; non-trivial: a distinct history with a conflict resolution and an eviction or collected commits.");
    for k in ["insert vt", "insert dr", "insert st", "insert ut", "evicted", "refused fee", "refused ratio", "confirmed", "conflict removed", "commits collected", "reveals collected", "unconfirmed dropped", "limit changed"] {
        m.require(k, 20);
    }
    let n = m.n(15_000, 400_000);
    m.run_par("histories", n, history);
}

fn history(c: &mut Case) {
    let coins: Vec<OutputPointer> = (0..c.rng.range(2, 12)).map(|_| gen::ptr(&mut c.rng)).collect();
    let keys: Vec<PublicKey> = (0..5)
        .map(|_| {
            let mut b: [u8; 33] = c.rng.arr();
            b[0] = 2;
            PublicKey::from_bytes(b)
        })
        .collect();
    let mut pool = TransactionsPool::new();
    let mut m = Model {
        txs: BTreeMap::new(),
        commits: BTreeMap::new(),
        reveals: BTreeMap::new(),
        limit: u64::MAX,
        factor: 1.0,
        min_fee: 0,
        ratio: u64::MAX,
        collateral_min: 0,
        recent: vec![],
        older: vec![],
    };
    if c.rng.bool() {
        m.min_fee = c.rng.below(100);
        pool.set_minimum_vtt_fee(m.min_fee);
    }
    if c.rng.bool() {
        let min = c.rng.below(1000);
        m.collateral_min = 20 * min;
        pool.set_collateral_minimum(min);
        m.ratio = c.rng.range(1, 300);
        pool.set_required_reward_collateral_ratio(m.ratio);
    }
    let mut drs = DataRequestPool::new(1);
    let mut known_drs: Vec<(Hash, DataRequestOutput)> = vec![];
    for _ in 0..c.rng.below(3) {
        let mut o = gen::dro(&mut c.rng);
        o.witnesses = c.rng.range(1, 3) as u16;
        o.commit_and_reveal_fee = c.rng.below(1 << 40);
        let t = DRTransaction::new(DRTransactionBody::new(vec![], o.clone(), vec![]), vec![signed_by(&keys[0])]);
        let h = t.hash();
        drs.add_data_request(0, t, None).unwrap();
        known_drs.push((h, o));
    }
    let unknown = Hash::SHA256(c.rng.arr());
    let mut trace = String::new();
    let (mut conflict, mut busy) = (false, false);
    let mut seen: Vec<Transaction> = vec![];
    let steps = c.rng.range(5, 40);
    for _ in 0..steps {
        c.eval(1);
        let dice = c.rng.below(24);
        match dice {
            0..=10 => {
                let kind = match c.rng.below(8) {
                    0..=2 => Kind::Vt,
                    3..=5 => Kind::Dr,
                    6 => Kind::St,
                    _ => Kind::Ut,
                };
                let r = &mut c.rng;
                let tx = if !seen.is_empty() && r.chance(1, 6) {
                    r.pick(&seen).clone()
                } else {
                    match kind {
                        Kind::Vt => Transaction::ValueTransfer(VTTransaction::new(
                            VTTransactionBody::new(some_inputs(r, &coins), (0..r.range(1, 3)).map(|_| gen::vto(r)).collect()),
                            vec![],
                        )),
                        Kind::Dr => {
                            let mut o = gen::dro(r);
                            o.collateral = if r.bool() { 0 } else { r.below(5000) };
                            o.witness_reward = r.below(60);
                            o.witnesses = r.range(1, 4) as u16;
                            let ins = some_inputs(r, &coins);
                            Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(ins, o, gen::many(r, 1, gen::vto)), vec![signed_by(&keys[0])]))
                        }
                        Kind::St => {
                            let mut s = gen::stake(r);
                            s.body = StakeTransactionBody::new(some_inputs(r, &coins), s.body.output.clone(), s.body.change.clone());
                            Transaction::Stake(s)
                        }
                        Kind::Ut => Transaction::Unstake(gen::unstake(r)),
                    }
                };
                insert(c, &mut pool, &mut m, tx, &mut seen, &mut trace, &mut busy);
            }
            11 | 12 => {
                // A block confirms a transaction: from the pool, or one the pool has never seen.
                let from_pool = c.rng.bool();
                let tx = match (from_pool, m.txs.values().nth(c.rng.idx(m.txs.len().max(1)))) {
                    (true, Some(p)) => p.tx.clone(),
                    _ => {
                        let ins = some_inputs(&mut c.rng, &coins);
                        match c.rng.below(3) {
                            0 => Transaction::ValueTransfer(VTTransaction::new(VTTransactionBody::new(ins, vec![gen::vto(&mut c.rng)]), vec![])),
                            1 => Transaction::DataRequest(DRTransaction::new(DRTransactionBody::new(ins, gen::dro(&mut c.rng), vec![]), vec![])),
                            _ => {
                                let s = gen::stake(&mut c.rng);
                                Transaction::Stake(StakeTransaction::new(StakeTransactionBody::new(ins, s.body.output.clone(), None), vec![]))
                            }
                        }
                    }
                };
                confirm(c, &mut pool, &mut m, &tx, &mut trace, &mut conflict);
            }
            13 => {
                // A commit, reveal or tally in a block spends outputs.
                let ins = some_inputs(&mut c.rng, &coins);
                let of: BTreeSet<_> = ins.iter().map(|i| *i.output_pointer()).collect();
                let before = m.txs.len();
                m.drop_spenders(&of);
                if m.txs.len() < before {
                    c.event("conflict removed");
                    conflict = true;
                }
                trace += "I ";
                c.nopanic("panic", || trace.clone(), || pool.remove_inputs(&ins));
            }
            14 => {
                let limit = match c.rng.below(4) {
                    0 => 0,
                    1 => u64::MAX,
                    _ => {
                        let t = m.total();
                        c.rng.below(t + 2)
                    }
                };
                m.limit = limit;
                m.factor = *c.rng.pick(&[1.0, 0.5, 4.0, 0.0, 1e9]);
                let want = m.evict();
                trace += &format!("L{limit}/{} ", m.factor);
                c.event("limit changed");
                let f = m.factor;
                if let Some(got) = c.nopanic("panic", || trace.clone(), || pool.set_total_weight_limit(limit, f)) {
                    let got: Vec<Hash> = got.iter().map(|t| t.hash()).collect();
                    busy |= !got.is_empty();
                    c.events("evicted", got.len() as u64);
                    c.check(got == want, "evicted", || format!("removed {got:?}, lowest fees per weight are {want:?}; {trace}"));
                }
            }
            15 | 16 => {
                let d = if !known_drs.is_empty() && c.rng.chance(4, 5) { c.rng.pick(&known_drs).0 } else { unknown };
                for _ in 0..c.rng.range(1, 4) {
                    let k = &keys[c.rng.idx(keys.len())];
                    let coll = some_inputs(&mut c.rng, &coins);
                    let body = CommitTransactionBody::new(d, Hash::SHA256(c.rng.arr()), claim(k), coll, vec![], None);
                    let t = CommitTransaction::new(body, vec![signed_by(k)]);
                    let want = match m.commits.get(&(d, k.pkh())) {
                        None => Some(false),
                        Some(o) if o.hash() == t.hash() => Some(true),
                        Some(_) => None,
                    };
                    let tx = Transaction::Commit(t.clone());
                    let got = pool.contains(&tx).ok();
                    c.check(got == want, "contains-commit", || format!("{got:?}, expected {want:?}; {trace}"));
                    if got == Some(false) {
                        pool.insert(tx.clone(), 0);
                        m.commits.insert((d, k.pkh()), t);
                        trace += "C ";
                        c.check(pool.contains(&tx).ok() == Some(true), "contains-commit", || trace.clone());
                    }
                }
            }
            17 => {
                let d = if !known_drs.is_empty() && c.rng.chance(4, 5) { c.rng.pick(&known_drs).0 } else { unknown };
                for _ in 0..c.rng.range(1, 3) {
                    let k = &keys[c.rng.idx(keys.len())];
                    let t = RevealTransaction::new(RevealTransactionBody::new(d, gen::blob(&mut c.rng, 6), k.pkh()), vec![signed_by(k)]);
                    let want = match m.reveals.get(&(d, k.pkh())) {
                        None => Some(false),
                        Some(o) if o.hash() == t.hash() => Some(true),
                        Some(_) => None,
                    };
                    let tx = Transaction::Reveal(t.clone());
                    let got = pool.contains(&tx).ok();
                    c.check(got == want, "contains-reveal", || format!("{got:?}, expected {want:?}; {trace}"));
                    if got == Some(false) {
                        pool.insert(tx, 0);
                        m.reveals.insert((d, k.pkh()), t);
                        trace += "R ";
                    }
                }
            }
            18 => collect_commits(c, &mut pool, &mut m, &drs, &known_drs, &mut trace, &mut busy),
            19 => {
                let want: BTreeSet<Hash> = m.reveals.iter().filter(|((d, _), _)| known_drs.iter().any(|x| x.0 == *d)).map(|(_, t)| t.hash()).collect();
                let fee: u64 = m.reveals.keys().filter_map(|(d, _)| known_drs.iter().find(|x| x.0 == *d)).map(|x| x.1.commit_and_reveal_fee).sum();
                if let Some((got, f)) = c.nopanic("panic", || trace.clone(), || {
                    let (v, f) = pool.get_reveals(&drs);
                    (v.into_iter().cloned().collect::<Vec<_>>(), f)
                }) {
                    let n = got.len();
                    c.events("reveals collected", n as u64);
                    let got: BTreeSet<Hash> = got.iter().map(|t| t.hash()).collect();
                    c.check(got == want && n == want.len() && f == fee, "reveals", || format!("{got:?} with fee {f}, expected {want:?} with {fee}; {trace}"));
                }
                // Some of them get into a block, and finished requests are cleared.
                let keys: Vec<_> = m.reveals.keys().copied().collect();
                for k in keys {
                    match c.rng.below(4) {
                        0 => {
                            let t = m.reveals.remove(&k).unwrap();
                            trace += "r ";
                            let got = c.nopanic("panic", || trace.clone(), || pool.remove_one_reveal(&k.0, &k.1, &t.hash())).flatten();
                            c.check(got.as_ref() == Some(&t), "remove-reveal", || trace.clone());
                        }
                        1 if c.rng.chance(1, 3) => {
                            trace += "f ";
                            m.reveals.retain(|x, _| x.0 != k.0);
                            pool.clear_reveals_from_finished_dr(&k.0);
                            break;
                        }
                        _ => {}
                    }
                }
            }
            20 => {
                // The node tracks what it broadcast in the last superepochs, and drops it on a rollback.
                if c.rng.bool() {
                    for _ in 0..c.rng.below(4) {
                        if let Some(h) = m.txs.keys().nth(c.rng.idx(m.txs.len().max(1))).copied() {
                            pool.insert_unconfirmed_transactions(h);
                            m.recent.push(h);
                        }
                    }
                    if c.rng.bool() {
                        pool.update_unconfirmed_transactions();
                        m.older = std::mem::take(&mut m.recent);
                    }
                } else {
                    let mut want: Vec<Hash> = vec![];
                    for h in m.recent.drain(..).chain(m.older.drain(..)) {
                        if m.txs.remove(&h).is_some() {
                            want.push(h);
                        }
                    }
                    m.commits.clear();
                    m.reveals.clear();
                    trace += "U ";
                    c.events("unconfirmed dropped", want.len() as u64);
                    if let Some(got) = c.nopanic("panic", || trace.clone(), || pool.remove_unconfirmed_transactions()) {
                        let mut got: Vec<Hash> = got.iter().map(|t| t.hash()).collect();
                        got.sort();
                        want.sort();
                        c.check(got == want, "unconfirmed", || format!("{got:?}, expected {want:?}; {trace}"));
                    }
                }
            }
            21 => {
                let hs: Vec<Hash> = m.txs.iter().filter(|(_, p)| p.kind == Kind::St).map(|(h, _)| *h).take(2).collect();
                let hu: Vec<Hash> = m.txs.iter().filter(|(_, p)| p.kind == Kind::Ut).map(|(h, _)| *h).take(2).collect();
                let mut of = BTreeSet::new();
                for h in &hs {
                    // Removing an earlier one may already have removed it as a conflict.
                    if let Some(p) = m.txs.get(h).cloned() {
                        of.extend(p.spends);
                        m.drop_spenders(&of);
                    }
                }
                for h in &hu {
                    m.txs.remove(h);
                }
                trace += "X ";
                c.nopanic("panic", || trace.clone(), || pool.remove_invalid_stake_transactions(hs));
                c.nopanic("panic", || trace.clone(), || pool.remove_invalid_unstake_transactions(hu));
            }
            22 => {
                if c.rng.bool() {
                    trace += "s ";
                    pool.clear_stake_transactions();
                    m.txs.retain(|_, p| p.kind != Kind::St);
                } else {
                    trace += "u ";
                    pool.clear_unstake_transactions();
                    m.txs.retain(|_, p| p.kind != Kind::Ut);
                }
            }
            _ => match c.rng.below(5) {
                0 => {
                    trace += "Z ";
                    pool.clear();
                    m.txs.clear();
                    m.commits.clear();
                    m.reveals.clear();
                    m.recent.clear();
                    m.older.clear();
                }
                1 => {
                    pool.clear_commits();
                    m.commits.clear();
                }
                2 => {
                    pool.clear_reveals();
                    m.reveals.clear();
                }
                _ => {}
            },
        }
        if !agree(c, &pool, &m, &seen, &trace) {
            return;
        }
    }
    if conflict && busy {
        c.nontrivial(&trace);
        c.sample(|| trace.clone());
    }
}

fn insert(c: &mut Case, pool: &mut TransactionsPool, m: &mut Model, tx: Transaction, seen: &mut Vec<Transaction>, trace: &mut String, busy: &mut bool) {
    let h = tx.hash();
    let (kind, weight, inputs) = match &tx {
        Transaction::ValueTransfer(t) => (Kind::Vt, t.weight(), t.body.inputs.clone()),
        Transaction::DataRequest(t) => (Kind::Dr, t.weight(), t.body.inputs.clone()),
        Transaction::Stake(t) => (Kind::St, t.weight(), t.body.inputs.clone()),
        Transaction::Unstake(t) => (Kind::Ut, t.weight(), vec![]),
        _ => return,
    };
    let known = m.txs.contains_key(&h);
    let got = pool.contains(&tx).ok();
    c.check(got == Some(known), "contains", || format!("{got:?}, expected {known}; {trace}"));
    if known {
        return;
    }
    let fee = match c.rng.below(4) {
        0 => c.rng.below(50),
        1 => weight as u64 * c.rng.below(4),
        _ => c.rng.below(100_000),
    };
    *trace += &format!("{kind:?}:{fee}/{weight} ");
    let refused = match &tx {
        Transaction::ValueTransfer(_) if fee < m.min_fee => Some("refused fee"),
        Transaction::DataRequest(t) => {
            let d = &t.body.dr_output;
            let coll = if d.collateral == 0 { m.collateral_min } else { d.collateral } as u128;
            let over = if d.witness_reward == 0 {
                m.ratio != u64::MAX
            } else {
                coll > d.witness_reward as u128 * m.ratio as u128
            };
            over.then_some("refused ratio")
        }
        _ => None,
    };
    let want: Vec<Hash> = if let Some(why) = refused {
        c.event(why);
        *trace += "refused ";
        vec![h]
    } else {
        c.event(match kind {
            Kind::Vt => "insert vt",
            Kind::Dr => "insert dr",
            Kind::St => "insert st",
            Kind::Ut => "insert ut",
        });
        m.txs.insert(h, Pending { kind, tx: tx.clone(), fee, weight: weight as u64, spends: inputs.iter().map(|i| *i.output_pointer()).collect() });
        let e = m.evict();
        c.events("evicted", e.len() as u64);
        *busy |= !e.is_empty();
        e
    };
    seen.push(tx.clone());
    if let Some(got) = c.nopanic("panic", || trace.clone(), || pool.insert(tx, fee)) {
        let got: Vec<Hash> = got.iter().map(|t| t.hash()).collect();
        c.check(got == want, if refused.is_some() { "refusal" } else { "evicted" }, || format!("insert gave back {got:?}, expected {want:?}; {trace}"));
    }
}

fn confirm(c: &mut Case, pool: &mut TransactionsPool, m: &mut Model, tx: &Transaction, trace: &mut String, conflict: &mut bool) {
    let h = tx.hash();
    let had = m.txs.remove(&h).is_some();
    let ins: &[Input] = match tx {
        Transaction::ValueTransfer(t) => &t.body.inputs,
        Transaction::DataRequest(t) => &t.body.inputs,
        Transaction::Stake(t) => &t.body.inputs,
        _ => &[],
    };
    let of: BTreeSet<_> = ins.iter().map(|i| *i.output_pointer()).collect();
    let before = m.txs.len();
    m.drop_spenders(&of);
    if m.txs.len() < before {
        c.event("conflict removed");
        *conflict = true;
    }
    c.event("confirmed");
    *trace += if had { "K " } else { "k " };
    let got = c.nopanic("panic", || trace.clone(), || match tx {
        Transaction::ValueTransfer(t) => pool.vt_remove(t).map(Transaction::ValueTransfer),
        Transaction::DataRequest(t) => pool.dr_remove(t).map(Transaction::DataRequest),
        Transaction::Stake(t) => pool.st_remove(t).map(Transaction::Stake),
        Transaction::Unstake(t) => pool.ut_remove(t).map(Transaction::Unstake),
        _ => None,
    });
    if let Some(got) = got {
        let want = if had { Some(tx) } else { None };
        c.check(got.as_ref() == want, "confirm", || format!("{got:?}, expected {want:?}; {trace}"));
    }
}

fn collect_commits(c: &mut Case, pool: &mut TransactionsPool, m: &mut Model, drs: &DataRequestPool, known: &[(Hash, DataRequestOutput)], trace: &mut String, busy: &mut bool) {
    *trace += "c ";
    let Some((txs, fee, list)) = c.nopanic("panic", || trace.clone(), || pool.remove_commits(drs)) else { return };
    let mut spent = BTreeSet::new();
    let mut per: BTreeMap<Hash, BTreeSet<PublicKeyHash>> = BTreeMap::new();
    for t in &txs {
        let d = t.body.dr_pointer;
        let k = t.signatures[0].public_key.pkh();
        c.check(m.commits.get(&(d, k)) == Some(t), "foreign-commit", || format!("{t:?}; {trace}"));
        c.check(per.entry(d).or_default().insert(k), "commit-twice", || format!("{t:?}; {trace}"));
        for i in &t.body.collateral {
            c.check(spent.insert(*i.output_pointer()), "collateral-spent-twice", || format!("{i:?}; {trace}"));
        }
    }
    let want_fee: u128 = known.iter().filter(|x| per.contains_key(&x.0)).map(|x| x.1.commit_and_reveal_fee as u128 * x.1.witnesses as u128).sum();
    c.check(fee as u128 == want_fee, "commit-fees", || format!("{fee}, expected {want_fee}; {trace}"));
    for (d, o) in known {
        let n = per.get(d).map_or(0, |s| s.len());
        c.check(n == 0 || n == o.witnesses as usize, "commit-count", || format!("{n} commits for a request of {} witnesses; {trace}", o.witnesses));
        if n > 0 {
            c.event("commits collected");
            *busy = true;
        }
        // When no collateral overlaps anywhere, every request with enough commits gets them.
        let all: Vec<&CommitTransaction> = m.commits.values().collect();
        let mut once = BTreeSet::new();
        let disjoint = all.iter().flat_map(|t| &t.body.collateral).all(|i| once.insert(*i.output_pointer()));
        let have = m.commits.keys().filter(|x| x.0 == *d).count();
        if disjoint && have >= o.witnesses as usize {
            c.event("must be resolved");
            c.check(n > 0, "commit-missing", || format!("{have} commits of {} needed, none collected; {trace}", o.witnesses));
        }
    }
    c.check(per.keys().all(|d| known.iter().any(|x| x.0 == *d)), "commit-unknown-request", || trace.clone());
    let a: BTreeSet<Hash> = list.iter().copied().collect();
    let b: BTreeSet<Hash> = per.keys().copied().collect();
    c.check(a == b && list.len() == a.len(), "commit-requests", || format!("{a:?}, expected {b:?}; {trace}"));
    m.commits.clear();
}

fn agree(c: &mut Case, pool: &TransactionsPool, m: &Model, seen: &[Transaction], trace: &str) -> bool {
    let mut ok = true;
    for k in KINDS {
        let got: Vec<Hash> = match k {
            Kind::Vt => pool.vt_iter().map(|t| t.hash()).collect(),
            Kind::Dr => pool.dr_iter().map(|t| t.hash()).collect(),
            Kind::St => pool.st_iter().map(|t| t.hash()).collect(),
            Kind::Ut => pool.ut_iter().map(|t| t.hash()).collect(),
        };
        let want = m.sorted(k);
        let len = match k {
            Kind::Vt => pool.vt_len(),
            Kind::Dr => pool.dr_len(),
            Kind::St => pool.st_len(),
            Kind::Ut => pool.ut_len(),
        };
        ok &= c.check(got == want && len == want.len(), "contents", || format!("{k:?}: the pool lists {got:?} (len {len}), expected {want:?}; {trace}"));
    }
    for t in seen {
        let h = t.hash();
        let want = m.txs.get(&h).map(|p| &p.tx);
        let got = pool.get(&h);
        ok &= c.check(got.as_ref() == want, "get", || format!("{h}: {got:?}, expected {want:?}; {trace}"));
        ok &= c.check(pool.contains(t).ok() == Some(want.is_some()), "contains", || format!("{h}; {trace}"));
    }
    for t in m.commits.values() {
        let got = pool.get(&t.hash());
        ok &= c.check(got == Some(Transaction::Commit(t.clone())), "get-commit", || trace.to_string());
    }
    for t in m.reveals.values() {
        let got = pool.get(&t.hash());
        ok &= c.check(got == Some(Transaction::Reveal(t.clone())), "get-reveal", || trace.to_string());
    }
    let w = pool.total_transactions_weight();
    ok &= c.check(w == m.total(), "total-weight", || format!("{w}, expected {}; {trace}", m.total()));
    ok &= c.check(w <= m.limit, "over-the-limit", || format!("{w} over {}; {trace}", m.limit));
    let empty = m.txs.is_empty() && m.commits.is_empty() && m.reveals.is_empty();
    ok &= c.check(pool.is_empty() == empty, "is-empty", || format!("{}, expected {empty}; {trace}", pool.is_empty()));
    ok
}
