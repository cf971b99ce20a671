//! C22: the set of unspent outputs over histories of blocks, snapshots, persists, reorganisations
//! and restarts, against a plain map.
use crate::gen;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use vmon::{Case, Mon};
use witnet_data_structures::chain::*;
use witnet_data_structures::transaction_factory::OutputsCollection;
use witnet_data_structures::utxo_pool::*;
use witnet_storage::backends::hashmap::Backend;
use witnet_storage::storage::{Result as SResult, Storage, StorageIterator, WriteBatch};

/// One shared in-memory database that survives "restarts".
#[derive(Clone)]
struct Shared(Arc<Backend>);
impl Storage for Shared {
    fn get(&self, key: &[u8]) -> SResult<Option<Vec<u8>>> {
        self.0.get(key)
    }
    fn put(&self, key: Vec<u8>, value: Vec<u8>) -> SResult<()> {
        self.0.put(key, value)
    }
    fn delete(&self, key: &[u8]) -> SResult<()> {
        self.0.delete(key)
    }
    fn prefix_iterator<'a, 'b: 'a>(&'a self, prefix: &'b [u8]) -> SResult<StorageIterator<'a>> {
        self.0.prefix_iterator(prefix)
    }
    fn write(&self, batch: WriteBatch) -> SResult<()> {
        Storage::write(&*self.0, batch)
    }
}

type Val = (ValueTransferOutput, u32);
type Map = BTreeMap<OutputPointer, Val>;

fn open(db: &Shared, cached: bool) -> Arc<dyn UtxoDb + Send + Sync> {
    let w = UtxoDbWrapStorage(db.clone());
    if cached {
        Arc::new(CacheUtxosByPkh::new(w).unwrap())
    } else {
        Arc::new(w)
    }
}

pub fn ledger(m: &mut Mon) {
    m.rule("Histories of blocks (spending confirmed, unconfirmed and same-block outputs), superblock snapshots, persists, reorganisations to a snapshot and restarts run over the real pool, diff and database; after every step every read is compared with a plain map; non-trivial: a distinct history with a persist and a later spend of a persisted output.");
    for k in ["block", "snapshot", "persist", "reorganisation", "restart", "spend confirmed", "spend unconfirmed", "spend in block"] {
        m.require(k, 20);
    }
    let n = m.n(8_000, 200_000);
    m.run_par("histories", n, history);
}

fn history(c: &mut Case) {
    let cached = c.rng.bool();
    let db = Shared(Arc::new(Backend::default()));
    let mut handle = open(&db, cached);
    let people: Vec<PublicKeyHash> = (0..4).map(|_| gen::pkh(&mut c.rng)).collect::<BTreeSet<_>>().into_iter().collect();
    let me = people[0];
    let mut pool = UnspentOutputsPool { db: Some(handle.clone()), ..Default::default() };
    let mut own = OwnUnspentOutputsPool::new();
    let mut model: Map = Map::new();
    let mut confirmed: Map = Map::new();
    let mut snap: Option<(UnspentOutputsPool, OwnUnspentOutputsPool, Map)> = None;
    let mut gone: Vec<OutputPointer> = vec![];
    let mut height = 0u32;
    let steps = c.rng.range(3, 24);
    let mut trace = String::new();
    let mut interesting = false;
    for step in 0..steps {
        c.eval(1);
        match c.rng.below(10) {
            0..=4 => {
                // A block: some transactions, each spending outputs visible at its point.
                height += c.rng.range(1, 3) as u32;
                c.event("block");
                let mut diff = UtxoDiff::new(&pool, height);
                let mut next = model.clone();
                let mut fresh: BTreeSet<OutputPointer> = BTreeSet::new();
                for _ in 0..c.rng.range(1, 4) {
                    let h = Hash::SHA256(c.rng.arr());
                    let avail: Vec<OutputPointer> = next.keys().copied().collect();
                    let mut spent = BTreeSet::new();
                    if !avail.is_empty() {
                        for _ in 0..c.rng.below(4) {
                            // Prefer outputs created in this block now and then.
                            let k = if !fresh.is_empty() && c.rng.bool() {
                                let f: Vec<_> = fresh.iter().copied().collect();
                                *c.rng.pick(&f)
                            } else {
                                *c.rng.pick(&avail)
                            };
                            if next.contains_key(&k) {
                                spent.insert(k);
                            }
                        }
                    }
                    for k in &spent {
                        let got = c.nopanic("panic", || trace.clone(), || diff.get(k)).flatten();
                        c.check(got.as_ref() == next.get(k).map(|x| &x.0), "diff-read", || format!("{k}: {got:?}, model {:?}; {trace}", next.get(k)));
                        if fresh.contains(k) {
                            c.event("spend in block");
                        } else if confirmed.contains_key(k) {
                            c.event("spend confirmed");
                            interesting |= trace.contains('P');
                        } else {
                            c.event("spend unconfirmed");
                        }
                        diff.remove_utxo(*k);
                        next.remove(k);
                        gone.push(*k);
                        let got = diff.get(k);
                        c.check(got.is_none(), "double-spend-visible", || format!("{k} is spent but reads {got:?}; {trace}"));
                    }
                    for i in 0..c.rng.below(4) as u32 {
                        let k = OutputPointer { transaction_id: h, output_index: i };
                        let mut v = gen::vto(&mut c.rng);
                        v.pkh = *c.rng.pick(&people);
                        v.value = c.rng.below(1 << 50);
                        let bn = if c.rng.chance(1, 5) { Some(c.rng.below(10) as u32) } else { None };
                        diff.insert_utxo(k, v.clone(), bn);
                        next.insert(k, (v, bn.unwrap_or(height)));
                        fresh.insert(k);
                    }
                }
                for k in next.keys().chain(gone.iter()) {
                    let got = diff.get(k);
                    c.check(got.as_ref() == next.get(k).map(|x| &x.0), "diff-read", || format!("{k}: {got:?}, model {:?}; {trace}", next.get(k)));
                }
                let diff = diff.take_diff();
                diff.visit(
                    &mut own,
                    |o, k, v| {
                        if v.pkh == me {
                            o.insert(*k, 0);
                        }
                    },
                    |o, k| {
                        o.remove(k);
                    },
                );
                c.nopanic("panic", || trace.clone(), || diff.apply(&mut pool));
                model = next;
                trace.push('B');
            }
            5 | 6 => {
                // Superblock period: remember the state.
                c.event("snapshot");
                snap = Some((pool.clone(), own.clone(), model.clone()));
                trace.push('S');
            }
            7 => {
                // The remembered state gets confirmed by its superblock.
                if let Some((mut sp, _, sm)) = snap.take() {
                    c.event("persist");
                    let done = c.nopanic("panic", || trace.clone(), || {
                        pool.remove_persisted_from_memory(&sp.diff);
                        let mut batch = UtxoWriteBatch::default();
                        sp.persist_add_to_batch(&mut batch);
                        handle.write(batch).unwrap();
                    });
                    if done.is_none() {
                        return;
                    }
                    confirmed = sm;
                    trace.push('P');
                } else {
                    c.event("persist");
                    c.nopanic("panic", || trace.clone(), || pool.persist());
                    confirmed = model.clone();
                    trace.push('p');
                }
            }
            8 => {
                if let Some((sp, so, sm)) = &snap {
                    c.event("reorganisation");
                    pool = sp.clone();
                    own = so.clone();
                    model = sm.clone();
                    trace.push('R');
                }
            }
            _ => {
                // The process restarts: only the database remains.
                c.event("restart");
                handle = open(&db, cached);
                pool = UnspentOutputsPool { db: Some(handle.clone()), ..Default::default() };
                model = confirmed.clone();
                own = OwnUnspentOutputsPool::new();
                for (k, v) in &model {
                    if v.0.pkh == me {
                        own.insert(*k, 0);
                    }
                }
                snap = None;
                trace.push('X');
            }
        }
        audit(c, &pool, &own, &model, &confirmed, &gone, &people, me, &trace, step);
    }
    // Everything is written at the end, and the raw database holds exactly the model.
    if c.rng.chance(1, 3) {
        c.nopanic("panic", || trace.clone(), || pool.persist());
        let raw: Map = UtxoDbWrapStorage(db.clone()).utxo_iterator().unwrap().collect();
        c.check(raw == model, "database-after-persist", || format!("{trace}: {raw:?} instead of {model:?}"));
        let n = raw.len();
        let d = c.nopanic("panic", || trace.clone(), || pool.delete_all_from_db());
        c.check(d == Some(n) && pool.iter().count() == 0, "database-wipe", || trace.clone());
    }
    if interesting {
        c.nontrivial(format!("{trace}{model:?}").as_bytes());
    }
    c.sample(|| format!("{trace} ({} unspent at the end)", model.len()));
}

#[allow(clippy::too_many_arguments)]
fn audit(c: &mut Case, pool: &UnspentOutputsPool, own: &OwnUnspentOutputsPool, model: &Map, confirmed: &Map, gone: &[OutputPointer], people: &[PublicKeyHash], me: PublicKeyHash, trace: &str, _step: u64) {
    let what = || format!("{trace}: {model:?}");
    for k in model.keys().chain(gone) {
        let got = c.nopanic("panic", what, || (pool.get(k), pool.included_in_block_number(k), pool.contains_key(k)));
        let want = model.get(k);
        let want = (want.map(|x| x.0.clone()), want.map(|x| x.1), want.is_some());
        if let Some(got) = got {
            c.check(got == want, "read", || format!("{k} reads {got:?} instead of {want:?}; {trace}"));
        }
    }
    if let Some(all) = c.nopanic("panic", what, || pool.iter().collect::<Vec<_>>()) {
        let n = all.len();
        let all: Map = all.into_iter().collect();
        c.check(n == all.len() && all == *model, "iteration", || format!("{trace}: {all:?} instead of {model:?}"));
    }
    let (mut conf, mut every) = (vec![], vec![]);
    c.nopanic("panic", what, || pool.visit(|(k, v)| conf.push((*k, v.clone())), |(k, v)| every.push((*k, v.clone()))));
    let ok = conf.len() == confirmed.len() && conf.into_iter().collect::<Map>() == *confirmed;
    c.check(ok, "visit-confirmed", || format!("{trace}: {confirmed:?}"));
    let ok = every.len() == model.len() && every.into_iter().collect::<Map>() == *model;
    c.check(ok, "visit-all", what);
    for p in people {
        let (mut conf, mut every) = (vec![], vec![]);
        c.nopanic("panic", what, || pool.visit_with_pkh(*p, |(k, v)| conf.push((*k, v.clone())), |(k, v)| every.push((*k, v.clone()))));
        let wc: Map = confirmed.iter().filter(|(_, v)| v.0.pkh == *p).map(|(k, v)| (*k, v.clone())).collect();
        let wa: Map = model.iter().filter(|(_, v)| v.0.pkh == *p).map(|(k, v)| (*k, v.clone())).collect();
        c.check(conf.len() == wc.len() && conf.iter().cloned().collect::<Map>() == wc, "address-confirmed", || format!("{trace}: {conf:?} instead of {wc:?}"));
        c.check(every.len() == wa.len() && every.iter().cloned().collect::<Map>() == wa, "address-all", || format!("{trace}: {every:?} instead of {wa:?}"));
        let info = c.nopanic("panic", what, || get_utxo_info(Some(*p), own, pool, 7, 5));
        if let Some(info) = info {
            let got: BTreeSet<(OutputPointer, u64, bool)> = info.utxos.iter().map(|u| (u.output_pointer, u.value, u.utxo_mature)).collect();
            let want: BTreeSet<_> = wa.iter().map(|(k, v)| (*k, v.0.value, v.1 <= 5)).collect();
            c.check(info.utxos.len() == wa.len() && got == want, "utxo-info", || format!("{trace}: {got:?} instead of {want:?}"));
        }
    }
    // The node's own outputs.
    let mine: Map = model.iter().filter(|(_, v)| v.0.pkh == me).map(|(k, v)| (*k, v.clone())).collect();
    let got: BTreeSet<OutputPointer> = own.keys().copied().collect();
    c.check(got.iter().eq(mine.keys()), "own-outputs", || format!("{trace}: {got:?} instead of {mine:?}"));
    let total: u64 = mine.values().map(|v| v.0.value).sum();
    let b = c.nopanic("panic", what, || own.get_balance(pool));
    c.check(b == Some(total), "own-balance", || format!("{trace}: {b:?} instead of {total}"));
    let r = NodeUtxosRef { all_utxos: pool, own_utxos: own, pkh: me };
    for big in [true, false] {
        let from = if big { None } else { Some(me) };
        let s = if big { UtxoSelectionStrategy::BigFirst { from } } else { UtxoSelectionStrategy::SmallFirst { from } };
        let o = r.sort_by(&s);
        let vals: Vec<u64> = o.iter().map(|k| mine.get(k).map(|v| v.0.value).unwrap_or(0)).collect();
        let sorted = vals.windows(2).all(|w| if big { w[0] >= w[1] } else { w[0] <= w[1] });
        c.check(sorted && o.iter().copied().collect::<BTreeSet<_>>() == got && o.len() == got.len(), "own-order", || format!("{trace}: {vals:?} (big first: {big})"));
    }
    let other = UtxoSelectionStrategy::Random { from: people.iter().copied().find(|p| *p != me) };
    if other.get_from().is_some() {
        c.check(r.sort_by(&other).is_empty(), "own-for-other-address", what);
    }
}
