use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Barrier;
use vmon::{Case, Mon};
use witnet_storage::backends::hashmap;
use witnet_storage::storage::{Storage, WriteBatch};

type State = BTreeMap<u8, u64>;

#[derive(Clone, Debug)]
enum Op {
    Get(u8, Option<u64>),
    Put(u8, u64),
    Del(u8),
    Batch(Vec<(u8, Option<u64>)>),
    Scan(Option<u8>, State),
}

#[derive(Clone, Debug)]
struct Ev {
    call: u64,
    ret: u64,
    thread: usize,
    op: Op,
}

/// Can `op` (with its recorded result) happen in `s`? Returns the next state.
fn apply(s: &State, op: &Op) -> Option<State> {
    match op {
        Op::Get(k, r) => (s.get(k) == r.as_ref()).then(|| s.clone()),
        Op::Put(k, v) => {
            let mut t = s.clone();
            t.insert(*k, *v);
            Some(t)
        }
        Op::Del(k) => {
            let mut t = s.clone();
            t.remove(k);
            Some(t)
        }
        Op::Batch(b) => {
            let mut t = s.clone();
            for (k, v) in b {
                match v {
                    Some(v) => t.insert(*k, *v),
                    None => t.remove(k),
                };
            }
            Some(t)
        }
        Op::Scan(hi, r) => {
            let want: State = s.iter().filter(|(k, _)| hi.is_none_or(|h| **k >> 4 == h)).map(|(k, v)| (*k, *v)).collect();
            (want == *r).then(|| s.clone())
        }
    }
}

/// Wing & Gong search with memoisation. None: search budget exhausted.
fn lin(h: &[Ev], budget: &mut u64) -> Option<bool> {
    fn go(h: &[Ev], done: u64, s: &State, seen: &mut HashSet<(u64, State)>, budget: &mut u64) -> Option<bool> {
        if done.count_ones() as usize == h.len() {
            return Some(true);
        }
        if !seen.insert((done, s.clone())) {
            return Some(false);
        }
        if *budget == 0 {
            return None;
        }
        *budget -= 1;
        let min_ret = h.iter().enumerate().filter(|(i, _)| done >> i & 1 == 0).map(|(_, e)| e.ret).min().unwrap();
        for (i, e) in h.iter().enumerate() {
            if done >> i & 1 == 0 && e.call <= min_ret {
                if let Some(t) = apply(s, &e.op) {
                    if go(h, done | 1 << i, &t, seen, budget)? {
                        return Some(true);
                    }
                }
            }
        }
        Some(false)
    }
    go(h, 0, &State::new(), &mut HashSet::new(), budget)
}

fn kb(k: u8) -> Vec<u8> {
    // two-byte keys: high nibble is the scannable prefix
    vec![k >> 4, k & 15]
}
fn vb(v: u64) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}
fn unvb(b: &[u8]) -> u64 {
    b.try_into().map(u64::from_be_bytes).unwrap_or(u64::MAX)
}

fn spin(n: u64) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
}

/// Two waits: threads block once, then spin to a common start so that the operations really overlap.
struct Gate {
    b: Barrier,
    n: u64,
    arrived: AtomicU64,
}
impl Gate {
    fn new(n: usize) -> Self {
        Gate { b: Barrier::new(n), n: n as u64, arrived: AtomicU64::new(0) }
    }
    fn pass(&self) {
        self.b.wait();
        self.arrived.fetch_add(1, Ordering::SeqCst);
        let mut k = 0u64;
        while self.arrived.load(Ordering::SeqCst) < self.n {
            k += 1;
            if k > 10_000 {
                std::thread::yield_now();
            }
            std::hint::spin_loop();
        }
    }
}

fn history(c: &mut Case) -> Vec<Ev> {
    let store: hashmap::Backend = Default::default();
    let clock = AtomicU64::new(1);
    let threads = 2 + c.rng.below(3) as usize;
    let per = 3 + c.rng.below(5) as usize;
    let nkeys = 2 + c.rng.below(4);
    let gate = Gate::new(threads);
    let mut uid = 0;
    let plans: Vec<Vec<(Op, u64)>> = (0..threads)
        .map(|_| {
            (0..per)
                .map(|_| {
                    let key = |c: &mut Case| {
                        let k = c.rng.below(nkeys) as u8;
                        (k % 2) << 4 | k
                    };
                    let op = match c.rng.below(9) {
                        0 | 1 => Op::Get(key(c), None),
                        2 | 3 => {
                            uid += 1;
                            Op::Put(key(c), uid)
                        }
                        4 => Op::Del(key(c)),
                        5 | 6 => Op::Batch(
                            (0..1 + c.rng.below(5))
                                .map(|_| {
                                    uid += 1;
                                    (key(c), c.rng.chance(3, 4).then_some(uid))
                                })
                                .collect(),
                        ),
                        _ => Op::Scan(c.rng.bool().then(|| c.rng.below(2) as u8), State::new()),
                    };
                    (op, c.rng.below(60))
                })
                .collect()
        })
        .collect();
    let mut all: Vec<Ev> = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = plans
            .into_iter()
            .enumerate()
            .map(|(t, plan)| {
                let (store, clock, gate) = (&store, &clock, &gate);
                s.spawn(move || {
                    gate.pass();
                    let mut out = vec![];
                    for (op, delay) in plan {
                        spin(delay);
                        let call = clock.fetch_add(1, Ordering::SeqCst);
                        let op = match op {
                            Op::Get(k, _) => Op::Get(k, store.get(&kb(k)).unwrap().map(|b| unvb(&b))),
                            Op::Put(k, v) => {
                                store.put(kb(k), vb(v)).unwrap();
                                Op::Put(k, v)
                            }
                            Op::Del(k) => {
                                store.delete(&kb(k)).unwrap();
                                Op::Del(k)
                            }
                            Op::Batch(b) => {
                                let mut w = WriteBatch::default();
                                for (k, v) in &b {
                                    match v {
                                        Some(v) => w.put(kb(*k), vb(*v)),
                                        None => w.delete(kb(*k)),
                                    }
                                }
                                Storage::write(store, w).unwrap();
                                Op::Batch(b)
                            }
                            Op::Scan(p, _) => {
                                let prefix: Vec<u8> = p.map(|x| vec![x]).unwrap_or_default();
                                let mut r = State::new();
                                for (k, v) in store.prefix_iterator(&prefix).unwrap() {
                                    r.insert(k[0] << 4 | k[1], unvb(&v));
                                    spin(delay);
                                }
                                Op::Scan(p, r)
                            }
                        };
                        let ret = clock.fetch_add(1, Ordering::SeqCst);
                        out.push(Ev { call, ret, thread: t, op });
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            all.extend(h.join().unwrap());
        }
    });
    all.sort_by_key(|e| e.call);
    all
}

pub fn linearizable(m: &mut Mon) {
    m.rule("Many short concurrent histories (2-4 threads, 6-28 operations, 2-5 keys, unique values, mixed get/put/delete/batch/prefix scan, random delays, scans consumed slowly) on the in-memory backend, each checked for linearizability against a sequential map; plus stress runs where writers install whole batches stamped with one id and scanners must never see two ids, and disjoint-key writers must lose nothing. Non-trivial: a history in which at least two operations overlapped, counted by its precise interleaving of calls and returns.");
    m.assume("threads are scheduled by the operating system; interleavings are sampled, not enumerated");
    m.require("overlapping", 200);
    m.require("scans_checked", 500);
    let n = m.n(12_000, 300_000);
    m.run("histories", n, |c| {
        let h = history(c);
        let overlap = h.windows(2).any(|w| w[1].call < w[0].ret);
        if overlap {
            c.event("overlapping");
            let sched: Vec<(u64, u64, usize)> = h.iter().map(|e| (e.call, e.ret, e.thread)).collect();
            c.nontrivial(&sched);
        }
        c.events("operations", h.len() as u64);
        let mut budget = 2_000_000;
        match lin(&h, &mut budget) {
            Some(true) => c.event("linearizable"),
            Some(false) => c.violate("not_linearizable", format!("no sequential order explains {h:#?}")),
            None => c.event("checker_budget_exhausted"),
        }
        c.sample(|| format!("{h:?}"));
    });
    let n = m.n(120, 1_800);
    m.run("batch_stress", n, |c| {
        let store: hashmap::Backend = Default::default();
        let width = 5 + c.rng.below(60) as u8;
        let rounds = 150u64;
        let stop = AtomicU64::new(0);
        let mk = |id: u64, order: bool| {
            let mut w = WriteBatch::default();
            for i in 0..width {
                let k = if order { i } else { width - 1 - i };
                // deleting and re-creating inside a batch must not be visible either
                w.delete(vec![7, k]);
                w.put(vec![7, k], vb(id));
            }
            w
        };
        Storage::write(&store, mk(0, true)).unwrap();
        let bad: Vec<String> = std::thread::scope(|s| {
            let ws: Vec<_> = (0..2u64)
                .map(|t| {
                    let (store, mk, stop) = (&store, &mk, &stop);
                    s.spawn(move || {
                        for r in 0..rounds {
                            Storage::write(store, mk(t * rounds + r + 1, t == 0)).unwrap();
                        }
                        stop.fetch_add(1, Ordering::SeqCst);
                    })
                })
                .collect();
            let rs: Vec<_> = (0..3)
                .map(|t| {
                    let (store, stop) = (&store, &stop);
                    s.spawn(move || {
                        let mut bad = vec![];
                        let mut n = 0u64;
                        let mut seen = HashSet::new();
                        loop {
                            let end = stop.load(Ordering::SeqCst) == 2;
                            if t < 2 {
                                let mut ids = HashSet::new();
                                let mut count = 0;
                                for (_, v) in store.prefix_iterator(&[7]).unwrap() {
                                    ids.insert(unvb(&v));
                                    count += 1;
                                    if t == 1 {
                                        spin(20);
                                    }
                                }
                                if ids.len() != 1 || count != width {
                                    bad.push(format!("a scan saw {count} of {width} keys with ids {ids:?}"));
                                }
                                seen.extend(ids);
                            } else {
                                for k in 0..width {
                                    if store.get(&[7, k]).unwrap().is_none() {
                                        bad.push(format!("key {k} was missing inside a batch that re-creates it"));
                                    }
                                }
                            }
                            n += 1;
                            if end {
                                break;
                            }
                        }
                        (bad, n, seen.len() as u64)
                    })
                })
                .collect();
            for w in ws {
                w.join().unwrap();
            }
            let mut bad = vec![];
            for r in rs {
                let (b, n, d) = r.join().unwrap();
                bad.extend(b.into_iter().take(2));
                c.events("scans_checked", n);
                c.events("distinct_batches_seen", d);
            }
            bad
        });
        c.nontrivial(&(c.index, width));
        c.check(bad.is_empty(), "torn_batch", || bad.join("; "));
    });
    let n = m.n(60, 900);
    m.run("no_loss", n, |c| {
        let store: hashmap::Backend = Default::default();
        let gate = Gate::new(6);
        std::thread::scope(|s| {
            for t in 0..6u8 {
                let (store, gate) = (&store, &gate);
                s.spawn(move || {
                    gate.pass();
                    for i in 0..100u8 {
                        store.put(vec![t, i], vb(u64::from(i))).unwrap();
                        if i % 3 == 0 {
                            store.delete(&[t, i]).unwrap();
                        }
                        if i % 5 == 0 {
                            let mut w = WriteBatch::default();
                            w.put(vec![t, i, 1], vb(1));
                            w.delete(vec![t, i, 1]);
                            w.put(vec![t, i, 2], vb(2));
                            Storage::write(store, w).unwrap();
                        }
                    }
                });
            }
        });
        let got: BTreeMap<Vec<u8>, Vec<u8>> = store.prefix_iterator(&[]).unwrap().collect();
        let mut want = BTreeMap::new();
        for t in 0..6u8 {
            for i in 0..100u8 {
                if i % 3 != 0 {
                    want.insert(vec![t, i], vb(u64::from(i)));
                }
                if i % 5 == 0 {
                    want.insert(vec![t, i, 2], vb(2));
                }
            }
        }
        c.event("no_loss_runs");
        c.nontrivial(&c.index.clone());
        c.check(got == want, "lost_update", || format!("{} entries, expected {}", got.len(), want.len()));
    });
}
