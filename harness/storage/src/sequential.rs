use std::collections::BTreeMap;
use vmon::{hex, Case, Mon};
use witnet_storage::backends::{hashmap, nobackend, rocks};
use witnet_storage::storage::{Storage, StorageIterator, WriteBatch};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

/// Keys that share beginnings which are long, or end in the bytes that make the end of a range hard to
/// compute.
const FAMILIES: &[&[u8]] = &[b"chain-state", b"chain-", b"chain-state-and-much-more-than-sixteen-bytes-of-it", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff", b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", b"TRANSACTION-\xff", b"block-\xff\xff"];

fn key(c: &mut Case, big: bool) -> Vec<u8> {
    if big && c.rng.chance(4, 5) {
        let mut k = c.rng.pick(FAMILIES).to_vec();
        let n = match c.rng.below(12) {
            0 => c.rng.below(300),
            1 => 0,
            _ => 1 + c.rng.below(2),
        };
        k.extend((0..n).map(|_| *c.rng.pick(&[0u8, 1, b'a', b'b', b'-', b's', 0x7f, 0x80, 0xfe, 0xff])));
        return k;
    }
    // Few keys, many shared prefixes, including the empty key and runs of 0xff and 0x00.
    let n = c.rng.below(5) as usize;
    (0..n).map(|_| *c.rng.pick(&[0u8, 1, b'a', b'b', 0xfe, 0xff])).collect()
}

#[derive(Clone, Debug)]
enum Op {
    Get(Vec<u8>),
    Put(Vec<u8>, Vec<u8>),
    Delete(Vec<u8>),
    Scan(Vec<u8>, Option<usize>),
    Batch(Vec<(Vec<u8>, Option<Vec<u8>>)>),
}

fn gen(c: &mut Case, big: bool) -> Op {
    let val = |c: &mut Case| {
        let top = if big && c.rng.chance(1, 40) { 100_000 } else { 40 };
        let n = c.rng.len(top);
        c.rng.bytes(n)
    };
    match c.rng.below(10) {
        0 | 1 => Op::Get(key(c, big)),
        2 | 3 => {
            let k = key(c, big);
            Op::Put(k, val(c))
        }
        4 => Op::Delete(key(c, big)),
        5 | 6 => {
            let p = key(c, big);
            let part = c.rng.chance(1, 4).then(|| c.rng.below(4) as usize);
            Op::Scan(p, part)
        }
        _ => {
            let n = if big { c.rng.len(400) as u64 } else { c.rng.below(8) };
            Op::Batch(
                (0..n)
                    .map(|_| {
                        let k = key(c, big);
                        let v = c.rng.chance(2, 3).then(|| val(c));
                        (k, v)
                    })
                    .collect(),
            )
        }
    }
}

fn batch_of(items: &[(Vec<u8>, Option<Vec<u8>>)]) -> WriteBatch {
    let mut b = WriteBatch::default();
    for (k, v) in items {
        match v {
            Some(v) => b.put(k.clone(), v.clone()),
            None => b.delete(k.clone()),
        }
    }
    b
}

fn apply(m: &mut Map, op: &Op) {
    match op {
        Op::Put(k, v) => {
            m.insert(k.clone(), v.clone());
        }
        Op::Delete(k) => {
            m.remove(k);
        }
        Op::Batch(items) => {
            for (k, v) in items {
                match v {
                    Some(v) => {
                        m.insert(k.clone(), v.clone());
                    }
                    None => {
                        m.remove(k);
                    }
                }
            }
        }
        _ => {}
    }
}

fn with_prefix(m: &Map, p: &[u8]) -> Map {
    m.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// Run one operation against the store and compare with the model. False: the operation failed.
fn step(c: &mut Case, name: &str, s: &dyn Storage, m: &mut Map, op: &Op, failing: bool) -> bool {
    let sig = |w: &str| format!("{name}:{w}");
    let before = m.clone();
    match op {
        Op::Get(k) => match s.get(k) {
            Ok(v) => {
                c.event("get");
                c.check(v.as_ref() == m.get(k), &sig("get"), || format!("get({}) = {v:?}, model {:?}", hex(k), m.get(k)));
                true
            }
            Err(_) => false,
        },
        Op::Put(k, v) => {
            let ok = s.put(k.clone(), v.clone()).is_ok();
            if ok {
                c.event("put");
                apply(m, op);
            }
            ok
        }
        Op::Delete(k) => {
            let ok = s.delete(k).is_ok();
            if ok {
                c.event("delete");
                apply(m, op);
            }
            ok
        }
        Op::Batch(items) => {
            let ok = s.write(batch_of(items)).is_ok();
            if ok {
                c.event("batch");
                apply(m, op);
            }
            ok
        }
        Op::Scan(p, part) => match s.prefix_iterator(p) {
            Ok(it) => {
                let want = with_prefix(m, p);
                c.event("scan");
                match part {
                    Some(n) => {
                        // However it is consumed, a scan is one of these entries each time
                        let mut it = it;
                        let mut left = want.clone();
                        let mut got = vec![];
                        let bound = |it: &StorageIterator<'_>, left: usize| {
                            let (lo, hi) = it.size_hint();
                            lo <= left && hi.is_none_or(|h| h >= left)
                        };
                        let mut bounded = bound(&it, left.len());
                        for _ in 0..*n {
                            let Some((k, v)) = it.next() else { break };
                            c.check(left.remove(&k).as_ref() == Some(&v), &sig("scan_partial"), || format!("prefix {}: entry {} = {}", hex(p), hex(&k), hex(&v)));
                            got.push(k);
                            bounded &= bound(&it, left.len());
                        }
                        c.check(got.len() == (*n).min(want.len()), &sig("scan_partial"), || format!("prefix {} take {n}: {} items of {}", hex(p), got.len(), want.len()));
                        c.check(bounded, &sig("scan_size_hint"), || format!("prefix {} of {} items", hex(p), want.len()));
                        let rest = left.len();
                        match c.rng.below(6) {
                            // dropped half-way: the store stays usable
                            0 => {}
                            1 => {
                                let n = it.count();
                                c.check(n == rest, &sig("scan_count"), || format!("prefix {}: {n} entries counted, {rest} left", hex(p)));
                            }
                            2 => {
                                let x = it.last();
                                c.check(x.is_some() == (rest > 0) && x.iter().all(|(k, v)| left.get(k) == Some(v)), &sig("scan_last"), || format!("prefix {}: last {x:?} of {rest}", hex(p)));
                            }
                            3 => {
                                let i = c.rng.idx(rest + 2);
                                let x = it.nth(i);
                                c.check(x.is_some() == (i < rest) && x.iter().all(|(k, v)| left.get(k) == Some(v)), &sig("scan_nth"), || format!("prefix {}: nth {i} of {rest} is {x:?}", hex(p)));
                                let n = it.fold(0, |n, (k, _)| n + usize::from(left.contains_key(&k)));
                                c.check(n == rest.saturating_sub(i + 1), &sig("scan_nth"), || format!("prefix {}: {n} after nth {i} of {rest}", hex(p)));
                            }
                            4 => {
                                let i = c.rng.idx(rest + 2);
                                let x: Map = it.skip(i).collect();
                                c.check(x.len() == rest.saturating_sub(i) && x.iter().all(|(k, v)| left.get(k) == Some(v)), &sig("scan_skip"), || format!("prefix {}: skip {i} of {rest}: {x:?}", hex(p)));
                            }
                            _ => {
                                let i = 1 + c.rng.idx(3);
                                let x: Map = it.step_by(i).collect();
                                c.check(x.len() == rest.div_ceil(i) && x.iter().all(|(k, v)| left.get(k) == Some(v)), &sig("scan_step"), || format!("prefix {}: every {i} of {rest}: {x:?}", hex(p)));
                            }
                        }
                    }
                    None => {
                        let mut it = it;
                        let mut got: Vec<(Vec<u8>, Vec<u8>)> = vec![];
                        for x in it.by_ref() {
                            got.push(x);
                        }
                        // a finished iterator stays finished
                        let after = it.next().is_some();
                        drop(it);
                        c.check(!after, &sig("scan_restarts"), || format!("prefix {}", hex(p)));
                        let set: Map = got.iter().cloned().collect();
                        c.check(set.len() == got.len(), &sig("scan_duplicates"), || format!("prefix {}: {got:?}", hex(p)));
                        c.check(set == want, &sig("scan"), || format!("prefix {}: got {set:?}, model {want:?}", hex(p)));
                    }
                }
                true
            }
            Err(_) => false,
        },
    }
    .then_some(())
    .map(|()| true)
    .unwrap_or_else(|| {
        if !failing {
            c.violate(&sig("error"), format!("{op:?} failed on a healthy store"));
        }
        c.check(*m == before, "model", || "model changed".into());
        false
    })
}

pub fn model(m: &mut Mon) {
    m.rule("Random histories of get/put/delete/ordered batch/prefix scan (complete, partial) with heavily shared prefixes, empty keys and values and 0x00/0xff runs, on the in-memory backend and on the persistent backend's adapter over an in-memory RocksDB with ordered keys, full-range prefix iterators and injected failures; one history in sixty has keys with long shared beginnings, batches of up to 400 items and values of up to 100 kB; stores of up to 65,537 entries under one prefix with neighbours on either side; each result and the final contents compared with an ordered map. A failed operation must report the failure and leave the contents unchanged. The null backend must fail every operation. Non-trivial: counted by distinct store contents at the end of a history.");
    m.require("scan", 1000);
    m.require("batch", 1000);
    m.require("failure_injected", 200);
    let n = m.n(60_000, 900_000);
    m.run_par("hashmap", n, |c| {
        let big = c.index % 60 == 59;
        let s: Box<dyn Storage> = Box::<hashmap::Backend>::default();
        if big {
            c.event("big_histories");
        }
        let mut md = Map::new();
        let k = 5 + c.rng.below(60);
        let mut log = vec![];
        for _ in 0..k {
            let op = gen(c, big);
            log.push(op.clone());
            step(c, "hashmap", &*s, &mut md, &op, false);
        }
        let all: Map = s.prefix_iterator(b"").unwrap().collect();
        c.nontrivial(&all);
        c.check(all == md, "hashmap:final", || format!("{log:?}"));
        c.sample(|| format!("{:?} ... -> {} entries", &log[..3], all.len()));
    });
    m.run_par("rocks", n, |c| {
        let big = c.index % 60 == 59;
        let db = rocksdb::DB::new_in_memory();
        let mut md = Map::new();
        let k = 5 + c.rng.below(60);
        let failing = c.rng.chance(1, 3);
        if failing {
            db.inject_failure_after(1 + c.rng.below(20));
        }
        let mut failed = false;
        for _ in 0..k {
            let op = gen(c, big);
            let s: &dyn Storage = &db;
            if matches!(op, Op::Scan(..)) && failing {
                continue;
            }
            let ok = step(c, "rocks", s, &mut md, &op, failing);
            if failed {
                c.check(!ok, "rocks:swallowed_failure", || format!("{op:?} reported success while the database fails"));
            }
            if !ok {
                failed = true;
                c.event("failure_injected");
            }
            c.check(db.contents() == md, "rocks:contents", || format!("after {op:?} (ok={ok}): {:?} vs {md:?}", db.contents()));
        }
        let _: &rocks::Backend = &db;
        c.nontrivial(&md);
    });
    // Thousands of entries that share a beginning: no scan may stop early, none may run over.
    let n = m.n(48, 900);
    m.run_par("wide", n, |c| {
        let db = rocksdb::DB::new_in_memory();
        let hm: Box<dyn Storage> = Box::<hashmap::Backend>::default();
        let prefix: Vec<u8> = match c.rng.below(6) {
            0 => vec![],
            1 => vec![0xff; 1 + c.rng.idx(45)],
            2 => [&c.rng.pick(FAMILIES)[..], &[0xff]].concat(),
            3 => vec![*c.rng.pick(&[0u8, b'a', 0xfe, 0xff])],
            _ => c.rng.pick(FAMILIES).to_vec(),
        };
        // Just below and just above the entries with the prefix.
        let mut around: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff], [&prefix[..], &[0xff; 50]].concat(), vec![0xff; 60]];
        for by in [1u8, 0xff] {
            let mut p = prefix.clone();
            if let Some(l) = p.last_mut() {
                *l = l.wrapping_add(by);
            }
            around.push(p.clone());
            p.push(7);
            around.push(p);
        }
        around.push(prefix[..prefix.len().saturating_sub(1)].to_vec());
        let total = match c.index % 3 {
            0 => *c.rng.pick(&[255usize, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 65_537]),
            _ => 500 + c.rng.idx(6_000),
        };
        let mut md = Map::new();
        let mut items: Vec<(Vec<u8>, Option<Vec<u8>>)> = around.iter().map(|k| (k.clone(), Some(b"around".to_vec()))).collect();
        for i in 0..total as u32 {
            items.push(([&prefix[..], &i.to_be_bytes()[if total < 60_000 { 2 } else { 1 }..], &[0xff, 0][..c.rng.idx(2)]].concat(), Some(i.to_le_bytes().to_vec())));
        }
        for part in items.chunks(1 + c.rng.idx(items.len())) {
            let op = Op::Batch(part.to_vec());
            for (name, s) in [("rocks", &db as &dyn Storage), ("hashmap", &*hm)] {
                let mut mm = md.clone();
                step(c, name, s, &mut mm, &op, false);
            }
            apply(&mut md, &op);
        }
        c.events("entries under one prefix", total as u64);
        c.nontrivial(&(prefix.clone(), total));
        let longer = [&prefix[..], &[0]].concat();
        for p in [&prefix[..], &longer, &prefix[..prefix.len() / 2], b"", b"\xff", b"chain-state\xff"] {
            let want = with_prefix(&md, p);
            for (name, s) in [("rocks", &db as &dyn Storage), ("hashmap", &*hm)] {
                let got: Vec<_> = s.prefix_iterator(p).unwrap().collect();
                let set: Map = got.iter().cloned().collect();
                c.check(set.len() == got.len() && set == want, &format!("{name}:wide_scan"), || format!("prefix {}: {} entries ({} distinct) of {}", hex(p), got.len(), set.len(), want.len()));
            }
        }
        // half of them go again
        let op = Op::Batch(items.iter().step_by(2).map(|(k, _)| (k.clone(), None)).collect());
        apply(&mut md, &op);
        for (name, s) in [("rocks", &db as &dyn Storage), ("hashmap", &*hm)] {
            let Op::Batch(items) = &op else { return };
            c.check(s.write(batch_of(items)).is_ok(), &format!("{name}:error"), || "a batch of deletions failed".into());
            let set: Map = s.prefix_iterator(b"").unwrap().collect();
            c.check(set == md, &format!("{name}:wide_delete"), || format!("{} entries of {}", set.len(), md.len()));
        }
    });
    m.run("nobackend", 200, |c| {
        let s = nobackend::Backend;
        let mut md = Map::new();
        let op = gen(c, c.index % 10 == 9);
        let ok = step(c, "nobackend", &s, &mut md, &op, true);
        c.nontrivial(&format!("{op:?}"));
        c.check(!ok, "nobackend:success", || format!("{op:?} succeeded without a backend"));
    });
}
