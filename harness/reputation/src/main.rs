//! Reference-model monitors for the two reputation structures.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vmon::{Case, Mon};
use witnet_reputation::{ActiveReputationSet, TotalReputationSet};

type Id = u8;
type V = i64;
type A = u32;
type Trs = TotalReputationSet<Id, V, A>;

/// The model: reputation is the sum of the packets, packets are kept in expiration order.
#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    queue: Vec<(A, BTreeMap<Id, V>)>,
}

impl Model {
    fn get(&self, id: Id) -> V {
        self.queue.iter().filter_map(|(_, m)| m.get(&id)).sum()
    }
    fn total(&self) -> V {
        self.queue.iter().flat_map(|(_, m)| m.values()).sum()
    }
    fn ids(&self) -> BTreeMap<Id, V> {
        let mut o = BTreeMap::new();
        for (_, m) in &self.queue {
            for (k, v) in m {
                *o.entry(*k).or_insert(0) += v;
            }
        }
        o
    }
    fn gain(&mut self, a: A, diff: &[(Id, V)]) -> bool {
        if let Some((last, _)) = self.queue.last() {
            if *last > a {
                return false;
            }
        }
        if self.queue.last().map(|x| x.0) != Some(a) {
            self.queue.push((a, BTreeMap::new()));
        }
        let m = &mut self.queue.last_mut().unwrap().1;
        for (k, v) in diff {
            if *v > 0 {
                *m.entry(*k).or_insert(0) += v;
            }
        }
        true
    }
    fn expire(&mut self, a: A) -> V {
        let mut t = 0;
        while self.queue.first().is_some_and(|x| x.0 <= a) {
            t += self.queue.remove(0).1.values().sum::<V>();
        }
        t
    }
    /// Take from the packets that expire last.
    fn take(&mut self, id: Id, mut amount: V) {
        for (_, m) in self.queue.iter_mut().rev() {
            if amount == 0 {
                break;
            }
            if let Some(x) = m.get_mut(&id) {
                let t = amount.min(*x);
                *x -= t;
                amount -= t;
                if *x == 0 {
                    m.remove(&id);
                }
            }
        }
    }
    fn packets(&self) -> Vec<(A, BTreeMap<Id, V>)> {
        self.queue.iter().filter(|(_, m)| !m.is_empty()).cloned().collect()
    }
}

#[derive(Clone, Copy, Debug)]
enum Fun {
    Keep,
    Zero,
    Half,
    Minus(V),
    Add(V),
    Set(V),
}
impl Fun {
    fn app(self, v: V) -> V {
        match self {
            Fun::Keep => v,
            Fun::Zero => 0,
            Fun::Half => v / 2,
            Fun::Minus(d) => (v - d).max(0),
            Fun::Add(d) => v + d,
            Fun::Set(d) => d.min(v),
        }
    }
}
fn gen_fun(c: &mut Case, bad: bool, top: u64) -> Fun {
    match c.rng.below(if bad { 7 } else { 6 }) {
        0 => Fun::Keep,
        1 => Fun::Zero,
        2 => Fun::Half,
        3 => Fun::Minus(c.rng.below(top / 3 + 1) as V),
        4 => Fun::Minus(1),
        5 => Fun::Set(c.rng.below(top / 2 + 1) as V),
        _ => Fun::Add(1 + c.rng.below(5) as V),
    }
}

fn compare(c: &mut Case, t: &Trs, m: &Model, nid: u8, hist: &[String]) {
    c.event("states_compared");
    c.nontrivial(&format!("{:?}", m.packets()));
    let h = || hist.join("; ");
    for id in 0..nid {
        c.check(t.get(&id) == m.get(id), "reputation_of_identity", || format!("id {id}: {} vs model {} after {}", t.get(&id), m.get(id), h()));
    }
    c.check(t.get_total_sum() == m.total(), "total", || format!("{} vs model {} after {}", t.get_total_sum(), m.total(), h()));
    let ids = m.ids();
    c.check(t.num_identities() == ids.len(), "num_identities", || format!("{} vs {} after {}", t.num_identities(), ids.len(), h()));
    let got: BTreeMap<Id, V> = t.identities().map(|(k, v)| (*k, *v)).collect();
    c.check(got == ids, "identities", || format!("{got:?} vs {ids:?} after {}", h()));
    let q: Vec<(A, BTreeMap<Id, V>)> = t.queue().map(|(a, i)| (*a, i.map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>())).filter(|x| !x.1.is_empty()).collect();
    c.check(q == m.packets(), "packets", || format!("{q:?} vs {:?} after {}", m.packets(), h()));
    // Conservation straight from the structure: total = sum of packets = sum of identities.
    let qs: V = q.iter().flat_map(|x| x.1.values()).sum();
    c.check(qs == t.get_total_sum(), "conservation", || format!("packets hold {qs}, total says {} after {}", t.get_total_sum(), h()));
    let some: Vec<Id> = (0..c.rng.below(6)).map(|_| c.rng.below(u64::from(nid) + 2) as Id).collect();
    let want: V = some.iter().map(|i| m.get(*i)).sum();
    c.check(t.get_sum(&some) == want, "get_sum", || format!("{some:?} after {}", h()));
}

fn trs(m: &mut Mon) {
    m.rule("Random histories of gain (sorted, equal and unsorted expirations; zero, negative and repeated diffs), expire, penalize, penalize_many (order of identities, repeated identities, functions that keep, cut, clear or illegally raise reputation), clear, clone and serialize/deserialize, over 1..12 identities (and longer ones over up to 250 identities with packets of hundreds of entries and amounts up to 2^44, compared every few operations; and queues of up to 1025 packets over 2000 identities, with expirations of many packets at once and penalties reaching through the whole queue); after every operation every observable is compared with a packet-list model, including packet contents (newest-first penalties), return values and errors, and that rejected operations change nothing. Non-trivial: counted by distinct packet list reached.");
    m.require("states_compared", 5000);
    m.require("penalized", 500);
    m.require("penalize_rejected", 100);
    m.require("gain_rejected", 100);
    m.require("expired", 200);
    m.require("long_states_compared", 300);
    let n = m.n(45_000, 800_000);
    m.run_par("history", n, |c| {
        let nid = 1 + c.rng.below(12) as u8;
        let ops = 5 + c.rng.below(40);
        trs_history(c, nid, ops, 1, 6, 100);
    });
    // Many identities, many packets, big packets and big amounts.
    let n = m.n(700, 12_000);
    m.run_par("wide", n, |c| {
        let nid = 13 + c.rng.below(240) as u8;
        let ops = 50 + c.rng.below(400);
        let width = 1 + c.rng.below(300);
        let top = 1 << (1 + c.rng.below(44));
        trs_history(c, nid, ops, 7, width, top);
    });
    long_queue(m);
    unsorted(m);
}

/// Queues of hundreds of packets, one for each expiration, over thousands of identities: what a long-running node has.
fn long_queue(m: &mut Mon) {
    type W = u32;
    let n = m.n(250, 5_000);
    m.run_par("long_queue", n, |c| {
        let packets = *c.rng.pick(&[30u64, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 700, 1025]);
        let nid = 1 + c.rng.below(2_000);
        let wide = if c.rng.chance(1, 10) { 1_500 } else { 8 };
        let mut t = TotalReputationSet::<W, V, A>::new();
        let mut model: Vec<(A, BTreeMap<W, V>)> = vec![];
        let mut clock: A = c.rng.below(50) as A;
        for _ in 0..packets {
            clock += 1 + c.rng.below(3) as A;
            let mut packet = BTreeMap::new();
            let k = 1 + c.rng.below(wide);
            let diff: Vec<(W, V)> = (0..k).map(|_| if c.rng.chance(1, 3) { (0, 1 + c.rng.below(9) as V) } else { (c.rng.below(nid) as W, 1 + c.rng.below(1_000) as V) }).collect();
            for (i, v) in &diff {
                *packet.entry(*i).or_insert(0) += v;
            }
            model.push((clock, packet));
            if t.gain(clock, diff).is_err() {
                c.violate("long_gain", format!("gain at {clock} rejected, {} packets", model.len()));
                return;
            }
        }
        c.event("long_queues");
        for step in 0..6 {
            let (what, ok) = match c.rng.below(3) {
                0 => {
                    // Many packets expire at once
                    let cut = c.rng.below(model.len() as u64 + 1) as usize;
                    let at = if cut == 0 { 0 } else { model[cut - 1].0 };
                    let want: V = model.drain(..cut).flat_map(|x| x.1.into_values()).sum();
                    let got = t.expire(&at);
                    (format!("expire({at}) of {cut} packets: {got}, want {want}"), got == want)
                }
                1 => {
                    // Penalties reach deep into the queue
                    let every = c.rng.chance(1, 3);
                    let ids: Vec<W> = if every { (0..nid as W).collect() } else { BTreeSet::from_iter((0..5).map(|_| if c.rng.bool() { 0 } else { c.rng.below(nid) as W })).into_iter().collect() };
                    let part = 1 + c.rng.below(4) as V;
                    let mut want = 0;
                    let f = move |v: V| if part == 1 { 0 } else { v / part };
                    for id in &ids {
                        let have: V = model.iter().filter_map(|x| x.1.get(id)).sum();
                        let mut take = have - f(have);
                        want += take;
                        for (_, p) in model.iter_mut().rev() {
                            if take == 0 {
                                break;
                            }
                            if let Some(v) = p.get_mut(id) {
                                let x = take.min(*v);
                                *v -= x;
                                take -= x;
                                if *v == 0 {
                                    p.remove(id);
                                }
                            }
                        }
                    }
                    let got = t.penalize_many(ids.iter().map(|id| (id, f)));
                    let ok = matches!(&got, Ok(x) if *x == want);
                    (format!("penalize of {} identities to 1/{part}: {got:?}, want {want}", ids.len()), ok)
                }
                _ => {
                    let back = bincode::deserialize(&bincode::serialize(&t).unwrap()).unwrap();
                    let ok = t == back;
                    t = back;
                    ("reload".to_string(), ok)
                }
            };
            let ctx = || format!("{packets} packets, {nid} identities, step {step}: {what}");
            c.check(ok, "long_result", ctx);
            c.event("long_states_compared");
            let q: Vec<(A, BTreeMap<W, V>)> = t.queue().map(|(a, i)| (*a, i.map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>())).filter(|x| !x.1.is_empty()).collect();
            let want: Vec<_> = model.iter().filter(|x| !x.1.is_empty()).cloned().collect();
            let first = q.iter().zip(&want).position(|(a, b)| a != b);
            c.check(q == want, "long_packets", || format!("{}; {} packets, model {}; first difference at {first:?}", ctx(), q.len(), want.len()));
            let mut sums: BTreeMap<W, V> = BTreeMap::new();
            for (k, v) in model.iter().flat_map(|x| &x.1) {
                *sums.entry(*k).or_insert(0) += v;
            }
            let ids: BTreeMap<W, V> = t.identities().map(|(k, v)| (*k, *v)).collect();
            c.check(ids == sums && t.num_identities() == sums.len(), "long_identities", || format!("{}; {} identities, model {}", ctx(), ids.len(), sums.len()));
            c.check(t.get_total_sum() == sums.values().sum::<V>(), "long_total", ctx);
            let all: Vec<W> = (0..nid as W + 2).collect();
            c.check(t.get_sum(&all) == t.get_total_sum(), "long_get_sum", ctx);
            c.nontrivial(&(clock, want.len(), step));
        }
    });
}

/// One history over `nid` identities, compared with the model every `stride` operations.
fn trs_history(c: &mut Case, nid: u8, ops: u64, stride: u64, width: u64, top: u64) {
        let mut t = Trs::new();
        let mut md = Model::default();
        let mut clock: A = 0;
        let mut hist: Vec<String> = vec![];
        let mut copies: Vec<(Trs, Model)> = vec![];
        for step in 0..ops {
            let op = if stride > 1 && c.rng.bool() { 0 } else { c.rng.below(20) };
            match op {
                0..=7 => {
                    let a = match c.rng.below(6) {
                        0 => clock.saturating_sub(1 + c.rng.below(5) as A),
                        1 | 2 => clock,
                        _ => clock + c.rng.below(4) as A,
                    };
                    let k = c.rng.below(width);
                    let diff: Vec<(Id, V)> = (0..k)
                        .map(|_| (c.rng.below(u64::from(nid)) as Id, match c.rng.below(6) { 0 => 0, 1 => -(c.rng.below(5) as V), _ => 1 + c.rng.below(top) as V }))
                        .collect();
                    hist.push(format!("gain({a}, {diff:?})"));
                    let before = t.clone();
                    let want = md.gain(a, &diff);
                    let Some(r) = c.nopanic("panic_gain", || hist.join("; "), || t.gain(a, diff.clone())) else { return };
                    c.check(r.is_ok() == want, "gain_result", || format!("ok={} model={want} after {}", r.is_ok(), hist.join("; ")));
                    if let Err(e) = r {
                        c.event("gain_rejected");
                        c.check(e.alpha == a && e.max_alpha > a, "gain_error", || format!("{e:?}"));
                        c.check(t == before, "rejected_changed", || hist.join("; "));
                    } else {
                        clock = clock.max(a);
                    }
                }
                8..=10 => {
                    let back = if stride > 1 { 1 << c.rng.below(10) } else { 8 };
                    let a = clock.saturating_sub(c.rng.below(back) as A) + c.rng.below(3) as A;
                    hist.push(format!("expire({a})"));
                    let want = md.expire(a);
                    let Some(r) = c.nopanic("panic_expire", || hist.join("; "), || t.expire(&a)) else { return };
                    if want > 0 {
                        c.event("expired");
                    }
                    c.check(r == want, "expired_amount", || format!("{r} vs {want} after {}", hist.join("; ")));
                    if md.queue.is_empty() {
                        // an empty queue accepts any expiration
                        clock = clock.saturating_sub(c.rng.below(3) as A);
                    }
                }
                11..=16 => {
                    let single = op == 11;
                    let k = if single { 1 } else { c.rng.below(width.min(200)) };
                    let bad = c.rng.chance(1, 3);
                    let mut list: Vec<(Id, Fun)> = (0..k)
                        .map(|_| {
                            let bad = bad && (k < 6 || c.rng.chance(1, 20));
                            (c.rng.below(u64::from(nid) + 1) as Id, gen_fun(c, bad, top))
                        })
                        .collect();
                    // repeated identities are applied one after another
                    if c.rng.chance(2, 3) {
                        let mut seen = BTreeSet::new();
                        list.retain(|x| seen.insert(x.0));
                    }
                    let repeated = list.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() < list.len();
                    hist.push(format!("{}({list:?})", if single { "penalize" } else { "penalize_many" }));
                    let mut m2 = md.clone();
                    let mut sub = 0;
                    let mut err = None;
                    for (id, f) in &list {
                        let old = m2.get(*id);
                        let new = f.app(old);
                        if new > old {
                            err = Some((old, new));
                            break;
                        }
                        m2.take(*id, old - new);
                        sub += old - new;
                    }
                    if list.is_empty() && single {
                        continue;
                    }
                    let r = c.nopanic("panic_penalize", || hist.join("; "), || {
                        if single {
                            let (id, f) = list[0];
                            t.penalize(&id, |v| f.app(v))
                        } else {
                            t.penalize_many(list.iter().map(|(id, f)| {
                                let f = *f;
                                (id, move |v: V| f.app(v))
                            }))
                        }
                    });
                    let Some(r) = r else { return };
                    match (r, err) {
                        (Ok(x), None) => {
                            c.event("penalized");
                            if repeated {
                                c.event("penalized_repeated");
                            }
                            c.check(x == sub, "penalized_amount", || format!("{x} vs {sub} after {}", hist.join("; ")));
                            md = m2;
                        }
                        (Err(e), Some((o, nw))) => {
                            // the set must be as before: compared below with the unchanged model
                            c.event("penalize_rejected");
                            c.check(e.old_rep == o && e.new_rep == nw, "penalize_error", || format!("{e:?} vs old {o} new {nw} after {}", hist.join("; ")));
                        }
                        (Ok(x), Some(_)) => {
                            c.violate("penalize_accepts_gain", format!("returned {x} after {}", hist.join("; ")));
                            return;
                        }
                        (Err(e), None) => {
                            c.violate("penalize_rejects", format!("{e:?} after {}", hist.join("; ")));
                            return;
                        }
                    }
                }
                17 => {
                    hist.push("reload".into());
                    // Maps with integer keys survive both formats.
                    let bytes = bincode::serialize(&t).unwrap();
                    let back: Trs = bincode::deserialize(&bytes).unwrap();
                    c.check(back == t, "reload_eq", || hist.join("; "));
                    let j: Trs = serde_json::from_str(&serde_json::to_string(&t).unwrap()).unwrap();
                    c.check(j == t, "reload_json_eq", || hist.join("; "));
                    t = back;
                    c.event("reloaded");
                }
                18 => {
                    copies.push((t.clone(), md.clone()));
                }
                _ => {
                    if c.rng.chance(1, 4) {
                        hist.push("clear".into());
                        t.clear();
                        md = Model::default();
                    } else {
                        hist.push("from_queue".into());
                        let q: Vec<(A, Vec<(Id, V)>)> = md.queue.iter().map(|(a, m)| (*a, m.iter().map(|(k, v)| (*k, *v)).collect())).collect();
                        match Trs::from_queue(q) {
                            Ok(x) => {
                                c.check(x == t || x.queue().count() == md.queue.len(), "from_queue", || hist.join("; "));
                                t = x;
                            }
                            Err(_) => c.violate("from_queue_err", hist.join("; ")),
                        }
                    }
                }
            }
            if step % stride == 0 || step + 1 == ops {
                compare(c, &t, &md, nid, &hist);
            }
        }
        c.sample(|| hist.join("; "));
        // Copies taken on the way were not affected by later operations.
        for (t, m) in copies {
            compare(c, &t, &m, nid, &hist);
        }
}

fn unsorted(m: &mut Mon) {
    let n = m.n(4_500, 50_000);
    m.run_par("unsorted_queue", n, |c| {
        let k = 1 + c.rng.below(6);
        let alphas: Vec<A> = (0..k).map(|_| c.rng.below(6) as A).collect();
        let sorted = alphas.windows(2).all(|w| w[0] <= w[1]);
        let r = Trs::from_queue(alphas.iter().map(|a| (*a, vec![(1u8, 5)])));
        c.nontrivial(&alphas);
        c.check(r.is_ok() == sorted, "from_queue_sorted", || format!("{alphas:?} accepted={}", r.is_ok()));
        if let Ok(t) = r {
            c.check(t.get(&1) == 5 * k as V, "from_queue_sum", || format!("{alphas:?}"));
        }
    });
}

type Ars = ActiveReputationSet<Id>;

/// The model: the last `capacity` slots, each the set of identities active in it.
#[derive(Clone, Debug)]
struct Win {
    cap: usize,
    slots: Vec<BTreeSet<Id>>,
    last: u32,
}
impl Win {
    fn push(&mut self, s: BTreeSet<Id>) {
        self.slots.push(s);
        if self.slots.len() > self.cap {
            self.slots.remove(0);
        }
    }
    fn active(&self) -> BTreeSet<Id> {
        self.slots.iter().flatten().copied().collect()
    }
}

fn ars(m: &mut Mon) {
    m.rule("Random histories of epoch updates (consecutive, skipped, far-jump, repeated and past epochs; empty, repeated and heavy activity), direct pushes, clear, clone and serialize/deserialize with window capacities 1..10 (and 16 to 2000 with up to 250 identities, compared every few operations; and epochs in which up to 5000 identities act, some repeatedly); after every operation membership, active identities, counts, buffer size and the result are compared with a sliding-window model, where an identity is active iff it acted in the last `capacity` epochs. Non-trivial: counted by (capacity, window contents).");
    m.require("states_compared", 5000);
    m.require("rejected_past", 200);
    m.require("jump_cleared", 100);
    m.require("skipped", 200);
    m.require("crowded_epochs", 300);
    let n = m.n(60_000, 1_000_000);
    m.run_par("history", n, |c| {
        let cap = 1 + c.rng.below(10) as usize;
        let nid = 1 + c.rng.below(8) as u8;
        let ops = 5 + c.rng.below(50);
        ars_history(c, cap, nid, ops, 5, 1);
    });
    // Windows of the size that the network uses, with many identities.
    let n = m.n(400, 6_000);
    m.run_par("wide", n, |c| {
        let cap = *c.rng.pick(&[16, 63, 64, 65, 100, 255, 256, 257, 300, 1000, 2000]);
        let nid = 1 + c.rng.below(250) as u8;
        let ops = 3 * cap as u64 + c.rng.below(200);
        let width = 1 + c.rng.below(60);
        ars_history(c, cap, nid, ops, width, 1 + cap as u64 / 16);
    });
    // Windows around the limits of the counters: an identity that acts in every epoch of the window.
    m.run("counter_limits", 6, |c| {
        let cap = [254usize, 256, 65_534, 65_535, 65_536, 65_537][c.index as usize];
        c.nontrivial(&cap);
        let mut a = Ars::new(cap);
        for e in 1..=cap as u32 + 3 {
            let ids = if e % 1000 == 1 { vec![1, 2] } else { vec![1] };
            let Some(r) = c.nopanic(&format!("identity-active-throughout-a-window-of-{cap}"), || format!("window {cap}, epoch {e}, identity 1 active in every epoch"), || a.update(ids, e)) else { return };
            // The last epoch in which 2 acted is within the window or not
            let two = (e - 1) / 1000 * 1000 + 1 > e.saturating_sub(cap as u32);
            if r.is_err() || !a.contains(&1) || a.contains(&2) != two || a.active_identities_number() != 1 + usize::from(two) {
                c.violate("long_window", format!("window {cap}, epoch {e}, identity 1 active in every epoch: {r:?}, contains(1)={} number={}", a.contains(&1), a.active_identities_number()));
                return;
            }
        }
        c.event("long_windows");
    });
    // Epochs in which thousands act, and some of them many times.
    let n = m.n(120, 2_000);
    m.run_par("crowded", n, |c| {
        let cap = 1 + c.rng.below(6) as usize;
        let mut a = ActiveReputationSet::<u32>::new(cap);
        let mut slots: Vec<BTreeSet<u32>> = vec![];
        let crowd = *c.rng.pick(&[200u32, 255, 256, 257, 300, 512, 1_000, 1_025, 3_000, 5_000]);
        let mut e = 0;
        for _ in 0..3 + 2 * cap as u32 {
            let base = c.rng.below(3) as u32 * 1_000;
            let mut ids: Vec<u32> = (base..base + c.rng.below(u64::from(crowd) + 1) as u32).collect();
            if c.rng.bool() {
                // repeated, in any order
                for _ in 0..c.rng.below(u64::from(crowd)) {
                    ids.push(base + c.rng.below(u64::from(crowd)) as u32);
                }
                for i in (1..ids.len()).rev() {
                    ids.swap(i, c.rng.below(i as u64 + 1) as usize);
                }
            }
            slots.push(ids.iter().copied().collect());
            if slots.len() > cap {
                slots.remove(0);
            }
            let k = ids.len();
            let r = if c.rng.chance(1, 5) { a.push_activity(ids); Ok(()) } else { e += 1; a.update(ids, e) };
            c.check(r.is_ok(), "crowded_result", || format!("epoch {e}: {r:?}"));
            let want: BTreeSet<u32> = slots.iter().flatten().copied().collect();
            let got: BTreeSet<u32> = a.active_identities().copied().collect();
            c.event("crowded_epochs");
            c.nontrivial(&(cap, e, want.len()));
            let ctx = || format!("window {cap}, epoch {e}, {k} identities named: {} active, model {}", got.len(), want.len());
            c.check(got == want && a.active_identities_number() == want.len(), "crowded_active", ctx);
            c.check((0..8_000).all(|i| a.contains(&i) == want.contains(&i)), "crowded_contains", ctx);
            if c.rng.chance(1, 6) {
                let back: ActiveReputationSet<u32> = bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap();
                c.check(back == a, "crowded_reload", ctx);
                a = back;
            }
        }
    });
    equality(m);
}

/// One history over `nid` identities, compared with the model every `stride` operations.
fn ars_history(c: &mut Case, cap: usize, nid: u8, ops: u64, width: u64, stride: u64) {
        let mut a = Ars::new(cap);
        let mut w = Win { cap, slots: vec![], last: 0 };
        // Epoch-indexed view: valid while only `update` is used.
        let mut acts: HashMap<u32, BTreeSet<Id>> = HashMap::new();
        let mut pure = true;
        let mut hist: Vec<String> = vec![format!("capacity {cap}")];
        let (mut habit, mut quiet): (Vec<Id>, bool) = (vec![], false);
        for step in 0..ops {
            let k = c.rng.below(width);
            let mut ids: Vec<Id> = (0..k).map(|_| c.rng.below(u64::from(nid)) as Id).collect();
            if stride > 1 {
                // Identities have habits: some act in every epoch for a while, and then not at all.
                if c.rng.chance(2, cap as u64) {
                    habit = (0..nid).filter(|_| c.rng.chance(1, 4)).collect();
                    quiet = c.rng.bool();
                }
                if quiet {
                    ids.clear();
                }
                ids.extend(&habit);
            }
            let set: BTreeSet<Id> = ids.iter().copied().collect();
            let rare = stride > 1 && !c.rng.chance(1, 2 * cap as u64);
            match if rare { 0 } else { c.rng.below(12) } {
                0..=7 => {
                    let e = match if rare { 9 } else { c.rng.below(10) } {
                        0 => w.last,
                        1 => w.last.saturating_sub(c.rng.below(4) as u32),
                        2 => w.last.saturating_add(cap as u32 + c.rng.below(3) as u32),
                        3 => w.last.saturating_add(cap as u32 - 1),
                        4 => w.last.saturating_add(2 + c.rng.below(4) as u32),
                        5 if c.rng.chance(1, 6) => w.last.saturating_add(1_000_000 + c.rng.u32() / 2),
                        _ => w.last.saturating_add(1),
                    };
                    hist.push(format!("update({ids:?}, {e})"));
                    let before = a.clone();
                    let Some(r) = c.nopanic("panic_update", || hist.join("; "), || a.update(ids.clone(), e)) else { return };
                    if e > w.last {
                        let d = (e - w.last) as usize;
                        if d >= cap {
                            c.event("jump_cleared");
                            w.slots.clear();
                        } else {
                            if d > 1 {
                                c.event("skipped");
                            }
                            for _ in 1..d {
                                w.push(BTreeSet::new());
                            }
                        }
                        w.push(set.clone());
                        w.last = e;
                        acts.insert(e, set);
                        c.check(r.is_ok(), "update_rejected", || format!("{r:?} after {}", hist.join("; ")));
                    } else if e == 0 {
                        c.event("genesis");
                        c.check(r.is_ok() && a == before, "genesis_changed", || hist.join("; "));
                    } else {
                        c.event("rejected_past");
                        c.check(r.is_err(), "past_accepted", || hist.join("; "));
                        c.check(a == before, "rejected_changed", || hist.join("; "));
                    }
                }
                8 | 9 if c.rng.chance(1, 3) => {
                    pure = false;
                    hist.push(format!("push({ids:?})"));
                    if c.nopanic("panic_push", || hist.join("; "), || a.push_activity(ids.clone())).is_none() {
                        return;
                    }
                    w.push(set);
                }
                10 => {
                    hist.push("reload".into());
                    let back: Ars = bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap();
                    c.check(back == a, "reload", || hist.join("; "));
                    let j: Ars = serde_json::from_str(&serde_json::to_string(&a).unwrap()).unwrap();
                    c.check(j == a, "reload_json", || hist.join("; "));
                    a = if c.rng.bool() { back } else { j };
                    c.event("reloaded");
                }
                11 if c.rng.chance(1, 4) => {
                    hist.push("clear".into());
                    a.clear();
                    w.slots.clear();
                    acts.clear();
                }
                _ => {
                    let b = a.clone();
                    c.check(b == a, "clone_eq", || hist.join("; "));
                    a = b;
                }
            }
            if step % stride != 0 && step + 1 != ops {
                continue;
            }
            c.event("states_compared");
            c.nontrivial(&(cap, &w.slots));
            let act = w.active();
            let h = || hist.join("; ");
            for id in 0..nid + 1 {
                c.check(a.contains(&id) == act.contains(&id), "membership", || format!("id {id}: contains={} model={} after {}", a.contains(&id), act.contains(&id), h()));
            }
            let got: BTreeSet<Id> = a.active_identities().copied().collect();
            c.check(got == act && a.active_identities().count() == act.len(), "active_identities", || format!("{got:?} vs {act:?} after {}", h()));
            c.check(a.active_identities_number() == act.len(), "active_number", || format!("{} vs {} after {}", a.active_identities_number(), act.len(), h()));
            c.check(a.buffer_capacity() == cap, "capacity", h);
            c.check(a.buffer_size() == w.slots.len() && a.buffer_size() <= cap, "buffer_size", || format!("{} vs {} after {}", a.buffer_size(), w.slots.len(), h()));
            if pure {
                // Independent statement in epochs.
                let from = i64::from(w.last) - cap as i64;
                let byepoch: BTreeSet<Id> = acts.iter().filter(|(e, _)| i64::from(**e) > from).flat_map(|(_, s)| s.iter().copied()).collect();
                c.check(got == byepoch, "epoch_window", || format!("{got:?} vs {byepoch:?} after {}", h()));
            }
        }
        c.sample(|| hist.join("; "));
}

fn equality(m: &mut Mon) {
    let n = m.n(7_500, 100_000);
    m.run_par("equality", n, |c| {
        // Two sets fed the same window are equal; a different window or capacity is not.
        let cap = 1 + c.rng.below(6) as usize;
        let (mut a, mut b) = (Ars::new(cap), Ars::new(cap));
        let mut e = 0;
        for _ in 0..c.rng.below(12) {
            e += 1 + c.rng.below(3) as u32;
            let ids: Vec<Id> = (0..c.rng.below(3)).map(|_| c.rng.below(5) as Id).collect();
            a.update(ids.clone(), e).unwrap();
            let mut r = ids;
            r.reverse();
            b.update(r, e).unwrap();
        }
        c.nontrivial(&(cap, e));
        c.check(a == b, "same_history_differs", || format!("cap {cap} epoch {e}"));
        b.update(vec![99], e + 1).unwrap();
        a.update(vec![98], e + 1).unwrap();
        c.check(a != b, "different_equal", || format!("cap {cap} epoch {e}"));
        c.check(Ars::new(cap) != Ars::new(cap + 1), "capacity_equal", || format!("{cap}"));
    });
}

fn main() {
    vmon::main(&[("C12", trs), ("C13", ars)])
}
