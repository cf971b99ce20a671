//! Networks in use: what people and sources did is compared with what the nodes say of it.
use crate::life::*;
use crate::play::*;
use crate::report::Report;
use crate::scene::{told, two};
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use vmon::{Rng, Tier};
use witnet_data_structures::chain::*;
use witnet_data_structures::transaction::*;
use witnet_node::actors::messages::*;

/// What the source of a request said to a node.
pub fn truth(seed: u64, url: &str, n: u32) -> Option<i128> {
    let v = i128::from(vmon::h64(&(seed, url)) % 1000);
    if url.contains("//broken") && n == 2 {
        return None;
    }
    Some(if url.contains("//liar") && n == 1 { v + 1 } else { v })
}
/// An integer, as CBOR has it.
pub fn cbor_int(b: &[u8]) -> Option<i128> {
    let (m, rest) = (b.first()? >> 5, b.first()? & 31);
    let v: u64 = match (rest, b.len()) {
        (0..=23, 1) => rest.into(),
        (24, 2) => b[1].into(),
        (25, 3) => u16::from_be_bytes([b[1], b[2]]).into(),
        (26, 5) => u32::from_be_bytes(b[1..5].try_into().unwrap()).into(),
        (27, 9) => u64::from_be_bytes(b[1..9].try_into().unwrap()),
        _ => return None,
    };
    match m {
        0 => Some(v.into()),
        1 => Some(-1 - i128::from(v)),
        _ => None,
    }
}
/// An error, as witnesses report it: a tagged array that starts with the code.
pub fn cbor_error(b: &[u8]) -> Option<u8> {
    if b.len() >= 4 && b[0] == 0xd8 && b[1] == 39 && (0x81..=0x97).contains(&b[2]) {
        return match b[3] {
            x @ 0..=23 => Some(x),
            24 => b.get(4).copied(),
            _ => None,
        };
    }
    None
}

pub struct Lives {
    pub p: Play,
    pub seed: u64,
    /// transfers taken in by nodes: hash => (epoch, by which node, transaction)
    pub accepted: BTreeMap<Hash, (u32, u32, Transaction)>,
    /// when a node was last seen out of step
    pub behind: HashMap<u32, u32>,
}
impl Lives {
    /// The books against what a node says.
    pub async fn books(&mut self, n: u32) {
        let e = self.p.l.epoch();
        let w = &self.p.w;
        // only when nothing moves between the two readings
        let tip = w.tip(n).await;
        if tip.map(|t| t.checkpoint) != Some(e) || tip.map(|t| t.hash_prev_block) != self.p.l.chain.last().map(|x| x.1) {
            return;
        }
        let l = &self.p.l;
        let rep = &mut self.p.rep;
        if let Some(t) = told(w, n).await {
            let mine = l.books.balances();
            for k in mine.keys().chain(t.balances.keys()) {
                let (a, b) = (t.balances.get(k).copied().unwrap_or(0), mine.get(k).copied().unwrap_or(0));
                rep.check(a == b, "books:balance-differs", || format!("node {n} at epoch {e}: {k} has {a}, the blocks say {b}"));
            }
            for k in l.books.stakes.keys().chain(t.stakes.keys()) {
                let (a, b) = (t.stakes.get(k).copied().unwrap_or(0), l.books.stakes.get(k).copied().unwrap_or(0));
                rep.check(a == b, "books:stake-differs", || format!("node {n} at epoch {e}: {k} has staked {a}, the blocks say {b}"));
            }
            rep.event("balances of everybody compared");
        }
        for u in w.users.iter().chain(&w.keys) {
            if let Some(Ok(i)) = w.chain(n, GetUtxoInfo { pkh: u.pkh }).await {
                let mut a: Vec<_> = i.utxos.iter().map(|x| (x.output_pointer, x.value, x.timelock)).collect();
                a.sort();
                let now = crate::clock::now() as u64;
                // a lock that has expired is told as none
                let mut b: Vec<_> = l.books.of(&u.pkh).into_iter().map(|(p, o)| (p, o.value, if o.time_lock < now { 0 } else { o.time_lock })).collect();
                b.sort();
                rep.check(a == b, "books:coins-differ", || {
                    let (x, y): (Vec<_>, Vec<_>) = (a.iter().filter(|c| !b.contains(c)).collect(), b.iter().filter(|c| !a.contains(c)).collect());
                    format!("node {n} at epoch {e}: the coins of {} are {}, the blocks say {}; only the node has {x:?}, only the blocks {y:?}", u.pkh, a.len(), b.len())
                });
                rep.events("coins compared", a.len() as u64);
            }
        }
    }
    /// What the ledger found wrong on its way along the chain.
    pub fn verdicts(&mut self) {
        for (s, d) in std::mem::take(&mut self.p.l.books.wrong) {
            self.p.rep.check(false, &format!("books:{s}"), || d);
        }
    }
    /// Where transactions are, according to the node, and according to the chain.
    pub async fn found(&mut self, n: u32, r: &mut Rng) {
        let l = &self.p.l;
        let mut hs: Vec<_> = l.books.seen.iter().filter(|(_, x)| x.3 != "mint" && x.0 > 0).map(|(h, x)| (*h, *x)).collect();
        r.shuffle(&mut hs);
        for (h, (e, b, i, k)) in hs.into_iter().take(25) {
            let x = self.p.w.inv(n, GetItemTransaction { hash: h }).await;
            let rep = &mut self.p.rep;
            match x {
                Some(Ok((t, at, epoch))) => {
                    rep.check(t_hash(&t, e) == h, "found:wrong-transaction", || format!("node {n} gives {t:?} for {h}"));
                    rep.check(at.block_hash == b && epoch == e, "found:wrong-place", || format!("node {n} has {k} {h} in {} of epoch {epoch}; it is in {b} of epoch {e}", at.block_hash));
                    let _ = i;
                    rep.event("transactions looked up");
                }
                x => {
                    rep.check(false, "found:not-found", || format!("node {n} does not give {k} {h}, which is in {b} of epoch {e}: {x:?}"));
                }
            }
        }
    }
    /// How the requests fared. `patience`: epochs a request may take.
    pub async fn requests(&mut self, n: u32, patience: u32) {
        let end = self.p.l.epoch();
        let keys: HashMap<PublicKeyHash, u32> = self.p.w.keys.iter().enumerate().map(|(i, k)| (k.pkh, i as u32)).collect();
        let p = &mut self.p;
        for (h, (o, _)) in &p.l.books.open {
            p.rep.check(o.epoch + patience >= end, "requests:not-resolved", || format!("{h}, of epoch {}, is still open at epoch {end}: {o:?}", o.epoch));
        }
        let asked = p.l.asked.clone();
        for (h, c) in p.l.books.closed.clone() {
            p.rep.event("requests resolved");
            let took = c.epoch - c.open.epoch;
            p.rep.check(took <= patience, "requests:slow", || format!("{h} took {took} epochs: {:?}", c.open));
            let Some(a) = asked.get(&h) else { continue };
            let second = c.open.second;
            // what witnesses said is what the source told them
            let mut ints = vec![];
            for (who, what) in &c.open.reveals {
                let Some(k) = keys.get(who) else {
                    p.rep.check(false, "requests:stranger", || format!("{who} reveals to {h}"));
                    continue;
                };
                if let Some(u) = &a.url {
                    match truth(self.seed, u, *k) {
                        Some(v) => {
                            let got = cbor_int(what);
                            p.rep.check(got == Some(v), "requests:reveal-differs-from-source", || format!("node {k} reveals {} to {h}; {u} told it {v}", vmon::hex(what)));
                            ints.push(v);
                        }
                        None => {
                            let x = cbor_error(what);
                            p.rep.check(x.is_some(), "requests:reveal-differs-from-source", || format!("node {k} reveals {} to {h}; {u} did not answer it", vmon::hex(what)));
                            p.rep.event("error reports revealed");
                        }
                    }
                    p.rep.event("reveals compared with their source");
                }
            }
            // when everybody who committed revealed, and all the same, that is the result
            let all_same = ints.len() == c.open.commits.len() && !ints.is_empty() && ints.iter().all(|x| *x == ints[0]);
            if all_same && a.reducer == 2 {
                let got = cbor_int(&c.tally.tally);
                p.rep.check(got == Some(ints[0]), "requests:result-differs", || format!("{h}: all {} witnesses said {}, the tally is {}", ints.len(), ints[0], vmon::hex(&c.tally.tally)));
                p.rep.check(c.tally.out_of_consensus.is_empty() && c.tally.error_committers.is_empty(), "requests:honest-witness-blamed", || format!("{h}: {:?} {:?}", c.tally.out_of_consensus, c.tally.error_committers));
                p.rep.event("unanimous results");
            }
            // who is blamed had committed; who committed and did not reveal is blamed
            let blamed: HashSet<_> = c.tally.out_of_consensus.iter().collect();
            for b in &blamed {
                p.rep.check(c.open.commits.contains(b), "requests:stranger-blamed", || format!("{b} is out of consensus in {h} without having committed"));
            }
            for w in &c.open.commits {
                let revealed = c.open.reveals.iter().any(|(k, _)| k == w);
                if !revealed && c.open.reveals.len() < c.open.commits.len() {
                    p.rep.check(blamed.contains(w), "requests:silent-witness-not-blamed", || format!("{w} committed to {h} and did not reveal: {:?}", c.tally));
                }
            }
            // nobody runs out of witnesses when all are there
            p.rep.events("commits of resolved requests", c.open.commits.len() as u64);
            if c.open.commits.is_empty() {
                let x = cbor_error(&c.tally.tally);
                p.rep.check(x.is_some(), "requests:result-without-witnesses", || format!("{h} had no witness, and its tally is {}", vmon::hex(&c.tally.tally)));
                p.rep.event("requests without witnesses");
            }
            let _ = second;
            // the report a node keeps says the same as the chain
            let x = p.w.chain(n, GetDataRequestInfo { dr_pointer: h }).await;
            match x {
                Some(Ok(i)) => {
                    let mut a: Vec<_> = i.commits.keys().copied().collect();
                    a.sort();
                    let mut b = c.open.commits.clone();
                    b.sort();
                    let mut ra: Vec<_> = i.reveals.iter().map(|(k, v)| (*k, v.body.reveal.clone())).collect();
                    ra.sort();
                    let mut rb = c.open.reveals.clone();
                    rb.sort();
                    let same = i.tally.as_ref() == Some(&c.tally) && i.block_hash_tally_tx == Some(c.block) && i.block_hash_dr_tx == Some(c.asked_in) && a == b && ra == rb;
                    p.rep.check(same, "requests:report-differs", || format!("node {n} says of {h}: {i:?}; the chain says {c:?}"));
                    p.rep.event("reports compared");
                }
                x => {
                    p.rep.check(false, "requests:report-missing", || format!("node {n} knows nothing of {h}, resolved in epoch {}: {x:?}", c.epoch));
                }
            }
        }
    }
    /// What nodes took in got on the chain, unless something else spent its coins.
    pub async fn included(&mut self, patience: u32) {
        let end = self.p.l.epoch();
        let mut waiting = 0;
        let mut pending: HashMap<Hash, Vec<u32>> = HashMap::new();
        for n in self.p.synced().await {
            if let Some(Ok(m)) = self.p.w.chain(n, GetMempool).await {
                for h in m.value_transfer.iter().chain(&m.data_request) {
                    pending.entry(*h).or_default().push(n);
                }
            }
        }
        for (h, (e, by, t)) in &self.accepted {
            if (*e).max(self.behind.get(by).copied().unwrap_or(0)) + patience >= end {
                waiting += 1;
                continue;
            }
            let seen = self.p.l.books.seen.contains_key(h);
            if seen {
                self.p.rep.event("accepted transactions included");
                continue;
            }
            let ins: &[Input] = match t {
                Transaction::ValueTransfer(t) => &t.body.inputs,
                Transaction::DataRequest(t) => &t.body.inputs,
                _ => continue,
            };
            // known to too few to have had its turn: only the node that made it mines it
            if pending.contains_key(h) {
                self.p.rep.event("accepted transactions still pending");
                continue;
            }
            let spent = ins.iter().any(|i| !self.p.l.books.coins.contains_key(i.output_pointer()));
            if spent {
                self.p.rep.event("accepted transactions overtaken by a double spend");
                continue;
            }
            // its coins were those of an abandoned branch, and came to be only later on this one
            let late = ins.iter().any(|i| self.p.l.books.seen.get(&i.output_pointer().transaction_id).is_some_and(|x| x.0 >= *e));
            if late {
                self.p.rep.event("accepted transactions whose coins were made anew");
                continue;
            }
            self.p.rep.check(false, "pool:accepted-and-lost", || {
                                let who: Vec<_> = ins.iter().map(|i| *i.output_pointer()).collect();
                let rivals: Vec<_> = self.accepted.iter().filter(|(g, (_, _, t))| *g != h && matches!(t, Transaction::ValueTransfer(t) if t.body.inputs.iter().any(|i| ins.contains(i)))).map(|(g, (e, n, _))| (*g, *e, *n)).collect();
                format!("{h}, taken in by {by} at epoch {e}, is not on the chain at epoch {end}, and its coins {who:?} are still there; pending nowhere; rivals {rivals:?}; {t:?}")
            });
        }
        self.p.rep.events("accepted transactions too young to judge", waiting);
        // nothing pending is on the chain already, nor spends what is gone
        for n in self.p.synced().await {
            let Some(Ok(m)) = self.p.w.chain(n, GetMempool).await else { continue };
            if self.p.w.tip(n).await.map(|t| t.hash_prev_block) != self.p.l.chain.last().map(|x| x.1) {
                continue;
            }
            for h in m.value_transfer.iter().chain(&m.data_request).chain(&m.stake).chain(&m.unstake) {
                let s = self.p.l.books.seen.get(h).copied();
                self.p.rep.check(s.is_none(), "pool:pending-though-included", || format!("node {n} holds {h} as pending; it is on the chain: {s:?}"));
                self.p.rep.event("pending transactions seen");
            }
        }
    }
}
/// A network left in peace, or cut for a moment.
pub fn lives(mut r: Rng, tier: Tier, cuts: bool, edge: bool) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    let nodes = if cuts { 5 } else { 3 + r.below(3) as u32 };
    let v2 = if edge { 12 } else { *r.pick(&[u32::MAX, 0, 12, 25]) };
    let plan = Plan {
        v1_8: if v2 == u32::MAX { u32::MAX } else { 3 },
        v2: if v2 == 0 { 12 } else { v2 },
        superblock_period: if cuts { *r.pick(&[3, 5]) } else { *r.pick(&[3, 5, 10]) },
        activity_period: *r.pick(&[20, 2000]),
        halving: *r.pick(&[7, 20, 3_500_000]),
        outbound: if cuts { 3 } else { u16::MAX },
        ..two(nodes)
    };
    let plan = Plan { activity_period: if cuts { 2000 } else { plan.activity_period }, ..plan };
    let len = (if tier == Tier::Thorough { 50 } else { 35 }) + r.below(20) as u32;
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, plan, |mut w| async move {
        w.start_all();
        let h = Habits {
            pays: 1 + r.below(5),
            asks: *r.pick(&[1, 2, 4]),
            stakes: true,
            unstakes: edge || r.bool(),
            tight: edge,
            quits: edge,
            guests: 0,
            hosts: vec!["good", "good", "liar", "broken", ""],
            doubles: r.bool(),
        };
        let mut v = Lives { p: Play::new(w, r.clone(), h), seed, accepted: BTreeMap::new(), behind: HashMap::new() };
        let mut log = format!("{nodes} nodes, wit/2 at {}; ", v.p.w.plan.v2);
        let mut cut = 0u32;
        for e in 0..len {
            v.p.w.until_epoch(e, 3.0).await;
            if cuts {
                if cut > 0 && e >= cut {
                    v.p.heal().await;
                    log += &format!("{e} heal; ");
                    cut = 0;
                } else if cut == 0 && e > 16 && e + 16 < len && r.chance(1, 5) {
                    let n = r.below(u64::from(nodes)) as u32;
                    let sides = (0..nodes).map(|k| u8::from(k == n)).collect();
                    cut = e + 1 + r.below(4) as u32;
                    log += &format!("{e} cut off {n} until {cut}; ");
                    v.p.split(sides);
                }
            }
            let s = v.p.synced().await;
            for n in (0..nodes).filter(|n| !s.contains(n)) {
                v.behind.insert(n, e);
            }
            if !s.is_empty() {
                // the one that is never behind
                let mut best = s[0];
                for n in &s {
                    let main = v.p.sides.iter().filter(|x| **x == v.p.sides[*n as usize]).count();
                    if main * 2 > nodes as usize {
                        best = *n;
                        break;
                    }
                }
                if v.p.l.follow(&v.p.w, best).await {
                    v.books(best).await;
                    if e % 7 == 6 {
                        v.found(best, &mut r).await;
                    }
                }
            }
            // people stop early enough for all to settle
            if e + 14 < len {
                let sent = v.p.act(e, &s).await;
                for (n, t) in sent {
                    let wanted = matches!(&t, Transaction::ValueTransfer(_) | Transaction::DataRequest(_));
                    if wanted {
                        v.accepted.insert(t_hash(&t, e), (e, n, t));
                    }
                }
            }
            if std::env::var("PLAY_LOG").is_ok() {
                println!("{e} {}", v.p.describe().await);
            }
        }
        let e = len;
        v.p.w.until_epoch(e, 3.0).await;
        let s = v.p.synced().await;
        v.p.rep.check(!s.is_empty(), "books:nobody-synchronised", || log.clone());
        for (k, n) in s.iter().enumerate() {
            if v.p.l.follow(&v.p.w, *n).await {
                v.books(*n).await;
                if k == 0 {
                    let patience = if cuts { 24 } else { 12 };
                    v.requests(*n, patience).await;
                    v.included(13).await;
                }
                v.found(*n, &mut r).await;
            }
        }
        v.verdicts();
        let counts = v.p.l.books.counts.clone();
        for (k, n) in counts {
            v.p.rep.events(&format!("{k} on chain"), n);
        }
        v.p.rep.events("blocks replayed", v.p.l.books.blocks);
        v.p.rep.events("chains replayed anew after a reorganisation", v.p.l.reorganised);
        v.p.rep.shapes.push(vmon::h64(&v.p.l.chain));
        let log = format!("{log}{:?}", v.p.l.books.counts);
        (std::mem::take(&mut v.p.rep), log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
pub fn calm(r: Rng, t: Tier) -> Report {
    lives(r, t, false, false)
}
pub fn cuts(r: Rng, t: Tier) -> Report {
    lives(r, t, true, false)
}
/// Validators that stake as little as they may, and leave when they like.
pub fn edge(r: Rng, t: Tier) -> Report {
    lives(r, t, false, true)
}
/// Whether the network goes on producing blocks, whatever people do.
pub fn grows(mut r: Rng, tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    let nodes = 3 + r.below(4) as u32;
    let v2 = *r.pick(&[u32::MAX, 12, 12, 12, 25]);
    let plan = Plan {
        v1_8: if v2 == u32::MAX { u32::MAX } else { 3 },
        v2,
        superblock_period: *r.pick(&[3, 5, 10]),
        activity_period: *r.pick(&[20, 2000]),
        halving: *r.pick(&[7, 20, 3_500_000]),
        outbound: u16::MAX,
        ..two(nodes)
    };
    let len = (if tier == Tier::Thorough { 70 } else { 45 }) + r.below(20) as u32;
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, plan, |mut w| async move {
        w.start_all();
        let h = Habits {
            pays: r.below(4),
            asks: *r.pick(&[1, 1, 2]),
            stakes: true,
            unstakes: r.bool(),
            guests: 1 + r.idx(2),
            hosts: vec!["good", "liar", "broken", "", ""],
            doubles: r.chance(1, 4),
            ..Default::default()
        };
        let mut p = Play::new(w, r.clone(), h);
        let log = format!("{nodes} nodes, wit/2 at {v2}; ");
        let (mut best, mut since) = (0, 0);
        for e in 0..len {
            p.w.until_epoch(e, 3.0).await;
            let mut tip = 0;
            for n in 0..nodes {
                tip = tip.max(p.w.tip(n).await.map_or(0, |t| t.checkpoint));
            }
            if tip > best {
                p.rep.event("epochs in which the chain grew");
                (best, since) = (tip, e);
            }
            if e - since <= 12 {
                p.rep.check(true, "chain-stopped", String::new);
            } else {
                let all = p.describe().await;
                p.rep.check(false, "chain-stopped", || format!("no block since epoch {since}, at epoch {e}: {all}; {log}"));
                break;
            }
            let s = p.synced().await;
            if let Some(n) = s.first() {
                p.l.follow(&p.w, *n).await;
            }
            p.act(e, &s).await;
            p.rep.event("epochs lived");
            if std::env::var("PLAY_LOG").is_ok() {
                println!("{e} {}", p.describe().await);
            }
        }
        let counts = p.l.books.counts.clone();
        for (k, n) in counts {
            p.rep.events(&format!("{k} on chain"), n);
        }
        p.rep.shapes.push(vmon::h64(&p.l.chain));
        (std::mem::take(&mut p.rep), log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
