//! A network in use: people pay, ask, stake and withdraw while parts of it fail; what the nodes say is
//! watched all along.
use crate::life::*;
use crate::report::Report;
use crate::scene::{sources, told, Told};
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::IpAddr;
use vmon::Rng;
use witnet_data_structures::chain::*;
use witnet_data_structures::transaction::*;
use witnet_node::actors::messages::*;

#[derive(Clone, Default)]
pub struct Habits {
    /// transfers per epoch
    pub pays: u64,
    /// one request every so many epochs
    pub asks: u32,
    pub stakes: bool,
    pub unstakes: bool,
    /// whether validators stake little more than they must
    pub tight: bool,
    /// whether validators withdraw everything at times
    pub quits: bool,
    /// validators without a node, who come and go; requests ask for as many witnesses as there may be
    pub guests: usize,
    /// hosts of the sources
    pub hosts: Vec<&'static str>,
    /// how often a transfer that spends an earlier transfer's coins again is sent
    pub doubles: bool,
}
pub struct Play {
    pub w: World,
    pub l: Life,
    pub rep: Report,
    pub r: Rng,
    pub habits: Habits,
    /// epoch => the block somebody held confirmed, and who
    pub confirmed: BTreeMap<u32, (Hash, u32)>,
    pub confirmed_up_to: Vec<u32>,
    pub staked: Vec<bool>,
    pub nonces: HashMap<PublicKeyHash, u64>,
    pub sides: Vec<u8>,
    /// the ends of the chains seen, by node
    pub tips: HashSet<(u32, Hash)>,
}
impl Play {
    pub fn new(w: World, r: Rng, habits: Habits) -> Play {
        let n = w.plan.nodes as usize;
        Play { l: Life::new(&w), w, rep: Report::default(), r, habits, confirmed: BTreeMap::new(), confirmed_up_to: vec![0; n], staked: vec![false; n], nonces: HashMap::new(), sides: vec![0; n], tips: HashSet::new() }
    }
    pub fn alive(&self) -> Vec<u32> {
        (0..self.w.plan.nodes).filter(|n| self.w.alive[*n as usize]).collect()
    }
    pub async fn synced(&self) -> Vec<u32> {
        let mut v = vec![];
        for n in self.alive() {
            if self.w.state(n).await == Some(StateMachine::Synced) {
                v.push(n);
            }
        }
        v
    }
    /// The transactions of an epoch, through the given nodes.
    pub async fn act(&mut self, e: u32, via: &[u32]) -> Vec<(u32, Transaction)> {
        if via.is_empty() {
            return vec![];
        }
        let users = self.w.users.clone();
        let keys = self.w.keys.clone();
        let r = &mut self.r;
        let l = &mut self.l;
        let mut todo: Vec<Transaction> = vec![];
        for _ in 0..self.habits.pays {
            let (a, b) = (r.idx(users.len()), r.idx(users.len()));
            let v = match r.below(6) {
                0 => 1,
                1 => 1 + r.below(1000),
                _ => 1 + r.below(100 * WIT),
            };
            let fee = r.below(1_000_000);
            let now = crate::clock::now() as u64;
            let lock = match r.below(8) {
                0 => now + r.below(400),
                _ => 0,
            };
            let to = if r.chance(1, 8) { keys[r.idx(keys.len())].pkh } else { users[b].pkh };
            todo.extend(l.pay(r, &self.w, &users[a], to, v, fee, lock));
        }
        if self.habits.asks > 0 && e % self.habits.asks == 0 {
            let a = r.idx(users.len());
            let host = *r.pick(&self.habits.hosts);
            l.counter += 1;
            let url = format!("https://{host}.example/{}", l.counter);
            let most = if self.habits.guests > 0 { l.books.stakes.values().filter(|x| **x > 0).count() as u64 / 2 + 1 } else { u64::from(self.w.plan.nodes.min(4)) };
            let wit = if self.habits.guests > 0 && r.bool() { (most - 1).max(1) } else { 1 + r.below(most) } as u16;
            let o = request(r, (!host.is_empty()).then_some(url.as_str()), wit);
            let fee = r.below(1_000_000);
            if let Some(t) = l.ask(r, &users[a], o.clone(), fee) {
                let h = t_hash(&t, e);
                l.asked.insert(h, Asked { hash: h, url: (!host.is_empty()).then_some(url), reducer: o.data_request.tally.reducer, fee });
                todo.push(t);
            }
        }
        if self.habits.stakes && e >= self.w.plan.v1_8 {
            for k in 0..keys.len() {
                let u = k % users.len();
                if !self.staked[k] {
                    let v = if self.habits.tight && r.chance(2, 3) { 10_000 * WIT + r.below(40) * WIT / 2 } else { 11_000 * WIT + r.below(20_000 * WIT) };
                    if let Some(t) = l.stake(r, &users[u], &keys[k], users[u].pkh, v, 1000) {
                        self.staked[k] = true;
                        todo.push(t);
                        break;
                    }
                } else if r.chance(1, 25) {
                    let v = 10_000 * WIT + r.below(10_000 * WIT);
                    let from = r.idx(users.len());
                    todo.extend(l.stake(r, &users[from], &keys[k], users[u].pkh, v, 1 + v % 5000));
                }
            }
        }
        if self.habits.unstakes && e > self.w.plan.v2.saturating_add(2) && r.chance(1, 4) {
            let k = r.idx(keys.len());
            let u = k % users.len();
            let have = l.books.stakes.get(&keys[k].pkh).copied().unwrap_or(0);
            let fee = r.below(100_000);
            let all = self.habits.quits && r.chance(1, 2) && have > u128::from(fee);
            let spare = have.saturating_sub(10_000 * u128::from(WIT)).saturating_sub(u128::from(fee) + 20 * u128::from(WIT));
            if spare > 0 || all {
                let v = if all { have as u64 - fee } else { 1 + r.below(spare as u64) };
                let q = self
                    .w
                    .chain(via[0], QueryStakes { filter: Some(QueryStakesFilter { validator: Some(MagicEither::Right(keys[k].pkh)), withdrawer: None }), params: None })
                    .await
                    .and_then(Result::ok)
                    .unwrap_or_default();
                if let Some(x) = q.first() {
                    if all {
                        self.staked[k] = false;
                        self.rep.event("validators that quit");
                    }
                    todo.push(l.unstake(keys[k].pkh, &users[u], v, fee, x.value.nonce));
                }
            }
        }
        if self.habits.guests > 0 && e > self.w.plan.v2.saturating_add(2) {
            for g in users.iter().take(self.habits.guests) {
                let have = l.books.stakes.get(&g.pkh).copied().unwrap_or(0);
                if have == 0 {
                    if r.chance(1, 2) {
                        let (v, fee) = (10_000 * WIT + r.below(WIT), 1 + r.below(1000));
                        todo.extend(l.stake(r, g, g, g.pkh, v, fee));
                    }
                } else if r.chance(1, 3) {
                    let x = QueryStakesFilter { validator: Some(MagicEither::Right(g.pkh)), withdrawer: None };
                    let q = self.w.chain(via[0], QueryStakes { filter: Some(x), params: None }).await.and_then(Result::ok).unwrap_or_default();
                    if let Some(x) = q.first() {
                        let fee = r.below(1000);
                        todo.push(l.unstake(g.pkh, g, have as u64 - fee, fee, x.value.nonce));
                        self.rep.event("guests that left");
                    }
                }
            }
        }
        let mut sent = vec![];
        for t in todo {
            let n = *r.pick(via);
            match l.send(&self.w, n, t.clone()).await {
                Ok(()) => {
                    self.rep.event("transactions");
                    sent.push((n, t.clone()));
                }
                Err(_) => self.rep.event("transactions refused"),
            }
            if self.habits.doubles {
                if let Transaction::ValueTransfer(v) = &t {
                    if r.chance(1, 6) {
                        // the same coins once more, through somebody else
                        let mut b = v.body.clone();
                        let x = users.iter().find(|u| u.pk == v.signatures[0].public_key).cloned();
                        if let Some(x) = x {
                            b = VTTransactionBody::new(b.inputs.clone(), vec![ValueTransferOutput { pkh: users[r.idx(users.len())].pkh, value: b.outputs.iter().map(|o| o.value).sum(), time_lock: 0 }]);
                            let s = vec![x.sign(b_hash(&b)); b.inputs.len()];
                            let d = Transaction::ValueTransfer(VTTransaction::new(b, s));
                            let m = *r.pick(via);
                            let _ = l.send(&self.w, m, d).await;
                            self.rep.event("double spends tried");
                        }
                    }
                }
            }
        }
        sent
    }
    /// Cuts the network in two; nodes on the same side reach each other.
    pub fn split(&mut self, sides: Vec<u8>) {
        self.sides = sides.clone();
        self.rep.event("partitions");
        simtokio::net::reachable(move |a: IpAddr, b: IpAddr| match (node_of(a), node_of(b)) {
            (Some(a), Some(b)) => sides.get(a as usize) == sides.get(b as usize),
            _ => true,
        });
    }
    /// Everybody reaches everybody again, and operators tell their nodes about the peers they lost.
    pub async fn heal(&mut self) {
        self.sides = vec![0; self.w.plan.nodes as usize];
        simtokio::net::reachable(|_, _| true);
        for n in self.alive() {
            let known_peers: Vec<_> = (0..self.w.plan.nodes).filter(|m| *m != n).map(addr).collect();
            actix::sim::on_node(n, async move {
                let a = <witnet_node::actors::peers_manager::PeersManager as actix::SystemService>::from_registry();
                let _ = a.send(InitializePeers { known_peers }).await;
            })
            .await;
        }
    }
    /// What was confirmed stays so, and for everybody.
    pub async fn watch(&mut self) {
        for n in self.alive() {
            let Some(st) = self.w.state(n).await else {
                continue;
            };
            let Some(chain) = self.w.chain_of(n).await else { continue };
            if let Some(t) = chain.last() {
                self.tips.insert(*t);
            }
            let ordered = chain.windows(2).all(|x| x[0].0 < x[1].0);
            self.rep.check(ordered, "chain-out-of-order", || format!("node {n} lists {chain:?}"));
            if st == StateMachine::WaitingConsensus || st == StateMachine::Synchronizing {
                continue;
            }
            let mine: BTreeMap<u32, Hash> = chain.iter().copied().collect();
            let from = self.confirmed_up_to[n as usize];
            let mut up_to = None;
            for (e, h) in chain.iter().filter(|(e, _)| *e > from || from == 0) {
                let c = self.w.chain(n, IsConfirmedBlock { block_hash: *h, block_epoch: *e }).await.and_then(Result::ok).unwrap_or(false);
                if !c {
                    break;
                }
                up_to = Some(*e);
                self.rep.event("blocks seen confirmed");
                match self.confirmed.get(e) {
                    Some((g, m)) => {
                        self.rep.check(g == h, "confirmed-conflict", || format!("node {n} holds {h} confirmed in epoch {e}; node {m} held {g}"));
                    }
                    None => {
                        self.confirmed.insert(*e, (*h, n));
                    }
                }
            }
            if let Some(u) = up_to {
                self.confirmed_up_to[n as usize] = u;
            }
            // what this node held confirmed is still on its chain
            let upto = self.confirmed_up_to[n as usize];
            for (e, (g, m)) in self.confirmed.range(..=upto) {
                let has = mine.get(e);
                self.rep.check(has == Some(g), "confirmed-block-gone", || format!("node {n}, confirmed up to {upto}, has {has:?} in epoch {e}; node {m} held {g} confirmed"));
            }
            self.rep.evals += 1;
        }
    }
    /// Runs until everybody alive is synchronised on the same tip; says at which epoch that was.
    pub async fn settle(&mut self, from: u32, up_to: u32) -> Option<u32> {
        for e in from..=up_to {
            self.w.until_epoch(e, f64::from(self.period(e)) * 0.6).await;
            self.watch().await;
            let a = self.alive();
            let s = self.synced().await;
            if s == a {
                let mut tips = HashSet::new();
                for n in &a {
                    tips.insert(self.w.tip(*n).await);
                }
                if tips.len() == 1 && tips.iter().next().unwrap().is_some_and(|t| t.checkpoint + 2 >= e && t.checkpoint > 0) {
                    return Some(e);
                }
            }
        }
        None
    }
    pub fn period(&self, e: u32) -> u16 {
        if e >= self.w.plan.v2 { self.w.plan.period2 } else { self.w.plan.period }
    }
    pub async fn describe(&self) -> String {
        let mut s = String::new();
        for n in 0..self.w.plan.nodes {
            if !self.w.alive[n as usize] {
                s += &format!("[{n} down] ");
                continue;
            }
            s += &format!("[{n} {:?} {:?}] ", self.w.state(n).await, self.w.tip(n).await.map(|b| (b.checkpoint, b.hash_prev_block.to_string()[..8].to_string())));
        }
        s
    }
    /// Everything two nodes on the same chain must say alike.
    pub async fn alike(&mut self, a: u32, b: u32, what: &'static str) {
        let ca = self.w.chain_of(a).await;
        let cb = self.w.chain_of(b).await;
        if !self.rep.check(ca == cb, "chains-differ", || format!("{what}: nodes {a} and {b} list different blocks: {}", differ(&ca, &cb))) {
            return;
        }
        let (va, vb) = (self.view(a).await, self.view(b).await);
        for (k, x) in &va {
            let y = vb.get(k);
            self.rep.check(Some(x) == y, "states-differ", || format!("{what}: {k}: node {a} says {}, node {b} says {}", short(x), short(y.map_or("nothing", |y| y.as_str()))));
        }
        self.rep.event("pairs of states compared");
    }
    pub async fn view(&self, n: u32) -> BTreeMap<String, String> {
        let mut m = BTreeMap::new();
        let w = &self.w;
        if let Some(Told { balances, stakes, entries }) = told(w, n).await {
            m.insert("balances".into(), format!("{balances:?}"));
            m.insert("stakes".into(), format!("{stakes:?} {entries}"));
        }
        let q = w.chain(n, QueryStakes { filter: Some(QueryStakesFilter::default()), params: None }).await;
        if let Some(Ok(mut q)) = q {
            q.sort_by_key(|e| (e.key.validator, e.key.withdrawer));
            m.insert("stake entries".into(), format!("{q:?}"));
        }
        if let Some(Ok(rep)) = w.chain(n, GetReputation { pkh: PublicKeyHash::default(), all: true }).await {
            let mut v: Vec<_> = rep.stats.iter().map(|(k, s)| format!("{k} {:?} {} {}", s.reputation, s.eligibility, s.is_active)).collect();
            v.sort();
            m.insert("reputation".into(), format!("{v:?} {:?}", rep.total_reputation));
        }
        if let Some(t) = w.tip(n).await {
            m.insert("tip".into(), format!("{t:?}"));
        }
        for u in w.users.iter().chain(&w.keys) {
            let x = w.chain(n, GetUtxoInfo { pkh: u.pkh }).await;
            if let Some(Ok(i)) = x {
                let mut v: Vec<String> = i.utxos.iter().map(|x| format!("{x:?}")).collect();
                v.sort();
                m.insert(format!("coins of {}", u.pkh), format!("{} {v:?}", i.collateral_min));
            }
        }
        // what is stored of blocks that left the chain stays (FIXME #1663 of the project), so only what happened
        // on the chain is looked at
        let chain: HashSet<Hash> = self.w.chain_of(n).await.unwrap_or_default().into_iter().map(|(_, h)| h).collect();
        for h in self.l.asked.keys() {
            let x = w.chain(n, GetDataRequestInfo { dr_pointer: *h }).await;
            if let Some(x) = x {
                m.insert(format!("request {h}"), match x {
                    Ok(i) if i.block_hash_dr_tx.is_some_and(|h| !chain.contains(&h)) => "unknown".into(),
                    Ok(i) => {
                        let mut c: Vec<_> = i.commits.keys().collect();
                        c.sort();
                        let mut v: Vec<_> = i.reveals.iter().map(|(k, v)| format!("{k} {:?}", v.body.reveal)).collect();
                        v.sort();
                        format!("{:?} {:?} {:?} {c:?} {v:?} {:?}", i.block_hash_dr_tx, i.block_hash_tally_tx, i.current_stage, i.tally.map(|t| t.tally))
                    }
                    Err(_) => "unknown".into(),
                });
            }
        }
        m
    }
}
pub fn differ(a: &Option<Vec<(u32, Hash)>>, b: &Option<Vec<(u32, Hash)>>) -> String {
    let (Some(a), Some(b)) = (a, b) else { return format!("{} {}", a.is_some(), b.is_some()) };
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("the same {k} of {} and {}; then {:?} and {:?}", a.len(), b.len(), a.get(k), b.get(k))
}
pub fn short(s: &str) -> String {
    s.chars().take(700).collect()
}
pub fn t_hash(t: &Transaction, e: u32) -> Hash {
    use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
    t.versioned_hash(ProtocolVersion::from_epoch(e))
}
pub fn mess(seed: u64) {
    sources(seed);
}
