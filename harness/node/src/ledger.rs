//! The books, kept independently of the node: what the blocks of a chain say about who owns what.
use std::collections::{BTreeMap, HashMap};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::transaction::*;

const REWARD_2: u128 = 50_000_000_000;

#[derive(Clone, Debug)]
pub struct Open {
    pub out: DataRequestOutput,
    pub epoch: u32,
    pub second: bool,
    pub commits: Vec<PublicKeyHash>,
    pub commit_rounds: Vec<(u32, PublicKeyHash)>,
    pub reveals: Vec<(PublicKeyHash, Vec<u8>)>,
    pub locked: u128,
    /// collateral of the first kind, per commit
    pub inputs: Vec<u128>,
}
#[derive(Clone, Debug)]
pub struct Closed {
    pub open: Open,
    pub tally: TallyTransaction,
    pub epoch: u32,
    pub block: Hash,
    pub asked_in: Hash,
}
#[derive(Clone, Default)]
pub struct Ledger {
    pub coins: HashMap<OutputPointer, ValueTransferOutput>,
    pub open: BTreeMap<Hash, (Open, Hash)>,
    pub closed: BTreeMap<Hash, Closed>,
    pub stakes: BTreeMap<PublicKeyHash, u128>,
    pub withdrawers: BTreeMap<PublicKeyHash, PublicKeyHash>,
    pub minted: u128,
    pub genesis: u128,
    pub burnt: u128,
    pub blocks: u64,
    pub initial_reward: u64,
    pub halving: u32,
    /// transactions, and where they were included
    pub seen: BTreeMap<Hash, (u32, Hash, usize, &'static str)>,
    pub counts: BTreeMap<&'static str, u64>,
    /// what looked wrong
    pub wrong: Vec<(&'static str, String)>,
    /// things that happened which explain a known deviation
    pub notes: Vec<(&'static str, u32)>,
    /// when epochs start: (period, first epoch of wit/2, period from then on)
    pub clock: (u16, u32, u16),
    /// whether locks count from the block, and when the block was due
    pub relative: bool,
    pub now: u64,
}

/// What a validator has to stake.
const MIN_STAKE: u128 = 10_000_000_000_000;
fn sum(v: &[ValueTransferOutput]) -> u128 {
    v.iter().map(|o| u128::from(o.value)).sum()
}
impl Open {
    pub fn collateral(&self) -> u128 {
        // 0 stood for the minimum before wit/2
        if self.out.collateral == 0 && !self.second { 1_000_000_000 } else { u128::from(self.out.collateral) }
    }
}
impl Ledger {
    fn bad(&mut self, sig: &'static str, s: String) {
        if self.wrong.len() < 20 {
            self.wrong.push((sig, s));
        }
    }
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_insert(0) += 1;
    }
    fn take(&mut self, what: &str, inputs: &[Input]) -> u128 {
        let mut t = 0;
        for i in inputs {
            match self.coins.remove(i.output_pointer()) {
                Some(o) => {
                    t += u128::from(o.value);
                    if o.time_lock > self.now {
                        let now = self.now;
                        self.bad("spends-what-is-locked", format!("{what} spends {:?} at {now}, locked until {}", i.output_pointer(), o.time_lock));
                    }
                }
                None => self.bad("spends-what-is-not-there", format!("{what} spends {:?}, which is not an unspent output", i.output_pointer())),
            }
        }
        t
    }
    fn give(&mut self, tx: Hash, outs: &[ValueTransferOutput]) {
        for (k, o) in outs.iter().enumerate() {
            let mut o = o.clone();
            // wit/2 reads small locks as counted from the block
            if self.relative && o.time_lock < crate::world::T0 as u64 {
                o.time_lock += self.now;
            }
            self.coins.insert(OutputPointer { transaction_id: tx, output_index: k as u32 }, o);
        }
    }
    fn fee(&mut self, what: &str, ins: u128, outs: u128) -> u128 {
        if outs > ins {
            self.bad("creates-value", format!("{what}: {ins} in, {outs} out"));
            return 0;
        }
        ins - outs
    }
    /// Everything there is: in coins, in open requests and staked.
    pub fn total(&self) -> u128 {
        self.coins.values().map(|o| u128::from(o.value)).sum::<u128>() + self.locked() + self.stakes.values().sum::<u128>()
    }
    pub fn locked(&self) -> u128 {
        self.open.values().map(|(o, _)| o.locked).sum()
    }
    pub fn balances(&self) -> BTreeMap<PublicKeyHash, u128> {
        let mut m = BTreeMap::new();
        for o in self.coins.values() {
            *m.entry(o.pkh).or_insert(0) += u128::from(o.value);
        }
        m
    }
    pub fn of(&self, p: &PublicKeyHash) -> BTreeMap<OutputPointer, ValueTransferOutput> {
        self.coins.iter().filter(|(_, o)| o.pkh == *p).map(|(k, v)| (*k, v.clone())).collect()
    }
    fn pay(&mut self, v: PublicKeyHash, n: u128, what: &'static str) {
        match self.stakes.get_mut(&v) {
            Some(s) => *s += n,
            None => {
                // There is no entry to pay into: what was reserved is lost
                self.notes.push((what, 0));
                self.burnt += n;
            }
        }
    }
    pub fn apply(&mut self, b: &Block) {
        let epoch = b.block_header.beacon.checkpoint;
        let v = ProtocolVersion::from_epoch(epoch);
        let hash = b.versioned_hash(v);
        let genesis = self.blocks == 0;
        self.blocks += 1;
        let (p1, second, p2) = self.clock;
        let ago = epoch.saturating_sub(second);
        self.now = crate::world::T0 as u64 + u64::from(epoch - ago) * u64::from(p1) + u64::from(ago) * u64::from(p2);
        self.relative = v >= ProtocolVersion::V2_0;
        let miner = b.block_header.proof.proof.pkh();
        let before = self.total();
        let burnt_before = self.burnt;
        let mut fees = 0u128;
        // what requests of the first kind pay to miners of the second kind
        let mut late = 0u128;
        let fee_of = |fees: &mut u128, late: &mut u128, n: u128, second: bool| if v >= ProtocolVersion::V2_0 && !second { *late += n } else { *fees += n };
        let at = |i: usize, k: &'static str| (epoch, hash, i, k);
        for (i, t) in b.txns.value_transfer_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            if self.seen.insert(h, at(i, "vt")).is_some() && !genesis {
                self.bad("included-twice", format!("transfer {h} is included again in epoch {epoch}"));
            }
            let ins = self.take("a transfer", &t.body.inputs);
            let outs = sum(&t.body.outputs);
            if !genesis {
                fees += self.fee("a transfer", ins, outs);
            }
            self.give(h, &t.body.outputs);
            self.count("transfers");
        }
        for (i, t) in b.txns.data_request_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            if self.seen.insert(h, at(i, "dr")).is_some() {
                self.bad("included-twice", format!("request {h} is included again in epoch {epoch}"));
            }
            let o = &t.body.dr_output;
            let w = u128::from(o.witnesses);
            let worth = w * (u128::from(o.witness_reward) + 2 * u128::from(o.commit_and_reveal_fee));
            let ins = self.take("a data request", &t.body.inputs);
            fees += self.fee("a data request", ins, sum(&t.body.outputs) + worth);
            self.give(h, &t.body.outputs);
            self.open.insert(
                h,
                (Open { out: o.clone(), epoch, second: v >= ProtocolVersion::V2_0, commits: vec![], commit_rounds: vec![], reveals: vec![], locked: worth, inputs: vec![] }, hash),
            );
            self.count("requests");
        }
        for (i, t) in b.txns.commit_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            self.seen.insert(h, at(i, "commit"));
            let who = t.body.proof.proof.pkh();
            let Some((mut o, asked)) = self.open.remove(&t.body.dr_pointer) else {
                self.bad("commit-to-no-request", format!("a commit for {}, which is not open", t.body.dr_pointer));
                continue;
            };
            let cr = u128::from(o.out.commit_and_reveal_fee);
            let c = o.collateral();
            if o.commits.contains(&who) {
                self.bad("commits-twice", format!("{who} commits twice to {}", t.body.dr_pointer));
            }
            if o.second {
                match self.stakes.get_mut(&who) {
                    Some(s) if *s == c || *s >= c + MIN_STAKE => *s -= c,
                    s => {
                        let s = s.map(|x| *x);
                        self.bad("collateral-not-reserved", format!("{who} commits with a collateral of {c}, but has staked {s:?} by then in epoch {epoch}"));
                    }
                }
                if !t.body.collateral.is_empty() || !t.body.outputs.is_empty() {
                    let ins = self.take("a commit", &t.body.collateral);
                    if ins != sum(&t.body.outputs) {
                        self.bad("commit-moves-coins", format!("a commit to a request of the second kind moves coins: {ins}"));
                    }
                    self.give(h, &t.body.outputs);
                }
                o.locked += c;
            } else {
                let ins = self.take("a commit", &t.body.collateral);
                let put = self.fee("a commit", ins, sum(&t.body.outputs));
                if put != c {
                    self.bad("collateral-differs", format!("a commit puts {put} as collateral instead of {c}"));
                }
                self.give(h, &t.body.outputs);
                o.locked += put;
            }
            if o.locked < cr {
                self.bad("request-overdrawn", format!("{} cannot pay for a commit", t.body.dr_pointer));
            } else {
                o.locked -= cr;
                fee_of(&mut fees, &mut late, cr, o.second);
            }
            o.commits.push(who);
            o.commit_rounds.push((epoch, who));
            o.inputs.push(c);
            if o.commits.len() > usize::from(o.out.witnesses) {
                self.bad("too-many-commits", format!("{} has {} commits of {}", t.body.dr_pointer, o.commits.len(), o.out.witnesses));
            }
            self.open.insert(t.body.dr_pointer, (o, asked));
            self.count("commits");
        }
        for (i, t) in b.txns.reveal_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            self.seen.insert(h, at(i, "reveal"));
            let Some((mut o, asked)) = self.open.remove(&t.body.dr_pointer) else {
                self.bad("reveal-of-no-request", format!("a reveal for {}, which is not open", t.body.dr_pointer));
                continue;
            };
            let cr = u128::from(o.out.commit_and_reveal_fee);
            if !o.commits.contains(&t.body.pkh) || o.reveals.iter().any(|(p, _)| *p == t.body.pkh) {
                self.bad("reveal-out-of-turn", format!("{} reveals to {} without a pending commit", t.body.pkh, t.body.dr_pointer));
            }
            if o.locked < cr {
                self.bad("request-overdrawn", format!("{} cannot pay for a reveal", t.body.dr_pointer));
            } else {
                o.locked -= cr;
                fee_of(&mut fees, &mut late, cr, o.second);
            }
            o.reveals.push((t.body.pkh, t.body.reveal.clone()));
            self.open.insert(t.body.dr_pointer, (o, asked));
            self.count("reveals");
        }
        for (i, t) in b.txns.tally_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            self.seen.insert(h, at(i, "tally"));
            let Some((mut o, asked_in)) = self.open.remove(&t.dr_pointer) else {
                self.bad("tally-of-no-request", format!("a tally for {}, which is not open", t.dr_pointer));
                continue;
            };
            self.give(h, &t.outputs);
            let outs = sum(&t.outputs);
            if outs > o.locked {
                self.bad("tally-creates-value", format!("the tally of {} pays {outs} of {}", t.dr_pointer, o.locked));
                o.locked = 0;
            } else {
                o.locked -= outs;
            }
            if o.second {
                let c = o.collateral();
                let mut paid = 0u128;
                let mut liars = 0u128;
                for p in o.commits.clone() {
                    let n = if t.error_committers.contains(&p) {
                        c
                    } else if t.out_of_consensus.contains(&p) {
                        liars += 1;
                        continue;
                    } else {
                        c + u128::from(o.out.witness_reward)
                    };
                    paid += n;
                    self.pay(p, n, "witness-without-stake");
                }
                if paid > o.locked {
                    self.bad("tally-creates-value", format!("the tally of {} gives {paid} of {}", t.dr_pointer, o.locked));
                } else if o.locked - paid != liars * c {
                    let left = o.locked - paid;
                    let owed = t.error_committers.iter().filter(|p| !t.out_of_consensus.contains(p)).count() as u128 * u128::from(o.out.witness_reward);
                    if left == liars * c + owed {
                        self.bad("error-report-reward-lost", format!("the tally of {} pays no reward to the {} witnesses whose error report is the result, nor returns it", t.dr_pointer, t.error_committers.len()));
                    } else {
                    self.bad("tally-loses-value", format!("the tally of {} leaves {left} unaccounted for; {liars} liars, collateral {c}; {:?} {:?}", t.dr_pointer, o.out, t.outputs));
                    }
                }
                self.burnt += o.locked.saturating_sub(paid);
            } else {
                // what liars put is burnt (WIP0023) when somebody was honest
                let liars = o.commits.iter().filter(|p| t.out_of_consensus.contains(p) && !t.error_committers.contains(p)).count() as u128;
                let lost = if o.commits.iter().any(|p| !t.out_of_consensus.contains(p)) { (liars * o.collateral()).min(o.locked) } else { 0 };
                self.burnt += lost;
                fee_of(&mut fees, &mut late, o.locked - lost, false);
            }
            o.locked = 0;
            self.closed.insert(t.dr_pointer, Closed { open: o, tally: t.clone(), epoch, block: hash, asked_in });
            self.count("tallies");
        }
        for (i, t) in b.txns.stake_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            if self.seen.insert(h, at(i, "stake")).is_some() {
                self.bad("included-twice", format!("stake {h} is included again in epoch {epoch}"));
            }
            let ins = self.take("a stake", &t.body.inputs);
            let change: Vec<_> = t.body.change.iter().cloned().collect();
            fees += self.fee("a stake", ins, sum(&change) + u128::from(t.body.output.value));
            self.give(h, &change);
            self.count("stakes");
        }
        for (i, t) in b.txns.unstake_txns.iter().enumerate() {
            let h = t.versioned_hash(v);
            if self.seen.insert(h, at(i, "unstake")).is_some() {
                self.bad("included-twice", format!("unstake {h} is included again in epoch {epoch}"));
            }
            self.give(h, std::slice::from_ref(&t.body.withdrawal));
            fees += u128::from(t.body.fee);
            self.count("unstakes");
        }
        if late > 0 {
            self.bad("first-kind-fees-lost-after-transition", format!("epoch {epoch}: {late} paid for commits, reveals and tallies of requests made before wit/2 reach nobody"));
            self.burnt += late;
        }
        // The reward and the fees go to the miner
        let minted = sum(&b.txns.mint.outputs);
        if genesis {
            self.genesis = self.coins.values().map(|o| u128::from(o.value)).sum();
        } else {
            let h = b.txns.mint.versioned_hash(v);
            self.give(h, &b.txns.mint.outputs);
            self.seen.insert(h, at(0, "mint"));
            let reward = if v >= ProtocolVersion::V2_0 {
                REWARD_2
            } else {
                let n = epoch / self.halving;
                if n < 64 { u128::from(self.initial_reward >> n) } else { 0 }
            };
            if v >= ProtocolVersion::V2_0 {
                if minted != 0 {
                    self.bad("mints-coins", format!("a block of the second kind mints {minted}"));
                }
                self.pay(miner, reward + fees, "miner-without-stake");
            } else if minted != reward + fees {
                self.bad("mint-differs", format!("epoch {epoch}: the mint is {minted}, not {reward} + {fees}"));
            }
            self.minted += reward;
        }
        // What is staked changes at last
        if !genesis {
            for t in &b.txns.stake_txns {
                let o = &t.body.output;
                *self.stakes.entry(o.key.validator).or_insert(0) += u128::from(o.value);
                self.withdrawers.entry(o.key.validator).or_insert(o.key.withdrawer);
            }
            let mut failed = false;
            for t in &b.txns.unstake_txns {
                let n = u128::from(t.body.withdrawal.value) + u128::from(t.body.fee);
                match self.stakes.get(&t.body.operator).copied() {
                    Some(s) if !failed && (s == n || s >= n + MIN_STAKE) => {
                        if s == n {
                            self.stakes.remove(&t.body.operator);
                            self.withdrawers.remove(&t.body.operator);
                        } else {
                            self.stakes.insert(t.body.operator, s - n);
                        }
                    }
                    s => {
                        // one that fails stops those after it
                        failed = true;
                        self.bad("withdrawn-but-still-staked", format!("{} withdraws {n} of {s:?} in epoch {epoch}", t.body.operator))
                    }
                }
            }
            let after = self.total() + self.burnt;
            let want = before + burnt_before + if v >= ProtocolVersion::V2_0 { REWARD_2 } else { minted.saturating_sub(fees) };
            if after != want && self.wrong.is_empty() {
                self.bad("supply", format!("epoch {epoch}: {before} became {after}, expected {want}"));
            }
        }
    }
}
