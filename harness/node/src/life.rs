//! What people do on the network: pay, ask, stake; and the books we keep of it.
use crate::ledger::Ledger;
use crate::world::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use vmon::Rng;
use witnet_data_structures::chain::*;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_node::actors::messages::*;

#[derive(Clone, Debug)]
pub struct Asked {
    pub hash: Hash,
    pub url: Option<String>,
    pub reducer: u32,
    pub fee: u64,
}
pub struct Life {
    pub books: Ledger,
    pub chain: Vec<(u32, Hash)>,
    pub blocks: HashMap<Hash, Block>,
    reserved: HashMap<OutputPointer, u32>,
    pub sent: Vec<(u32, Transaction)>,
    pub asked: BTreeMap<Hash, Asked>,
    pub counter: u64,
    /// chains that were rebuilt because the tip changed under them
    pub reorganised: u64,
}
pub fn fresh(w: &World) -> Ledger {
    Ledger { initial_reward: w.consts.initial_block_reward, halving: w.consts.halving_period, clock: (w.plan.period, w.plan.v2, w.plan.period2), ..Default::default() }
}
impl Life {
    pub fn new(w: &World) -> Life {
        Life {
            books: fresh(w),
            chain: vec![],
            blocks: HashMap::new(),
            reserved: HashMap::new(),
            sent: vec![],
            asked: BTreeMap::new(),
            counter: 0,
            reorganised: 0,
        }
    }
    /// Reads the chain of a node and keeps the books of it.
    pub async fn follow(&mut self, w: &World, n: u32) -> bool {
        let Some(chain) = w.chain_of(n).await else { return false };
        let same = self.chain.len() <= chain.len() && chain[..self.chain.len()] == self.chain[..];
        if !same {
            self.reorganised += 1;
            self.books = fresh(w);
            self.chain.clear();
        }
        for (e, h) in &chain[self.chain.len()..] {
            let b = match self.blocks.get(h) {
                Some(b) => b.clone(),
                None => match w.block(n, *h).await {
                    Some(b) => b,
                    None => return false,
                },
            };
            self.books.apply(&b);
            self.blocks.insert(*h, b);
            self.chain.push((*e, *h));
        }
        true
    }
    pub fn epoch(&self) -> u32 {
        self.chain.last().map_or(0, |x| x.0)
    }
    fn coins(&mut self, r: &mut Rng, who: &Keys, at_least: u64, now: u64) -> Option<(Vec<Input>, u64)> {
        let e = self.epoch();
        self.reserved.retain(|_, t| *t > e);
        let mut mine: Vec<(OutputPointer, u64)> =
            self.books.coins.iter().filter(|(p, o)| o.pkh == who.pkh && o.time_lock <= now && !self.reserved.contains_key(p)).map(|(p, o)| (*p, o.value)).collect();
        mine.sort();
        r.shuffle(&mut mine);
        let mut got = vec![];
        let mut sum = 0;
        for (p, v) in mine {
            if sum >= at_least {
                break;
            }
            got.push(p);
            sum += v;
        }
        if sum < at_least || got.is_empty() {
            return None;
        }
        for p in &got {
            self.reserved.insert(*p, e + 12);
        }
        Some((got.into_iter().map(Input::new).collect(), sum))
    }
    pub fn pay(&mut self, r: &mut Rng, w: &World, from: &Keys, to: PublicKeyHash, value: u64, fee: u64, lock: u64) -> Option<Transaction> {
        let now = crate::clock::now() as u64;
        let (ins, sum) = self.coins(r, from, value + fee, now)?;
        let _ = w;
        let mut outs = vec![ValueTransferOutput { pkh: to, value, time_lock: lock }];
        if sum > value + fee {
            let change = sum - value - fee;
            outs.push(ValueTransferOutput { pkh: from.pkh, value: change, time_lock: 0 });
        }
        let b = VTTransactionBody::new(ins, outs);
        let h = b_hash(&b);
        let s = vec![from.sign(h); b.inputs.len()];
        Some(Transaction::ValueTransfer(VTTransaction::new(b, s)))
    }
    pub fn ask(&mut self, r: &mut Rng, from: &Keys, o: DataRequestOutput, fee: u64) -> Option<Transaction> {
        let worth = u64::from(o.witnesses) * (o.witness_reward + 2 * o.commit_and_reveal_fee);
        let (ins, sum) = self.coins(r, from, worth + fee, crate::clock::now() as u64)?;
        let mut outs = vec![];
        if sum > worth + fee {
            outs.push(ValueTransferOutput { pkh: from.pkh, value: sum - worth - fee, time_lock: 0 });
        }
        let b = DRTransactionBody::new(ins, o, outs);
        let h = b_hash(&b);
        let s = vec![from.sign(h); b.inputs.len()];
        Some(Transaction::DataRequest(DRTransaction::new(b, s)))
    }
    pub fn stake(&mut self, r: &mut Rng, from: &Keys, validator: &Keys, withdrawer: PublicKeyHash, value: u64, fee: u64) -> Option<Transaction> {
        let (ins, sum) = self.coins(r, from, value + fee, crate::clock::now() as u64)?;
        let change = (sum > value + fee).then(|| ValueTransferOutput { pkh: from.pkh, value: sum - value - fee, time_lock: 0 });
        let msg = withdrawer.as_secp256k1_msg();
        let s = witnet_crypto::signature::sign(validator.sk, &msg).ok()?;
        let o = StakeOutput {
            authorization: KeyedSignature { signature: s.into(), public_key: validator.pk.clone() },
            key: StakeKey { validator: validator.pkh, withdrawer },
            value,
        };
        let b = StakeTransactionBody::new(ins, o, change);
        let h = b_hash(&b);
        let s = vec![from.sign(h); b.inputs.len()];
        Some(Transaction::Stake(StakeTransaction::new(b, s)))
    }
    pub fn unstake(&mut self, validator: PublicKeyHash, withdrawer: &Keys, value: u64, fee: u64, nonce: u64) -> Transaction {
        let b = UnstakeTransactionBody::new(validator, ValueTransferOutput { pkh: withdrawer.pkh, value, time_lock: 3600 }, fee, nonce);
        let s = withdrawer.sign(b_hash(&b));
        Transaction::Unstake(UnstakeTransaction::new(b, s))
    }
    pub async fn send(&mut self, w: &World, n: u32, t: Transaction) -> Result<(), String> {
        let r = w.chain(n, AddTransaction { transaction: t.clone(), broadcast_flag: true }).await;
        match r {
            Some(Ok(())) => {
                self.sent.push((self.epoch(), t));
                Ok(())
            }
            Some(Err(e)) => Err(e.to_string()),
            None => Err("no answer".into()),
        }
    }
}
pub fn b_hash<T: Hashable>(b: &T) -> Hash {
    b.hash()
}
/// A request whose answer is a number: what the source says, or one drawn at random.
pub fn request(r: &mut Rng, url: Option<&str>, witnesses: u16) -> DataRequestOutput {
    let retrieve = match url {
        // a JSON number: StringParseJSONMap, MapGetInteger("v")
        Some(u) => RADRetrieve { kind: RADType::HttpGet, url: u.to_string(), script: vec![0x82, 0x18, 0x77, 0x82, 0x18, 0x65, 0x61, b'v'], ..Default::default() },
        None => RADRetrieve { kind: RADType::Rng, script: vec![0x80], ..Default::default() },
    };
    let reducer = if url.is_some() { 2 } else { 11 };
    let filters = if url.is_some() && r.bool() { vec![RADFilter { op: 8, args: vec![] }] } else { vec![] };
    DataRequestOutput {
        data_request: RADRequest {
            time_lock: 0,
            retrieve: vec![retrieve],
            aggregate: RADAggregate { filters: vec![], reducer },
            tally: RADTally { filters, reducer },
        },
        witness_reward: WIT + r.below(WIT),
        witnesses,
        commit_and_reveal_fee: 1 + r.below(1_000_000),
        min_consensus_percentage: 51 + r.below(20) as u32,
        collateral: WIT * (1 + r.below(3)) + r.below(1000),
    }
}
pub fn pending(m: &Option<GetMempoolResult>) -> HashSet<Hash> {
    m.iter().flat_map(|m| m.value_transfer.iter().chain(&m.data_request).chain(&m.stake).chain(&m.unstake)).copied().collect()
}
