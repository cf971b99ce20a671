//! A network in use, with machines on it that send whatever they like.
use crate::life::*;
use crate::lives::Lives;
use crate::play::*;
use crate::report::Report;
use crate::world::*;
use actix::sim;
use simtokio::io::{AsyncReadExt, AsyncWriteExt};
use simtokio::net as snet;
use simtokio::sync::Notify;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::net::{IpAddr, Ipv6Addr, SocketAddr};
use std::rc::Rc;
use std::time::Duration;
use vmon::{Rng, Tier};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, Versioned, VersionedHashable};
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::{Command, InventoryAnnouncement, InventoryRequest, LastBeacon, Message, Peers};
use witnet_node::actors::messages::*;

/// The first machine that is not a node of the network.
const FOE: u32 = 40;

/// What the hostile machines know, and share.
pub struct Lore {
    pub magic: u16,
    pub epoch: u32,
    pub nodes: u32,
    pub blocks: Vec<Block>,
    pub txs: Vec<Transaction>,
    pub votes: Vec<SuperBlockVote>,
    pub beacon: LastBeacon,
    /// coins of the purses below
    pub coins: Vec<(OutputPointer, ValueTransferOutput)>,
    pub purses: Vec<Keys>,
    /// validators that went bad
    pub turned: Vec<Keys>,
    pub open: Vec<Hash>,
    pub events: BTreeMap<String, u64>,
    /// what is to be sent by every session at once, and the noise of it
    pub hot: Vec<Rc<Vec<u8>>>,
    pub bell: Rc<Notify>,
    pub sessions: u32,
    pub stop: bool,
    /// how wild they are: how many messages a second, at most
    pub pace: u64,
}
impl Lore {
    fn event(&mut self, k: &str) {
        *self.events.entry(k.to_string()).or_insert(0) += 1;
    }
}
type Shared = Rc<RefCell<Lore>>;

fn pb(k: &Lore, c: Command) -> Vec<u8> {
    Message { kind: c, magic: k.magic }.to_pb_bytes().unwrap_or_default()
}
fn hash(r: &mut Rng, k: &Lore) -> Hash {
    match r.below(6) {
        0 => Hash::default(),
        1 => Hash::SHA256([0xff; 32]),
        2 => k.blocks.last().map_or(Hash::default(), |b| b.versioned_hash(ProtocolVersion::from_epoch(b.block_header.beacon.checkpoint))),
        3 if !k.blocks.is_empty() => {
            let b = r.pick(&k.blocks);
            b.versioned_hash(ProtocolVersion::from_epoch(b.block_header.beacon.checkpoint))
        }
        4 if !k.open.is_empty() => *r.pick(&k.open),
        _ => Hash::SHA256(r.arr()),
    }
}
fn epoch(r: &mut Rng, k: &Lore) -> u32 {
    match r.below(8) {
        0 => u32::MAX,
        1 => u32::MAX - r.below(3) as u32,
        2 => 0,
        3 => r.edgy_u32(),
        4 => k.epoch.wrapping_add(1),
        5 => k.epoch.wrapping_sub(1),
        6 => r.below(u64::from(k.epoch) + 1) as u32,
        _ => k.epoch,
    }
}
fn value(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => u64::MAX,
        1 => u64::MAX / 2 + r.below(3),
        2 => r.below(3),
        3 => 10_000 * WIT - r.below(2),
        _ => r.edgy_u64(),
    }
}
fn pkh(r: &mut Rng, k: &Lore) -> PublicKeyHash {
    match r.below(4) {
        0 => PublicKeyHash::default(),
        1 if !k.turned.is_empty() => r.pick(&k.turned).pkh,
        2 => {
            let v: [u8; 20] = r.arr();
            PublicKeyHash::from_bytes(&v).unwrap_or_default()
        }
        _ => r.pick(&k.purses).pkh,
    }
}
fn outs(r: &mut Rng, k: &Lore, have: u64) -> Vec<ValueTransferOutput> {
    let n = *r.pick(&[0, 1, 1, 2, 2, 3, 20]);
    let mut v: Vec<_> = (0..n)
        .map(|_| ValueTransferOutput { pkh: pkh(r, k), value: if r.bool() { have / (n + 1) } else { value(r) }, time_lock: if r.chance(1, 4) { r.edgy_u64() } else { 0 } })
        .collect();
    if r.chance(1, 4) && v.len() >= 2 {
        // sums that wrap round to what is there
        let l = v.len();
        v[l - 1].value = u64::MAX - 4;
        v[l - 2].value = have.wrapping_add(5);
    }
    v
}
fn ins(r: &mut Rng, k: &Lore) -> (Vec<Input>, u64, Vec<Keys>) {
    let mut v = vec![];
    let mut have = 0u64;
    let mut who = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 1, 2, 3, 12]) {
        if k.coins.is_empty() || r.chance(1, 8) {
            v.push(Input::new(OutputPointer { transaction_id: hash(r, k), output_index: r.edgy_u32() }));
            who.push(r.pick(&k.purses).clone());
            continue;
        }
        let (p, o) = r.pick(&k.coins).clone();
        let dup = v.iter().any(|x: &Input| *x.output_pointer() == p);
        if dup && r.chance(3, 4) {
            continue;
        }
        v.push(Input::new(p));
        have = have.saturating_add(o.value);
        who.push(k.purses.iter().find(|u| u.pkh == o.pkh).unwrap_or(&k.purses[0]).clone());
    }
    if r.chance(1, 10) {
        if let Some(x) = v.first().cloned() {
            v.push(x);
            let w = who[0].clone();
            who.push(w);
        }
    }
    (v, have, who)
}
fn sigs(r: &mut Rng, who: &[Keys], h: Hash, k: &Lore) -> Vec<KeyedSignature> {
    let mut s: Vec<KeyedSignature> = who.iter().map(|w| w.sign(h)).collect();
    match r.below(14) {
        0 => s.clear(),
        1 => {
            s.pop();
        }
        2 => {
            let x = r.pick(&k.purses).sign(h);
            s.push(x);
        }
        3 => {
            for x in &mut s {
                x.public_key = PublicKey { compressed: r.u8(), bytes: r.arr() };
            }
        }
        4 => {
            for x in &mut s {
                let n = *r.pick(&[0usize, 1, 8, 63, 64, 65, 72, 200]);
                x.signature = Signature::Secp256k1(Secp256k1Signature { der: r.bytes(n) });
            }
        }
        5 => {
            let x: Hash = Hash::SHA256(r.arr());
            s = who.iter().map(|w| w.sign(x)).collect();
        }
        6 => {
            // the same bytes, but for one
            if let Some(x) = s.first_mut() {
                let Signature::Secp256k1(y) = &mut x.signature;
                if !y.der.is_empty() {
                    let i = r.idx(y.der.len());
                    y.der[i] ^= 1 << r.below(8);
                }
            }
        }
        _ => {}
    }
    s
}
fn dro(r: &mut Rng) -> DataRequestOutput {
    let url = r.bool();
    let w = *r.pick(&[0u16, 1, 2, 3, 125, 126, 127, 1000, u16::MAX]);
    let mut o = request(r, url.then_some("https://good.example/foe"), w);
    for _ in 0..1 + r.below(3) {
        match r.below(9) {
            0 => o.witness_reward = value(r),
            1 => o.commit_and_reveal_fee = value(r),
            2 => o.collateral = value(r),
            3 => o.min_consensus_percentage = r.edgy_u32(),
            4 => o.data_request.time_lock = r.edgy_u64(),
            5 => o.data_request.tally.reducer = r.edgy_u32(),
            6 => o.data_request.aggregate.filters.push(RADFilter { op: r.edgy_u32(), args: { let n = r.below(20) as usize; r.bytes(n) } }),
            7 => {
                let n = r.len(200);
                let x = r.bytes(n);
                if let Some(s) = o.data_request.retrieve.first_mut() {
                    s.script = x;
                }
            }
            _ => {
                if let Some(s) = o.data_request.retrieve.first_mut() {
                    s.url = match r.below(4) {
                        0 => String::new(),
                        1 => "http://[::1".into(),
                        2 => "https://good.example/\0".into(),
                        _ => r.unicode(40),
                    };
                }
                if r.chance(1, 4) {
                    o.data_request.retrieve.clear();
                }
                if r.chance(1, 4) {
                    o.data_request.retrieve = vec![o.data_request.retrieve.first().cloned().unwrap_or_default(); 300];
                }
            }
        }
    }
    o
}
/// A transaction, made of what the senders own and of nonsense, and signed by them.
fn tx(r: &mut Rng, k: &Lore) -> Transaction {
    let (i, have, who) = ins(r, k);
    match r.below(8) {
        0 | 1 => {
            let b = VTTransactionBody::new(i, outs(r, k, have));
            let s = sigs(r, &who, b_hash(&b), k);
            Transaction::ValueTransfer(VTTransaction::new(b, s))
        }
        2 | 3 => {
            let o = outs(r, k, have);
            let b = DRTransactionBody::new(i, dro(r), if r.bool() { o } else { vec![] });
            let s = sigs(r, &who, b_hash(&b), k);
            Transaction::DataRequest(DRTransaction::new(b, s))
        }
        4 => {
            let val = r.pick(&k.purses).clone();
            let w = pkh(r, k);
            let auth = if r.bool() {
                let x: [u8; 32] = w.as_secp256k1_msg();
                val.sign(Hash::SHA256(x))
            } else {
                sigs(r, std::slice::from_ref(&val), Hash::SHA256(w.as_secp256k1_msg()), k).first().cloned().unwrap_or_default()
            };
            let o = StakeOutput { authorization: auth, key: StakeKey { validator: if r.chance(3, 4) { val.pkh } else { pkh(r, k) }, withdrawer: w }, value: if r.bool() { have } else { value(r) } };
            let c = r.bool().then(|| ValueTransferOutput { pkh: pkh(r, k), value: value(r), time_lock: 0 });
            let b = StakeTransactionBody::new(i, o, c);
            let s = sigs(r, &who, b_hash(&b), k);
            Transaction::Stake(StakeTransaction::new(b, s))
        }
        5 => {
            let w = r.pick(&k.purses).clone();
            let n = if r.bool() { r.below(5) } else { value(r) };
            let b = UnstakeTransactionBody::new(pkh(r, k), ValueTransferOutput { pkh: w.pkh, value: value(r), time_lock: if r.bool() { 3600 } else { r.edgy_u64() } }, value(r), n);
            let s = sigs(r, std::slice::from_ref(&w), b_hash(&b), k).pop().unwrap_or_default();
            Transaction::Unstake(UnstakeTransaction::new(b, s))
        }
        6 => {
            let w = r.pick(&k.purses).clone();
            let n = r.len(300);
            let b = RevealTransactionBody::new(hash(r, k), r.bytes(n), if r.bool() { w.pkh } else { pkh(r, k) });
            let s = sigs(r, std::slice::from_ref(&w), b_hash(&b), k);
            Transaction::Reveal(RevealTransaction::new(b, s))
        }
        _ => {
            // a commitment that somebody else made, changed
            let mut all: Vec<CommitTransaction> = k.blocks.iter().flat_map(|b| b.txns.commit_txns.clone()).collect();
            all.extend(k.txs.iter().filter_map(|t| if let Transaction::Commit(c) = t { Some(c.clone()) } else { None }));
            match all.is_empty() {
                true => Transaction::Mint(MintTransaction::new(epoch(r, k), outs(r, k, have))),
                false => {
                    let c = r.pick(&all).clone();
                    let b = CommitTransactionBody::new(if r.bool() { hash(r, k) } else { c.body.dr_pointer }, Hash::SHA256(r.arr()), c.body.proof.clone(), if r.bool() { i } else { c.body.collateral.clone() }, outs(r, k, have), c.body.bn256_public_key.clone());
                    let s = if r.bool() { c.signatures.clone() } else { sigs(r, &who, b_hash(&b), k) };
                    Transaction::Commit(CommitTransaction::new(b, s))
                }
            }
        }
    }
}
/// A block made of another: by its miner, if that one went bad, or by somebody who just relays it.
fn block(r: &mut Rng, k: &Lore, from: &Block) -> Block {
    let e = from.block_header.beacon.checkpoint;
    let v = ProtocolVersion::from_epoch(e);
    let mut h = from.block_header.clone();
    let mut t = from.txns.clone();
    for _ in 0..1 + r.below(2) {
        match r.below(13) {
            0 => t.mint = MintTransaction::new(if r.bool() { e } else { epoch(r, k) }, t.mint.outputs.iter().map(|o| ValueTransferOutput { value: o.value.wrapping_add(1 + r.below(1000)), ..o.clone() }).collect()),
            1 => {
                let mut o = t.mint.outputs.clone();
                let n = value(r);
                let p = pkh(r, k);
                o.push(ValueTransferOutput { pkh: p, value: n, time_lock: r.edgy_u64() });
                t.mint = MintTransaction::new(e, o);
            }
            2 => t.mint = MintTransaction::new(e, vec![]),
            3 => {
                let x = tx(r, k);
                match x {
                    Transaction::ValueTransfer(x) => t.value_transfer_txns.push(x),
                    Transaction::DataRequest(x) => t.data_request_txns.push(x),
                    Transaction::Commit(x) => t.commit_txns.push(x),
                    Transaction::Reveal(x) => t.reveal_txns.push(x),
                    Transaction::Stake(x) => t.stake_txns.push(x),
                    Transaction::Unstake(x) => t.unstake_txns.push(x),
                    _ => {}
                }
            }
            4 => {
                // once more
                if let Some(x) = t.value_transfer_txns.last().cloned() {
                    t.value_transfer_txns.push(x);
                }
                if let Some(x) = t.commit_txns.last().cloned() {
                    t.commit_txns.push(x);
                }
                if let Some(x) = t.tally_txns.last().cloned() {
                    t.tally_txns.push(x);
                }
                if let Some(x) = t.unstake_txns.last().cloned() {
                    t.unstake_txns.push(x);
                }
            }
            5 => {
                if let Some(x) = t.tally_txns.last_mut() {
                    let mut o = x.outputs.clone();
                    if let Some(y) = o.first_mut() {
                        y.value = if r.bool() { y.value.wrapping_add(1) } else { value(r) };
                        if r.bool() {
                            y.pkh = k.purses[0].pkh;
                        }
                    }
                    let said = if r.bool() { vec![0x18, 0x63] } else { x.tally.clone() };
                    *x = TallyTransaction::new(x.dr_pointer, said, o, x.out_of_consensus.clone(), x.error_committers.clone());
                } else {
                    let o = outs(r, k, WIT);
                    t.tally_txns.push(TallyTransaction::new(hash(r, k), vec![1], o, vec![], vec![pkh(r, k)]));
                }
            }
            6 => {
                // the same purse twice in one block
                let (i, have, who) = ins(r, k);
                if !i.is_empty() {
                    for n in 0..2 {
                        let b = VTTransactionBody::new(i.clone(), vec![ValueTransferOutput { pkh: k.purses[0].pkh, value: have.saturating_sub(n), time_lock: 0 }]);
                        let s = who.iter().map(|w| w.sign(b_hash(&b))).collect();
                        t.value_transfer_txns.push(VTTransaction::new(b, s));
                    }
                }
            }
            7 => {
                // a commitment is not there, or an old one is there again
                if !t.commit_txns.is_empty() && r.bool() {
                    let i = r.idx(t.commit_txns.len());
                    t.commit_txns.remove(i);
                } else {
                    t.commit_txns.extend(k.blocks.iter().flat_map(|b| b.txns.commit_txns.clone()).take(3));
                }
            }
            8 => t.reveal_txns.extend(k.blocks.iter().flat_map(|b| b.txns.reveal_txns.clone()).take(3)),
            9 => t.value_transfer_txns.extend(k.blocks.iter().flat_map(|b| b.txns.value_transfer_txns.clone()).take(3)),
            10 => h.beacon.hash_prev_block = hash(r, k),
            11 => h.beacon.checkpoint = epoch(r, k),
            _ => h.bn256_public_key = if r.bool() { None } else { k.blocks.iter().find_map(|b| b.block_header.bn256_public_key.clone()) },
        }
    }
    if r.chance(4, 5) {
        h.merkle_roots = BlockMerkleRoots::from_transactions(&t, v);
    }
    let miner = from.block_sig.public_key.pkh();
    let s = match k.turned.iter().find(|x| x.pkh == miner) {
        Some(w) if r.chance(7, 8) => {
            let b = Block::new(h.clone(), KeyedSignature::default(), t.clone());
            w.sign(b.versioned_hash(ProtocolVersion::from_epoch(h.beacon.checkpoint)))
        }
        _ => match r.below(4) {
            0 => KeyedSignature::default(),
            1 => r.pick(&k.purses).sign(Hash::SHA256(r.arr())),
            2 => {
                let b = Block::new(h.clone(), KeyedSignature::default(), t.clone());
                r.pick(&k.purses).sign(b.versioned_hash(v))
            }
            _ => from.block_sig.clone(),
        },
    };
    Block::new(h, s, t)
}
fn vote(r: &mut Rng, k: &Lore) -> SuperBlockVote {
    if !k.votes.is_empty() && r.chance(1, 2) {
        let mut v = r.pick(&k.votes).clone();
        match r.below(7) {
            0 => v.superblock_index = epoch(r, k),
            1 => v.superblock_hash = hash(r, k),
            2 => v.bn256_signature.signature.truncate(10),
            3 => {
                if let Some(x) = v.bn256_signature.signature.last_mut() {
                    *x ^= 1;
                }
            }
            4 => v.secp256k1_signature.signature = Signature::Secp256k1(Secp256k1Signature { der: vec![] }),
            5 => v.secp256k1_signature.public_key = r.pick(&k.purses).pk.clone(),
            _ => {}
        }
        return v;
    }
    // a well-formed vote, of somebody on the committee or not
    let who = if !k.turned.is_empty() && r.bool() { r.pick(&k.turned).clone() } else { r.pick(&k.purses).clone() };
    let i = k.beacon.highest_superblock_checkpoint.checkpoint;
    let i = match r.below(4) {
        0 => epoch(r, k),
        1 => i.wrapping_add(1),
        2 => i,
        _ => i.wrapping_add(2),
    };
    let mut v = SuperBlockVote::new_unsigned(hash(r, k), i);
    let s = match r.below(4) {
        0 => {
            let n = r.below(80) as usize;
            Bn256Signature { signature: r.bytes(n) }
        }
        1 => who.bn.sign(b"something else").unwrap_or(Bn256Signature { signature: vec![] }),
        _ => who.bn.sign(&v.bn256_signature_message()).unwrap_or(Bn256Signature { signature: vec![] }),
    };
    v.set_bn256_signature(s);
    let h: Hash = witnet_crypto::hash::calculate_sha256(&v.secp256k1_signature_message()).into();
    v.secp256k1_signature = who.sign(h);
    v
}
fn inventory(r: &mut Rng, k: &Lore) -> Vec<InventoryEntry> {
    let n = *r.pick(&[0usize, 1, 1, 2, 5, 40, 600]);
    (0..n)
        .map(|_| match r.below(6) {
            0 => InventoryEntry::Tx(hash(r, k)),
            1 => InventoryEntry::SuperBlock(epoch(r, k)),
            2 if !k.txs.is_empty() => InventoryEntry::Tx(t_hash(r.pick(&k.txs), k.epoch)),
            _ => InventoryEntry::Block(hash(r, k)),
        })
        .collect()
}
fn beacon(r: &mut Rng, k: &Lore) -> LastBeacon {
    let mut b = k.beacon.clone();
    for _ in 0..r.below(3) {
        match r.below(4) {
            0 => b.highest_block_checkpoint.checkpoint = epoch(r, k),
            1 => b.highest_block_checkpoint.hash_prev_block = hash(r, k),
            2 => b.highest_superblock_checkpoint.checkpoint = epoch(r, k),
            _ => b.highest_superblock_checkpoint.hash_prev_block = hash(r, k),
        }
    }
    b
}
fn odd_addr(r: &mut Rng, k: &Lore) -> SocketAddr {
    match r.below(9) {
        0 => SocketAddr::from(([0, 0, 0, 0], 0)),
        1 => SocketAddr::from(([255, 255, 255, 255], 65535)),
        2 => SocketAddr::from(([127, 0, 0, 1], 21337)),
        3 => SocketAddr::new(IpAddr::V6(Ipv6Addr::from(r.arr::<16>())), r.u32() as u16),
        4 => SocketAddr::new(IpAddr::V6(Ipv6Addr::LOCALHOST), 21337),
        5 => SocketAddr::from(([224, 0, 0, 1], 1)),
        6 => addr(r.below(u64::from(k.nodes)) as u32),
        7 => addr(FOE + r.below(3) as u32),
        _ => SocketAddr::from((r.arr::<4>(), r.u32() as u16)),
    }
}
fn wire(a: SocketAddr) -> witnet_data_structures::types::Address {
    let m = Message::build_peers(0, &[a]);
    match m.kind {
        Command::Peers(p) => p.peers[0],
        _ => unreachable!(),
    }
}
fn superblock(r: &mut Rng, k: &Lore) -> SuperBlock {
    let (a, b, c, d, e) = (hash(r, k), hash(r, k), hash(r, k), hash(r, k), hash(r, k));
    SuperBlock::new(r.edgy_u32(), a, b, epoch(r, k), c, d, e)
}
/// Anything at all; and what it is.
fn anything(r: &mut Rng, k: &Lore, to: SocketAddr) -> (&'static str, Vec<u8>) {
    match r.below(24) {
        0 => {
            let n = r.len(400);
            ("noise", r.bytes(n))
        }
        1..=3 => {
            let (_, mut b) = anything(r, k, to);
            for _ in 0..1 + r.below(4) {
                if b.is_empty() {
                    break;
                }
                let i = r.idx(b.len());
                match r.below(5) {
                    0 => b[i] ^= 1 << r.below(8),
                    1 => b[i] = r.u8(),
                    2 => b.truncate(i),
                    3 => {
                        let x = r.u8();
                        b.insert(i, x)
                    }
                    _ => {
                        let j = (i + 1 + r.idx(20)).min(b.len());
                        let x = b[i..j].to_vec();
                        b.extend(x);
                    }
                }
            }
            ("changed bytes", b)
        }
        4..=7 => ("transactions", pb(k, Command::Transaction(tx(r, k)))),
        8 if !k.txs.is_empty() => ("transactions again", pb(k, Command::Transaction(r.pick(&k.txs).clone()))),
        9..=12 if !k.blocks.is_empty() => {
            let b = if r.chance(2, 3) { k.blocks.last().cloned().unwrap() } else { r.pick(&k.blocks).clone() };
            ("blocks", pb(k, Command::Block(block(r, k, &b))))
        }
        13 if !k.blocks.is_empty() => ("blocks again", pb(k, Command::Block(r.pick(&k.blocks).clone()))),
        14..=16 => ("votes", pb(k, Command::SuperBlockVote(vote(r, k)))),
        17 => ("announcements", pb(k, Command::InventoryAnnouncement(InventoryAnnouncement { inventory: inventory(r, k) }))),
        18 => ("inventory requests", pb(k, Command::InventoryRequest(InventoryRequest { inventory: inventory(r, k) }))),
        19 => ("beacons", pb(k, Command::LastBeacon(beacon(r, k)))),
        20 => {
            let n = *r.pick(&[0usize, 1, 3, 50, 500]);
            let peers = (0..n).map(|_| wire(odd_addr(r, k))).collect();
            if r.bool() {
                ("peers", pb(k, Command::Peers(Peers { peers })))
            } else {
                ("requests for peers", pb(k, Message::build_get_peers(k.magic).kind))
            }
        }
        21 => {
            let m = Message::build_version(k.magic, Some(odd_addr(r, k)), to, beacon(r, k));
            let mut c = m.kind;
            if let Command::Version(v) = &mut c {
                if r.bool() {
                    v.timestamp = *r.pick(&[i64::MIN, i64::MAX, 0, -1]);
                }
                if r.bool() {
                    v.version = r.edgy_u32();
                    v.user_agent = r.unicode(100);
                }
            }
            ("versions", pb(k, c))
        }
        22 => ("superblocks", pb(k, Command::SuperBlock(superblock(r, k)))),
        _ => ("veracks", pb(k, Message::build_verack(if r.chance(1, 8) { r.u32() as u16 } else { k.magic }).kind)),
    }
}
fn frame(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
/// One connection of a hostile machine to a node, from its start to its end.
async fn session(k: &Shared, me: u32, to: u32, r: &mut Rng) {
    let port = 1024 + r.below(60_000) as u16;
    let from = SocketAddr::new(IpAddr::V4(ip(me)), port);
    let Some(s) = snet::connect_from(from, addr(to)) else { return };
    k.borrow_mut().event("connections");
    let (rd, mut wr) = s.into_split();
    let mut rd = rd;
    let mut inbox: Vec<u8> = vec![];
    let mut seen_hot = k.borrow().hot.len();
    // how it introduces itself
    let intro = r.below(10);
    let mut polite = intro > 1;
    let ends = 5 + r.below(400);
    let mut left = ends;
    if polite {
        let v = {
            let mut x = k.borrow_mut();
            let b = if intro > 3 { x.beacon.clone() } else { beacon(r, &x) };
            let me = if r.bool() { Some(addr(me)) } else { Some(odd_addr(r, &x)) };
            let m = Message::build_version(x.magic, me, addr(to), b);
            x.event("handshakes begun");
            let mut out = frame(&m.to_pb_bytes().unwrap_or_default());
            out.extend(frame(&Message::build_verack(x.magic).to_pb_bytes().unwrap_or_default()));
            out
        };
        if wr.write_all(&v).await.is_err() {
            return;
        }
    }
    let mut buf = vec![0u8; 1 << 16];
    loop {
        if k.borrow().stop || left == 0 {
            return;
        }
        let bell = k.borrow().bell.clone();
        let pause = Duration::from_millis(20 + r.below(1 + 4000 / k.borrow().pace.max(1)));
        let mut to_send: Vec<Vec<u8>> = vec![];
        simtokio::select! {
            n = rd.read(&mut buf) => {
                let Ok(n) = n else { return };
                if n == 0 {
                    k.borrow_mut().event("connections the node ended");
                    return;
                }
                inbox.extend_from_slice(&buf[..n]);
                while inbox.len() >= 4 {
                    let l = u32::from_be_bytes([inbox[0], inbox[1], inbox[2], inbox[3]]) as usize;
                    if inbox.len() < 4 + l {
                        break;
                    }
                    let b: Vec<u8> = inbox[4..4 + l].to_vec();
                    inbox.drain(..4 + l);
                    let Ok(m) = Message::from_versioned_pb_bytes(&b) else { continue };
                    answer(k, m.kind, r, &mut to_send);
                }
            }
            () = bell.notified() => {}
            () = simtokio::time::sleep(pause) => {
                left -= 1;
                for _ in 0..1 + r.below(3) {
                    let (what, b) = anything(r, &k.borrow(), addr(to));
                    k.borrow_mut().event(what);
                    to_send.push(b);
                }
                if !polite && r.chance(1, 10) {
                    polite = true;
                }
            }
        }
        {
            let x = k.borrow();
            while seen_hot < x.hot.len() {
                to_send.push(x.hot[seen_hot].to_vec());
                seen_hot += 1;
            }
        }
        for b in to_send {
            let mut f = frame(&b);
            match r.below(60) {
                0 => f[0] = 0x7f,
                1 => {
                    let n = f.len();
                    f.truncate(n / 2);
                }
                2 => f = vec![0, 0, 0, 0],
                _ => {}
            }
            // in pieces, at times
            if r.chance(1, 10) && f.len() > 2 {
                let n = 1 + r.idx(f.len() - 1);
                if wr.write_all(&f[..n]).await.is_err() {
                    return;
                }
                simtokio::time::sleep(Duration::from_millis(r.below(300))).await;
                f.drain(..n);
            }
            let w = simtokio::time::timeout(Duration::from_secs(20), wr.write_all(&f)).await;
            if !matches!(w, Ok(Ok(()))) {
                return;
            }
            k.borrow_mut().event("messages sent");
        }
    }
}
/// What a hostile machine makes of what it is told.
fn answer(k: &Shared, c: Command, r: &mut Rng, out: &mut Vec<Vec<u8>>) {
    let mut x = k.borrow_mut();
    x.event("messages received");
    match c {
        Command::Block(b) => {
            x.event("blocks received");
            if !x.blocks.contains(&b) {
                x.blocks.push(b.clone());
                if x.blocks.len() > 40 {
                    x.blocks.remove(0);
                }
                if b.block_header.beacon.checkpoint == x.epoch {
                    // before everybody has it
                    for _ in 0..r.below(4) {
                        let y = block(r, &x, &b);
                        let m = pb(&x, Command::Block(y));
                        x.hot.push(Rc::new(m));
                        x.event("candidates forged");
                        if x.turned.iter().any(|w| w.pkh == b.block_sig.public_key.pkh()) {
                            x.event("candidates forged by their miner");
                        }
                    }
                    x.bell.notify_waiters();
                }
            }
        }
        Command::Transaction(t) => {
            if !x.txs.contains(&t) {
                x.txs.push(t);
                if x.txs.len() > 60 {
                    x.txs.remove(0);
                }
            }
        }
        Command::SuperBlockVote(v) => {
            if !x.votes.contains(&v) {
                x.votes.push(v);
                if x.votes.len() > 40 {
                    x.votes.remove(0);
                }
            }
        }
        Command::InventoryRequest(q) => {
            x.event("requests for data received");
            for e in q.inventory.iter().take(50) {
                if r.chance(1, 6) {
                    break;
                }
                if let InventoryEntry::Block(h) = e {
                    let b = x.blocks.iter().find(|b| b.versioned_hash(ProtocolVersion::from_epoch(b.block_header.beacon.checkpoint)) == *h).cloned();
                    let b = match b {
                        Some(b) if r.bool() => Some(b),
                        // the header asked for, and other transactions
                        Some(b) => {
                            let mut y = b.clone();
                            y.txns.value_transfer_txns.clear();
                            Some(y)
                        }
                        None => x.blocks.last().cloned(),
                    };
                    if let Some(b) = b {
                        out.push(pb(&x, Command::Block(b)));
                    }
                }
            }
        }
        Command::GetPeers(_) => {
            let n = r.below(300);
            let peers = (0..n).map(|_| wire(odd_addr(r, &x))).collect();
            out.push(pb(&x, Command::Peers(Peers { peers })));
            x.event("lists of peers made up");
        }
        Command::LastBeacon(b) => {
            x.beacon = b;
            if r.bool() {
                let y = beacon(r, &x);
                out.push(pb(&x, Command::LastBeacon(y)));
            }
        }
        Command::Version(v) => {
            x.beacon = v.beacon;
            if r.bool() {
                let m = Message::build_verack(x.magic).kind;
                out.push(pb(&x, m));
            }
        }
        _ => {}
    }
}
/// A hostile machine: it connects to nodes again and again.
fn machine(k: Shared, me: u32, lines: u32, mut r: Rng) {
    sim::as_node(me, || {
        for _ in 0..lines {
            let k = k.clone();
            let mut r = Rng::new(r.u64());
            sim::spawn_named("foe", async move {
                loop {
                    simtokio::time::sleep(Duration::from_millis(200 + r.below(8000))).await;
                    let (stop, n, full) = {
                        let x = k.borrow();
                        (x.stop, x.nodes, x.sessions >= 24)
                    };
                    if stop {
                        return;
                    }
                    if full {
                        continue;
                    }
                    let to = r.below(u64::from(n)) as u32;
                    k.borrow_mut().sessions += 1;
                    session(&k, me, to, &mut r).await;
                    k.borrow_mut().sessions -= 1;
                }
            });
        }
    });
}
async fn teach(k: &Shared, p: &Play, e: u32, from: u32) {
    let votes = p.w.chain(from, GetSuperBlockVotes).await.and_then(Result::ok).unwrap_or_default();
    let mut x = k.borrow_mut();
    x.epoch = e;
    for v in votes {
        if !x.votes.contains(&v) && x.votes.len() < 60 {
            x.votes.push(v);
        }
    }
    let mine: HashSet<_> = x.purses.iter().map(|u| u.pkh).collect();
    let mut c: Vec<_> = p.l.books.coins.iter().filter(|(_, o)| mine.contains(&o.pkh)).map(|(p, o)| (*p, o.clone())).collect();
    c.sort_by_key(|x| x.0);
    x.coins = c;
    x.open = p.l.books.open.keys().copied().collect();
}
pub fn hostile(mut r: Rng, tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    // under siege, one that is not needed for a superblock stops at times, and comes back, or is new
    let siege = r.chance(1, 3);
    let newcomer = siege && r.bool();
    let voters = if siege { 5 } else { 3 + r.below(3) as u32 };
    let nodes = voters + u32::from(newcomer);
    let v2 = *r.pick(&[u32::MAX, 12, 12, 25]);
    let plan = Plan {
        voters,
        outbound: if siege { 3 + r.below(2) as u16 } else { 64 },
        v1_8: if v2 == u32::MAX { u32::MAX } else { 3 },
        v2,
        superblock_period: *r.pick(&[3, 5, 10]),
        activity_period: *r.pick(&[20, 2000]),
        users: 5,
        ..crate::scene::two(nodes)
    };
    let len = (if tier == Tier::Thorough { 50 } else { 34 }) + r.below(16) as u32 + if siege { 20 } else { 0 };
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, plan, |mut w| async move {
        for n in 0..voters {
            w.provision(n);
            w.start(n);
        }
        let h = Habits { pays: 1 + r.below(3), asks: *r.pick(&[1, 2, 4]), stakes: true, unstakes: r.bool(), hosts: vec!["good", "good", "liar", "broken", ""], ..Default::default() };
        let machines = 1 + r.below(3) as u32;
        let lines = 1 + r.below(4) as u32;
        let pace = *r.pick(&[1, 3, 10]);
        let turned = if r.bool() { vec![w.keys[r.idx(w.keys.len())].clone()] } else { vec![] };
        let starts = *r.pick(&[0, 0, 6, 14]);
        let mut log = format!("{nodes} nodes, wit/2 at {}, superblocks every {}; {machines} hostile machines with {lines} lines from epoch {starts}, {pace} messages a second, {} validators turned; ", w.plan.v2, w.plan.superblock_period, turned.len());
        let genesis = CheckpointBeacon { checkpoint: 0, hash_prev_block: w.consts.genesis_hash };
        let lore = Lore {
            // the number sessions carry, whatever the constants say
            magic: 10_700,
            epoch: 0,
            nodes,
            blocks: vec![],
            txs: vec![],
            votes: vec![],
            beacon: LastBeacon { highest_block_checkpoint: genesis, highest_superblock_checkpoint: genesis },
            coins: vec![],
            purses: vec![w.users[4].clone(), w.users[3].clone()],
            turned,
            open: vec![],
            events: BTreeMap::new(),
            hot: vec![],
            bell: Rc::new(Notify::new()),
            sessions: 0,
            stop: false,
            pace,
        };
        let k: Shared = Rc::new(RefCell::new(lore));
        let mut v = Lives { p: Play::new(w, r.clone(), h), seed, accepted: BTreeMap::new(), behind: HashMap::new() };
        // since when the chain has not grown; since when a node is out of step
        let (mut best, mut since) = (0, 0);
        let mut out_of_step = vec![0u32; nodes as usize];
        let mut over = false;
        let mut down: Option<(u32, u32)> = newcomer.then(|| (voters, 15 + r.below(15) as u32));
        let mut heal_at = 0;
        let mut joined = false;
        for e in 0..len + 14 {
            v.p.w.until_epoch(e, 3.0).await;
            match down {
                Some((n, until)) if e >= until || e >= len => {
                    if newcomer && !joined {
                        joined = true;
                        v.p.w.provision(n);
                        v.p.rep.event("newcomers during an attack");
                    } else {
                        v.p.rep.event("restarts during an attack");
                    }
                    v.p.w.start(n);
                    v.p.confirmed_up_to[n as usize] = 0;
                    log += &format!("{e} start {n}; ");
                    down = None;
                    heal_at = e + 1;
                }
                None if siege && e > 12 && e + 6 < len && v.p.synced().await.len() == v.p.alive().len() && r.chance(1, 4) => {
                    let n = r.below(u64::from(voters)) as u32;
                    let until = e + 1 + r.below(5) as u32;
                    log += &format!("{e} kill {n} until {until}; ");
                    v.p.w.kill(n);
                    down = Some((n, until));
                }
                _ => {}
            }
            if heal_at == e || e == len {
                v.p.heal().await;
            }
            if e == starts {
                for m in 0..machines {
                    machine(k.clone(), FOE + m, lines, Rng::new(r.u64()));
                }
            }
            if e >= len && !over {
                over = true;
                k.borrow_mut().stop = true;
                let b = k.borrow().bell.clone();
                b.notify_waiters();
            }
            let s = v.p.synced().await;
            let mut tip = 0;
            for n in 0..nodes {
                if v.p.w.alive[n as usize] {
                    tip = tip.max(v.p.w.tip(n).await.map_or(0, |t| t.checkpoint));
                }
                if s.contains(&n) || !v.p.w.alive[n as usize] {
                    out_of_step[n as usize] = 0;
                } else {
                    v.behind.insert(n, e);
                    out_of_step[n as usize] += 1;
                }
            }
            if tip > best {
                v.p.rep.event("epochs in which the chain grew");
                (best, since) = (tip, e);
            }
            let all = v.p.describe().await;
            let grows = v.p.rep.check(e - since <= 8, "chain-stopped", || format!("no block since epoch {since}, at epoch {e}: {all}; {log}"));
            let sp = v.p.w.plan.superblock_period as u32;
            let bad = out_of_step.iter().position(|x| *x > 3 * sp + 12);
            let in_step = v.p.rep.check(bad.is_none(), "knocked-out", || format!("node {bad:?} has been out of step for {out_of_step:?} epochs, at epoch {e}: {all}; {log}"));
            if !grows || !in_step {
                break;
            }
            if let Some(n) = s.first().copied() {
                if v.p.l.follow(&v.p.w, n).await {
                    v.books(n).await;
                    teach(&k, &v.p, e, n).await;
                }
                if e < len {
                    v.p.act(e, &s).await;
                }
            }
            v.p.rep.event("epochs lived");
            v.p.w.until_epoch(e, f64::from(v.p.period(e)) * 0.7).await;
            v.p.watch().await;
            if std::env::var("PLAY_LOG").is_ok() {
                println!("{e} {} {:?}", v.p.describe().await, k.borrow().events);
            }
        }
        let s = v.p.synced().await;
        let all = v.p.describe().await;
        v.p.rep.check(s.len() == nodes as usize, "not-all-recover", || format!("{all}; {log}"));
        for n in &s {
            if v.p.l.follow(&v.p.w, *n).await {
                v.books(*n).await;
                v.found(*n, &mut r).await;
            }
        }
        let mut tips = HashSet::new();
        for n in &s {
            tips.insert(v.p.w.tip(*n).await);
        }
        v.p.rep.check(tips.len() == 1, "does-not-agree", || format!("{all}; {log}"));
        for n in s.iter().skip(1) {
            v.p.alike(s[0], *n, "after the attack").await;
        }
        // (that of the books which no hostile machine brings about is C60's)
        v.p.l.books.wrong.retain(|(k, _)| !["first-kind-fees-lost-after-transition", "error-report-reward-lost", "withdrawn-but-still-staked"].contains(k));
        v.verdicts();
        let counts = v.p.l.books.counts.clone();
        for (c, n) in counts {
            v.p.rep.events(&format!("{c} on chain"), n);
        }
        for (c, n) in &k.borrow().events {
            v.p.rep.events(&format!("foes: {c}"), *n);
        }
        v.p.rep.shapes.push(vmon::h64(&(&v.p.l.chain, k.borrow().hot.len())));
        (std::mem::take(&mut v.p.rep), log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}
