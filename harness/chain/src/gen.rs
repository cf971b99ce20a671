//! Generators of protocol objects.
use vmon::Rng;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::schema::witnet as pb;
use witnet_data_structures::proto::ProtobufConvert;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::*;
use witnet_data_structures::vrf::*;

pub fn hash(r: &mut Rng) -> Hash {
    match r.below(12) {
        0 => Hash::default(),
        1 => Hash::SHA256([0xff; 32]),
        2 => Hash::with_first_u32(r.edgy_u32()),
        _ => Hash::SHA256(r.arr()),
    }
}
pub fn pkh(r: &mut Rng) -> PublicKeyHash {
    let b: [u8; 20] = match r.below(12) {
        0 => [0; 20],
        1 => [0xff; 20],
        _ => r.arr(),
    };
    PublicKeyHash::from_bytes(&b).unwrap()
}
pub fn pk(r: &mut Rng) -> PublicKey {
    let mut b: [u8; 33] = r.arr();
    match r.below(10) {
        0 => b = [0; 33],
        1 => b[0] = r.u8(),
        _ => b[0] = 2 + (b[0] & 1),
    }
    PublicKey::from_bytes(b)
}
pub fn blob(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.len(max);
    r.bytes(n)
}
pub fn many<T>(r: &mut Rng, max: u64, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = match r.below(4) {
        0 => 0,
        1 => 1,
        _ => r.below(max + 1),
    };
    (0..n).map(|_| f(r)).collect()
}
pub fn signature(r: &mut Rng) -> Signature {
    let der = match r.below(4) {
        0 => vec![],
        1 => blob(r, 100),
        _ => r.bytes(70 + (0) as usize),
    };
    Signature::Secp256k1(Secp256k1Signature { der })
}
pub fn keyed(r: &mut Rng) -> KeyedSignature {
    if r.chance(1, 8) {
        return KeyedSignature::default();
    }
    KeyedSignature { signature: signature(r), public_key: pk(r) }
}
pub fn bls_pk(r: &mut Rng) -> Bn256PublicKey {
    let mut k = Bn256PublicKey::default();
    k.public_key = match r.below(3) {
        0 => blob(r, 70),
        _ => r.bytes(65),
    };
    k
}
/// Absent, or present with some content (an empty key is the wire form of absence).
pub fn opt_bls(r: &mut Rng) -> Option<Bn256PublicKey> {
    if r.bool() {
        Some(bls_pk(r)).filter(|k| !k.public_key.is_empty())
    } else {
        None
    }
}
pub fn bls_sig(r: &mut Rng) -> Bn256Signature {
    Bn256Signature { signature: blob(r, 64) }
}
pub fn vrf_proof(r: &mut Rng) -> VrfProof {
    if r.chance(1, 6) {
        return VrfProof::default();
    }
    let mut p = pb::VrfProof::new_();
    p.set_proof(blob(r, 90));
    p.set_public_key(pk(r).to_pb());
    VrfProof::from_pb(p).unwrap()
}
pub trait New_ {
    fn new_() -> Self;
}
impl<T: protobuf::Message> New_ for T {
    fn new_() -> Self {
        T::new()
    }
}
pub fn ptr(r: &mut Rng) -> OutputPointer {
    OutputPointer { transaction_id: hash(r), output_index: r.edgy_u32() }
}
pub fn input(r: &mut Rng) -> Input {
    Input::new(ptr(r))
}
pub fn vto(r: &mut Rng) -> ValueTransferOutput {
    ValueTransferOutput { pkh: pkh(r), value: r.edgy_u64(), time_lock: if r.bool() { 0 } else { r.edgy_u64() } }
}
pub fn beacon(r: &mut Rng) -> CheckpointBeacon {
    CheckpointBeacon { checkpoint: r.edgy_u32(), hash_prev_block: hash(r) }
}
pub fn filter(r: &mut Rng) -> RADFilter {
    RADFilter { op: r.edgy_u32(), args: blob(r, 12) }
}
pub fn text(r: &mut Rng, n: usize) -> String {
    let k = r.len(n);
    if r.bool() { r.ascii(k) } else { r.unicode(k) }
}
pub fn retrieve(r: &mut Rng) -> RADRetrieve {
    let kind = match r.below(5) {
        0 => RADType::Unknown,
        1 => RADType::HttpGet,
        2 => RADType::Rng,
        3 => RADType::HttpPost,
        _ => RADType::HttpHead,
    };
    RADRetrieve {
        kind,
        url: text(r, 40),
        script: blob(r, 40),
        body: if r.bool() { vec![] } else { blob(r, 40) },
        headers: if r.bool() { vec![] } else { many(r, 3, |r| (text(r, 12), text(r, 12))) },
    }
}
pub fn rad(r: &mut Rng) -> RADRequest {
    RADRequest {
        time_lock: r.edgy_u64(),
        retrieve: many(r, 4, retrieve),
        aggregate: RADAggregate { filters: many(r, 2, filter), reducer: r.edgy_u32() },
        tally: RADTally { filters: many(r, 2, filter), reducer: r.edgy_u32() },
    }
}
pub fn dro(r: &mut Rng) -> DataRequestOutput {
    DataRequestOutput {
        data_request: rad(r),
        witness_reward: r.edgy_u64(),
        witnesses: r.edgy_u32() as u16,
        commit_and_reveal_fee: r.edgy_u64(),
        min_consensus_percentage: r.edgy_u32(),
        collateral: r.edgy_u64(),
    }
}
pub fn vtt(r: &mut Rng) -> VTTransaction {
    VTTransaction::new(VTTransactionBody::new(many(r, 4, input), many(r, 4, vto)), many(r, 4, keyed))
}
pub fn drt(r: &mut Rng) -> DRTransaction {
    DRTransaction::new(DRTransactionBody::new(many(r, 3, input), dro(r), many(r, 2, vto)), many(r, 3, keyed))
}
pub fn commit(r: &mut Rng) -> CommitTransaction {
    let b = CommitTransactionBody::new(
        hash(r),
        hash(r),
        DataRequestEligibilityClaim { proof: vrf_proof(r) },
        many(r, 3, input),
        many(r, 2, vto),
        opt_bls(r),
    );
    CommitTransaction::new(b, many(r, 2, keyed))
}
pub fn reveal(r: &mut Rng) -> RevealTransaction {
    RevealTransaction::new(RevealTransactionBody::new(hash(r), blob(r, 60), pkh(r)), many(r, 2, keyed))
}
pub fn tally(r: &mut Rng) -> TallyTransaction {
    TallyTransaction::new(hash(r), blob(r, 60), many(r, 4, vto), many(r, 4, pkh), many(r, 4, pkh))
}
pub fn mint(r: &mut Rng) -> MintTransaction {
    MintTransaction::new(r.edgy_u32(), many(r, 3, vto))
}
pub fn stake_key(r: &mut Rng) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: pkh(r), withdrawer: pkh(r) }
}
pub fn stake(r: &mut Rng) -> StakeTransaction {
    let out = StakeOutput { authorization: keyed(r), key: stake_key(r), value: r.edgy_u64() };
    let change = if r.bool() { Some(vto(r)).filter(|v| *v != ValueTransferOutput::default()) } else { None };
    StakeTransaction::new(StakeTransactionBody::new(many(r, 3, input), out, change), many(r, 3, keyed))
}
pub fn unstake(r: &mut Rng) -> UnstakeTransaction {
    UnstakeTransaction::new(UnstakeTransactionBody::new(pkh(r), vto(r), r.edgy_u64(), r.edgy_u64()), keyed(r))
}
pub fn tx(r: &mut Rng) -> Transaction {
    match r.below(8) {
        0 => Transaction::ValueTransfer(vtt(r)),
        1 => Transaction::DataRequest(drt(r)),
        2 => Transaction::Commit(commit(r)),
        3 => Transaction::Reveal(reveal(r)),
        4 => Transaction::Tally(tally(r)),
        5 => Transaction::Mint(mint(r)),
        6 => Transaction::Stake(stake(r)),
        _ => Transaction::Unstake(unstake(r)),
    }
}
pub fn header(r: &mut Rng) -> BlockHeader {
    BlockHeader {
        signals: r.edgy_u32(),
        beacon: beacon(r),
        merkle_roots: BlockMerkleRoots {
            mint_hash: hash(r),
            vt_hash_merkle_root: hash(r),
            dr_hash_merkle_root: hash(r),
            commit_hash_merkle_root: hash(r),
            reveal_hash_merkle_root: hash(r),
            tally_hash_merkle_root: hash(r),
            stake_hash_merkle_root: hash(r),
            unstake_hash_merkle_root: hash(r),
        },
        proof: BlockEligibilityClaim { proof: vrf_proof(r) },
        bn256_public_key: opt_bls(r),
    }
}
pub fn txns(r: &mut Rng) -> BlockTransactions {
    BlockTransactions {
        mint: mint(r),
        value_transfer_txns: many(r, 3, vtt),
        data_request_txns: many(r, 3, drt),
        commit_txns: many(r, 3, commit),
        reveal_txns: many(r, 3, reveal),
        tally_txns: many(r, 3, tally),
        stake_txns: many(r, 3, stake),
        unstake_txns: many(r, 3, unstake),
    }
}
pub fn block(r: &mut Rng) -> Block {
    Block::new(header(r), keyed(r), txns(r))
}
pub fn superblock(r: &mut Rng) -> SuperBlock {
    SuperBlock::new(r.edgy_u32(), hash(r), hash(r), r.edgy_u32(), hash(r), hash(r), hash(r))
}
pub fn sbv(r: &mut Rng) -> SuperBlockVote {
    let mut v = SuperBlockVote::new_unsigned(hash(r), r.edgy_u32());
    v.set_bn256_signature(bls_sig(r));
    v.set_secp256k1_signature(keyed(r));
    v
}
pub fn address(r: &mut Rng) -> Address {
    let ip = if r.bool() {
        IpAddress::Ipv4 { ip: r.edgy_u32() }
    } else {
        IpAddress::Ipv6 { ip0: r.edgy_u32(), ip1: r.edgy_u32(), ip2: r.u32(), ip3: r.edgy_u32() }
    };
    Address { ip, port: r.edgy_u32() as u16 }
}
pub fn last_beacon(r: &mut Rng) -> LastBeacon {
    LastBeacon { highest_block_checkpoint: beacon(r), highest_superblock_checkpoint: beacon(r) }
}
pub fn inv(r: &mut Rng) -> InventoryEntry {
    match r.below(3) {
        0 => InventoryEntry::Tx(hash(r)),
        1 => InventoryEntry::Block(hash(r)),
        _ => InventoryEntry::SuperBlock(r.edgy_u32()),
    }
}
pub fn command(r: &mut Rng) -> Command {
    match r.below(14) {
        0 => Command::GetPeers(GetPeers),
        1 => Command::Peers(Peers { peers: many(r, 6, address) }),
        2 => Command::Verack(Verack),
        3 => Command::Version(Version {
            version: r.edgy_u32(),
            timestamp: r.edgy_u64() as i64,
            capabilities: r.edgy_u64(),
            sender_address: address(r),
            receiver_address: address(r),
            user_agent: text(r, 30),
            nonce: r.edgy_u64(),
            beacon: last_beacon(r),
        }),
        4 | 5 | 6 => Command::Block(block(r)),
        7 | 8 => Command::Transaction(tx(r)),
        9 => Command::SuperBlock(superblock(r)),
        10 => Command::InventoryAnnouncement(InventoryAnnouncement { inventory: many(r, 6, inv) }),
        11 => Command::InventoryRequest(InventoryRequest { inventory: many(r, 6, inv) }),
        12 => Command::LastBeacon(last_beacon(r)),
        _ => Command::SuperBlockVote(sbv(r)),
    }
}
pub fn message(r: &mut Rng) -> Message {
    Message { kind: command(r), magic: r.edgy_u32() as u16 }
}
