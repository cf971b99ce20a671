//! Independent encoder of the Witnet wire format (proto3, field numbers of the protocol), used as an
//! oracle for canonical bytes and identity hashes.
use witnet_data_structures::chain::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::*;
use witnet_data_structures::vrf::VrfProof;
use witnet_data_structures::proto::versioning::ProtocolVersion;

#[derive(Default)]
pub struct W(pub Vec<u8>);
impl W {
    fn varint(&mut self, mut x: u64) {
        while x >= 0x80 {
            self.0.push(x as u8 | 0x80);
            x >>= 7;
        }
        self.0.push(x as u8);
    }
    fn v(mut self, n: u64, x: u64) -> Self {
        if x != 0 {
            self.varint(n << 3);
            self.varint(x);
        }
        self
    }
    /// a varint that is present even when zero (member of a oneof)
    fn v1(mut self, n: u64, x: u64) -> Self {
        self.varint(n << 3);
        self.varint(x);
        self
    }
    fn f32(mut self, n: u64, x: u32) -> Self {
        if x != 0 {
            self.varint(n << 3 | 5);
            self.0.extend(x.to_le_bytes());
        }
        self
    }
    fn f64(mut self, n: u64, x: u64) -> Self {
        if x != 0 {
            self.varint(n << 3 | 1);
            self.0.extend(x.to_le_bytes());
        }
        self
    }
    fn b(self, n: u64, x: &[u8]) -> Self {
        if x.is_empty() { self } else { self.m(n, x) }
    }
    fn m(mut self, n: u64, x: impl AsRef<[u8]>) -> Self {
        let x = x.as_ref();
        self.varint(n << 3 | 2);
        self.varint(x.len() as u64);
        self.0.extend(x);
        self
    }
    fn r<T>(mut self, n: u64, xs: &[T], f: impl Fn(&T) -> Vec<u8>) -> Self {
        for x in xs {
            self = self.m(n, f(x));
        }
        self
    }
}
fn w() -> W {
    W::default()
}
pub fn hash(h: &Hash) -> Vec<u8> {
    w().m(1, h.as_ref()).0
}
pub fn pkh(p: &PublicKeyHash) -> Vec<u8> {
    w().m(1, p.as_ref()).0
}
fn pk(k: &PublicKey) -> Vec<u8> {
    w().m(1, k.to_bytes()).0
}
fn sig(s: &Signature) -> Vec<u8> {
    let Signature::Secp256k1(s) = s;
    w().m(1, w().b(1, &s.der).0).0
}
fn keyed(k: &KeyedSignature) -> Vec<u8> {
    w().m(1, sig(&k.signature)).m(2, pk(&k.public_key)).0
}
fn bls(k: &Option<Bn256PublicKey>) -> Vec<u8> {
    w().b(1, k.as_ref().map(|k| &k.public_key[..]).unwrap_or(&[])).0
}
fn vrf(p: &VrfProof, public: &PublicKey) -> Vec<u8> {
    w().b(1, &p.get_proof()).m(2, pk(public)).0
}
/// VrfProof hides its key, so read it back through serde.
fn vrf_key(p: &VrfProof) -> PublicKey {
    #[derive(serde::Deserialize)]
    struct P {
        public_key: PublicKey,
    }
    let v = serde_json::to_value(p).unwrap();
    serde_json::from_value::<P>(v).unwrap().public_key
}
fn claim(p: &VrfProof) -> Vec<u8> {
    w().m(1, vrf(p, &vrf_key(p))).0
}
fn input(i: &Input) -> Vec<u8> {
    let p = i.output_pointer();
    w().m(1, w().m(1, hash(&p.transaction_id)).v(2, p.output_index.into()).0).0
}
fn vto(o: &ValueTransferOutput) -> Vec<u8> {
    w().m(1, pkh(&o.pkh)).v(2, o.value).v(3, o.time_lock).0
}
fn beacon(b: &CheckpointBeacon) -> Vec<u8> {
    w().f32(1, b.checkpoint).m(2, hash(&b.hash_prev_block)).0
}
pub fn vtt_body(b: &VTTransactionBody) -> Vec<u8> {
    w().r(1, &b.inputs, input).r(2, &b.outputs, vto).0
}
fn filter(f: &RADFilter) -> Vec<u8> {
    w().v(1, f.op.into()).b(2, &f.args).0
}
fn retrieve(r: &RADRetrieve) -> Vec<u8> {
    let k = match r.kind {
        RADType::Unknown => 0,
        RADType::HttpGet => 1,
        RADType::Rng => 2,
        RADType::HttpPost => 3,
        RADType::HttpHead => 4,
    };
    w().v(1, k)
        .b(2, r.url.as_bytes())
        .b(3, &r.script)
        .b(4, &r.body)
        .r(5, &r.headers, |(a, b)| w().b(1, a.as_bytes()).b(2, b.as_bytes()).0)
        .0
}
pub fn rad(r: &RADRequest) -> Vec<u8> {
    w().v(1, r.time_lock)
        .r(2, &r.retrieve, retrieve)
        .m(3, w().r(1, &r.aggregate.filters, filter).v(2, r.aggregate.reducer.into()).0)
        .m(4, w().r(1, &r.tally.filters, filter).v(2, r.tally.reducer.into()).0)
        .0
}
pub fn dro(d: &DataRequestOutput) -> Vec<u8> {
    w().m(1, rad(&d.data_request))
        .v(2, d.witness_reward)
        .v(3, d.witnesses.into())
        .v(4, d.commit_and_reveal_fee)
        .v(5, d.min_consensus_percentage.into())
        .v(6, d.collateral)
        .0
}
pub fn drt_body(b: &DRTransactionBody) -> Vec<u8> {
    w().r(1, &b.inputs, input).r(2, &b.outputs, vto).m(3, dro(&b.dr_output)).0
}
pub fn commit_body(b: &CommitTransactionBody) -> Vec<u8> {
    w().m(1, hash(&b.dr_pointer))
        .m(2, hash(&b.commitment))
        .m(3, claim(&b.proof.proof))
        .r(4, &b.collateral, input)
        .r(5, &b.outputs, vto)
        .m(6, bls(&b.bn256_public_key))
        .0
}
pub fn reveal_body(b: &RevealTransactionBody) -> Vec<u8> {
    w().m(1, hash(&b.dr_pointer)).b(2, &b.reveal).m(3, pkh(&b.pkh)).0
}
pub fn tally(t: &TallyTransaction) -> Vec<u8> {
    w().m(1, hash(&t.dr_pointer))
        .b(2, &t.tally)
        .r(3, &t.outputs, vto)
        .r(4, &t.out_of_consensus, pkh)
        .r(5, &t.error_committers, pkh)
        .0
}
pub fn mint(t: &MintTransaction) -> Vec<u8> {
    w().f32(1, t.epoch).r(2, &t.outputs, vto).0
}
pub fn stake_body(b: &StakeTransactionBody) -> Vec<u8> {
    let o = &b.output;
    w().r(1, &b.inputs, input)
        .m(
            2,
            w().v(1, o.value)
                .m(2, w().m(1, pkh(&o.key.validator)).m(2, pkh(&o.key.withdrawer)).0)
                .m(3, keyed(&o.authorization))
                .0,
        )
        .m(3, vto(&b.change.clone().unwrap_or_default()))
        .0
}
pub fn unstake_body(b: &UnstakeTransactionBody) -> Vec<u8> {
    w().m(1, pkh(&b.operator)).m(2, vto(&b.withdrawal)).v(3, b.fee).v(4, b.nonce).0
}
fn signed(body: Vec<u8>, sigs: &[KeyedSignature]) -> Vec<u8> {
    w().m(1, body).r(2, sigs, keyed).0
}
fn tx_parts(t: &Transaction) -> (u64, Vec<u8>) {
    match t {
        Transaction::ValueTransfer(t) => (1, signed(vtt_body(&t.body), &t.signatures)),
        Transaction::DataRequest(t) => (2, signed(drt_body(&t.body), &t.signatures)),
        Transaction::Commit(t) => (3, signed(commit_body(&t.body), &t.signatures)),
        Transaction::Reveal(t) => (4, signed(reveal_body(&t.body), &t.signatures)),
        Transaction::Tally(t) => (5, tally(t)),
        Transaction::Mint(t) => (6, mint(t)),
        Transaction::Stake(t) => (7, signed(stake_body(&t.body), &t.signatures)),
        Transaction::Unstake(t) => (8, signed(unstake_body(&t.body), std::slice::from_ref(&t.signature))),
    }
}
pub fn tx(t: &Transaction) -> Vec<u8> {
    let (n, b) = tx_parts(t);
    w().m(n, b).0
}
fn sha(b: &[u8]) -> Hash {
    Hash::SHA256(vref::hash::sha256(b))
}
pub fn cat(a: Hash, b: Hash) -> Hash {
    sha(&[a.as_ref(), b.as_ref()].concat())
}
/// The identity of a transaction: the hash of its body; data requests and tallies hash their data and
/// their whole separately so that the data can be proven on its own.
pub fn tx_hash(t: &Transaction) -> Hash {
    match t {
        Transaction::ValueTransfer(t) => sha(&vtt_body(&t.body)),
        Transaction::DataRequest(t) => cat(sha(&dro(&t.body.dr_output)), sha(&drt_body(&t.body))),
        Transaction::Commit(t) => sha(&commit_body(&t.body)),
        Transaction::Reveal(t) => sha(&reveal_body(&t.body)),
        Transaction::Tally(t) => cat(sha(&[t.dr_pointer.as_ref(), &t.tally[..]].concat()), sha(&tally(t))),
        Transaction::Mint(t) => sha(&mint(t)),
        Transaction::Stake(t) => sha(&stake_body(&t.body)),
        Transaction::Unstake(t) => sha(&unstake_body(&t.body)),
    }
}
pub fn header(h: &BlockHeader, v: ProtocolVersion) -> Vec<u8> {
    let m = &h.merkle_roots;
    let mut r = w()
        .m(1, hash(&m.mint_hash))
        .m(2, hash(&m.vt_hash_merkle_root))
        .m(3, hash(&m.dr_hash_merkle_root))
        .m(4, hash(&m.commit_hash_merkle_root))
        .m(5, hash(&m.reveal_hash_merkle_root))
        .m(6, hash(&m.tally_hash_merkle_root));
    if v > ProtocolVersion::V1_7 {
        r = r.m(7, hash(&m.stake_hash_merkle_root)).m(8, hash(&m.unstake_hash_merkle_root));
    }
    w().v(1, h.signals.into())
        .m(2, beacon(&h.beacon))
        .m(3, r.0)
        .m(4, claim(&h.proof.proof))
        .m(5, bls(&h.bn256_public_key))
        .0
}
pub fn header_hash(h: &BlockHeader, v: ProtocolVersion) -> Hash {
    sha(&header(h, v))
}
pub fn block(b: &Block, v: ProtocolVersion) -> Vec<u8> {
    let t = &b.txns;
    let one = |t: Transaction| tx_parts(&t).1;
    let mut x = w()
        .m(1, mint(&t.mint))
        .r(2, &t.value_transfer_txns, |t| one(t.clone().into()))
        .r(3, &t.data_request_txns, |t| one(t.clone().into()))
        .r(4, &t.commit_txns, |t| one(t.clone().into()))
        .r(5, &t.reveal_txns, |t| one(t.clone().into()))
        .r(6, &t.tally_txns, |t| one(t.clone().into()));
    if v > ProtocolVersion::V1_7 {
        x = x.r(7, &t.stake_txns, |t| one(t.clone().into())).r(8, &t.unstake_txns, |t| one(t.clone().into()));
    }
    w().m(1, header(&b.block_header, v)).m(2, keyed(&b.block_sig)).m(3, x.0).0
}
pub fn superblock(s: &SuperBlock) -> Vec<u8> {
    w().v(1, s.signing_committee_length.into())
        .m(2, hash(&s.ars_root))
        .m(3, hash(&s.data_request_root))
        .v(4, s.index.into())
        .m(5, hash(&s.last_block))
        .m(6, hash(&s.last_block_in_previous_superblock))
        .m(7, hash(&s.tally_root))
        .0
}
/// Superblocks are hashed over the packed fields that bridges recompute in smart contracts.
pub fn superblock_hash(s: &SuperBlock) -> Hash {
    let mut b = vec![];
    b.extend(s.signing_committee_length.to_be_bytes());
    b.extend(s.ars_root.as_ref());
    b.extend(s.data_request_root.as_ref());
    b.extend(s.index.to_be_bytes());
    b.extend(s.last_block.as_ref());
    b.extend(s.last_block_in_previous_superblock.as_ref());
    b.extend(s.tally_root.as_ref());
    sha(&b)
}
fn address(a: &Address) -> Vec<u8> {
    let mut b = vec![];
    match a.ip {
        IpAddress::Ipv4 { ip } => b.extend(ip.to_be_bytes()),
        IpAddress::Ipv6 { ip0, ip1, ip2, ip3 } => [ip0, ip1, ip2, ip3].iter().for_each(|x| b.extend(x.to_be_bytes())),
    }
    b.extend(a.port.to_be_bytes());
    w().m(1, b).0
}
fn last_beacon(b: &LastBeacon) -> Vec<u8> {
    w().m(1, beacon(&b.highest_block_checkpoint)).m(2, beacon(&b.highest_superblock_checkpoint)).0
}
fn inv(i: &InventoryEntry) -> Vec<u8> {
    match i {
        InventoryEntry::Block(h) => w().m(1, hash(h)).0,
        InventoryEntry::Tx(h) => w().m(2, hash(h)).0,
        InventoryEntry::SuperBlock(n) => w().v1(3, (*n).into()).0,
    }
}
pub fn message(msg: &Message, v: ProtocolVersion) -> Vec<u8> {
    let (n, b) = match &msg.kind {
        Command::Version(x) => (
            1,
            w().v(1, x.version.into())
                .v(2, x.timestamp as u64)
                .f64(3, x.capabilities)
                .m(4, address(&x.sender_address))
                .m(5, address(&x.receiver_address))
                .b(6, x.user_agent.as_bytes())
                .f64(7, x.nonce)
                .m(8, last_beacon(&x.beacon))
                .0,
        ),
        Command::Verack(_) => (2, vec![]),
        Command::GetPeers(_) => (3, vec![]),
        Command::Peers(p) => (4, w().r(1, &p.peers, address).0),
        Command::Block(b) => (5, block(b, v)),
        Command::InventoryAnnouncement(i) => (6, w().r(1, &i.inventory, inv).0),
        Command::InventoryRequest(i) => (7, w().r(1, &i.inventory, inv).0),
        Command::LastBeacon(b) => (8, last_beacon(b)),
        Command::Transaction(t) => (9, tx(t)),
        Command::SuperBlockVote(s) => (
            10,
            w().m(1, w().b(1, &s.bn256_signature.signature).0)
                .m(2, keyed(&s.secp256k1_signature))
                .m(3, hash(&s.superblock_hash))
                .f32(4, s.superblock_index)
                .0,
        ),
        Command::SuperBlock(s) => (11, superblock(s)),
    };
    w().v(1, msg.magic.into()).m(2, w().m(n, b).0).0
}
