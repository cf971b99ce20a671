//! A network of real nodes: every node runs the actors of the real crate on its own registry, storage and
//! keys; they talk over in-memory connections, on virtual time.
use crate::clock;
use actix::{sim, Actor, SystemRegistry, SystemService};
use simtokio::net as snet;
use std::collections::{BTreeMap, HashSet};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;
use witnet_config::config::{Config, StorageBackend};
use witnet_crypto::key::{ExtendedSK, MasterKeyGen};
use witnet_crypto::mnemonic::Seed;
use witnet_crypto::secp256k1;
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::{clear_protocol_info, get_protocol_version, refresh_protocol_version, register_protocol_version, set_environment};
use witnet_node::actors::chain_manager::ChainManager;
use witnet_node::actors::connections_manager::ConnectionsManager;
use witnet_node::actors::epoch_manager::EpochManager;
use witnet_node::actors::inventory_manager::InventoryManager;
use witnet_node::actors::json_rpc::JsonRpcServer;
use witnet_node::actors::messages::*;
use witnet_node::actors::node::{NodeOps, PutNodeOps};
use witnet_node::actors::peers_manager::PeersManager;
use witnet_node::actors::rad_manager::RadManager;
use witnet_node::actors::sessions_manager::SessionsManager;
use witnet_node::{config_mngr, signature_mngr, storage_mngr};
use witnet_protected::Protected;
use witnet_validations::witnessing::validate_witnessing_config;

pub const WIT: u64 = 1_000_000_000;
pub const ENV: Environment = Environment::Development;
pub const T0: i64 = 1_700_000_000;

#[derive(Clone)]
pub struct Keys {
    pub ext: ExtendedSecretKey,
    pub sk: secp256k1::SecretKey,
    pub pk: PublicKey,
    pub pkh: PublicKeyHash,
    pub bn: Bn256SecretKey,
}
impl Keys {
    pub fn new(seed: [u8; 32]) -> Keys {
        let m: ExtendedSK = MasterKeyGen::new(seed.to_vec()).generate().expect("master key");
        let ext = ExtendedSecretKey::from(m.clone());
        let pk: PublicKey = secp256k1::PublicKey::from_secret_key_global(&m.secret_key).into();
        Keys { sk: m.secret_key, pkh: pk.pkh(), pk, ext, bn: Bn256SecretKey { bytes: Protected::from(seed.to_vec()) } }
    }
    pub fn sign(&self, h: Hash) -> KeyedSignature {
        let Hash::SHA256(d) = h;
        let s = witnet_crypto::signature::sign(self.sk, &d).expect("sign");
        KeyedSignature { signature: s.into(), public_key: self.pk.clone() }
    }
}

/// What a network looks like.
#[derive(Clone)]
pub struct Plan {
    pub nodes: u32,
    pub users: u32,
    pub period: u16,
    pub period2: u16,
    pub v1_8: u32,
    pub v2: u32,
    pub superblock_period: u16,
    pub committee: u32,
    /// how many of the nodes sit in the bootstrapping committee
    pub voters: u32,
    /// how many peers a node looks for
    pub outbound: u16,
    pub collateral_age: u32,
    pub activity_period: u32,
    /// coins of each user at genesis, in nanowits, as (value, how many)
    pub coins: Vec<(u64, u32)>,
    pub node_coins: Vec<(u64, u32)>,
    pub halving: u32,
    pub tweak: fn(u32, &mut Config),
}
impl Default for Plan {
    fn default() -> Self {
        Plan {
            nodes: 3,
            users: 3,
            period: 40,
            period2: 20,
            v1_8: u32::MAX,
            v2: u32::MAX,
            superblock_period: 5,
            committee: 50,
            voters: u32::MAX,
            outbound: u16::MAX,
            collateral_age: 4,
            activity_period: 20,
            coins: vec![(1000 * WIT, 6)],
            node_coins: vec![(100 * WIT, 6)],
            halving: 3_500_000,
            tweak: |_, _| {},
        }
    }
}

pub fn ip(n: u32) -> Ipv4Addr {
    Ipv4Addr::new(10, (n >> 8) as u8 + 1, n as u8, 1)
}
pub fn addr(n: u32) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(ip(n)), 21337)
}
fn origin() -> Option<IpAddr> {
    Some(IpAddr::V4(ip(sim::node())))
}
pub fn node_of(a: IpAddr) -> Option<u32> {
    match a {
        IpAddr::V4(v) if v.octets()[0] == 10 => Some(u32::from(v.octets()[1] - 1) << 8 | u32::from(v.octets()[2])),
        _ => None,
    }
}

pub struct World {
    pub plan: Plan,
    pub keys: Vec<Keys>,
    pub users: Vec<Keys>,
    pub genesis: Block,
    pub consts: ConsensusConstants,
    pub dir: PathBuf,
    pub alive: Vec<bool>,
    pub magic: u16,
    pub config: BTreeMap<u32, Arc<Config>>,
}
impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
        for n in 0..64 {
            rocksdb::remove_disk(&self.db(n));
        }
        snet::reset();
        clock::freeze();
    }
}

/// Runs `f` on a fresh network with virtual time starting a moment before epoch 0.
pub fn network<F, Fut, R>(seed: u64, lag: u32, plan: Plan, f: F) -> (R, std::rc::Rc<sim::Sys>)
where
    F: FnOnce(World) -> Fut,
    Fut: std::future::Future<Output = R>,
{
    snet::reset();
    snet::origin(origin);
    let (r, s) = sim::run(seed, lag, || async move {
        clock::start(T0 - 30, 0);
        let w = World::new(seed, plan);
        f(w).await
    });
    snet::reset();
    clock::stop();
    (r, s)
}

impl World {
    pub fn new(seed: u64, plan: Plan) -> World {
        let mut r = vmon::Rng::new(seed ^ 0x6e6f6465);
        let keys: Vec<Keys> = (0..plan.nodes).map(|_| Keys::new(r.arr())).collect();
        let users: Vec<Keys> = (0..plan.users).map(|_| Keys::new(r.arr())).collect();
        set_environment(ENV);
        clear_protocol_info();
        register_protocol_version(ProtocolVersion::V1_7, 0, plan.period);
        register_protocol_version(ProtocolVersion::V1_8, plan.v1_8, plan.period);
        register_protocol_version(ProtocolVersion::V2_0, plan.v2, plan.period2);
        refresh_protocol_version(0);
        let dir = std::env::temp_dir().join(format!("vnode-{}-{seed:x}", std::process::id()));
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let mut alloc: Vec<Vec<ValueTransferOutput>> = vec![];
        let mut give = |k: &Keys, coins: &[(u64, u32)]| {
            let mut v = vec![];
            for (value, count) in coins {
                for _ in 0..*count {
                    v.push(ValueTransferOutput { pkh: k.pkh, value: *value, time_lock: 0 });
                }
            }
            if !v.is_empty() {
                alloc.push(v);
            }
        };
        for k in &users {
            give(k, &plan.coins);
        }
        for k in &keys {
            give(k, &plan.node_coins);
        }
        let text = serde_json::json!({"alloc": alloc.iter().map(|t| t.iter().map(|o| serde_json::json!({
            "address": o.pkh.bech32(ENV), "value": o.value.to_string(), "timelock": o.time_lock.to_string()
        })).collect::<Vec<_>>()).collect::<Vec<_>>()});
        std::fs::write(dir.join("genesis.json"), text.to_string()).expect("genesis file");
        let bootstrap_hash = Hash::SHA256(r.arr());
        let genesis = GenesisBlockInfo { alloc }.build_genesis_block(bootstrap_hash);
        let genesis_hash = genesis.versioned_hash(get_protocol_version(Some(0)));
        let base = Config::default();
        let mut consts = base.consensus_constants.clone();
        consts.checkpoint_zero_timestamp = T0;
        consts.checkpoints_period = plan.period;
        consts.bootstrap_hash = bootstrap_hash;
        consts.genesis_hash = genesis_hash;
        consts.activity_period = plan.activity_period;
        consts.collateral_age = plan.collateral_age;
        consts.collateral_minimum = WIT;
        consts.superblock_period = plan.superblock_period;
        consts.minimum_difficulty = 0;
        consts.epochs_with_minimum_difficulty = 0;
        consts.mining_backup_factor = 8;
        consts.mining_replication_factor = 3;
        consts.superblock_signing_committee_size = plan.committee;
        consts.superblock_committee_decreasing_period = 5;
        consts.superblock_committee_decreasing_step = 5;
        consts.halving_period = plan.halving;
        consts.bootstrapping_committee = keys.iter().take(plan.voters as usize).map(|k| k.pkh.bech32(ENV)).collect();
        let magic = consts.get_magic();
        World { alive: vec![false; plan.nodes as usize], plan, keys, users, genesis, consts, dir, magic, config: BTreeMap::new() }
    }
    pub fn db(&self, n: u32) -> PathBuf {
        self.dir.join(format!("db{n}"))
    }
    pub fn build_config(&self, n: u32) -> Config {
        let mut c = Config::default();
        c.environment = ENV;
        c.consensus_constants = self.consts.clone();
        c.connections.server_addr = addr(n);
        c.connections.public_addr = Some(addr(n));
        c.connections.inbound_limit = 64;
        c.connections.outbound_limit = ((self.plan.nodes - 1).max(1) as u16).min(self.plan.outbound);
        c.connections.known_peers = (0..self.plan.nodes).filter(|m| *m != n).map(addr).collect::<HashSet<_>>();
        c.connections.bootstrap_peers_period = Duration::from_secs(2);
        c.connections.storage_peers_period = Duration::from_secs(30);
        c.connections.discovery_peers_period = Duration::from_secs(60);
        c.connections.feeler_peers_period = Duration::from_secs(60);
        c.connections.handshake_timeout = Duration::from_secs(5);
        c.connections.blocks_timeout = 20;
        c.connections.consensus_c = 51;
        c.connections.reject_sybil_inbounds = false;
        c.connections.bucketing_ice_period = Duration::from_secs(1);
        c.storage.backend = StorageBackend::RocksDB;
        c.storage.db_path = self.db(n);
        c.storage.master_key_import_path = None;
        c.mining.enabled = true;
        c.mining.genesis_path = self.dir.join("genesis.json").to_string_lossy().into_owned();
        c.mining.data_request_timeout = Duration::from_secs(2);
        c.mining.mint_external_address = None;
        c.mining.mint_external_percentage = 0;
        c.ntp.enabled = false;
        c.jsonrpc.enabled = false;
        (self.plan.tweak)(n, &mut c);
        c
    }
    /// Puts the keys of a node on its disk.
    pub fn provision(&self, n: u32) {
        let d = rocksdb::disk(&self.db(n));
        let k = &self.keys[n as usize];
        let mut m = d.contents();
        let key = |b: &[u8]| bincode::serialize(&b).expect("key");
        m.insert(key(b"master_key"), bincode::serialize(&k.ext).expect("ext"));
        m.insert(key(b"bn256_secret_key"), bincode::serialize(&k.bn).expect("bn"));
        d.set_contents(m);
    }
    pub fn start(&mut self, n: u32) {
        self.start_with(n, self.build_config(n), NodeOps::default())
    }
    /// As `node::run` does.
    pub fn start_with(&mut self, n: u32, config: Config, ops: NodeOps) {
        let config = Arc::new(config);
        self.config.insert(n, config.clone());
        self.alive[n as usize] = true;
        sim::as_node(n, || {
            let wc = config.witnessing.clone().into_config();
            let wc = validate_witnessing_config::<String, witnet_rad::Uri>(&wc).expect("witnessing configuration");
            config_mngr::start(config.clone());
            storage_mngr::start();
            signature_mngr::start();
            SystemRegistry::set(PeersManager::from_config(&config).start());
            SystemRegistry::set(ConnectionsManager.start());
            SystemRegistry::set(SessionsManager::default().start());
            SystemRegistry::set(EpochManager::default().start());
            let mut cm = ChainManager::default();
            cm.put_node_ops(ops);
            SystemRegistry::set(cm.start());
            SystemRegistry::set(InventoryManager.start());
            SystemRegistry::set(RadManager::from_config(wc).start());
            SystemRegistry::set(JsonRpcServer::from_config(&config).start());
        });
    }
    pub fn kill(&mut self, n: u32) {
        self.alive[n as usize] = false;
        sim::kill(n);
    }
    pub fn start_all(&mut self) {
        for n in 0..self.plan.nodes {
            self.provision(n);
            self.start(n);
        }
    }
    pub async fn until_epoch(&self, e: u32, offset: f64) {
        let t = self.epoch_time(e) + offset;
        let d = t - clock::now();
        if d > 0.0 {
            sim::advance(Duration::from_secs_f64(d)).await
        }
    }
    pub fn epoch_time(&self, e: u32) -> f64 {
        let p = &self.plan;
        let v1 = e.min(p.v2);
        T0 as f64 + f64::from(v1) * f64::from(p.period) + f64::from(e.saturating_sub(p.v2)) * f64::from(p.period2)
    }
    pub async fn chain<M>(&self, n: u32, m: M) -> Option<M::Result>
    where
        M: actix::Message + Send + 'static,
        M::Result: Send,
        ChainManager: actix::Handler<M>,
    {
        sim::on_node(n, async move { ChainManager::from_registry().send(m).await.ok() }).await
    }
    pub async fn inv<M>(&self, n: u32, m: M) -> Option<M::Result>
    where
        M: actix::Message + Send + 'static,
        M::Result: Send,
        InventoryManager: actix::Handler<M>,
    {
        sim::on_node(n, async move { InventoryManager::from_registry().send(m).await.ok() }).await
    }
    pub async fn state(&self, n: u32) -> Option<StateMachine> {
        self.chain(n, GetState).await.and_then(Result::ok)
    }
    pub async fn tip(&self, n: u32) -> Option<CheckpointBeacon> {
        self.chain(n, GetHighestCheckpointBeacon).await.and_then(Result::ok)
    }
    pub async fn chain_of(&self, n: u32) -> Option<Vec<(u32, Hash)>> {
        self.chain(n, GetBlocksEpochRange::new_with_limit(0.., 0)).await.and_then(Result::ok)
    }
    pub async fn block(&self, n: u32, h: Hash) -> Option<Block> {
        self.inv(n, GetItemBlock { hash: h }).await.and_then(Result::ok)
    }
    pub fn disk(&self, n: u32) -> Arc<rocksdb::Disk> {
        rocksdb::disk(Path::new(&self.db(n)))
    }
}
