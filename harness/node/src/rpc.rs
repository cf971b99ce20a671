//! C64: what the JSON-RPC interface answers, to those who ask well and to those who do not.
use crate::life::*;
use crate::play::*;
use crate::report::Report;
use crate::scene::two;
use crate::world::*;
use crate::{chaos, clock};
use actix::sim;
use futures::FutureExt;
use jsonrpc_core::{Error, Params};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::panic::AssertUnwindSafe;
use vmon::{Rng, Tier};
use witnet_data_structures::chain::*;
use witnet_data_structures::get_protocol_version;
use witnet_data_structures::proto::versioning::{ProtocolVersion, VersionedHashable};
use witnet_data_structures::transaction::*;
use witnet_node::actors::json_rpc::api;
use witnet_node::actors::messages::*;
use witty_jsonrpc::WittyMultiServer;

const OPEN: &[&str] = &[
    "inventory", "getBlockChain", "getBlock", "getDataRequest", "getTransaction", "getValueTransfer", "syncStatus", "dataRequestReport", "getBalance", "getBalance2", "getReputation",
    "getReputationAll", "getSupplyInfo", "peers", "knownPeers", "nodeStats", "getMempool", "getConsensusConstants", "getSuperblock", "signalingInfo", "priority", "protocol", "queryStakes",
    "queryPowers", "getUtxoInfo", "searchDataRequests",
];
const SENSITIVE: &[&str] = &[
    "sendRequest", "tryRequest", "sendValue", "getPublicKey", "getPkh", "sign", "createVRF", "masterKeyExport", "addPeers", "clearPeers", "initializePeers", "rewind", "chainExport", "chainImport",
    "stake", "authorizeStake", "unstake", "getSupplyInfo2",
];

pub struct Api {
    /// with sensitive methods, and without
    servers: Vec<[WittyMultiServer; 2]>,
}
fn params(v: Value) -> Params {
    match v {
        Value::Array(a) => Params::Array(a),
        Value::Object(o) => Params::Map(o),
        _ => Params::None,
    }
}
impl Api {
    fn new(nodes: u32) -> Api {
        let servers = (0..nodes)
            .map(|n| {
                sim::as_node(n, || {
                    [true, false].map(|sensitive| {
                        let mut s = WittyMultiServer::new();
                        api::attach_api(&mut s, sensitive, Default::default(), &Some(actix::System::current()));
                        s
                    })
                })
            })
            .collect();
        Api { servers }
    }
    /// The answer, or what made the method fall over.
    async fn ask(&self, n: u32, sensitive: bool, method: &str, p: Value) -> Result<Result<Value, Error>, String> {
        let s = &self.servers[n as usize][usize::from(!sensitive)];
        let fut = async move {
            match s.call(method, params(p)) {
                Some(f) => f.await,
                None => Err(Error::invalid_params("no such method")),
            }
        };
        AssertUnwindSafe(sim::on_node(n, fut)).catch_unwind().await.map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default())
    }
}
fn s(h: &Hash) -> String {
    h.to_string()
}
fn hashes(b: &Block) -> BTreeMap<&'static str, Vec<String>> {
    let v = get_protocol_version(Some(b.block_header.beacon.checkpoint));
    let mut m = BTreeMap::new();
    let t = &b.txns;
    m.insert("value_transfer", t.value_transfer_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    m.insert("data_request", t.data_request_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    m.insert("commit", t.commit_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    m.insert("reveal", t.reveal_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    m.insert("tally", t.tally_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    m.insert("mint", vec![s(&t.mint.versioned_hash(v))]);
    if v >= ProtocolVersion::V1_8 {
        m.insert("stake", t.stake_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    }
    if v >= ProtocolVersion::V2_0 {
        m.insert("unstake", t.unstake_txns.iter().map(|t| s(&t.versioned_hash(v))).collect());
    }
    m
}
fn nth(b: &Block, i: usize, kind: &str) -> Option<Transaction> {
    let t = &b.txns;
    Some(match kind {
        "vt" => Transaction::ValueTransfer(t.value_transfer_txns.get(i)?.clone()),
        "dr" => Transaction::DataRequest(t.data_request_txns.get(i)?.clone()),
        "commit" => Transaction::Commit(t.commit_txns.get(i)?.clone()),
        "reveal" => Transaction::Reveal(t.reveal_txns.get(i)?.clone()),
        "tally" => Transaction::Tally(t.tally_txns.get(i)?.clone()),
        "stake" => Transaction::Stake(t.stake_txns.get(i)?.clone()),
        "unstake" => Transaction::Unstake(t.unstake_txns.get(i)?.clone()),
        _ => return None,
    })
}
fn outputs(t: &Transaction) -> Vec<ValueTransferOutput> {
    match t {
        Transaction::ValueTransfer(t) => t.body.outputs.clone(),
        Transaction::DataRequest(t) => t.body.outputs.clone(),
        Transaction::Commit(t) => t.body.outputs.clone(),
        Transaction::Tally(t) => t.outputs.clone(),
        Transaction::Stake(t) => t.body.change.iter().cloned().collect(),
        Transaction::Unstake(t) => vec![t.body.withdrawal.clone()],
        Transaction::Mint(t) => t.outputs.clone(),
        _ => vec![],
    }
}
fn num(v: &Value) -> Option<u128> {
    match v {
        Value::String(s) => s.parse().ok(),
        Value::Number(n) => n.as_u64().map(u128::from),
        _ => None,
    }
}

struct Desk {
    p: Play,
    api: Api,
    r: Rng,
    log: String,
}
impl Desk {
    /// Asks; a method that falls over is a violation.
    async fn ask(&mut self, n: u32, sensitive: bool, method: &str, p: Value) -> Option<Result<Value, Error>> {
        self.p.rep.event("calls");
        match self.api.ask(n, sensitive, method, p.clone()).await {
            Ok(x) => Some(x),
            Err(why) => {
                let log = self.log.clone();
                self.p.rep.check(false, "panic", || format!("{method} {}: {why}; {log}", p.to_string().chars().take(600).collect::<String>()));
                None
            }
        }
    }
    async fn must(&mut self, n: u32, method: &str, p: Value) -> Option<Value> {
        let x = self.ask(n, false, method, p.clone()).await?;
        let log = self.log.clone();
        self.p.rep.check(x.is_ok(), &format!("{method}-refused"), || format!("{method} {p} on node {n}: {x:?}; {log}"));
        x.ok()
    }
    fn same<A: PartialEq + std::fmt::Debug>(&mut self, method: &str, what: &str, p: &Value, told: A, is: A) -> bool {
        let log = self.log.clone();
        let cut = |x: &A| format!("{x:?}").chars().take(900).collect::<String>();
        self.p.rep.event(method);
        self.p.rep.check(told == is, &format!("{method}-{what}"), || format!("{method} {p}: says {}, is {}; {log}", cut(&told), cut(&is)))
    }
    /// The block chain, its blocks, transactions and coins, as told and as they are.
    async fn faithful(&mut self, n: u32) -> bool {
        let w = &self.p.w;
        let e = self.p.l.epoch();
        let tip = w.tip(n).await;
        if w.state(n).await != Some(StateMachine::Synced) || tip.map(|t| (t.checkpoint, t.hash_prev_block)) != self.p.l.chain.last().copied() {
            return false;
        }
        let now = {
            let t = clock::now();
            let mut k = e;
            while w.epoch_time(k + 1) <= t {
                k += 1;
            }
            k
        };
        let chain = self.p.l.chain.clone();
        let rev = self.p.l.books.seen.iter().map(|(h, x)| (*h, *x)).collect::<Vec<_>>();
        for _ in 0..6 {
            let r = &mut self.r;
            match r.below(11) {
                0 => {
                    let epoch = match r.below(4) {
                        0 => r.below(u64::from(e) + 2) as i64,
                        1 => -(r.below(u64::from(e) + 3) as i64),
                        2 => *r.pick(&[0, -1, i64::from(u32::MAX), -i64::from(u32::MAX)]),
                        _ => i64::from(e),
                    };
                    let limit = match r.below(3) {
                        0 => 0,
                        1 => r.below(12) as i64 - 6,
                        _ => *r.pick(&[i64::from(u32::MAX), -i64::from(u32::MAX), 1, -1]),
                    };
                    let p = json!({"epoch": epoch, "limit": limit});
                    let from = if epoch < 0 { (i64::from(now) + epoch).max(0) } else { epoch };
                    let mut is: Vec<Value> = chain.iter().filter(|x| i64::from(x.0) >= from).map(|x| json!([x.0, s(&x.1)])).collect();
                    let k = (limit.unsigned_abs() as usize).min(is.len());
                    if limit > 0 {
                        is.truncate(k);
                    } else if limit < 0 {
                        is.drain(..is.len() - k);
                    }
                    let Some(x) = self.must(n, "getBlockChain", p.clone()).await else { continue };
                    self.same("getBlockChain", "list", &p, x, Value::Array(is));
                }
                1 | 2 => {
                    let (be, h) = *r.pick(&chain);
                    let with = r.bool();
                    let p = if r.bool() && with { json!([s(&h)]) } else { json!([s(&h), with]) };
                    let Some(x) = self.must(n, "getBlock", p.clone()).await else { continue };
                    let b = self.p.l.blocks[&h].clone();
                    let told: Option<Block> = serde_json::from_value(x.clone()).ok();
                    self.same("getBlock", "block", &p, told, Some(b.clone()));
                    let told: Option<BTreeMap<String, Vec<String>>> = x.get("txns_hashes").and_then(Value::as_object).map(|o| {
                        o.iter().map(|(k, v)| (k.clone(), match v { Value::Array(a) => a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect(), v => vec![v.as_str().unwrap_or("").to_string()] })).collect()
                    });
                    let is = with.then(|| hashes(&b).into_iter().map(|(k, v)| (k.to_string(), v)).collect::<BTreeMap<_, _>>());
                    self.same("getBlock", "hashes", &p, told, is);
                    if with {
                        let told: Vec<Option<Vec<u64>>> = ["value_transfer", "data_request", "stake", "unstake"].iter().map(|k| x["txns_weights"].get(*k).and_then(Value::as_array).map(|a| a.iter().filter_map(Value::as_u64).collect())).collect();
                        let v = get_protocol_version(Some(be));
                        let is = vec![
                            Some(b.txns.value_transfer_txns.iter().map(|t| u64::from(t.weight())).collect()),
                            Some(b.txns.data_request_txns.iter().map(|t| u64::from(t.weight())).collect()),
                            (v >= ProtocolVersion::V1_8).then(|| b.txns.stake_txns.iter().map(|t| u64::from(t.weight())).collect()),
                            (v >= ProtocolVersion::V2_0).then(|| b.txns.unstake_txns.iter().map(|t| u64::from(t.weight())).collect()),
                        ];
                        self.same("getBlock", "weights", &p, told, is);
                    }
                    let confirmed = self.p.w.chain(n, GetHighestCheckpointBeacon).await.is_some() && x["confirmed"].as_bool() == Some(true);
                    // what one node told to be confirmed stays where it is
                    if confirmed {
                        let known = *self.p.confirmed.entry(be).or_insert((h, n));
                        self.same("getBlock", "confirmed", &p, known.0, h);
                    }
                }
                3 | 4 => {
                    if rev.is_empty() {
                        continue;
                    }
                    let (h, (be, bh, i, kind)) = *r.pick(&rev);
                    if kind == "mint" || be == 0 {
                        continue;
                    }
                    let p = json!([s(&h)]);
                    let Some(x) = self.must(n, "getTransaction", p.clone()).await else { continue };
                    let is = nth(&self.p.l.blocks[&bh], i, kind).unwrap();
                    let told: Option<Transaction> = serde_json::from_value(x["transaction"].clone()).ok();
                    self.same("getTransaction", "transaction", &p, told, Some(is.clone()));
                    let at = self.p.w.epoch_time(be) as i64;
                    self.same("getTransaction", "place", &p, [&x["blockEpoch"], &x["blockHash"], &x["blockTimestamp"], &x["confirmations"]].map(Clone::clone), [json!(be), json!(s(&bh)), json!(at), json!(now - be)]);
                    self.same("getTransaction", "weight", &p, x["weight"].as_u64(), Some(u64::from(is.weight())));
                    self.p.rep.event(&format!("{kind} asked for"));
                    if let Transaction::ValueTransfer(t) = is {
                        self.transfer(n, h, be, now, &t, &rev).await;
                    }
                }
                5 | 6 => self.request(n, now).await,
                7 => {
                    let mut all: Vec<PublicKeyHash> = self.p.w.users.iter().chain(&self.p.w.keys).map(|k| k.pkh).collect();
                    all.push(PublicKeyHash::from_bytes(&r.bytes(20)).unwrap());
                    let who = *r.pick(&all);
                    let several: Vec<PublicKeyHash> = (0..1 + r.below(4)).map(|_| *r.pick(&all)).collect();
                    let ways = r.below(3);
                    let coins = self.p.l.books.of(&who);
                    let is: u128 = coins.values().map(|o| u128::from(o.value)).sum();
                    let p = if ways == 0 { json!([who.to_string(), true]) } else { json!({"pkh": who, "simple": true}) };
                    let Some(x) = self.must(n, "getBalance", p.clone()).await else { continue };
                    self.same("getBalance", "total", &p, num(&x["total"]), Some(is));
                    let own = clock::now() as u64;
                    let books = &self.p.l.books;
                    let staked = |p: &PublicKeyHash| books.withdrawers.iter().filter(|(_, w)| *w == p).map(|(v, _)| books.stakes.get(v).copied().unwrap_or(0)).sum::<u128>();
                    let of = |p: &PublicKeyHash| {
                        let c = books.of(p);
                        let locked: u128 = c.values().filter(|o| o.time_lock > own).map(|o| u128::from(o.value)).sum();
                        let free: u128 = c.values().filter(|o| o.time_lock <= own).map(|o| u128::from(o.value)).sum();
                        [locked, staked(p), free]
                    };
                    let (p, is) = if ways == 2 {
                        let sum = several.iter().map(of).fold([0; 3], |a, b| [a[0] + b[0], a[1] + b[1], a[2] + b[2]]);
                        (json!({"pkhs": several.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(";")}), sum)
                    } else {
                        (json!({"address": who.to_string()}), of(&who))
                    };
                    let Some(x) = self.must(n, "getBalance2", p.clone()).await else { continue };
                    self.same("getBalance2", "balance", &p, ["locked", "staked", "unlocked"].map(|k| num(&x[k])), is.map(Some));
                }
                8 => {
                    let who = if r.bool() { r.pick(&self.p.w.users).pkh } else { r.pick(&self.p.w.keys).pkh };
                    let least = *r.pick(&[0, 1, WIT, 1000 * WIT, u64::MAX]);
                    let by = r.chance(1, 3).then(|| r.pick(&self.p.w.users).pkh);
                    let p = if least == 0 && by.is_none() { json!([who]) } else { json!([who, {"minValue": if r.bool() { json!(least) } else { json!(least.to_string()) }, "fromSigner": by}]) };
                    let Some(x) = self.must(n, "getUtxoInfo", p.clone()).await else { continue };
                    let told: Option<BTreeSet<(String, u128)>> = x["utxos"].as_array().map(|a| a.iter().map(|u| (u["output_pointer"].as_str().unwrap_or("").to_string(), num(&u["value"]).unwrap_or(0))).collect());
                    let signer = |h: &Hash| self.p.l.books.seen.get(h).and_then(|(be, bh, i, kind)| if *be == 0 { None } else { nth(&self.p.l.blocks[bh], *i, kind) }).map(|t| t.signatures().iter().map(|s| s.public_key.pkh()).collect::<Vec<_>>());
                    let is: BTreeSet<(String, u128)> = self
                        .p
                        .l
                        .books
                        .of(&who)
                        .into_iter()
                        .filter(|(o, v)| v.value >= least && by.is_none_or(|b| signer(&o.transaction_id).is_some_and(|s| s.contains(&b))))
                        .map(|(o, v)| (o.to_string(), u128::from(v.value)))
                        .collect();
                    if by.is_some() && !is.is_empty() {
                        self.p.rep.event("coins by signer");
                    }
                    self.same("getUtxoInfo", "coins", &p, told, Some(is));
                }
                9 => {
                    let v = r.pick(&self.p.w.keys).pkh;
                    let p = match r.below(3) {
                        0 => json!({"filter": {"validator": v.to_string()}}),
                        1 => json!({"filter": {"withdrawer": v}}),
                        _ => json!({"params": {"limit": 100, "order": {"by": *r.pick(&["coins", "nonce", "mining", "witnessing"]), "reverse": r.bool()}}}),
                    };
                    let books = &self.p.l.books;
                    let mine = |a: &PublicKeyHash, b: &PublicKeyHash| match p["filter"].as_object() {
                        None => true,
                        Some(f) => if f.contains_key("validator") { *a == v } else { *b == v },
                    };
                    let is: BTreeMap<(String, String), u128> = books.stakes.iter().filter(|x| *x.1 > 0).map(|(k, c)| (*k, books.withdrawers.get(k).copied().unwrap_or_default(), *c)).filter(|(a, b, _)| mine(a, b)).map(|(a, b, c)| ((a.to_string(), b.to_string()), c)).collect();
                    let x = self.ask(n, false, "queryStakes", p.clone()).await;
                    let Some(x) = x else { continue };
                    // somebody without a stake is an error
                    let none = is.is_empty() && p["filter"].is_object();
                    let log = self.log.clone();
                    if !self.p.rep.check(x.is_ok() || none, "queryStakes-refused", || format!("{p}: {x:?}; {log}")) {
                        continue;
                    }
                    let x = x.unwrap_or(json!([]));
                    let pkh = |v: &Value| serde_json::from_value::<PublicKeyHash>(v.clone()).map(|p| p.to_string()).unwrap_or_default();
                    let told: BTreeMap<(String, String), u128> = x.as_array().unwrap_or(&vec![]).iter().map(|e| ((pkh(&e["key"]["validator"]), pkh(&e["key"]["withdrawer"])), num(&e["value"]["coins"]).unwrap_or(0))).filter(|x| x.1 > 0).collect();
                    self.same("queryStakes", "stakes", &p, told, is);
                    if let Some(o) = p["params"]["order"].as_object() {
                        let key = |e: &Value| match o["by"].as_str().unwrap_or("") {
                            "coins" => num(&e["value"]["coins"]),
                            "nonce" => num(&e["value"]["nonce"]),
                            k => num(&e["value"]["epochs"][k]),
                        };
                        let told: Vec<_> = x.as_array().unwrap_or(&vec![]).iter().map(key).collect();
                        let mut is = told.clone();
                        is.sort();
                        if o["reverse"].as_bool() == Some(true) {
                            is.reverse();
                        }
                        self.same("queryStakes", "order", &p, told, is);
                    }
                }
                _ => {
                    let be = r.below(u64::from(e) + 1) as u32;
                    let sp = u32::from(self.p.w.plan.superblock_period);
                    let p = if r.bool() { json!({"block_epoch": be}) } else { json!({"superblock_index": be / sp + 1}) };
                    let Some(Ok(x)) = self.ask(n, false, "getSuperblock", p.clone()).await else { continue };
                    let index = be / sp + 1;
                    self.same("getSuperblock", "index", &p, x["superblock"]["index"].as_u64(), Some(u64::from(index)));
                    let told: Option<Vec<String>> = x["consolidated_block_hashes"].as_array().map(|a| a.iter().map(|h| serde_json::from_value::<Hash>(h.clone()).map(|h| s(&h)).unwrap_or_default()).collect());
                    let is: Vec<String> = chain.iter().filter(|x| x.0 / sp + 1 == index).map(|x| s(&x.1)).collect();
                    let told = told.map(|v| v.into_iter().collect::<BTreeSet<_>>());
                    self.same("getSuperblock", "blocks", &p, told, Some(is.into_iter().collect()));
                }
            }
        }
        true
    }
    async fn transfer(&mut self, n: u32, h: Hash, be: u32, now: u32, t: &VTTransaction, rev: &[(Hash, (u32, Hash, usize, &'static str))]) {
        let mode = *self.r.pick(&["full", "simple", "ethereal"]);
        let p = json!({"hash": s(&h), "mode": mode});
        let Some(x) = self.ask(n, false, "getValueTransfer", p.clone()).await else { return };
        // what was spent may not be looked up one by one
        let from: Vec<_> = t.body.inputs.iter().map(|i| i.output_pointer()).collect();
        let found: HashMap<Hash, _> = rev.iter().copied().collect();
        let known = from.iter().all(|o| found.get(&o.transaction_id).is_some_and(|x| x.3 != "mint" && x.0 > 0));
        let log = self.log.clone();
        if !self.p.rep.check(x.is_ok() || (mode == "simple" && !known), "getValueTransfer-refused", || format!("{p}: {x:?}; {log}")) {
            return;
        }
        let Ok(x) = x else { return };
        self.p.rep.event(&format!("transfer told {mode}"));
        let pkh = |k: &PublicKeyHash| k.to_string();
        let o = &t.body.outputs;
        let to = o[0].pkh;
        let value: u128 = o.iter().filter(|x| x.pkh == to).map(|x| u128::from(x.value)).sum();
        let by = t.signatures[0].public_key.pkh();
        let at = self.p.w.epoch_time(be) as i64;
        match mode {
            "full" => {
                let told: Option<VTTransaction> = serde_json::from_value(x["transaction"].clone()).ok();
                self.same("getValueTransfer", "transaction", &p, told, Some(t.clone()));
                let st = x["status"].as_object().and_then(|o| o.iter().next()).map(|(k, v)| (k.clone(), v.clone()));
                let ok = st.as_ref().is_some_and(|(k, v)| (k == "final" || k == "in_block") && *v == json!([be, now - be])) || (x["status"] == "reverted" && now - be > 20);
                self.same("getValueTransfer", "status", &p, (ok, &st), (true, &st));
            }
            _ => {
                self.same("getValueTransfer", "ends", &p, [x["recipient"].as_str(), x["sender"].as_str()].map(|x| x.map(str::to_string)), [Some(pkh(&to)), Some(pkh(&by))]);
                self.same("getValueTransfer", "value", &p, (num(&x["value"]), x["timestamp"].as_i64()), (Some(value), Some(at)));
                if mode == "simple" {
                    let ins: u128 = from.iter().map(|o| found.get(&o.transaction_id).and_then(|(_, bh, i, k)| nth(&self.p.l.blocks[bh], *i, k)).and_then(|t| outputs(&t).get(o.output_index as usize).map(|o| u128::from(o.value))).unwrap_or(0)).sum();
                    let outs: u128 = o.iter().map(|x| u128::from(x.value)).sum();
                    self.same("getValueTransfer", "fee", &p, num(&x["fee"]), Some(ins - outs));
                }
            }
        }
    }
    async fn request(&mut self, n: u32, now: u32) {
        let books = &self.p.l.books;
        let open: Vec<Hash> = books.open.keys().copied().collect();
        let closed: Vec<Hash> = books.closed.keys().copied().collect();
        let all: Vec<Hash> = open.iter().chain(&closed).copied().collect();
        if all.is_empty() {
            return;
        }
        let h = if !open.is_empty() && self.r.bool() { *self.r.pick(&open) } else { *self.r.pick(&all) };
        let mode = *self.r.pick(&["report", "full", "ethereal", "search"]);
        let (o, asked_in, done) = match books.open.get(&h) {
            Some((o, at)) => (o.clone(), *at, None),
            None => {
                let c = books.closed[&h].clone();
                (c.open.clone(), c.asked_in, Some(c))
            }
        };
        self.p.rep.event(if done.is_some() { "solved requests asked for" } else { "open requests asked for" });
        let p = match mode {
            "report" => json!([s(&h)]),
            "search" => {
                let rad = rad_hash(&o.out.data_request);
                let since = *self.r.pick(&[0i64, 1, -1, -5, i64::from(o.epoch), -4320, i64::from(now), i64::MAX, i64::MIN, 1 << 32]);
                let (limit, offset) = (*self.r.pick(&[None, Some(0u16), Some(1), Some(3)]), *self.r.pick(&[None, Some(0usize), Some(1), Some(usize::MAX)]));
                let reverse = self.r.bool();
                let explicit = self.r.chance(3, 4);
                let mut p = json!({"radHash": s(&rad), "reverse": reverse});
                if explicit {
                    p["since"] = json!(since);
                }
                if let Some(x) = limit {
                    p["limit"] = json!(x);
                }
                if let Some(x) = offset {
                    p["offset"] = json!(x);
                }
                let since = if explicit { since } else { -4320 };
                let from = if since < 0 { i64::from(now).saturating_add(since).max(0) } else { since };
                let books = &self.p.l.books;
                let all = books.open.iter().map(|(h, x)| (*h, &x.0)).chain(books.closed.iter().map(|(h, c)| (*h, &c.open)));
                let mut is: Vec<(u32, String)> = all.filter(|(_, x)| rad_hash(&x.out.data_request) == rad && i64::from(x.epoch) >= from).map(|(h, x)| (x.epoch, s(&h))).collect();
                is.sort();
                let Some(x) = self.must(n, "searchDataRequests", p.clone()).await else { return };
                let told: Option<Vec<(u32, Hash)>> = serde_json::from_value(x).ok();
                let Some(told) = told else {
                    self.same("searchDataRequests", "shape", &p, false, true);
                    return;
                };
                let mut t: Vec<(u32, String)> = told.iter().map(|(e, h)| (*e, s(h))).collect();
                let ordered = told.windows(2).all(|w| if reverse { w[0].0 >= w[1].0 } else { w[0].0 <= w[1].0 });
                self.same("searchDataRequests", "order", &p, ordered, true);
                t.sort();
                if offset.unwrap_or(0) == 0 && limit.is_none() {
                    self.same("searchDataRequests", "list", &p, t, is);
                } else {
                    let k = is.len().saturating_sub(offset.unwrap_or(0)).min(limit.map_or(usize::MAX, usize::from));
                    self.same("searchDataRequests", "length", &p, t.len(), k);
                }
                return;
            }
            m => json!({"hash": s(&h), "mode": m}),
        };
        let method = if mode == "report" { "dataRequestReport" } else { "getDataRequest" };
        let Some(x) = self.must(n, method, p.clone()).await else { return };
        let info = match mode {
            "report" => Some(x.clone()),
            "full" => Some(x["report"].clone()),
            _ => None,
        };
        let solved = done.is_some();
        if let Some(info) = info {
            let info: Option<DataRequestInfo> = serde_json::from_value(info).ok();
            let Some(info) = info else {
                self.same(method, "shape", &p, false, true);
                return;
            };
            let commits: BTreeSet<_> = info.commits.keys().copied().collect();
            let is: BTreeSet<_> = o.commits.iter().copied().collect();
            self.same(method, "commits", &p, commits, is);
            let reveals: BTreeMap<_, _> = info.reveals.iter().map(|(k, t)| (*k, t.body.reveal.clone())).collect();
            let is: BTreeMap<_, _> = o.reveals.iter().cloned().collect();
            self.same(method, "reveals", &p, reveals, is);
            self.same(method, "blocks", &p, (info.block_hash_dr_tx, info.block_hash_tally_tx, info.tally), (Some(asked_in), done.as_ref().map(|c| c.block), done.as_ref().map(|c| c.tally.clone())));
        }
        if mode != "report" {
            let st = x["status"].as_str().unwrap_or("").to_string();
            let ok = if solved { st == "solved" } else { st == "committing" || st == "revealing" };
            self.same(method, "status", &p, (ok, &st), (true, &st));
        }
        if mode == "ethereal" {
            let d = &o.out;
            let q = &x["query"];
            self.same(method, "query", &p, [num(&q["witnesses"]), num(&q["unitary_reward"]), num(&q["collateral_ratio"])], [Some(u128::from(d.witnesses)), Some(u128::from(d.witness_reward)), Some(u128::from(d.collateral.div_ceil(d.witness_reward) as u16))]);
            self.same(method, "place", &p, (x["block_epoch"].as_u64(), x["confirmations"].as_u64()), (Some(u64::from(o.epoch)), Some(u64::from(now.saturating_sub(o.epoch + 1)))));
            let is = done.as_ref().map_or(vec![], |c| c.tally.tally.clone());
            let hex: String = is.iter().map(|b| format!("{b:02x}")).collect();
            self.same(method, "result", &p, x["result"]["cbor_bytes"].as_str().map(str::to_string), Some(hex));
        }
    }
    /// What may only be asked with sensitive methods on.
    async fn guarded(&mut self, n: u32) {
        let before = self.p.view(n).await;
        for _ in 0..3 {
            let m = *self.r.pick(SENSITIVE);
            let (_, p) = self.some(n, Some(m));
            let Some(x) = self.ask(n, false, m, p.clone()).await else { continue };
            let log = self.log.clone();
            self.p.rep.check(x.as_ref().is_err_and(|e| e.message.contains("not allowed")), "sensitive-method-answers", || format!("{m} {p}: {x:?}; {log}"));
            self.p.rep.event("sensitive calls refused");
        }
        // one's own balance is one of these
        for p in [json!({}), json!(["own"]), json!({"pkh": null})] {
            let Some(x) = self.ask(n, false, "getBalance", p.clone()).await else { continue };
            self.p.rep.check(x.is_err(), "sensitive-method-answers", || format!("getBalance {p}: {x:?}"));
        }
        let after = self.p.view(n).await;
        let tip = |v: &BTreeMap<String, String>| v.iter().map(|(k, v)| format!("{k}{v}")).collect::<Vec<_>>();
        let log = self.log.clone();
        // nothing else happens meanwhile
        self.p.rep.check(before == after, "refused-call-changes-something", || format!("{:?} {:?}; {log}", tip(&before).len(), tip(&after).len()));
    }
    /// A call that makes sense.
    fn some(&mut self, n: u32, which: Option<&str>) -> (String, Value) {
        let r = &mut self.r;
        let m = match which {
            Some(m) => m.to_string(),
            None => {
                let which = usize::from(r.chance(1, 3));
                (*r.pick([OPEN, SENSITIVE][which])).to_string()
            }
        };
        let w = &self.p.w;
        let l = &self.p.l;
        let e = l.epoch();
        let who = if r.bool() { r.pick(&w.users).pkh } else { r.pick(&w.keys).pkh };
        let hs: Vec<Hash> = l.books.seen.keys().copied().collect();
        let tx = if hs.is_empty() || r.chance(1, 8) { Hash::SHA256(r.arr()) } else { *r.pick(&hs) };
        let drs: Vec<Hash> = l.books.open.keys().chain(l.books.closed.keys()).copied().collect();
        let dr = if drs.is_empty() || r.chance(1, 8) { tx } else { *r.pick(&drs) };
        let block = if l.chain.is_empty() || r.chance(1, 8) { Hash::SHA256(r.arr()) } else { r.pick(&l.chain).1 };
        let value = *r.pick(&[0, 1, WIT, 10 * WIT, u64::MAX, u64::MAX / 2]);
        let fee = *r.pick(&[0u64, 1, 1000, WIT, u64::MAX]);
        let fee = match r.below(4) {
            0 => json!({"absolute": fee}),
            1 => json!({"relative": r.below(3) as f64}),
            2 => json!(fee.to_string()),
            _ => json!(fee),
        };
        let dry = r.bool();
        let vto = json!([{"address": who, "pkh": who, "value": value, "time_lock": *r.pick(&[0u64, 1, u64::MAX])}]);
        let utxo = json!({"strategy": "big_first", "from": null});
        let _ = utxo;
        let p = match m.as_str() {
            "inventory" => {
                let b = l.blocks.values().nth(r.idx(l.blocks.len().max(1)));
                match b {
                    None => json!({"block": null}),
                    Some(b) if r.chance(1, 3) => json!({ "block": b }),
                    Some(b) => {
                        let mut ts: Vec<Transaction> = (0..20).filter_map(|i| nth(b, i, *r.pick(&["vt", "dr", "commit", "reveal", "tally", "stake", "unstake"]))).collect();
                        ts.push(Transaction::Mint(b.txns.mint.clone()));
                        json!({ "transaction": r.pick(&ts) })
                    }
                }
            }
            "getBlockChain" => json!({"epoch": r.below(50) as i64 - 10, "limit": r.below(20) as i64 - 10}),
            "getBlock" => json!([block.to_string(), r.bool()]),
            "getDataRequest" => json!({"hash": dr.to_string(), "mode": *r.pick(&["ethereal", "full"]), "force": r.bool()}),
            "getTransaction" => json!([tx.to_string()]),
            "getValueTransfer" => json!({"hash": tx.to_string(), "mode": *r.pick(&["ethereal", "full", "simple"]), "force": r.bool()}),
            "dataRequestReport" => json!([dr.to_string()]),
            "getBalance" => match r.below(4) {
                0 => json!([who.to_string(), r.bool()]),
                1 => json!(["all", r.bool()]),
                2 => json!({"all": true}),
                _ => json!({"pkh": who, "simple": r.bool()}),
            },
            "getBalance2" => match r.below(4) {
                0 => json!({"all": {"minBalance": value, "maxBalance": null}}),
                1 => json!({"all": {"minBalance": 0, "maxBalance": value}}),
                2 => json!({"pkhs": vec![who.to_string(); 1 + r.idx(60)].join(";")}),
                _ => json!({"address": who.to_string()}),
            },
            "getReputation" => json!([who]),
            "getSuperblock" => if r.bool() { json!({"block_epoch": *r.pick(&[0, e, u32::MAX])}) } else { json!({"superblock_index": *r.pick(&[0, 1, e, u32::MAX])}) },
            "queryStakes" => json!({
                "filter": {"validator": if r.bool() { json!(who.to_string()) } else { json!(null) }, "withdrawer": if r.bool() { json!(who) } else { json!(null) }},
                "params": {"distinct": r.bool(), "limit": *r.pick(&[0u16, 1, u16::MAX]), "offset": *r.pick(&[0usize, 1, usize::MAX]), "order": {"by": *r.pick(&["coins", "nonce", "mining", "witnessing"]), "reverse": r.bool()}, "since": *r.pick(&[0, 1, -1, i64::MIN, i64::MAX])}
            }),
            "queryPowers" => json!({"distinct": r.bool(), "limit": *r.pick(&[0u16, 1, u16::MAX]), "offset": *r.pick(&[0usize, 1, usize::MAX]), "orderBy": *r.pick(&["mining", "witnessing"])}),
            "getUtxoInfo" => json!([who, {"minValue": value, "fromSigner": if r.bool() { json!(who) } else { json!(null) }}]),
            "searchDataRequests" => json!({"radHash": Hash::SHA256(r.arr()), "since": *r.pick(&[0, 1, -1, i64::MIN, i64::MAX]), "limit": 3, "offset": usize::MAX, "reverse": r.bool()}),
            "sendRequest" => json!({"dro": request(r, Some("http://good/1"), 3), "fee": fee, "dry_run": dry}),
            // (it blocks until the source answers, so that only a source that needs no time can be tried here)
            "tryRequest" => json!(request(r, None, 3)),
            "sendValue" => json!({"vto": vto, "fee": fee, "utxo_strategy": *r.pick(&["BigFirst", "SmallFirst", "Random"]), "dry_run": dry}),
            "sign" | "createVRF" => json!(r.arr::<32>().to_vec()),
            "addPeers" => json!([format!("10.1.{}.1:21337", r.below(4)), "127.0.0.1:80"]),
            "rewind" => json!([*r.pick(&[0, 1, e / 2, e, u32::MAX])]),
            "chainExport" | "chainImport" => json!({"path": w.dir.join(format!("snap{n}")), "force": r.bool()}),
            "stake" => {
                let v = r.pick(&w.keys);
                let sig = v.sign(Hash::SHA256(who.as_secp256k1_msg()));
                let auth = if r.bool() { json!(sig) } else { json!(r.bytes(85).iter().map(|b| format!("{b:02x}")).collect::<String>()) };
                json!({"authorization": auth, "value": value, "fee": fee, "withdrawer": who.to_string(), "utxo_strategy": "BigFirst", "dry_run": dry})
            }
            "authorizeStake" => if r.bool() { json!({"withdrawer": who.to_string()}) } else { json!({}) },
            "unstake" => json!({"operator": who.to_string(), "value": value, "fee": r.below(3), "dry_run": dry}),
            _ => json!([]),
        };
        (m, p)
    }
    /// Nonsense, or close to it.
    fn spoil(&mut self, v: &mut Value, depth: u32) {
        let r = &mut self.r;
        if depth < 6 && !r.chance(1, 4) {
            match v {
                Value::Array(a) if !a.is_empty() => {
                    let i = r.idx(a.len());
                    if r.chance(1, 8) {
                        a.remove(i);
                        return;
                    }
                    if r.chance(1, 8) {
                        let x = a[i].clone();
                        a.push(x);
                        return;
                    }
                    return self.spoil(&mut v[i], depth + 1);
                }
                Value::Object(o) if !o.is_empty() => {
                    let k = o.keys().nth(r.idx(o.len())).unwrap().clone();
                    if r.chance(1, 8) {
                        o.remove(&k);
                        return;
                    }
                    return self.spoil(&mut v[k], depth + 1);
                }
                _ => {}
            }
        }
        *v = match (&*v, r.below(10)) {
            (Value::String(x), 0..=4) => {
                let mut b: Vec<char> = x.chars().collect();
                match r.below(5) {
                    0 => { b.pop(); }
                    1 => b.push(*r.pick(&['0', 'é', ';', '\u{1F600}', 'z'])),
                    2 if !b.is_empty() => { let i = r.idx(b.len()); b[i] = *r.pick(&['0', 'g', 'é', ' ']); }
                    3 => b.clear(),
                    _ => b = b.repeat(2),
                }
                json!(b.into_iter().collect::<String>())
            }
            (Value::Number(_), 0..=6) => r.pick(&[json!(-1), json!(0), json!(1), json!(u64::MAX), json!(i64::MIN), json!(u32::MAX), json!(1u64 << 32), json!(1.5), json!(1e300), json!(65536), json!("18446744073709551616"), json!("5")]).clone(),
            _ => r.pick(&[json!(null), json!([]), json!({}), json!(true), json!(0), json!(-1), json!(u64::MAX), json!(""), json!("x"), json!([[]]), json!({"": null}), json!(1e-300)]).clone(),
        };
    }
    /// Whatever is asked is answered, and the node goes on answering.
    async fn nonsense(&mut self, n: u32, sensitive: bool) {
        for _ in 0..8 {
            let (m, mut p) = self.some(n, None);
            if matches!(m.as_str(), "rewind" | "chainImport" | "clearPeers" | "initializePeers" | "addPeers" | "stake" | "unstake") && sensitive {
                continue;
            }
            for _ in 0..self.r.below(3) {
                self.spoil(&mut p, 0);
            }
            // written only where this run keeps its files
            if m == "chainExport" && sensitive && p["path"].as_str().is_none_or(|x| !x.starts_with(&*self.p.w.dir.to_string_lossy()) || x.contains("..")) {
                continue;
            }
            if let Some(x) = self.ask(n, sensitive, &m, p.clone()).await {
                self.p.rep.event(if x.is_ok() { "odd calls answered" } else { "odd calls refused" });
                self.p.rep.shapes.push(vmon::h64(&(m, p.to_string())));
            }
        }
    }
}

pub fn rpc(mut r: Rng, tier: Tier) -> Report {
    let seed = r.u64();
    crate::scene::sources(seed);
    let nodes = 3 + r.below(2) as u32;
    let v2 = *r.pick(&[u32::MAX, 12, 12, 25]);
    let plan = Plan { v1_8: if v2 == u32::MAX { u32::MAX } else { 3 }, v2, superblock_period: *r.pick(&[3, 5, 10]), tweak: |_, c| c.storage.rad_hashes_index = true, ..two(nodes) };
    let len = (if tier == Tier::Thorough { 60 } else { 35 }) + r.below(15) as u32;
    let lag = r.below(3) as u32;
    let ((mut rep, log), s) = network(seed, lag, plan, |mut w| async move {
        w.start_all();
        let h = Habits { pays: 2 + r.below(4), asks: *r.pick(&[1, 2]), stakes: true, unstakes: r.bool(), hosts: vec!["good", "good", "liar", "broken", ""], ..Default::default() };
        let api = Api::new(nodes);
        let log = format!("{nodes} nodes, wit/2 at {v2}, superblocks every {}; ", w.plan.superblock_period);
        let mut d = Desk { p: Play::new(w, r.clone(), h), api, r: r.clone(), log };
        for e in 0..len {
            d.p.w.until_epoch(e, 3.0).await;
            chaos::one_epoch(&mut d.p, e, &mut r).await;
            if e < 3 {
                continue;
            }
            let n = r.below(u64::from(nodes)) as u32;
            if d.p.l.follow(&d.p.w, n).await && d.faithful(n).await {
                d.p.rep.event("nodes questioned");
            }
            if r.chance(1, 3) {
                d.guarded(n).await;
            }
            d.nonsense(n, false).await;
            if r.bool() {
                d.nonsense(n, true).await;
            }
            // it is still there
            let x = d.ask(n, false, "syncStatus", json!([])).await;
            let log = d.log.clone();
            d.p.rep.check(matches!(x, Some(Ok(_))), "no-answer-any-more", || format!("epoch {e}: {x:?}; {log}"));
        }
        d.p.rep.shapes.push(vmon::h64(&d.p.l.chain));
        (std::mem::take(&mut d.p.rep), d.log)
    });
    for (a, x) in s.panics.borrow().iter() {
        rep.check(false, "panic", || format!("{a}: {x}; {log}"));
    }
    rep.sample = Some(log);
    rep
}

/// What a data request's program is looked up by.
fn rad_hash(r: &witnet_data_structures::chain::RADRequest) -> Hash {
    use witnet_data_structures::proto::ProtobufConvert;
    witnet_crypto::hash::calculate_sha256(&r.to_pb_bytes().unwrap()).into()
}
