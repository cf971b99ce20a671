//! C53, C54: the transports that data sources are asked through, and the configuration file.
use std::collections::BTreeMap;
use serde_json::{json, Value};
use vmon::{Case, Mon, Rng};
use witnet_config::config::{Config, PartialConfig, Witnessing};
use witnet_config::loaders::toml as loader;
use witnet_data_structures::chain::Environment;
use witnet_data_structures::witnessing::WitnessingConfig;
use witnet_validations::witnessing::{validate_transport_address, validate_witnessing_config, TransportAddressError as T, WitnessingConfigError};

// ---- C53
#[derive(Debug, Clone, PartialEq)]
enum Want {
    Fine,
    Scheme,
    NoPort,
    Parse,
}
const KNOWN: [&str; 6] = ["http", "https", "socks4", "socks4a", "socks5", "socks5h"];
fn proxy(r: &mut Rng) -> (String, Want) {
    if r.chance(1, 20) {
        return (r.pick(&["", "lorem ipsum", "127.0.0.1", "http://", ":", "//h:1", "1.2.3.4:80"]).to_string(), Want::Parse);
    }
    let good = r.chance(5, 6);
    let scheme = if good { *r.pick(&KNOWN) } else { *r.pick(&["ftp", "socks", "socks6", "ws", "wss", "tcp", "httpss", "unix", "file4"]) };
    let user = *r.pick(&["", "", "", "user@", "user:pass@", "user:80@", "a%3Ab:9050@"]);
    let host = *r.pick(&["127.0.0.1", "10.0.0.7", "proxy.example", "localhost", "[::1]", "[2001:db8::1]", "a-b.c.example"]);
    let port = match r.below(10) {
        0 => "".to_string(),
        1 => ":".into(),
        2 => ":80".into(),
        3 => ":443".into(),
        4 => ":65536".into(),
        5 => ":9x".into(),
        6 => ":65535".into(),
        7 => ":1080".into(),
        _ => format!(":{}", r.below(65_536)),
    };
    let path = *r.pick(&["", "", "", "/", "/x:80", "/a?b=c:81", "?q=:90"]);
    let want = match &port[..] {
        ":65536" | ":9x" => Want::Parse,
        _ if !good => Want::Scheme,
        "" | ":" => Want::NoPort,
        _ => Want::Fine,
    };
    (format!("{scheme}://{user}{host}{port}{path}"), want)
}
fn right(got: &T, want: &Want) -> bool {
    matches!((got, want), (T::MissingPort, Want::NoPort) | (T::ParseError(_), Want::Parse) | (T::UnsupportedScheme(_), Want::Scheme))
}
fn transport(c: &mut Case) {
    let k = c.rng.idx(6);
    let list: Vec<(String, Want)> = (0..k).map(|_| proxy(&mut c.rng)).collect();
    for (a, want) in &list {
        let got: Result<String, T> = validate_transport_address(a.clone());
        match &got {
            Ok(s) => {
                c.check(*want == Want::Fine && s == a, "address", || format!("{a} was taken as {s}, expected {want:?}"));
            }
            Err(e) => {
                c.check(right(e, want), "address", || format!("{a} was rejected: {e}; expected {want:?}"));
                if let T::UnsupportedScheme(s) = e {
                    c.check(a.starts_with(&format!("{s}:")), "scheme", || format!("{a}: {e}"));
                }
            }
        }
        c.event(match want {
            Want::Fine => "fine",
            Want::Scheme => "bad_scheme",
            Want::NoPort => "no_port",
            Want::Parse => "not_an_address",
        });
    }
    let direct = c.rng.bool();
    let pct = if c.rng.bool() { c.rng.u8() % 101 } else { c.rng.u8() };
    let w = Witnessing { allow_unproxied: direct, paranoid_percentage: pct, proxies: list.iter().map(|l| l.0.clone()).collect() };
    if !direct && list.is_empty() {
        // nothing to ask through: the node says so and does not start
        c.check(c.guard_ref(|| w.into_config()).is_err(), "no-transport", || "a configuration without any transport was taken".into());
        c.event("no_transport");
        return;
    }
    let conf = w.into_config();
    let mut want: Vec<Option<String>> = if direct { vec![None] } else { vec![] };
    want.extend(list.iter().map(|l| Some(l.0.clone())));
    c.eqd("transports", &conf.transports, &want, || format!("transports with unproxied {direct}"));
    c.check(conf.paranoid_threshold == f32::from(pct) / 100.0, "paranoia", || format!("{pct} % became {}", conf.paranoid_threshold));
    let bad: Vec<&(String, Want)> = list.iter().filter(|l| l.1 != Want::Fine).collect();
    let got: Result<WitnessingConfig<String>, _> = validate_witnessing_config(&conf);
    match got {
        Ok(v) => {
            c.check(bad.is_empty(), "invalid-taken", || format!("{want:?} was taken although {bad:?}"));
            c.eqd("kept", &v.transports, &want, || "transports after validation".into());
            c.check(v.paranoid_threshold == conf.paranoid_threshold, "kept", || format!("threshold {} became {}", conf.paranoid_threshold, v.paranoid_threshold));
            c.event("valid_config");
        }
        Err(WitnessingConfigError::Addresses(e)) => {
            c.check(e.len() == bad.len() && e.iter().zip(&bad).all(|(e, b)| e.0 == b.0 && right(&e.1, &b.1)), "reported", || format!("of {want:?} these were reported: {e:?}; expected {bad:?}"));
            let text = WitnessingConfigError::Addresses(e).to_string();
            for b in &bad {
                c.check(text.contains(&b.0), "reported", || format!("{} is not in: {text}", b.0));
            }
            c.event("invalid_config");
        }
    }
    c.eval(5);
    c.nontrivial(&want);
}
pub fn transports(m: &mut Mon) {
    m.rule("addresses are built from their parts, so whether scheme and port are there is known; every invalid one is reported, valid ones are kept in order, direct retrieval only if allowed");
    let n = m.n(40_000, 500_000);
    m.run_par("transports", n, transport);
    for e in ["fine", "bad_scheme", "no_port", "not_an_address", "no_transport", "valid_config", "invalid_config"] {
        m.require(e, 100);
    }
}
trait GuardRef {
    fn guard_ref<R>(&self, f: impl FnOnce() -> R) -> Result<R, String>;
}
impl GuardRef for Case<'_> {
    fn guard_ref<R>(&self, f: impl FnOnce() -> R) -> Result<R, String> {
        vmon::guarded(f)
    }
}

// ---- C54
#[derive(Clone, Copy)]
enum K {
    U8,
    U16,
    U32,
    /// up to what a TOML integer can hold
    U64,
    I32,
    I64,
    Bool,
    Str,
    Addr,
    Addrs,
    Strs,
    Level,
    Backend,
    HashFn,
    Hash,
    F64,
    Pair,
}
use K::*;
const LEAVES: &[(&str, &str, K)] = &[
    ("connections", "server_addr", Addr),
    ("connections", "public_addr", Addr),
    ("connections", "inbound_limit", U16),
    ("connections", "outbound_limit", U16),
    ("connections", "known_peers", Addrs),
    ("connections", "bootstrap_peers_period_seconds", U64),
    ("connections", "storage_peers_period_seconds", U64),
    ("connections", "discovery_peers_period_seconds", U64),
    ("connections", "check_melted_peers_period_seconds", U64),
    ("connections", "feeler_peers_period_seconds", U64),
    ("connections", "handshake_timeout_seconds", U64),
    ("connections", "handshake_max_ts_diff", I64),
    ("connections", "blocks_timeout", I64),
    ("connections", "consensus_c", U32),
    ("connections", "bucketing_update_period", I64),
    ("connections", "bucketing_ice_period_seconds", U64),
    ("connections", "reject_sybil_inbounds", Bool),
    ("connections", "reject_sybil_inbounds_range_limit", U8),
    ("connections", "requested_blocks_batch_limit", U32),
    ("storage", "backend", Backend),
    ("storage", "db_path", Str),
    ("storage", "master_key_import_path", Str),
    ("storage", "utxos_in_memory", Bool),
    ("storage", "rad_hashes_index", Bool),
    ("storage", "max_open_files", I32),
    ("consensus_constants", "checkpoint_zero_timestamp", I64),
    ("consensus_constants", "checkpoints_period", U16),
    ("consensus_constants", "bootstrap_hash", Hash),
    ("consensus_constants", "genesis_hash", Hash),
    ("consensus_constants", "max_vt_weight", U32),
    ("consensus_constants", "max_dr_weight", U32),
    ("consensus_constants", "activity_period", U32),
    ("consensus_constants", "reputation_expire_alpha_diff", U32),
    ("consensus_constants", "reputation_issuance", U32),
    ("consensus_constants", "reputation_issuance_stop", U32),
    ("consensus_constants", "reputation_penalization_factor", F64),
    ("consensus_constants", "mining_backup_factor", U32),
    ("consensus_constants", "mining_replication_factor", U32),
    ("consensus_constants", "collateral_minimum", U64),
    ("consensus_constants", "collateral_age", U32),
    ("consensus_constants", "superblock_period", U16),
    ("consensus_constants", "extra_rounds", U16),
    ("consensus_constants", "minimum_difficulty", U32),
    ("consensus_constants", "epochs_with_minimum_difficulty", U32),
    ("consensus_constants", "bootstrapping_committee", Strs),
    ("consensus_constants", "superblock_signing_committee_size", U32),
    ("consensus_constants", "superblock_committee_decreasing_period", U32),
    ("consensus_constants", "superblock_committee_decreasing_step", U32),
    ("consensus_constants", "initial_block_reward", U64),
    ("consensus_constants", "halving_period", U32),
    ("jsonrpc", "enabled", Bool),
    ("jsonrpc", "enable_sensitive_methods", Bool),
    ("jsonrpc", "http_address", Addr),
    ("jsonrpc", "tcp_address", Addr),
    ("jsonrpc", "ws_address", Addr),
    ("mining", "enabled", Bool),
    ("mining", "data_request_max_retrievals_per_epoch", U16),
    ("mining", "data_request_timeout_milliseconds", U64),
    ("mining", "genesis_path", Str),
    ("mining", "mint_external_percentage", U8),
    ("mining", "mint_external_address", Str),
    ("mining", "transactions_pool_total_weight_limit", U64),
    ("mining", "minimum_vtt_fee_nanowits", U64),
    ("wallet", "testnet", Bool),
    ("wallet", "server_addr", Addr),
    ("wallet", "node_url", Strs),
    ("wallet", "node_sync_batch_size", U32),
    ("wallet", "concurrency", U32),
    ("wallet", "db_path", Str),
    ("wallet", "db_file_name", Str),
    ("wallet", "db_encrypt_hash_iterations", U32),
    ("wallet", "db_encrypt_iv_length", U32),
    ("wallet", "db_encrypt_salt_length", U32),
    ("wallet", "id_hash_iterations", U32),
    ("wallet", "id_hash_function", HashFn),
    ("wallet", "session_expires_in", U64),
    ("wallet", "requests_timeout", U64),
    ("wallet", "sync_address_batch_length", U16),
    ("wallet", "use_unconfirmed_utxos", Bool),
    ("wallet", "pending_transactions_timeout_seconds", U64),
    ("rocksdb", "increase_parallelism", I32),
    ("rocksdb", "create_if_missing", Bool),
    ("rocksdb", "compaction_readahead_size", U32),
    ("rocksdb", "use_fsync", Bool),
    ("rocksdb", "enable_statistics", Bool),
    ("log", "level", Level),
    ("log", "sentry_telemetry", Bool),
    ("ntp", "update_period_seconds", U64),
    ("ntp", "servers", Strs),
    ("ntp", "enabled", Bool),
    ("mempool", "tx_pending_timeout", U64),
    ("mempool", "max_reinserted_transactions", U32),
    ("tapi", "oppose_wip0028", Bool),
    ("witnessing", "allow_unproxied", Bool),
    ("witnessing", "paranoid_percentage", U8),
    ("witnessing", "proxies", Strs),
    ("protocol", "v1_7", Pair),
    ("protocol", "v1_8", Pair),
    ("protocol", "v2_0", Pair),
];
fn word(r: &mut Rng) -> String {
    match r.below(4) {
        0 => String::new(),
        1 => {
            let n = r.idx(12);
            r.ascii(n)
        }
        2 => {
            let n = r.idx(6);
            r.unicode(n)
        }
        _ => format!("w{}", r.u64()),
    }
}
fn addr(r: &mut Rng) -> String {
    crate::peers::address(r).to_string()
}
fn value(r: &mut Rng, k: K) -> Value {
    match k {
        U8 => json!(r.u8()),
        U16 => json!(r.edgy_u32() as u16),
        U32 => json!(r.edgy_u32()),
        U64 => json!(r.edgy_u64() >> 1),
        I32 => json!(r.edgy_u32() as i32),
        I64 => json!(r.edgy_u64() as i64),
        Bool => json!(r.bool()),
        Str => json!(word(r)),
        Addr => json!(addr(r)),
        Addrs => {
            let n = r.idx(4);
            let mut v: Vec<String> = (0..n).map(|_| addr(r)).collect();
            v.sort();
            v.dedup();
            json!(v)
        }
        Strs => {
            let n = r.idx(4);
            json!((0..n).map(|_| word(r)).collect::<Vec<_>>())
        }
        Level => json!(*r.pick(&["off", "error", "warn", "info", "debug", "trace"])),
        Backend => json!(*r.pick(&["hashmap", "rocksdb"])),
        HashFn => json!("Sha256"),
        Hash => json!(vmon::hex(&r.bytes(32))),
        F64 => json!(f64::from(r.u32()) / 4_294_967_296.0),
        Pair => json!([r.edgy_u32(), r.edgy_u32() as u16]),
    }
}
fn toml_of(v: &Value) -> String {
    match v {
        Value::String(s) => toml::Value::String(s.clone()).to_string(),
        Value::Array(a) => format!("[{}]", a.iter().map(toml_of).collect::<Vec<_>>().join(", ")),
        Value::Number(n) if n.is_f64() => format!("{:?}", n.as_f64().unwrap()),
        v => v.to_string(),
    }
}
fn env(e: usize) -> (&'static str, Environment) {
    [("mainnet", Environment::Mainnet), ("testnet", Environment::Testnet), ("development", Environment::Development)][e]
}
/// Sets are compared as such.
fn canonical(mut v: Value) -> Value {
    if let Some(Value::Array(a)) = v.pointer_mut("/connections/known_peers") {
        a.sort_by_key(|x| x.to_string());
    }
    v
}
fn shown(c: &Config) -> Value {
    canonical(serde_json::to_value(c.to_partial()).unwrap())
}
fn file(c: &mut Case) {
    let e = c.rng.idx(3);
    let (name, environment) = env(e);
    let mut text = String::new();
    if !(e == 0 && c.rng.bool()) {
        text += &format!("environment = \"{name}\"\n");
    }
    // which settings are given
    let mode = c.rng.below(5);
    let mut given: BTreeMap<(&str, &str), Value> = BTreeMap::new();
    let only = *c.rng.pick(LEAVES);
    let dense = 1 + c.rng.below(9);
    for (s, k, kind) in LEAVES {
        let take = match mode {
            0 => (*s, *k) == (only.0, only.1),
            1 => *s == only.0 && c.rng.bool(),
            2 => true,
            _ => c.rng.chance(dense, 10),
        };
        if take {
            given.insert((s, k), value(&mut c.rng, *kind));
        }
    }
    let secret = c.rng.chance(1, 3).then(|| format!("s3cr3t-{}", c.rng.u64()));
    let salt = c.rng.chance(1, 3).then(|| c.rng.bytes(9));
    let mut sections: Vec<&str> = LEAVES.iter().map(|l| l.0).collect();
    sections.dedup();
    c.rng.shuffle(&mut sections);
    let one_url = c.rng.bool();
    for s in sections {
        let mut lines: Vec<String> = vec![];
        for ((_, k), v) in given.iter().filter(|((t, _), _)| *t == s) {
            // one node may be given without brackets
            let one = one_url && *k == "node_url" && v.as_array().is_some_and(|a| a.len() == 1);
            lines.push(format!("{k} = {}\n", if one { toml_of(&v[0]) } else { toml_of(v) }));
        }
        if s == "wallet" {
            if let Some(p) = &secret {
                lines.push(format!("seed_password = \"{p}\"\n"));
            }
            if let Some(b) = &salt {
                lines.push(format!("master_key_salt = {b:?}\n"));
            }
        }
        c.rng.shuffle(&mut lines);
        if !lines.is_empty() || c.rng.chance(1, 4) {
            text += &format!("[{s}]\n{}", lines.concat());
        }
    }
    let partial: PartialConfig = match loader::from_str(&text) {
        Ok(p) => p,
        Err(e) => {
            c.violate(&format!("rejected-{}", given.keys().next().map_or("none", |k| k.0)), format!("a configuration was rejected: {e}\n{text}"));
            return;
        }
    };
    let conf = Config::from_partial(&partial);
    c.check(conf.environment == environment, "environment", || format!("{:?} for {name}", conf.environment));
    let got = shown(&conf);
    let default = shown(&Config::from_partial(&loader::from_str(&format!("environment = \"{name}\"")).unwrap()));
    for (s, k, _) in LEAVES {
        let g = &got[s][k];
        let d = &default[s][k];
        let fixed = *s == "consensus_constants" && environment != Environment::Development;
        match given.get(&(*s, *k)) {
            Some(v) if !fixed => {
                let mut v = v.clone();
                if *k == "known_peers" {
                    let mut a: Vec<Value> = v.as_array().unwrap().iter().chain(d.as_array().unwrap()).cloned().collect();
                    a.sort_by_key(|x| x.to_string());
                    a.dedup();
                    v = Value::Array(a);
                }
                c.check(*g == v, &format!("given-{s}.{k}"), || format!("[{s}] {k} = {v} took effect as {g} on {name}"));
                c.event("given");
            }
            other => {
                c.check(g == d, &format!("default-{s}.{k}"), || format!("[{s}] {k} is {g} on {name} though {} and the default is {d}", if other.is_some() { "it may not be changed" } else { "it was not given" }));
                c.event(if other.is_some() { "not_overridable" } else { "default" });
            }
        }
        c.eval(1);
    }
    // secrets take effect and are not exported
    let pw = format!("{:?}", partial.wallet.seed_password.is_some());
    c.check(partial.wallet.seed_password.is_some() == secret.is_some(), "secret-read", || pw);
    if let Some(s) = &secret {
        c.check(AsRef::<[u8]>::as_ref(&conf.wallet.seed_password) == s.as_bytes(), "secret-read", || "the seed password of the configuration was not used".into());
    }
    if let Some(b) = &salt {
        c.eqd("salt-read", &conf.wallet.master_key_salt, b, || "the master key salt".into());
    } else {
        c.eqd("salt-read", &conf.wallet.master_key_salt, &b"Bitcoin seed".to_vec(), || "the master key salt".into());
    }
    let exported = toml::to_string(&conf.to_partial());
    match exported {
        Ok(t) => {
            c.check(!t.contains("s3cr3t-") && !t.contains("seed_password") && !t.contains("master_key_salt"), "secret-exported", || t.clone());
            // and what is exported means the same
            match loader::from_str(&t) {
                Ok(p) => {
                    let back = Config::from_partial(&p);
                    let b = shown(&back);
                    for (s, k, _) in LEAVES {
                        c.check(b[s][k] == got[s][k], &format!("exported-{s}.{k}"), || format!("[{s}] {k} = {} was exported and read as {}", got[s][k], b[s][k]));
                    }
                    c.event("exported");
                }
                Err(e) => c.violate("export-rejected", format!("{e}\n{t}")),
            }
        }
        Err(e) => c.violate("export", format!("{e}\n{text}")),
    }
    c.nontrivial(&text);
}
/// What all nodes of a network have to agree on.
fn networks(c: &mut Case) {
    let i = c.index as usize % 3;
    let (name, _) = env(i);
    let got = shown(&Config::from_partial(&loader::from_str(&format!("environment = \"{name}\"")).unwrap()));
    let committee = [
        json!(["wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty", "wit17nnjuxmfuu92l6rxhque2qc3u2kvmx2fske4l9", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1gxf0ca67vxtg27kkmgezg7dd84hwmzkxn7c62x", "wit1hujx8v0y8rzqchmmagh8yw95r943cdddnegtgc", "wit1yd97y52ezvhq4kzl6rph6d3v6e9yya3n0kwjyr", "wit1fn5yxmgkphnnuu6347s2dlqpyrm4am280s6s9t", "wit12khyjjk0s2hyuzyyhv5v2d5y5snws7l58z207g"]),
        json!(["twit164wvguueu2uuf8ernlw7d40fjalg4njqdzzxyx", "twit1la2gphmexpqx5r5kx957632j9ryzudwvlwqslj", "twit1nfnfj9t6farlsxxlr7egechguxvje9qlu263w4", "twit1kk29qm846g96xze9hurhra7rfak3s997fxdq0g"]),
    ];
    let main = json!({"checkpoint_zero_timestamp":1602666000,"checkpoints_period":45,"bootstrap_hash":"666564676f6573627272727c2f3030312f3738392f3432382f6130312e676966","genesis_hash":"6ca267d9accde3336739331d42d63509b799c6431e8d02b2d2cc9d3943d7ab02","max_vt_weight":20000,"max_dr_weight":80000,"activity_period":2000,"reputation_expire_alpha_diff":20000,"reputation_issuance":1,"reputation_issuance_stop":1048576,"reputation_penalization_factor":0.5,"mining_backup_factor":8,"mining_replication_factor":3,"collateral_minimum":1000000000u64,"collateral_age":1000,"superblock_period":10,"extra_rounds":3,"minimum_difficulty":2000,"epochs_with_minimum_difficulty":2000,"bootstrapping_committee":committee[0],"superblock_signing_committee_size":100,"superblock_committee_decreasing_period":5,"superblock_committee_decreasing_step":5,"initial_block_reward":250000000000u64,"halving_period":3500000});
    let mut want = main;
    let mut protocol = json!({"v1_7":[0,45],"v1_8":[3048960,45],"v2_0":[3108950,20]});
    match i {
        0 => {}
        1 => {
            want["checkpoint_zero_timestamp"] = json!(1754997300);
            want["genesis_hash"] = json!("1eed88826bdaf4b1f222bf19c0ebd372d2f6a6af2f23430fc22ee0d0911d8db0");
            want["minimum_difficulty"] = json!(0);
            want["bootstrapping_committee"] = committee[1].clone();
            protocol["v1_8"] = json!([15, 45]);
            protocol["v2_0"] = json!([60, 20]);
        }
        _ => {
            // what is played with on one's own machine is nobody else's affair
            c.event("development");
            return;
        }
    }
    for (k, w) in want.as_object().unwrap() {
        c.check(got["consensus_constants"][k] == *w, &format!("network-{k}"), || format!("{k} of {name} is {}, the network's is {w}", got["consensus_constants"][k]));
        c.eval(1);
    }
    c.check(got["protocol"] == protocol, "network-protocol", || format!("protocol of {name}: {}, the network's is {protocol}", got["protocol"]));
    let s = &got["consensus_constants"];
    c.check(s.as_object().unwrap().len() == want.as_object().unwrap().len(), "network-constants", || "there are other consensus constants".into());
    c.event(name);
    c.nontrivial(&name);
}
pub fn config(m: &mut Mon) {
    m.rule("for every setting: given -> it takes effect as written, not given -> the environment's default; consensus constants can only be changed in development; the exported file means the same and has no secrets in it");
    m.rule("the consensus constants and protocol activations of mainnet and testnet are those that the networks run with (a table)");
    m.assume("settings have the types the documentation gives them (ill-typed periods fall back to their defaults by design)");
    let n = m.n(10_000, 100_000);
    m.run_par("file", n, file);
    m.run("networks", 3, networks);
    for e in ["given", "default", "not_overridable", "exported"] {
        m.require(e, 300);
    }
    for e in ["mainnet", "testnet", "development"] {
        m.require(e, 1);
    }
}
