//! C47: the lists of peer addresses.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use std::time::Duration;
use vmon::{Case, Mon, Rng};
use witnet_config::config::Config;
use witnet_p2p::peers::Peers;

use crate::clock;

pub fn octets(a: &SocketAddr) -> Vec<u8> {
    match a.ip() {
        IpAddr::V4(i) => i.octets().to_vec(),
        IpAddr::V6(i) => i.octets().to_vec(),
    }
}
/// Network part and host part (with the port) of an address.
fn parts(a: &SocketAddr) -> (Vec<u8>, Vec<u8>) {
    let ip = octets(a);
    let (net, host) = ip.split_at(ip.len() / 2);
    let mut host = host.to_vec();
    host.extend(a.port().to_be_bytes());
    (net.to_vec(), host)
}
fn last(sk: u64, bytes: &[&[u8]]) -> u16 {
    let mut m = sk.to_be_bytes().to_vec();
    for b in bytes {
        m.extend_from_slice(b);
    }
    u16::from(vref::hash::sha256(&m)[31])
}
fn tried_index(sk: u64, a: &SocketAddr) -> u16 {
    let (net, host) = parts(a);
    let i = (last(sk, &[&octets(a)]) % 4) as u8;
    last(sk, &[&net, &[i]]) % 64 * 64 + last(sk, &[&host, &[i]]) % 64
}
fn new_index(sk: u64, a: &SocketAddr, src: &SocketAddr) -> u16 {
    let (net, host) = parts(a);
    let (from, _) = parts(src);
    let i = (last(sk, &[&from, &net]) % 32) as u8;
    last(sk, &[&from, &[i]]) % 256 * 64 + last(sk, &[&host, &[i]]) % 64
}
pub fn address(r: &mut Rng) -> SocketAddr {
    let port = match r.below(4) {
        0 => r.u32() as u16,
        1 => 0,
        _ => 21337,
    };
    let ip = match r.below(12) {
        0 => IpAddr::V6(Ipv6Addr::from(<[u8; 16]>::try_from(r.bytes(16)).unwrap())),
        1 => {
            let mut b = [0u8; 16];
            b[0] = 0x20;
            b[15] = r.u8() % 4;
            IpAddr::V6(Ipv6Addr::from(b))
        }
        2 => IpAddr::V4(Ipv4Addr::new(0, 0, 0, r.u8() % 2)),
        3 => IpAddr::V6(Ipv6Addr::from(u128::from(r.u8() % 2))),
        4..=7 => IpAddr::V4(Ipv4Addr::new(10, r.u8() % 3, r.u8(), r.u8())),
        8 => IpAddr::V4(Ipv4Addr::new(10, 0, 0, r.u8() % 8)),
        _ => IpAddr::V4(Ipv4Addr::from(r.u32())),
    };
    SocketAddr::new(ip, port)
}
fn v4(r: &mut Rng) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(1 + r.u8() % 200, r.u8(), r.u8(), 1 + r.u8() % 254)), r.u32() as u16)
}
type Table = BTreeMap<u16, (SocketAddr, i64)>;
fn table(t: &HashMap<u16, witnet_p2p::peers::PeerInfo>) -> Table {
    t.iter().map(|(k, v)| (*k, (v.address, v.timestamp))).collect()
}
fn sorted(v: impl IntoIterator<Item = SocketAddr>) -> Vec<SocketAddr> {
    let mut v: Vec<_> = v.into_iter().collect();
    v.sort();
    v
}
struct Model {
    sk: u64,
    own: SocketAddr,
    booted: bool,
    period: i64,
    ice: BTreeMap<SocketAddr, i64>,
    new: Table,
    tried: Table,
    now: i64,
}
impl Model {
    fn ice_period(&self) -> i64 {
        if self.booted { self.period } else { 1800 }
    }
    fn iced(&self, a: &SocketAddr) -> bool {
        self.ice.get(a).is_some_and(|t| *t >= self.now - self.ice_period())
    }
    fn compare(&self, c: &mut Case, p: &Peers, what: &str) {
        c.eqd("new", &table(&p.new_bucket), &self.new, || format!("the addresses to be tried after {what}"));
        c.eqd("tried", &table(&p.tried_bucket), &self.tried, || format!("the tried addresses after {what}"));
        // an address whose time on ice has passed may or may not have been forgotten
        let live = |i: &mut dyn Iterator<Item = (SocketAddr, i64)>| -> BTreeMap<SocketAddr, i64> { i.filter(|(_, t)| *t >= self.now - self.ice_period()).collect() };
        let got = live(&mut p.ice_bucket.iter().map(|(a, t)| (*a, *t)));
        let want = live(&mut self.ice.iter().map(|(a, t)| (*a, *t)));
        c.eqd("ice", &got, &want, || format!("the addresses on ice after {what}"));
    }
}
fn multiset(v: &[SocketAddr]) -> BTreeMap<SocketAddr, usize> {
    let mut m = BTreeMap::new();
    for a in v {
        *m.entry(*a).or_insert(0) += 1;
    }
    m
}
fn history(c: &mut Case) {
    let mut conf = Config::default();
    let own = if c.rng.chance(1, 2) { v4(&mut c.rng) } else { address(&mut c.rng) };
    conf.connections.server_addr = own;
    let period = *c.rng.pick(&[0u64, 1, 60, 1799, 1800, 1801, 3600, 100_000]);
    conf.connections.bucketing_ice_period = Duration::from_secs(period);
    let mut p = Peers::from_config(&conf);
    p.sk = if c.rng.chance(1, 3) { c.rng.edgy_u64() } else { c.rng.u64() };
    let mut m = Model { sk: p.sk, own, booted: false, period: period as i64, ice: BTreeMap::new(), new: Table::new(), tried: Table::new(), now: 1_700_000_000 };
    c.check(!p.bootstrapped, "born-bootstrapped", || "a new list of peers".into());
    if c.rng.chance(1, 2) {
        p.bootstrapped = true;
        m.booted = true;
    }
    // addresses that meet in few slots: some are made to collide
    let n = 4 + c.rng.idx(40);
    let mut pool: Vec<SocketAddr> = (0..n).map(|_| address(&mut c.rng)).collect();
    for _ in 0..c.rng.below(4) {
        let a = *c.rng.pick(&pool);
        for _ in 0..2000 {
            let mut b = address(&mut c.rng);
            b.set_port(c.rng.u32() as u16);
            if b != a && tried_index(m.sk, &b) == tried_index(m.sk, &a) {
                pool.push(b);
                c.event("tried_collision");
                break;
            }
        }
    }
    pool.push(own);
    let steps = 5 + c.rng.idx(60);
    for _ in 0..steps {
        if c.rng.chance(1, 2) {
            let ip = m.ice_period();
            let dt = match c.rng.below(5) {
                0 => ip,
                1 => ip + 1,
                2 => 1,
                3 => 1800,
                _ => c.rng.below(4000) as i64,
            };
            m.now += dt;
        }
        clock::set(m.now, c.rng.below(1_000_000_000) as u32);
        let what;
        match c.rng.below(14) {
            0..=3 => {
                let addrs: Vec<SocketAddr> = (0..c.rng.idx(8)).map(|_| *c.rng.pick(&pool)).collect();
                let src = if c.rng.chance(1, 2) { Some(*c.rng.pick(&pool)) } else { None };
                what = format!("add_to_new({addrs:?}, {src:?})");
                let mut want = vec![];
                for a in &addrs {
                    if a.ip().is_unspecified() {
                        c.event("unspecified");
                        continue;
                    }
                    if *a == m.own {
                        c.event("own");
                        continue;
                    }
                    if m.iced(a) {
                        c.event("iced_refused");
                        continue;
                    }
                    if m.tried.get(&tried_index(m.sk, a)).is_some_and(|t| t.0 == *a) {
                        c.event("tried_already");
                        continue;
                    }
                    let i = new_index(m.sk, a, &src.unwrap_or(*a));
                    if let Some(old) = m.new.insert(i, (*a, m.now)) {
                        c.event("replaced_new");
                        want.push(old.0);
                    }
                    c.event("added_new");
                }
                let got = p.add_to_new(addrs, src).unwrap();
                c.eqd("replaced", &sorted(got), &sorted(want), || format!("the addresses that lost their place by {what}"));
            }
            4..=6 => {
                let a = *c.rng.pick(&pool);
                what = format!("add_to_tried({a})");
                // (its own address is never tried: it is not judged here)
                if a == m.own {
                    continue;
                }
                let mut want = None;
                if !a.ip().is_unspecified() && !m.iced(&a) {
                    want = m.tried.insert(tried_index(m.sk, &a), (a, m.now)).map(|o| o.0);
                    c.event(if want.is_some_and(|w| w != a) { "replaced_tried" } else { "added_tried" });
                }
                let got = p.add_to_tried(a).unwrap();
                c.eqd("replaced", &got, &want, || format!("the address that lost its place by {what}"));
            }
            7 => {
                let addrs: Vec<SocketAddr> = (0..c.rng.idx(5)).map(|_| *c.rng.pick(&pool)).collect();
                let ice = c.rng.bool();
                what = format!("remove_from_tried({addrs:?}, {ice})");
                let mut want = vec![];
                for a in &addrs {
                    if ice {
                        m.ice.insert(*a, m.now);
                        c.event("iced");
                    }
                    let i = tried_index(m.sk, a);
                    if m.tried.get(&i).is_some_and(|t| t.0 == *a) {
                        m.tried.remove(&i);
                        want.push(*a);
                    }
                }
                let got = p.remove_from_tried(&addrs, ice);
                c.eqd("removed", &sorted(got), &sorted(want), || format!("removed by {what}"));
            }
            8 => {
                let keys: Vec<u16> = m.new.keys().copied().collect();
                let idx: Vec<u16> = (0..c.rng.idx(3)).map(|_| if keys.is_empty() || c.rng.chance(1, 3) { c.rng.u32() as u16 } else { *c.rng.pick(&keys) }).collect();
                what = format!("remove_from_new_with_index({idx:?})");
                let want: Vec<_> = idx.iter().filter_map(|i| m.new.remove(i)).map(|t| t.0).collect();
                let got = p.remove_from_new_with_index(&idx);
                c.eqd("removed", &sorted(got), &sorted(want), || format!("removed by {what}"));
            }
            9 => {
                let a = *c.rng.pick(&pool);
                what = format!("ice_peer_address({a})");
                p.ice_peer_address(&a);
                m.ice.insert(a, m.now);
            }
            10 => {
                let a = *c.rng.pick(&pool);
                let iced = m.iced(&a);
                what = format!("ice_bucket_contains({a})");
                c.eqd("ice-contains", &p.ice_bucket_contains(&a), &iced, || format!("{what} at {}: on ice since {:?}, for {} s", m.now, m.ice.get(&a), m.ice_period()));
                c.event(if iced { "on_ice" } else { "not_on_ice" });
            }
            11 => {
                let due: Vec<SocketAddr> = p.ice_bucket.iter().filter(|(_, t)| **t < m.now - m.ice_period()).map(|(a, _)| *a).collect();
                what = "extract_melted_peers_from_ice_bucket".into();
                let got = p.extract_melted_peers_from_ice_bucket();
                if !due.is_empty() {
                    c.event("melted");
                }
                c.eqd("melted", &sorted(got), &sorted(due), || "addresses whose time on ice has passed".into());
                let (now, ip) = (m.now, m.ice_period());
                m.ice.retain(|_, t| *t >= now - ip);
            }
            12 => {
                if c.rng.chance(1, 3) {
                    p.bootstrapped = !p.bootstrapped;
                    m.booted = p.bootstrapped;
                    // whether an address whose time has passed is still known is seen when the time gets longer
                    m.ice = p.ice_bucket.iter().map(|(a, t)| (*a, *t)).collect();
                    what = "bootstrapped".into();
                } else {
                    let a: Vec<SocketAddr> = (0..c.rng.idx(3)).map(|_| *c.rng.pick(&pool)).collect();
                    what = format!("remove_many_from_ice({a:?})");
                    p.remove_many_from_ice(&a);
                    for a in &a {
                        m.ice.remove(a);
                    }
                }
            }
            _ => {
                // kept on disk and read again
                what = "kept and read again".into();
                let s = serde_json::to_string(&p).unwrap();
                let mut q: Peers = serde_json::from_str(&s).unwrap();
                q.ice_period = p.ice_period;
                c.eqd("kept-sk", &q.sk, &p.sk, || what.clone());
                c.eqd("kept-own", &q.server_address, &p.server_address, || what.clone());
                c.eqd("kept-boot", &q.bootstrapped, &p.bootstrapped, || what.clone());
                p = q;
                c.event("reloaded");
            }
        }
        m.compare(c, &p, &what);
        c.eval(4);
        if c.rng.chance(1, 4) {
            let n = match c.rng.below(4) {
                0 => 0,
                1 => 1,
                2 => c.rng.idx(10),
                _ => 100_000,
            };
            let got = p.get_random_peers(n).unwrap();
            c.eqd("random-count", &got.len(), &n.min(m.new.len() + m.tried.len()), || format!("get_random_peers({n}) with {} new and {} tried addresses", m.new.len(), m.tried.len()));
            let mut have = multiset(&sorted(m.new.values().map(|v| v.0)));
            for v in m.tried.values() {
                *have.entry(v.0).or_insert(0) += 1;
            }
            for (a, k) in multiset(&got) {
                c.check(have.get(&a).copied().unwrap_or(0) >= k, "random-member", || format!("get_random_peers({n}) gave {a} {k} times, it is listed {:?} times", have.get(&a)));
            }
            c.event("random");
            let one = p.get_new_random_peer();
            c.check(one.is_none() == m.new.is_empty(), "random-new", || format!("get_new_random_peer() = {one:?} of {} addresses", m.new.len()));
            if let Some((i, a)) = one {
                c.eqd("random-new", &Some(a), &m.new.get(&i).map(|v| v.0), || format!("get_new_random_peer() = ({i}, {a})"));
            }
            c.eqd("all-tried", &sorted(p.get_all_from_tried().unwrap()), &sorted(m.tried.values().map(|v| v.0)), || "get_all_from_tried".into());
            c.eqd("all-new", &sorted(p.get_all_from_new().unwrap()), &sorted(m.new.values().map(|v| v.0)), || "get_all_from_new".into());
            let a = *c.rng.pick(&pool);
            let s = *c.rng.pick(&pool);
            let (i, j) = (p.tried_bucket_index(&a), p.new_bucket_index(&a, &s));
            c.eqd("tried-index", &i, &tried_index(m.sk, &a), || format!("slot of {a} with key {}", m.sk));
            c.eqd("new-index", &j, &new_index(m.sk, &a, &s), || format!("slot of {a} from {s} with key {}", m.sk));
            c.eqd("tried-at", &(p.tried_bucket_contains(i), p.tried_bucket_get_address(i), p.tried_bucket_get_timestamp(i)), &{ let t = m.tried.get(&i); (t.is_some(), t.map(|t| t.0), t.map(|t| t.1)) }, || format!("what slot {i} shows"));
            c.eqd("new-at", &(p.new_bucket_contains(j), p.new_bucket_get_address(j), p.new_bucket_get_timestamp(j)), &{ let t = m.new.get(&j); (t.is_some(), t.map(|t| t.0), t.map(|t| t.1)) }, || format!("what slot {j} shows"));
        }
    }
    clock::real();
    c.nontrivial(&(m.new.len(), m.tried.len(), m.now, m.sk));
}
/// Addresses from one group, or announced by one source, can only take a bounded share of the slots.
fn flood(c: &mut Case) {
    let mut conf = Config::default();
    conf.connections.server_addr = v4(&mut c.rng);
    let mut p = Peers::from_config(&conf);
    p.sk = c.rng.u64();
    clock::set(1_700_000_000, 0);
    let honest: Vec<SocketAddr> = (0..200).map(|_| v4(&mut c.rng)).collect();
    for a in &honest {
        p.add_to_tried(*a).unwrap();
    }
    let before = table(&p.tried_bucket);
    let net = [11 + c.rng.u8() % 100, c.rng.u8()];
    let src = v4(&mut c.rng);
    let mut buckets = BTreeSet::new();
    let mut nbuckets = BTreeSet::new();
    for _ in 0..400 {
        let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(net[0], net[1], c.rng.u8(), c.rng.u8())), c.rng.u32() as u16);
        p.add_to_tried(a).unwrap();
        if p.tried_bucket.get(&p.tried_bucket_index(&a)).map(|t| t.address) == Some(a) {
            buckets.insert(p.tried_bucket_index(&a) / 64);
        }
        let any = v4(&mut c.rng);
        p.add_to_new(vec![any], Some(src)).unwrap();
    }
    for i in p.new_bucket.keys() {
        nbuckets.insert(i / 64);
    }
    c.check(buckets.len() <= 4, "group-share", || format!("one group of addresses holds places in {} of the 64 buckets of tried addresses", buckets.len()));
    c.check(nbuckets.len() <= 32, "source-share", || format!("one source filled {} of the 256 buckets of new addresses", nbuckets.len()));
    let lost: BTreeSet<u16> = before.iter().filter(|(i, v)| p.tried_bucket.get(i).map(|t| t.address) != Some(v.0)).map(|(i, _)| i / 64).collect();
    c.check(lost.len() <= 4, "group-evicts", || format!("one group of addresses evicted others from {} buckets", lost.len()));
    c.event("flood");
    // half of a choice comes from each of the lists
    let mut q = Peers::from_config(&conf);
    let mut tried = 0;
    while q.tried_bucket.len() < 10 || q.new_bucket.len() < 10 {
        let a = v4(&mut c.rng);
        if q.tried_bucket.len() < 10 {
            q.add_to_tried(a).unwrap();
        } else {
            q.add_to_new(vec![a], None).unwrap();
        }
    }
    let t: BTreeSet<SocketAddr> = q.get_all_from_tried().unwrap().into_iter().collect();
    let mut seen = BTreeSet::new();
    for _ in 0..400 {
        let g = q.get_random_peers(1).unwrap()[0];
        seen.insert(g);
        if t.contains(&g) {
            tried += 1;
        }
    }
    c.check((100..=300).contains(&tried), "fair", || format!("of 400 random peers, {tried} came from the tried ones although the lists are equally long"));
    c.check(seen.len() == 20, "reach", || format!("400 random choices only ever found {} of 20 addresses", seen.len()));
    c.event("fair_draws");
    c.eval(6);
    clock::real();
    c.nontrivial(&p.sk);
}
pub fn peers(m: &mut Mon) {
    m.rule("model of the three lists: after every operation new, tried and (unexpired) iced addresses must equal the model's, slots by the stated hash formula");
    m.assume("the wall clock is the one interposed by the harness and does not run backwards; random picks come from the real generator");
    let n = m.n(2500, 40_000);
    m.run_par("history", n, history);
    let n = m.n(40, 400);
    m.run_par("flood", n, flood);
    for e in ["added_new", "added_tried", "iced_refused", "own", "unspecified", "tried_already", "replaced_new", "replaced_tried", "melted", "on_ice", "not_on_ice", "reloaded", "random", "tried_collision", "flood", "fair_draws"] {
        m.require(e, 10);
    }
}
