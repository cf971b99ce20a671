//! C48: the register of sessions with other peers.
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use vmon::{Case, Mon};
use witnet_p2p::error::SessionsError as E;
use witnet_p2p::peers::get_range_address;
use witnet_p2p::sessions::bounded_sessions::BoundedSessions;
use witnet_p2p::sessions::{SessionStatus, SessionType, Sessions};

use crate::peers::{address, octets};

type Reg = BTreeMap<SocketAddr, u32>;
#[derive(Default, Clone)]
struct Model {
    iu: Reg,
    ic: Reg,
    ou: Reg,
    oc: Reg,
    cons: Reg,
    lim: Option<(u16, u16)>,
    public: Option<SocketAddr>,
    bits: u8,
}
fn reg(b: &BoundedSessions<u32>) -> Reg {
    b.collection.iter().map(|(k, v)| (*k, v.reference)).collect()
}
/// The network that an IPv4 address belongs to.
fn net(a: &SocketAddr, bits: u8) -> [u8; 4] {
    if a.is_ipv6() {
        // not told apart (an open issue of the project)
        return get_range_address(a, bits);
    }
    let o = octets(a);
    let mut out = [0u8; 4];
    for i in 0..usize::from(bits.min(32)) {
        out[i / 8] |= o[i / 8] & (0x80 >> (i % 8));
    }
    out
}
fn step(c: &mut Case, s: &mut Sessions<u32>, m: &mut Model, pool: &[SocketAddr], next: &mut u32) {
    let a = *c.rng.pick(pool);
    let ty = *c.rng.pick(&[SessionType::Inbound, SessionType::Inbound, SessionType::Inbound, SessionType::Outbound, SessionType::Outbound, SessionType::Outbound, SessionType::Feeler]);
    let (what, got, want): (String, Result<(), E>, Vec<Result<(), E>>) = match c.rng.below(10) {
        0..=3 => {
            *next += 1;
            let got = s.register_session(ty, a, *next);
            let want = match ty {
                SessionType::Feeler => Err(E::NotExpectedFeelerPeer),
                _ => {
                    let r = if ty == SessionType::Inbound { &mut m.iu } else { &mut m.ou };
                    match r.entry(a) {
                        std::collections::btree_map::Entry::Occupied(_) => Err(E::AddressAlreadyRegistered),
                        std::collections::btree_map::Entry::Vacant(v) => {
                            v.insert(*next);
                            Ok(())
                        }
                    }
                }
            };
            (format!("register({ty:?}, {a}, {next})"), got, vec![want])
        }
        4..=6 => {
            let got = s.consolidate_session(ty, a);
            let mut want = vec![];
            let (u, k, lim) = match ty {
                SessionType::Inbound => (&mut m.iu, &mut m.ic, m.lim.map(|l| l.0)),
                SessionType::Outbound => (&mut m.ou, &mut m.oc, m.lim.map(|l| l.1)),
                SessionType::Feeler => (&mut m.iu, &mut m.ic, None),
            };
            if ty == SessionType::Feeler {
                want.push(Err(E::NotExpectedFeelerPeer));
            } else if !u.contains_key(&a) {
                want.push(Err(E::AddressNotFound));
            } else {
                if lim.is_some_and(|l| k.len() >= usize::from(l)) {
                    want.push(Err(E::MaxPeersReached));
                    c.event("full");
                }
                if k.contains_key(&a) {
                    want.push(Err(E::AddressAlreadyRegistered));
                    c.event("consolidated_twice");
                }
                if want.is_empty() {
                    let id = u.remove(&a).unwrap();
                    k.insert(a, id);
                    want.push(Ok(()));
                    c.event("consolidated");
                }
            }
            (format!("consolidate({ty:?}, {a})"), got, want)
        }
        7 => {
            let st = if c.rng.bool() { SessionStatus::Consolidated } else { SessionStatus::Unconsolidated };
            let got = s.unregister_session(ty, st, a);
            let r = match (ty, st) {
                (SessionType::Inbound, SessionStatus::Unconsolidated) => Some(&mut m.iu),
                (SessionType::Inbound, SessionStatus::Consolidated) => Some(&mut m.ic),
                (SessionType::Outbound, SessionStatus::Unconsolidated) => Some(&mut m.ou),
                (SessionType::Outbound, SessionStatus::Consolidated) => Some(&mut m.oc),
                _ => None,
            };
            let want = match r {
                None => Err(E::NotExpectedFeelerPeer),
                Some(r) => r.remove(&a).map(|_| ()).ok_or(E::AddressNotFound),
            };
            if want.is_ok() {
                c.event("unregistered");
                if (ty, st) == (SessionType::Outbound, SessionStatus::Consolidated) {
                    m.cons.remove(&a);
                }
            }
            (format!("unregister({ty:?}, {st:?}, {a})"), got, vec![want])
        }
        8 => {
            let got = s.consensus_session(a);
            let mut want = vec![];
            if let Some(id) = m.oc.get(&a) {
                if m.lim.is_some_and(|l| m.cons.len() >= usize::from(l.1)) {
                    want.push(Err(E::MaxPeersReached));
                }
                if m.cons.contains_key(&a) {
                    want.push(Err(E::AddressAlreadyRegistered));
                }
                if want.is_empty() {
                    m.cons.insert(a, *id);
                    want.push(Ok(()));
                    c.event("in_consensus");
                }
            } else {
                want.push(Err(E::NotOutboundConsolidatedPeer));
            }
            (format!("consensus({a})"), got, want)
        }
        _ => {
            let got = s.unconsensus_session(a);
            let want = m.cons.remove(&a).map(|_| ()).ok_or(E::AddressNotFound);
            (format!("unconsensus({a})"), got, vec![want])
        }
    };
    c.check(want.contains(&got), "result", || format!("{what} gave {got:?}, not {want:?}"));
    c.eqd("inbound-unconsolidated", &reg(&s.inbound_unconsolidated), &m.iu, || format!("after {what} = {got:?}"));
    c.eqd("inbound-consolidated", &reg(&s.inbound_consolidated), &m.ic, || format!("after {what} = {got:?}"));
    c.eqd("outbound-unconsolidated", &reg(&s.outbound_unconsolidated), &m.ou, || format!("after {what} = {got:?}"));
    c.eqd("outbound-consolidated", &reg(&s.outbound_consolidated), &m.oc, || format!("after {what} = {got:?}"));
    c.eqd("in-consensus", &reg(&s.outbound_consolidated_consensus), &m.cons, || format!("after {what} = {got:?}"));
    if let Some(l) = m.lim {
        c.check(s.inbound_consolidated.collection.len() <= l.0.into() && s.outbound_consolidated.collection.len() <= l.1.into() && s.outbound_consolidated_consensus.collection.len() <= l.1.into(), "limits", || format!("more sessions than {l:?} after {what}"));
    }
    // the ranges in use are those of the inbound sessions
    let used: BTreeSet<[u8; 4]> = m.iu.keys().chain(m.ic.keys()).map(|a| net(a, m.bits)).collect();
    for q in pool {
        let got = s.is_similar_to_inbound_session(q).copied();
        let n = net(q, m.bits);
        let want = used.contains(&n).then_some(n);
        c.eqd("similar", &got, &want, || format!("whether {q} is in the /{} of an inbound session, after {what}; inbound sessions: {:?}", m.bits, m.iu.keys().chain(m.ic.keys()).collect::<Vec<_>>()));
        let free = !m.oc.contains_key(q) && !m.ou.contains_key(q) && m.public != Some(*q);
        c.eqd("eligible", &s.is_outbound_address_eligible(*q), &free, || format!("whether to connect to {q}, after {what}"));
    }
    let out = m.oc.len() + m.ou.len();
    c.eqd("num-outbound", &s.get_num_outbound_sessions(), &out, || what.clone());
    c.eqd("num-inbound", &s.get_num_inbound_sessions(), &m.ic.len(), || what.clone());
    c.eqd("bootstrap-needed", &s.is_outbound_bootstrap_needed(), &m.lim.is_none_or(|l| out < l.1.into()), || what.clone());
    c.eqd("missing-outbound", &s.num_missing_outbound(), &m.lim.map_or(1, |l| usize::from(l.1).saturating_sub(out)), || what.clone());
    for safu in [false, true] {
        let from = if safu { &m.cons } else { &m.oc };
        let got = s.get_random_anycast_session(safu);
        c.check(match got { None => from.is_empty(), Some(g) => from.values().any(|v| *v == g) }, "anycast", || format!("anycast(safu {safu}) = {got:?} of {from:?}"));
    }
    let mut all: Vec<u32> = s.get_all_consolidated_sessions().copied().collect();
    all.sort();
    let mut want: Vec<u32> = m.oc.values().chain(m.ic.values()).copied().collect();
    want.sort();
    c.eqd("all-consolidated", &all, &want, || what.clone());
    let mut inb: Vec<u32> = s.get_consolidated_inbound_sessions().copied().collect();
    inb.sort();
    let mut want: Vec<u32> = m.ic.values().copied().collect();
    want.sort();
    c.eqd("all-inbound", &inb, &want, || what.clone());
    let got = s.get_consolidated_sessions_addr();
    c.eqd("addresses", &(got.inbound.into_iter().collect(), got.outbound.into_iter().collect()), &(m.ic.keys().copied().collect::<BTreeSet<_>>(), m.oc.keys().copied().collect::<BTreeSet<_>>()), || what.clone());
    c.eval(12);
}
fn history(c: &mut Case) {
    let mut s = Sessions::<u32>::default();
    let mut m = Model { bits: *c.rng.pick(&[0u8, 1, 7, 8, 9, 15, 16, 18, 18, 18, 23, 24, 25, 31, 32]), ..Model::default() };
    s.inbound_network_ranges.set_range_limit(m.bits);
    if c.rng.chance(4, 5) {
        let l = (c.rng.idx(5) as u16, c.rng.idx(5) as u16);
        s.set_limits(l.0, l.1);
        m.lim = Some(l);
    }
    let n = 3 + c.rng.idx(8);
    let mut pool: Vec<SocketAddr> = (0..n).map(|_| address(&mut c.rng)).collect();
    // neighbours: same address with another port, or differing in one bit
    for _ in 0..4 {
        let mut a = *c.rng.pick(&pool);
        if let SocketAddr::V4(v) = &mut a {
            let bit = c.rng.idx(33);
            if bit < 32 {
                v.set_ip(std::net::Ipv4Addr::from(u32::from(*v.ip()) ^ (1 << bit)));
            } else {
                v.set_port(c.rng.u32() as u16);
            }
        }
        pool.push(a);
    }
    pool.sort();
    pool.dedup();
    if c.rng.chance(1, 2) {
        m.public = Some(*c.rng.pick(&pool));
        s.set_public_address(m.public);
    }
    let mut next = 0;
    for _ in 0..(5 + c.rng.idx(60)) {
        step(c, &mut s, &mut m, &pool, &mut next);
    }
    // when everyone has left nothing is left behind
    for (ty, st, r) in [(SessionType::Inbound, SessionStatus::Unconsolidated, m.iu.clone()), (SessionType::Inbound, SessionStatus::Consolidated, m.ic.clone()), (SessionType::Outbound, SessionStatus::Unconsolidated, m.ou.clone()), (SessionType::Outbound, SessionStatus::Consolidated, m.oc.clone())] {
        for a in r.keys() {
            let g = s.unregister_session(ty, st, *a);
            c.eqd("leave", &g, &Ok(()), || format!("unregister({ty:?}, {st:?}, {a}) of a registered session"));
        }
    }
    for q in &pool {
        c.eqd("left-behind", &s.is_similar_to_inbound_session(q), &None, || format!("the network of {q} is still taken after all sessions have left"));
    }
    c.check(s.get_all_consolidated_sessions().count() == 0 && s.outbound_consolidated_consensus.collection.is_empty() && s.outbound_unconsolidated.collection.is_empty(), "left-behind", || "sessions after all have left".into());
    c.event("drained");
    c.nontrivial(&(next, m.bits, pool.len()));
}
pub fn sessions(m: &mut Mon) {
    m.rule("model of the five registers: every result, every register and the set of network ranges in use must equal the model's after every operation");
    m.assume("limits and the width of network ranges are set once, before the first session, as SessionsManager does");
    let n = m.n(40_000, 600_000);
    m.run_par("history", n, history);
    for e in ["consolidated", "full", "consolidated_twice", "unregistered", "in_consensus", "drained"] {
        m.require(e, 50);
    }
}
