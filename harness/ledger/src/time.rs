//! C56: epochs, timestamps, mining times and protocol versions against own arithmetic.
use std::collections::BTreeMap;
use vmon::{Case, Mon};
use witnet_data_structures::chain::*;
use witnet_data_structures::proto::versioning::{ProtocolInfo, ProtocolVersion};
use witnet_data_structures::*;

const VERSIONS: [ProtocolVersion; 4] = [ProtocolVersion::V1_7, ProtocolVersion::V1_8, ProtocolVersion::V2_0, ProtocolVersion::V2_1];

pub fn epochs(m: &mut Mon) {
    m.rule("Chains with random start, periods and switch to the second period: epochs around every boundary are turned into times and back, and compared with own 128-bit arithmetic; histories of registering, loading, refreshing and clearing protocol versions against a plain list; non-trivial: a distinct chain whose period changes at a positive epoch, or a history with three versions.");
    for k in ["before the switch", "at the switch", "after the switch", "before the chain", "far epochs", "registered", "refreshed", "loaded", "cleared", "never registered"] {
        m.require(k, 20);
    }
    let n = m.n(120_000, 8_000_000);
    m.run_par("chains", n, chain);
    let n = m.n(6_000, 300_000);
    m.run_par("maps", n, map);
    // The versions in force are kept in one place per process.
    let n = m.n(3_000, 100_000);
    m.run("process", n, process);
}

struct Want {
    zero: i128,
    p1: i128,
    p2: i128,
    switch: Option<i128>,
}

impl Want {
    fn start(&self, e: i128) -> i128 {
        match self.switch {
            Some(s) if e >= s => self.zero + s * self.p1 + (e - s) * self.p2,
            _ => self.zero + e * self.p1,
        }
    }
    fn second(&self, e: i128) -> bool {
        self.switch.map(|s| e >= s).unwrap_or(false)
    }
    fn period(&self, e: i128) -> i128 {
        if self.second(e) {
            self.p2
        } else {
            self.p1
        }
    }
}

fn period(c: &mut Case) -> u16 {
    match c.rng.below(6) {
        0 => 45,
        1 => 20,
        2 => 1,
        3 => u16::MAX - c.rng.below(3) as u16,
        4 => c.rng.range(1, 5) as u16,
        _ => c.rng.range(1, 400) as u16,
    }
}

fn chain(c: &mut Case) {
    let zero: i64 = match c.rng.below(4) {
        0 => 0,
        1 => 1_602_666_000,
        2 => c.rng.below(1 << 40) as i64,
        _ => c.rng.below(4_000_000_000) as i64,
    };
    let (p1, p2) = (period(c), period(c));
    let most = u64::from(u32::MAX) / u64::from(p1);
    let switch = c.rng.chance(4, 5).then(|| match c.rng.below(4) {
        0 => 0,
        1 => c.rng.below(3).min(most),
        2 => c.rng.below(most.min(1 << 22)),
        _ => c.rng.below(most),
    });
    let mut k = EpochConstants { checkpoint_zero_timestamp: zero, checkpoints_period: p1, checkpoint_zero_timestamp_wit2: i64::MAX, checkpoints_period_wit2: if c.rng.bool() { p1 } else { 1 } };
    let w = Want { zero: zero.into(), p1: p1.into(), p2: p2.into(), switch: switch.map(i128::from) };
    let what = format!("from {zero}, {p1} s per epoch, {p2} s from {switch:?} on");
    if let Some(s) = switch {
        for _ in 0..c.rng.range(1, 3) {
            let r = c.nopanic("panic", || what.clone(), || k.set_values_for_wit2(p2, s as u32));
            if !c.check(matches!(r, Some(Ok(()))), "switch-refused", || format!("{r:?}; {what}")) {
                return;
            }
        }
        c.eqd("switch-time", &i128::from(k.checkpoint_zero_timestamp_wit2), &w.start(s.into()), || what.clone());
    }
    let mut es: Vec<u64> = vec![0, 1, most, most / 2];
    if let Some(s) = switch {
        es.extend([s.saturating_sub(1), s, s + 1, s + 2]);
    }
    for _ in 0..4 {
        es.push(c.rng.below(most + 1));
        es.push(c.rng.below(5_000_000));
    }
    for e in es {
        if e > u64::from(u32::MAX) {
            continue;
        }
        one(c, &k, &w, e as u32, &what);
    }
    // Before the chain there is no epoch.
    for back in [1, 2, c.rng.range(1, 1 << 40) as i64] {
        c.event("before the chain");
        let r = c.nopanic("panic", || what.clone(), || k.epoch_at(zero - back));
        c.check(matches!(r, Some(Err(_))), "epoch-before-zero", || format!("{back} s before: {r:?}; {what}"));
    }
    // Epochs that no timestamp can express are refused, never a wrong time.
    for e in [u32::MAX, u32::MAX - c.rng.below(1 << 20) as u32, (most + 1 + c.rng.below(1000)).min(u64::from(u32::MAX)) as u32] {
        c.event("far epochs");
        let got = c.nopanic("panic", || format!("epoch {e}; {what}"), || (k.epoch_timestamp(e), k.block_mining_timestamp(e), k.get_epoch_period(e)));
        if let Some((Ok(t), mining, p)) = got {
            let s = w.start(e.into());
            c.check(i128::from(t.0) == s, "far-epoch-time", || format!("epoch {e} at {t:?} instead of {s}; {what}"));
            let s = s + w.period(e.into()) - w.period(e.into()) / 2;
            c.check(mining.as_ref().map(|t| i128::from(*t) == s).unwrap_or(false), "far-mining-time", || format!("epoch {e}: {mining:?} instead of {s}; {what}"));
            c.check(p.as_ref().map(|p| i128::from(*p) == w.period(e.into())).unwrap_or(false), "far-period", || format!("epoch {e}: {p:?}; {what}"));
        }
    }
    if switch.map(|s| s > 0).unwrap_or(false) && p1 != p2 {
        c.nontrivial(&(zero, p1, p2, switch));
    }
    c.sample(|| what.clone());
}

fn one(c: &mut Case, k: &EpochConstants, w: &Want, e: u32, what: &str) {
    let ei = i128::from(e);
    c.eval(1);
    match w.switch {
        Some(s) if s == ei => c.event("at the switch"),
        Some(s) if s < ei => c.event("after the switch"),
        _ => c.event("before the switch"),
    }
    let t = || format!("epoch {e}; {what}");
    let start = w.start(ei);
    // Times further than 2^32 seconds from the beginning cannot be expressed.
    let reach = ei * w.p1 <= i128::from(u32::MAX) && start - w.zero + w.period(ei) <= i128::from(u32::MAX) && (!w.second(ei) || (ei - w.switch.unwrap()) * w.p2 <= i128::from(u32::MAX));
    let got = c.nopanic("panic", t, || (k.epoch_timestamp(e), k.block_mining_timestamp(e), k.get_epoch_period(e)));
    let Some((ts, mining, period)) = got else { return };
    if !reach {
        if let Ok((ts, _)) = ts {
            c.check(i128::from(ts) == start, "far-epoch-time", || format!("{ts} instead of {start}; {}", t()));
        }
        return;
    }
    c.check(ts.as_ref().ok().map(|x| (i128::from(x.0), x.1)) == Some((start, w.second(ei))), "epoch-time", || format!("{ts:?} instead of {start}; {}", t()));
    let p = w.period(ei);
    let want = start + p - p / 2;
    c.check(mining.as_ref().ok().map(|x| i128::from(*x)) == Some(want), "mining-time", || format!("{mining:?} instead of {want}; {}", t()));
    c.check(period.as_ref().ok().map(|x| i128::from(*x)) == Some(p), "period", || format!("{period:?} instead of {p}; {}", t()));
    for (at, want) in [(start, ei), (start + p - 1, ei), (start + p / 2, ei), (start + p, ei + 1), (start - 1, ei - 1)] {
        if want < 0 || at - w.zero > i128::from(u32::MAX) {
            continue;
        }
        let at = at as i64;
        let r = c.nopanic("panic", t, || k.epoch_at(at));
        c.check(matches!(&r, Some(Ok(x)) if i128::from(*x) == want), "epoch-at", || format!("at {at}: {r:?} instead of {want}; {}", t()));
    }
}

/// A plain list of what was registered.
#[derive(Clone, Default)]
struct List(Vec<(u32, usize, u16)>);

impl List {
    fn at(&self, e: u32) -> ProtocolVersion {
        self.0.iter().filter(|x| x.0 <= e).max_by_key(|x| (x.0, x.1)).map(|x| VERSIONS[x.1]).unwrap_or(ProtocolVersion::V1_7)
    }
    fn of(&self, v: usize) -> Option<(u32, u16)> {
        self.0.iter().find(|x| x.1 == v).map(|x| (x.0, x.2))
    }
}

/// Versions in their order with increasing activation epochs, some left out.
fn list(c: &mut Case) -> List {
    let mut e = 0u64;
    let mut out = vec![];
    for v in 0..4 {
        if c.rng.chance(1, 4) {
            continue;
        }
        e += match c.rng.below(4) {
            0 => 1,
            1 => c.rng.range(1, 10),
            _ => c.rng.range(1, 1_000_000),
        };
        if v == 0 && c.rng.bool() {
            e = 0;
        }
        out.push((e as u32, v, period(c)));
    }
    List(out)
}

fn probe(c: &mut Case, l: &List) -> Vec<u32> {
    let mut q: Vec<u32> = vec![0, u32::MAX, c.rng.u32()];
    for x in &l.0 {
        q.extend([x.0.saturating_sub(1), x.0, x.0 + 1]);
    }
    q
}

fn map(c: &mut Case) {
    let l = list(c);
    let mut info = ProtocolInfo::default();
    let mut order: Vec<usize> = (0..l.0.len()).collect();
    c.rng.shuffle(&mut order);
    for i in &order {
        let x = l.0[*i];
        info.register(x.0, VERSIONS[x.1], x.2);
        if c.rng.chance(1, 4) {
            info.register(x.0, VERSIONS[x.1], x.2);
        }
    }
    if c.rng.bool() {
        // As it is kept between runs.
        let b = bincode::serialize(&info).unwrap();
        let back: ProtocolInfo = bincode::deserialize(&b).unwrap();
        c.check(back == info, "kept", || format!("{info:?} came back as {back:?}"));
        info = back;
    }
    for q in probe(c, &l) {
        c.eqd("version-for-epoch", &info.all_versions.version_for_epoch(q), &l.at(q), || format!("epoch {q} of {:?}", l.0));
    }
    for v in 0..4 {
        let w = l.of(v);
        if w.is_none() {
            c.event("never registered");
        }
        c.eqd("activation", &info.all_versions.try_get_activation_epoch(VERSIONS[v]), &w.map(|x| x.0), || format!("{:?} of {:?}", VERSIONS[v], l.0));
        c.eqd("activation-or-never", &info.all_versions.get_activation_epoch(VERSIONS[v]), &w.map(|x| x.0).unwrap_or(u32::MAX), || format!("{:?} of {:?}", VERSIONS[v], l.0));
    }
    // Versions are ordered as they are numbered.
    for a in 0..4 {
        for b in 0..4 {
            c.check(VERSIONS[a].partial_cmp(&VERSIONS[b]) == a.partial_cmp(&b), "order", || format!("{:?} and {:?}", VERSIONS[a], VERSIONS[b]));
        }
        c.check(VERSIONS[a].next() == VERSIONS[(a + 1).min(3)] && VERSIONS[a].prev() == VERSIONS[a.max(1) - 1], "neighbours", || format!("{:?}", VERSIONS[a]));
    }
    // The time at which the second version came into force agrees with the epochs of the chain.
    if let (Some((e8, p8)), Some((e2, p2))) = (l.of(1), l.of(2)) {
        let p1 = period(c);
        let zero = c.rng.below(4_000_000_000) as i64;
        let mut cc = vref_constants();
        cc.checkpoint_zero_timestamp = zero;
        cc.checkpoints_period = p1;
        let mut l2 = l.clone();
        l2.0.retain(|x| x.1 != 0);
        let mut info = ProtocolInfo::default();
        for x in &l2.0 {
            info.register(x.0, VERSIONS[x.1], x.2);
        }
        let r = |e: u32, p: u16| i64::from(e) * i64::from(p);
        if r(e8, p1) < i64::from(u32::MAX) && r(e2 - e8, p8) < i64::from(u32::MAX) {
            let w8 = zero + r(e8, p1);
            let w2 = w8 + r(e2 - e8, p8);
            let got = c.nopanic("panic", || format!("{:?}", l.0), || VERSIONS[..3].iter().map(|v| info.derive_activation_timestamp(*v, &cc)).collect::<Vec<_>>());
            c.eqd("activation-time", &got, &Some(vec![Some(zero), Some(w8), Some(w2)]), || format!("{:?}, {p1}, from {zero}, then {p2}", l2.0));
        }
    }
    if l.0.len() >= 3 {
        c.nontrivial(&l.0);
    }
}

fn vref_constants() -> ConsensusConstants {
    ConsensusConstants::default()
}

fn process(c: &mut Case) {
    clear_protocol_info();
    let mut have: BTreeMap<usize, (u32, u16)> = BTreeMap::new();
    let mut current = ProtocolVersion::V1_7;
    let mut trace = String::new();
    let plan = list(c);
    let mut next = 0;
    for _ in 0..c.rng.range(3, 14) {
        match c.rng.below(7) {
            0 | 1 | 2 if next < plan.0.len() => {
                let (e, v, p) = plan.0[next];
                next += 1;
                register_protocol_version(VERSIONS[v], e, p);
                have.insert(v, (e, p));
                c.event("registered");
                trace += &format!(" {:?}@{e}/{p}", VERSIONS[v]);
            }
            3 => {
                let l = List(have.iter().map(|(v, x)| (x.0, *v, x.1)).collect());
                let q = probe(c, &l);
                let q = *c.rng.pick(&q);
                refresh_protocol_version(q);
                current = l.at(q);
                c.event("refreshed");
                trace += &format!(" refresh {q}");
            }
            4 => {
                // Kept, forgotten and loaded, as across a restart.
                let info = get_protocol_info();
                clear_protocol_info();
                c.check(ProtocolVersion::guess() == ProtocolVersion::V1_7, "cleared-version", || trace.clone());
                load_protocol_info(info);
                c.event("loaded");
                trace += " load";
            }
            5 if c.rng.chance(1, 3) => {
                clear_protocol_info();
                have.clear();
                next = 0;
                current = ProtocolVersion::V1_7;
                c.event("cleared");
                trace += " clear";
            }
            _ => {
                current = *c.rng.pick(&VERSIONS);
                set_protocol_version(current);
                trace += &format!(" set {current:?}");
            }
        }
        let l = List(have.iter().map(|(v, x)| (x.0, *v, x.1)).collect());
        c.eqd("current-version", &ProtocolVersion::guess(), &current, || trace.clone());
        c.eqd("current-version", &get_protocol_version(None), &current, || trace.clone());
        for q in probe(c, &l) {
            c.eqd("version-for-epoch", &ProtocolVersion::from_epoch(q), &l.at(q), || format!("epoch {q};{trace}"));
            c.eqd("version-for-epoch", &ProtocolVersion::from_epoch_opt(Some(q)), &l.at(q), || format!("epoch {q};{trace}"));
        }
        for v in 0..4 {
            let w = have.get(&v);
            c.eqd("activation", &get_protocol_version_activation_epoch(VERSIONS[v]), &w.map(|x| x.0).unwrap_or(u32::MAX), || format!("{:?};{trace}", VERSIONS[v]));
            c.eqd("version-period", &get_protocol_version_period(VERSIONS[v]), &w.map(|x| x.1).unwrap_or(u16::MAX), || format!("{:?};{trace}", VERSIONS[v]));
        }
    }
    clear_protocol_info();
}
