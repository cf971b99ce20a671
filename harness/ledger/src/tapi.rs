//! C57: signalling of improvement proposals, the activation of each, hard forks and emergency
//! committees, against an own count and an own table.
use std::collections::{BTreeMap, HashSet};
use vmon::{Case, Mon};
use witnet_data_structures::chain::tapi::*;
use witnet_data_structures::chain::*;

/// First epoch of each on mainnet.
const MAINNET: [(&str, u32); 13] = [
    ("WIP0008", 192_000),
    ("WIP0009-0011-0012", 376_320),
    ("THIRD_HARD_FORK", 445_440),
    ("WIP0014-0016", 549_141),
    ("WIP0017-0018-0019", 683_541),
    ("WIP0020-0021", 1_059_861),
    ("WIP0022", 1_708_901),
    ("WIP0023", 1_708_901),
    ("WIP0024", 1_708_901),
    ("WIP0025", 1_708_901),
    ("WIP0026", 1_708_901),
    ("WIP0027", 1_708_901),
    ("WIP0028", 3_048_960),
];

const COMMITTEES: [(u32, u32, &[&str]); 4] = [
    (750, 1344, &["wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty", "wit17nnjuxmfuu92l6rxhque2qc3u2kvmx2fske4l9", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1g0rkajsgwqux9rnmkfca5tz6djg0f87x7ms5qx", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z"]),
    (44_165, 45_509, &["wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit1cyrlc64hyu0rux7hclmg9rxwxpa0v9pevyaj2c", "wit1etherz02v4fvqty6jhdawefd0pl33qtevy7s4z", "wit13l337znc5yuualnxfg9s2hu9txylntq5pyazty"]),
    (144_200, 145_500, &["wit1asdpcspwysf0hg5kgwvgsp2h6g65y5kg9gj5dz", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1fkps4hsrvadr2u9veyk27xrv8yhmldaj8zdlpj", "wit1gnw6gvmkzfwe5tyjd55h7t2j4s68xappl85g5v", "wit1q679r2d8yk0ntmk48k6nprc3fervd627vqe39l", "wit1wl200uau9zp072ps0wfpq74kd0a65uhd5c4dfk"]),
    (224_300, 304_896, &["wit1c0ucz2u9hwgqflkn4xjeyxtla9tqp0sderzkjr", "wit1drcpu0xc2akfcqn8r69vw70pj8fzjhjypdcfsq", "wit1drcpu3x42y5vp7w3pe203xrwpnth2pnt6c0dm9", "wit1llz4vw9mszjqud5pqavf84208entwz73lxekzm", "wit1nawuk8f2hckz6ct9wlzg95fhg3kyjzlrrd99qz", "wit1sp8xnclrhm4j5lrzxwnxerdetzsjqw88kwr05f"]),
];

pub fn signals(m: &mut Mon) {
    m.rule("Chains of blocks with random signal words, missing epochs, several proposals voting at once (also outside their range, sharing bits over time, already active or to be avoided), kept and read again at random; counters and activation epochs are compared after every block with an own count; every activation, hard fork and emergency committee is compared with an own table around its boundaries; non-trivial: a distinct chain in which a proposal gets activated by a count within 2 votes of the threshold.");
    for k in ["block", "missing epochs", "activated", "just not activated", "not counted", "reread", "period ended", "lookup"] {
        m.require(k, 20);
    }
    let n = m.n(4_000, 120_000);
    m.run_par("chains", n, chain);
    let n = m.n(3_000, 100_000);
    m.run_par("tables", n, tables);
}

#[derive(Clone)]
struct Vote {
    wip: String,
    bit: usize,
    init: u32,
    end: u32,
    period: u32,
    votes: u32,
}

fn chain(c: &mut Case) {
    let mut votes: Vec<Vote> = vec![];
    let mut bits: Vec<usize> = (0..32).collect();
    c.rng.shuffle(&mut bits);
    let start = c.rng.range(1, 100_000) as u32;
    for i in 0..c.rng.range(1, 5) as usize {
        let period = match c.rng.below(4) {
            0 => c.rng.range(1, 4) as u32,
            1 => 10,
            _ => c.rng.range(5, 40) as u32,
        };
        let init = start.saturating_sub(3) + c.rng.below(8) as u32;
        let end = match c.rng.below(3) {
            0 => init + period * c.rng.range(1, 4) as u32,
            1 => init + c.rng.below(60) as u32,
            _ => u32::MAX,
        };
        let bit = if c.rng.chance(1, 4) { [0, 31][i % 2] } else { bits[i] };
        if votes.iter().any(|v: &Vote| v.bit == bit) {
            continue;
        }
        votes.push(Vote { wip: format!("wip{i}"), bit, init, end, period, votes: 0 });
    }
    let mut t = TapiEngine::default();
    for v in &votes {
        t.bit_tapi_counter.insert(BitVotesCounter { votes: 0, period: v.period, wip: v.wip.clone(), init: v.init, end: v.end, bit: v.bit });
    }
    let mut active: BTreeMap<String, u32> = BTreeMap::new();
    let mut avoid: HashSet<String> = HashSet::new();
    for v in &votes {
        if c.rng.chance(1, 8) {
            avoid.insert(v.wip.clone());
        }
        if c.rng.chance(1, 8) {
            active.insert(v.wip.clone(), 7);
            t.wip_activation.insert(v.wip.clone(), 7);
        }
    }
    // Whether the epochs get counted from the same block or, as in catching up, a later one.
    let lag = if c.rng.bool() { 0 } else { c.rng.below(30) as u32 };
    let share = *c.rng.pick(&[50, 75, 80, 82, 85, 100]);
    let mut last = 0u32;
    let mut epoch = start;
    let mut trace = format!("{:?} avoid {avoid:?} active {active:?}", votes.iter().map(|v| (v.wip.clone(), v.bit, v.init, v.end, v.period)).collect::<Vec<_>>());
    let mut close = false;
    for _ in 0..c.rng.range(5, 120) {
        epoch += if c.rng.chance(1, 12) { c.rng.range(2, 6) as u32 } else { 1 };
        let mut word = c.rng.u32();
        for v in &votes {
            word &= !(1 << v.bit);
            if c.rng.chance(share, 100) {
                word |= 1 << v.bit;
            }
        }
        let block = epoch + lag;
        c.eval(1);
        c.event("block");
        if c.nopanic("panic", || trace.clone(), || t.update_bit_counter(word, epoch, block, &avoid)).is_none() {
            return;
        }
        // Own count: every epoch since the last, the missing ones without signals.
        let from = if last == 0 { epoch } else { last + 1 };
        if from < epoch {
            c.event("missing epochs");
        }
        for e in from..=epoch {
            let word = if e == epoch { word } else { 0 };
            for v in votes.iter_mut() {
                if e < v.init || e >= v.end || active.contains_key(&v.wip) || avoid.contains(&v.wip) {
                    c.event("not counted");
                    continue;
                }
                v.votes += (word >> v.bit) & 1;
                if (e - v.init) % v.period == 0 {
                    c.event("period ended");
                    if v.votes * 100 >= 80 * v.period {
                        close |= v.votes * 100 < 80 * v.period + 200;
                        active.insert(v.wip.clone(), block + 21);
                        c.event("activated");
                    } else if (v.votes + 1) * 100 >= 80 * v.period {
                        c.event("just not activated");
                    }
                    v.votes = 0;
                }
            }
        }
        last = epoch;
        trace += &format!(" {epoch}:{word:x}");
        if c.rng.chance(1, 20) {
            c.event("reread");
            let b = bincode::serialize(&t).unwrap();
            t = bincode::deserialize(&b).unwrap();
        }
        let got: BTreeMap<String, u32> = t.wip_activation.iter().map(|(k, v)| (k.clone(), *v)).collect();
        if !c.check(got == active, "activations", || format!("{got:?} instead of {active:?}; {trace}")) {
            return;
        }
        c.eqd("last-epoch", &t.bit_tapi_counter.last_epoch(), &last, || trace.clone());
        for v in &votes {
            let inside = epoch >= v.init && epoch < v.end;
            c.eqd("voting-range", &t.in_voting_range(epoch, &v.wip), &inside, || format!("{}; {trace}", v.wip));
            if let Some(b) = t.bit_tapi_counter.get(v.bit, &epoch) {
                if !c.check(inside && b.votes == v.votes && b.wip == v.wip, "votes", || format!("{b:?} instead of {}; {trace}", v.votes)) {
                    return;
                }
            } else {
                c.check(!inside, "vote-missing", || format!("{}; {trace}", v.wip));
            }
        }
        let open: Vec<String> = t.bit_tapi_counter.info(&t.wip_activation).into_iter().map(|b| b.wip).collect();
        let mut want: Vec<(usize, String)> = votes.iter().filter(|v| !active.contains_key(&v.wip)).map(|v| (v.bit, v.wip.clone())).collect();
        want.sort();
        c.eqd("open-votes", &open, &want.into_iter().map(|x| x.1).collect::<Vec<_>>(), || trace.clone());
    }
    if close {
        c.nontrivial(&trace);
    }
    c.sample(|| trace.clone());
}

fn ask(a: &ActiveWips) -> [(&'static str, bool); 17] {
    [
        ("WIP0008", a.wip_0008()),
        ("WIP0009-0011-0012", a.wips_0009_0011_0012()),
        ("THIRD_HARD_FORK", a.third_hard_fork()),
        ("WIP0014-0016", a.wip0014()),
        ("WIP0014-0016", a.wip0016()),
        ("WIP0017-0018-0019", a.wip0017()),
        ("WIP0017-0018-0019", a.wip0018()),
        ("WIP0017-0018-0019", a.wip0019()),
        ("WIP0020-0021", a.wip0020()),
        ("WIP0020-0021", a.wip0021()),
        ("WIP0022", a.wip0022()),
        ("WIP0023", a.wip0023()),
        ("WIP0024", a.wip0024()),
        ("WIP0025", a.wip0025()),
        ("WIP0026", a.wip0026()),
        ("WIP0027", a.wip0027()),
        ("WIP0028", a.wip0028()),
    ]
}

fn tables(c: &mut Case) {
    let env = *c.rng.pick(&[Environment::Mainnet, Environment::Testnet, Environment::Development]);
    let main = env == Environment::Mainnet;
    let mut t = TapiEngine::default();
    // What was kept by an earlier version: an activation and votes under way.
    if c.rng.bool() {
        t.wip_activation.insert("WIP9999".into(), 5);
        t.bit_tapi_counter.insert(BitVotesCounter { votes: 3, period: 10, wip: "WIP9998".into(), init: 1, end: u32::MAX, bit: c.rng.below(32) as usize });
    }
    let kept = t.wip_activation.len();
    let (min, old) = t.initialize_wip_information(env);
    c.check(min == u32::MAX && old.is_empty() && t.bit_tapi_counter.is_empty(), "votes-left", || format!("{min} {old:?} {:?}", t.bit_tapi_counter));
    c.eqd("wip-count", &t.wip_activation.len(), &(MAINNET.len() + kept), || format!("{:?}", t.wip_activation));
    let mut epochs: Vec<u32> = vec![0, 1, u32::MAX, c.rng.u32(), c.rng.below(4_000_000) as u32];
    let (_, e) = *c.rng.pick(&MAINNET);
    epochs.extend([e - 1, e, e + 1]);
    for q in epochs {
        c.eval(1);
        c.event("lookup");
        let mut a = ActiveWips { active_wips: t.wip_activation.clone(), block_epoch: 0 };
        a.set_epoch(q);
        for (name, got) in ask(&a) {
            let first = if main { MAINNET.iter().find(|x| x.0 == name).unwrap().1 } else { 0 };
            c.eqd("wip-active", &got, &(q >= first), || format!("{name} at {q} in {env:?}"));
        }
        for (what, got, first, elsewhere) in [("first", after_first_hard_fork(q, env), 192_000, true), ("second", after_second_hard_fork(q, env), 376_320, true), ("third", after_third_hard_fork(q, env), 445_440, false)] {
            c.eqd("hard-fork", &got, &(if main { q >= first } else { elsewhere }), || format!("{what} at {q} in {env:?}"));
        }
    }
    // A proposal that nobody activated is not active; one that is inserted is, from its epoch on.
    let mut a = ActiveWips::default();
    let (name, _) = *c.rng.pick(&MAINNET);
    let e = c.rng.below(1000) as u32;
    a.insert_wip(name, e);
    for q in [e.saturating_sub(1), e, e + 1] {
        a.set_epoch(q);
        for (n, got) in ask(&a) {
            c.eqd("wip-inserted", &got, &(n == name && q >= e), || format!("{n} at {q} with {name} from {e}"));
        }
    }
    let (a, b, who) = *c.rng.pick(&COMMITTEES);
    for i in [a - 1, a, a + 1, b - 1, b, b + 1, c.rng.below(400_000) as u32] {
        c.event("lookup");
        let got = c.nopanic("panic", || format!("{i}"), || in_emergency_period(i, env));
        let want = COMMITTEES.iter().find(|x| main && i > x.0 && i < x.1).map(|x| x.2);
        let got = got.flatten().map(|v| v.iter().map(|p| p.bech32(Environment::Mainnet)).collect::<Vec<_>>());
        c.check(got.as_ref().map(|v| v.iter().map(|s| s.as_str()).collect::<Vec<_>>()) == want.map(|w| w.to_vec()), "emergency-committee", || format!("superblock {i} in {env:?}: {got:?}"));
    }
    let _ = who;
}
