//! C29: who may propose a block and who may witness, with the stakes; C37: the same with reputation, before 2.0.
use crate::world::*;
use std::collections::BTreeMap;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::*;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::wit::Wit;
use witnet_validations::eligibility::current::{Eligibility, Eligible, IneligibilityReason};
use witnet_validations::eligibility::legacy::*;

pub fn staking(m: &mut Mon) {
    m.rule("Stake trackers of up to 40 entries, with ages reset at random, are asked who may propose a block and who may witness, at which target, at random epochs, replication factors and rounds; compared with an own ranking over plain maps. Non-trivial: a distinct population and question in which some are eligible and some are not.");
    m.require("may propose", 2_000);
    m.require("may not propose", 2_000);
    m.require("may witness", 2_000);
    m.require("too little power to witness", 2_000);
    m.require("no power", 500);
    m.require("not staking", 500);
    versions();
    m.run_par("mining", m.n(20_000, 400_000), mining);
    m.run_par("witnessing", m.n(20_000, 400_000), witnessing);
    m.run("replication", m.n(4_000, 100_000), replication);
}

struct Member {
    coins: u64,
    withdrawer: PublicKeyHash,
    mining: u32,
    witnessing: u32,
}
type Members = BTreeMap<PublicKeyHash, Member>;
fn members(r: &mut Rng, t: &mut StakesTracker, epoch: u32) -> Members {
    let mut m = Members::new();
    let n = match r.below(5) {
        0 => r.below(4),
        1 => 40,
        _ => r.below(30),
    } as usize;
    let alike = r.chance(1, 3);
    for i in 0..n {
        let coins = match r.below(5) {
            _ if alike => MIN_STAKE,
            0 => MIN_STAKE,
            1 => MAX_STAKE,
            2 => MIN_STAKE + r.below(2 * WIT),
            3 => MIN_STAKE + r.below(100) * MIN_STAKE,
            _ => r.range(MIN_STAKE, MAX_STAKE),
        };
        let since = match r.below(4) {
            0 => epoch,
            1 => epoch - r.below(3) as u32,
            2 => epoch - 10,
            _ => epoch - r.below(100_000) as u32,
        };
        let withdrawer = who(if r.bool() { i } else { r.idx(40) }).pkh;
        t.add_stake(StakeKey { validator: who(i).pkh, withdrawer }, Wit::from_nanowits(coins), since, true, Wit::from_nanowits(0)).unwrap();
        m.insert(who(i).pkh, Member { coins, withdrawer, mining: since, witnessing: since });
    }
    for i in 0..n {
        if r.chance(1, 3) {
            let factor = *r.pick(&[1, 2, 5, 10]);
            let x = m.get_mut(&who(i).pkh).unwrap();
            let (cap, age) = if r.bool() { (Capability::Mining, &mut x.mining) } else { (Capability::Witnessing, &mut x.witnessing) };
            t.reset_age(who(i).pkh, cap, epoch, factor).unwrap();
            *age += (epoch - *age) / factor;
        }
    }
    m
}
/// The powers and their holders, from the largest power; equal ones from the largest address.
fn rank(m: &Members, epoch: u32, age: impl Fn(&Member) -> u32) -> Vec<(u64, PublicKeyHash)> {
    let mut v: Vec<_> = m.iter().map(|(k, x)| ((x.coins / WIT) * u64::from(epoch.saturating_sub(age(x))), *k)).collect();
    v.sort();
    v.reverse();
    v
}

fn mining(c: &mut Case) {
    let epoch = V2_AT + 200_000 + c.rng.below(10_000) as u32;
    let mut t = StakesTracker::default();
    let m = members(&mut c.rng, &mut t, epoch);
    let at = epoch + if c.rng.bool() { 0 } else { c.rng.below(5) as u32 };
    let order = rank(&m, at, |x| x.mining);
    for _ in 0..3 {
        let rf = match c.rng.below(4) {
            0 => *c.rng.pick(&[4, 8, 16, 32, 64, u16::MAX]),
            1 => c.rng.below(3) as u16,
            _ => c.rng.below(50) as u16,
        };
        let places = usize::from(rf).min(order.len() * 2 / 3);
        let mut yes = 0;
        for i in 0..40 {
            let want = order[..places].iter().any(|x| x.1 == who(i).pkh);
            let Some(got) = c.nopanic("panic", || format!("{m} stakers, rf {rf}", m = m.len()), || t.mining_eligibility(who(i).pkh, at, rf)) else { return };
            let text = || format!("{i} of {} at {at}, rf {rf}: {got:?}, ranked {:?} for {places} places", m.len(), order.iter().position(|x| x.1 == who(i).pkh));
            match &got {
                Ok(Eligible::Yes) => c.check(want, "proposer-accepted", text),
                Ok(Eligible::No(_)) => c.check(!want, "proposer-refused", text),
                Err(_) => c.check(false, "proposer-error", text),
            };
            c.eq("proposer-bool", &t.mining_eligibility_bool(who(i).pkh, at, rf), &want);
            c.event(if want { "may propose" } else { "may not propose" });
            yes += usize::from(want);
        }
        c.eval(40);
        if yes > 0 && yes < m.len() {
            c.nontrivial(&format!("{rf} {at} {order:?}"));
        }
    }
}

fn bits(x: u64) -> u128 {
    (0..64).rev().find(|b| x >> b & 1 == 1).map_or(0, |b| b + 1)
}
fn witnessing(c: &mut Case) {
    let epoch = V2_AT + 200_000 + c.rng.below(10_000) as u32;
    let mut t = StakesTracker::default();
    let m = members(&mut c.rng, &mut t, epoch);
    let order = rank(&m, epoch, |x| x.witnessing);
    let top = order.first().map_or(0, |x| x.0);
    for _ in 0..3 {
        let rounds = *c.rng.pick(&[0u16, 1, 2, 3, 4, 4, 4, 7, 16]);
        let witnesses = match c.rng.below(3) {
            0 => c.rng.range(1, 3),
            1 => c.rng.range(1, 130),
            _ => c.rng.range(2, 15),
        } as u16;
        let mut before: BTreeMap<usize, Hash> = BTreeMap::new();
        for round in 0..=rounds.min(6) {
            let place = usize::from(witnesses) << round;
            let threshold = if place < 2 { 0 } else { order.get(place - 1).map_or(0, |x| x.0) };
            for i in 0..40 {
                let k = who(i).pkh;
                let text = || format!("{i} of {} at {epoch}, {witnesses} witnesses, round {round} of {rounds}, threshold {threshold}, top {top}, {:?}", m.len(), order.iter().find(|x| x.1 == k));
                let Some(got) = c.nopanic("panic", text, || t.witnessing_eligibility(k, epoch, witnesses, round, rounds)) else { return };
                let Ok((got, target, probability)) = got else {
                    c.check(false, "witness-error", || format!("{got:?}; {}", text()));
                    continue;
                };
                let power = order.iter().find(|x| x.1 == k).map(|x| x.0);
                let want = match power {
                    None => Eligible::No(IneligibilityReason::NotStaking),
                    Some(p) if p == 0 || p <= threshold => Eligible::No(IneligibilityReason::InsufficientPower),
                    _ => Eligible::Yes,
                };
                c.check(got == want, "witness-eligibility", || format!("{got:?} instead of {want:?}; {}", text()));
                c.check(t.witnessing_eligibility_bool(k, epoch, witnesses, round, rounds) == (want == Eligible::Yes), "witness-bool", text);
                c.eval(1);
                if want != Eligible::Yes {
                    c.event(match power {
                        None => "not staking",
                        Some(0) => "no power",
                        _ => "too little power to witness",
                    });
                    c.check(target == Hash::SHA256([0; 32]) && probability == 0.0, "witness-target", || format!("target {target} for somebody not eligible; {}", text()));
                    // Once in, always in
                    c.check(!before.contains_key(&i), "witness-later-round", || format!("eligible in an earlier round; {}", text()));
                    continue;
                }
                c.event("may witness");
                let p = power.unwrap();
                let share = u128::from(rounds) * bits(p);
                let of = u128::from(round) * bits(threshold) + u128::from(rounds - round) * bits(top);
                let first = if of == 0 { u32::MAX } else { (u64::try_from(u128::from(u64::MAX) / of * share).unwrap_or(u64::MAX) >> 32) as u32 };
                let mut h = [0xff; 32];
                h[..4].copy_from_slice(&first.to_be_bytes());
                c.check(target == Hash::SHA256(h), "witness-target", || format!("target {target} instead of {}; {}", Hash::SHA256(h), text()));
                let odds = if of == 0 { 1.0 } else { share as f64 / of as f64 };
                c.check((probability - odds).abs() < 1e-9, "witness-probability", || format!("probability {probability} instead of {odds}; {}", text()));
                if let Some(b) = before.get(&i) {
                    c.check(*b <= target, "witness-later-round", || format!("the target went down from {b} to {target}; {}", text()));
                }
                // A single witness: the first round is open to everyone
                if place >= 2 {
                    before.insert(i, target);
                }
            }
        }
        if !before.is_empty() && before.len() < m.len() {
            c.nontrivial(&format!("{witnesses} {rounds} {order:?}"));
        }
    }
}
fn replication(c: &mut Case) {
    let w = ConsensusConstantsWit2::default();
    let r = &mut c.rng;
    let prev = if r.bool() { r.below(u64::from(2 * V2_AT)) as u32 } else { V2_AT + r.below(30) as u32 };
    let epoch = match r.below(4) {
        0 => prev.saturating_sub(r.below(3) as u32),
        1 => r.below(1 << 32) as u32,
        _ => prev + r.below(20) as u32,
    };
    let want = if epoch < V2_AT || epoch < prev {
        0
    } else if epoch - prev >= 14 {
        u16::MAX
    } else {
        4 << (epoch - prev)
    };
    c.eval(1);
    let got = c.nopanic("panic", || format!("{epoch} after {prev}"), || w.get_replication_factor(epoch, prev));
    if let Some(got) = got {
        c.check(got == want, "replication-factor", || format!("{got} at {epoch} after {prev}, expected {want}"));
    }
}

pub fn reputed(m: &mut Mon) {
    m.rule("A reputation engine lives through random gains, penalties, expirations and activity changes of up to 30 identities; at random points its ordering, eligibilities, total and threshold factors are asked and compared with those of a fresh copy (nothing cached), with an own ordering, and with the sums they must keep; the mining and witnessing targets and the mining slots are compared with integer formulas. Non-trivial: a distinct reputation state with reputed and unreputed active identities.");
    m.require("asked after a change", 3_000);
    m.require("target", 10_000);
    m.require("factor met", 2_000);
    m.require("factor capped", 500);
    m.run_par("engine", m.n(30_000, 600_000), engine);
    m.run_par("targets", m.n(40_000, 1_000_000), targets);
}
fn stir(r: &mut Rng, e: &mut ReputationEngine) {
    for _ in 0..r.range(1, 8) {
        let now = e.current_alpha();
        let i = r.idx(30);
        let k = who(i).pkh;
        match r.below(8) {
            0..=2 => {
                let amount = match r.below(4) {
                    0 => 1,
                    1 => r.below(5),
                    2 => r.below(1 << 14),
                    _ => 100,
                } as u32;
                let last = e.trs().queue().last().map_or(0, |x| x.0 .0);
                let until = Alpha(last.max(now.0 + 50) + r.below(20) as u32);
                let mut to = vec![(k, Reputation(amount))];
                if r.bool() {
                    to = (0..r.below(12)).map(|_| (who(r.idx(30)).pkh, Reputation(1 + r.below(u64::from(amount) + 1) as u32))).collect();
                }
                e.trs_mut().gain(until, to).unwrap();
            }
            3 => {
                let cut = r.below(3);
                let _ = e.trs_mut().penalize(&k, |x| Reputation((u64::from(x.0) * cut / 3) as u32));
            }
            4 => {
                let to = Alpha(now.0 + if r.chance(1, 6) { r.below(60) } else { r.below(6) } as u32);
                e.set_current_alpha(to);
                e.trs_mut().expire(&to);
            }
            5 | 6 => {
                let new: Vec<PublicKeyHash> = (0..r.below(12)).map(|_| who(r.idx(30)).pkh).collect();
                e.ars_mut().push_activity(new);
            }
            _ => {
                let to = Alpha(now.0 + r.below(2) as u32);
                e.set_current_alpha(to);
            }
        }
    }
}
fn engine(c: &mut Case) {
    let period = c.rng.range(1, 6) as usize;
    let mut e = ReputationEngine::new(period);
    for _ in 0..c.rng.range(2, 7) {
        stir(&mut c.rng, &mut e);
        let fresh: ReputationEngine = bincode::deserialize(&bincode::serialize(&e).unwrap()).unwrap();
        let active: Vec<PublicKeyHash> = (0..30).map(|i| who(i).pkh).filter(|k| e.ars().contains(k)).collect();
        let rep = |k: &PublicKeyHash| e.trs().get(k).0;
        let text = || format!("alpha {:?}, active {:?}", e.current_alpha(), active.iter().map(|k| (index_of(k).unwrap(), rep(k))).collect::<Vec<_>>());
        c.event("asked after a change");
        c.eval(1);
        // Order
        let mut want = active.clone();
        let alpha = e.current_alpha().0.to_be_bytes();
        want.sort_by_key(|k| {
            let tie: Vec<u8> = if rep(k) > 0 { vref::hash::sha256(&[k.as_ref(), &alpha[..]].concat()).to_vec() } else { k.as_ref().to_vec() };
            std::cmp::Reverse((rep(k), tie))
        });
        let Some(order) = c.nopanic("panic", text, || e.get_rep_ordered_ars_list()) else { return };
        c.check(order == want, "order", || format!("{:?} instead of {:?}; {}", order.iter().map(index_of).collect::<Vec<_>>(), want.iter().map(index_of).collect::<Vec<_>>(), text()));
        c.check(fresh.get_rep_ordered_ars_list() == order, "stale-order", text);
        // Totals and eligibility
        let total = e.total_active_reputation();
        let sum: u64 = active.iter().map(|k| u64::from(rep(k))).sum();
        c.check(total == sum + active.len() as u64, "total", || format!("{total}; {}", text()));
        c.check(fresh.total_active_reputation() == total, "stale-total", text);
        let each: Vec<u32> = order.iter().map(|k| e.get_eligibility(k)).collect();
        c.check(each.iter().map(|x| u64::from(*x)).sum::<u64>() == sum, "eligibility-sum", || format!("{each:?}; {}", text()));
        c.check(each.windows(2).all(|w| w[0] >= w[1]), "eligibility-order", || format!("{each:?}; {}", text()));
        let reputed = order.iter().filter(|k| rep(k) > 0).count();
        c.check(each[reputed..].iter().all(|x| *x == 0), "eligibility-of-nobody", || format!("{each:?}; {}", text()));
        if reputed > 1 {
            // A trapezoid: what the last one has is the smallest reputation, give or take rounding
            let least = rep(&order[reputed - 1]);
            let (lo, hi) = (each[reputed - 1], each[0]);
            let avg = sum as f64 / reputed as f64;
            let at = |i: usize| f64::from(least) + 1.5 * (avg - f64::from(least)) * (1.0 - i as f64 / (reputed - 1) as f64);
            let base = (sum as f64 - 0.75 * (avg - f64::from(least)) * reputed as f64) / reputed as f64;
            let shape = |i: usize| at(i) - f64::from(least) + base;
            c.check((f64::from(hi) - shape(0)).abs() < 3.0 && (f64::from(lo) - shape(reputed - 1)).abs() < 3.0, "eligibility-shape", || {
                format!("from {hi} to {lo} instead of {} to {}; {}", shape(0), shape(reputed - 1), text())
            });
        }
        for i in 0..30 {
            let k = who(i).pkh;
            c.check(fresh.get_eligibility(&k) == e.get_eligibility(&k), "stale-eligibility", || format!("of {i}: {} or {}; {}", fresh.get_eligibility(&k), e.get_eligibility(&k), text()));
            if !active.contains(&k) {
                c.check(e.get_eligibility(&k) == 0, "inactive-eligibility", text);
            }
            c.check(e.is_ars_member(&k) == active.contains(&k), "active-member", text);
        }
        // With this factor, as many as wanted are expected to be eligible
        let weights: Vec<u128> = each.iter().map(|x| u128::from(*x) + 1).collect();
        for n in [0u16, 1, 2, 3, c.rng.range(1, 40) as u16, 1000] {
            let Some(f) = c.nopanic("panic", text, || e.threshold_factor(n)) else { return };
            c.check(fresh.threshold_factor(n) == f, "stale-factor", text);
            let expected = |f: u128| weights.iter().map(|w| (f * w).min(u128::from(total))).sum::<u128>();
            let wanted = u128::from(n) * u128::from(total);
            if n == 0 {
                c.eq("factor-zero", &f, &0);
            } else if usize::from(n) > active.len() {
                c.event("factor capped");
                c.eq("factor-impossible", &f, &u32::MAX);
            } else {
                c.event("factor met");
                c.check(expected(u128::from(f)) >= wanted && (f < 3 || expected(u128::from(f) - 2) < wanted), "factor", || format!("{f} for {n}: {} of {wanted}; {}", expected(u128::from(f)), text()));
            }
        }
        if reputed > 0 && reputed < active.len() {
            c.nontrivial(&text());
        }
    }
}
fn low(first: u64) -> Hash {
    let mut h = [0xff; 32];
    h[..4].copy_from_slice(&(first as u32).to_be_bytes());
    Hash::SHA256(h)
}
fn capped(a: u64, b: u128) -> u64 {
    u64::try_from(u128::from(a) * b).unwrap_or(u64::MAX)
}
fn targets(c: &mut Case) {
    let r = &mut c.rng;
    let mut e = ReputationEngine::new(4);
    for _ in 0..r.below(4) {
        stir(r, &mut e);
    }
    let with = r.bool();
    let w = if with { wips(&[], 10) } else { wips(&[*r.pick(&["WIP0009-0011-0012", "WIP0014-0016", "THIRD_HARD_FORK"])], 10) };
    let base = if with { w } else if r.bool() { wips(&["WIP0014-0016", "THIRD_HARD_FORK"], 10) } else { w };
    let on = |n: &str| base.active_wips.contains_key(n);
    let ids = match r.below(4) {
        0 => 0,
        1 => r.below(3),
        2 => r.below(2000),
        _ => r.below(1 << 32),
    } as u32;
    let difficulty = *r.pick(&[0u32, 1, 2, 50, 2000, u32::MAX]);
    let until = r.below(100) as u32;
    let epoch = r.below(200) as u32;
    let rf = *r.pick(&[0u32, 1, 2, 3, 4, 8, 1000, u32::MAX]);
    let max = u64::MAX;
    let want = |rf: u32| {
        let t = if epoch <= until {
            max / u64::from(difficulty.max(1))
        } else {
            let among = if on("WIP0009-0011-0012") { ids.max(difficulty).max(1) } else { ids.max(1) };
            capped(max / u64::from(among), u128::from(rf))
        };
        low(t >> 32)
    };
    let text = || format!("{ids} identities, rf {rf}, epoch {epoch} with {until} of difficulty {difficulty}");
    let Some((got, p)) = c.nopanic("panic", text, || calculate_randpoe_threshold(ids, rf, epoch, difficulty, until, &base)) else { return };
    c.eval(1);
    c.event("target");
    c.check(got == want(rf), "mining-target", || format!("{got} instead of {}; {}", want(rf), text()));
    c.check((0.0..=1.0).contains(&p), "mining-probability", text);
    // Slots
    let (a, b) = (c.rng.range(1, 5) as u32, c.rng.range(1, 10) as u32);
    let Some(slots) = c.nopanic("panic", text, || VrfSlots::from_rf(ids, a, b, epoch, difficulty, until, &base)) else { return };
    let limits: Vec<Hash> = (a..=b).map(want).collect();
    c.check(slots.target_hashes() == limits, "slots", || format!("{:?} instead of {limits:?}; {}", slots.target_hashes(), text()));
    for _ in 0..4 {
        let mut h = Hash::SHA256(c.rng.arr());
        if !limits.is_empty() && c.rng.bool() {
            h = *c.rng.pick(&limits);
            if c.rng.bool() {
                // One above
                let Hash::SHA256(mut x) = h;
                for b in x.iter_mut().rev() {
                    let (v, over) = b.overflowing_add(1);
                    *b = v;
                    if !over {
                        break;
                    }
                }
                h = Hash::SHA256(x);
            }
        }
        let slot = limits.iter().filter(|l| h > **l).count();
        // Targets only grow with the factor, so counting the smaller ones is the slot
        let got = slots.slot(&h);
        c.check(got as usize == slot, "slot", || format!("{h} in slot {got} instead of {slot}; {}", text()));
    }
    // Witnessing
    let total = e.total_active_reputation().max(1);
    let witnesses = c.rng.below(130) as u16;
    let difficulty = difficulty.max(1);
    for i in 0..6 {
        let k = who(i).pkh;
        let mine = u128::from(e.get_eligibility(&k)) + 1;
        let want = if on("WIP0014-0016") {
            let x = capped(max / total.max(u64::from(difficulty)), mine);
            capped(x, u128::from(witnesses))
        } else {
            let f = u128::from(e.threshold_factor(witnesses));
            let x = capped(max / total, mine);
            let x = if on("THIRD_HARD_FORK") { x.min(max / u64::from(difficulty)) } else { x };
            capped(x, f)
        };
        let Some((got, p)) = c.nopanic("panic", text, || calculate_reppoe_threshold(&e, &k, witnesses, difficulty, &base)) else { return };
        c.event("target");
        c.check(got == low(want >> 32), "witness-target", || format!("{got} instead of {}, {mine} of {total}, {witnesses} witnesses, difficulty {difficulty}", low(want >> 32)));
        c.check((0.0..=1.0).contains(&p), "witness-probability", text);
    }
    c.nontrivial(&text());
}
