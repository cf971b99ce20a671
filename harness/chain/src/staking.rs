//! C26: histories of the staking ledger against a plain map of entries.
use std::collections::{BTreeMap, BTreeSet};
use vmon::{Case, Mon, Rng};
use witnet_data_structures::capabilities::{Capability, ALL_CAPABILITIES};
use witnet_data_structures::chain::PublicKeyHash;
use witnet_data_structures::staking::prelude::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::chain::{StakeOutput, ValueTransferOutput};
use witnet_data_structures::wit::{Wit, WIT_DECIMAL_PLACES};

const WIT: u64 = 1_000_000_000;
type Key = (PublicKeyHash, PublicKeyHash);

#[derive(Clone, PartialEq, Debug)]
struct E {
    coins: u64,
    mining: u32,
    witnessing: u32,
    nonce: u64,
}
impl E {
    fn cap(&mut self, c: Capability) -> &mut u32 {
        match c {
            Capability::Mining => &mut self.mining,
            Capability::Witnessing => &mut self.witnessing,
        }
    }
    fn power(&self, c: Capability, now: u32) -> u64 {
        let since = match c {
            Capability::Mining => self.mining,
            Capability::Witnessing => self.witnessing,
        };
        (self.coins / WIT) * u64::from(now.saturating_sub(since))
    }
    fn add(&mut self, coins: u64, epoch: u32) {
        let before = u128::from(self.coins / WIT);
        let added = u128::from(coins / WIT);
        self.coins += coins;
        let whole = u128::from(self.coins / WIT);
        for c in ALL_CAPABILITIES {
            let e = self.cap(c);
            *e = if whole == 0 { epoch } else { ((before * u128::from(*e) + added * u128::from(epoch)) / whole) as u32 };
        }
    }
}
#[derive(Clone, Default)]
struct Model(BTreeMap<Key, E>);
impl Model {
    fn of(&self, v: &PublicKeyHash) -> Vec<Key> {
        self.0.keys().filter(|k| k.0 == *v).cloned().collect()
    }
    /// Most powerful first; equal powers: larger address first.
    fn rank(&self, c: Capability, now: u32) -> Vec<(Key, u64)> {
        let mut v: Vec<(u64, Key)> = self.0.iter().map(|(k, e)| (e.power(c, now), *k)).collect();
        v.sort();
        v.reverse();
        v.into_iter().map(|(p, k)| (k, p)).collect()
    }
}
fn key(k: &Key) -> StakeKey<PublicKeyHash> {
    StakeKey { validator: k.0, withdrawer: k.1 }
}
fn amount(r: &mut Rng, min: u64) -> u64 {
    match r.below(10) {
        0 => min.saturating_sub(1),
        1 => min,
        2 => min + r.below(WIT),
        3 => r.below(3 * WIT),
        4 => r.range(1, 10_000_000) * WIT,
        _ => min + r.below(50_000 * WIT),
    }
}

pub fn ledger(m: &mut Mon) {
    m.rule("Histories of stake and unstake transactions, direct additions and removals, rewards, collateral, age resets, clones and restarts run over the real tracker and a plain map; after every step every entry, index, total, power, rank and census is compared; non-trivial: a distinct history in which entries were also removed.");
    for k in ["staked", "staked more", "below minimum", "unstaked part", "unstaked all", "rest below minimum", "too much", "unknown entry", "reward", "collateral", "mining reset", "witnessing reset", "restart", "clone", "two withdrawers", "drained by collateral"] {
        m.require(k, 20);
    }
    let n = m.n(12_000, 400_000);
    m.run_par("histories", n, history);
}

fn history(c: &mut Case) {
    let addr: Vec<PublicKeyHash> = (0..6).map(|_| PublicKeyHash::from_bytes(&c.rng.arr::<20>()).unwrap()).collect();
    let min = *c.rng.pick(&[0, WIT, 10_000 * WIT]);
    let several = c.rng.chance(1, 3);
    let mut real = StakesTracker::default();
    let mut m = Model::default();
    let mut epoch = c.rng.range(1, 50) as u32;
    let steps = c.rng.range(5, 45);
    let mut removed = false;
    let mut log: Vec<String> = vec![];
    for _ in 0..steps {
        epoch += *c.rng.pick(&[0, 0, 1, 1, 5, 1000]);
        let v = *c.rng.pick(&addr);
        // Usually each validator sticks to one withdrawer, as the validations demand
        let w = match m.of(&v).first() {
            Some(k) if !several => k.1,
            _ if several => *c.rng.pick(&addr),
            _ => *c.rng.pick(&addr),
        };
        let k = (v, w);
        let set_nonce = c.rng.chance(3, 4);
        let op = c.rng.below(14);
        let before = m.0.len();
        match op {
            0..=3 => {
                let a = amount(&mut c.rng, min);
                log.push(format!("e{epoch} add {a} to {}/{} nonce {set_nonce}", v, w));
                let existed = m.0.contains_key(&k);
                let via_tx = c.rng.bool();
                let ok = c.nopanic("panic", || log.join("; "), || {
                    if via_tx {
                        let tx = StakeTransaction::new(StakeTransactionBody::new(vec![], StakeOutput { key: key(&k), value: a, ..Default::default() }, None), vec![]);
                        process_stake_transactions(&mut real, [tx].iter(), epoch, min).map(|_| None)
                    } else {
                        real.add_stake(key(&k), Wit::from_nanowits(a), epoch, set_nonce, Wit::from_nanowits(min)).map(Some)
                    }
                });
                let Some(ok) = ok else { return };
                if a < min {
                    c.event("below minimum");
                    c.check(matches!(ok, Err(StakesError::AmountIsBelowMinimum { .. })), "minimum", || format!("{ok:?}; {}", log.join("; ")));
                } else {
                    c.event(if existed { "staked more" } else { "staked" });
                    let e = m.0.entry(k).or_insert(E { coins: 0, mining: 0, witnessing: 0, nonce: u64::from(epoch) });
                    e.add(a, epoch);
                    if set_nonce || via_tx {
                        e.nonce = u64::from(epoch);
                    }
                    match ok {
                        Ok(Some(s)) => c.check(s.coins.nanowits() == e.coins, "returned", || format!("{s:?}; {}", log.join("; "))),
                        Ok(None) => true,
                        Err(e) => {
                            c.violate("refused", format!("{e:?}; {}", log.join("; ")));
                            return;
                        }
                    };
                }
            }
            4..=6 => {
                let k = if !m.0.is_empty() && c.rng.chance(7, 8) { *c.rng.pick(&m.0.keys().cloned().collect::<Vec<_>>()) } else { k };
                let have = m.0.get(&k).map(|e| e.coins).unwrap_or(0);
                let a = match c.rng.below(6) {
                    0 | 1 => have,
                    2 => have / 2,
                    3 => have.saturating_sub(min),
                    4 => have.saturating_sub(min).saturating_add(1).min(have),
                    _ => have + c.rng.range(1, 5 * WIT),
                };
                log.push(format!("e{epoch} remove {a} from {}/{}", k.0, k.1));
                let via_tx = c.rng.bool();
                let got = c.nopanic("panic", || log.join("; "), || {
                    if via_tx {
                        let fee = a / 3;
                        let tx = UnstakeTransaction::new(UnstakeTransactionBody::new(k.0, ValueTransferOutput { pkh: k.1, value: a - fee, time_lock: 0 }, fee, 0), Default::default());
                        process_unstake_transactions(&mut real, [tx].iter(), epoch, min).map(|_| None)
                    } else {
                        real.remove_stake(key(&k), Wit::from_nanowits(a), epoch, set_nonce, Wit::from_nanowits(min)).map(Some)
                    }
                });
                let Some(got) = got else { return };
                let what = || format!("{got:?}; {}", log.join("; "));
                if !m.0.contains_key(&k) {
                    c.event("unknown entry");
                    c.check(matches!(got, Err(StakesError::EntryNotFound { .. })), "unknown", what);
                } else if a > have {
                    c.event("too much");
                    c.check(got.is_err(), "too-much", what);
                } else if a < have && have - a < min {
                    c.event("rest below minimum");
                    c.check(matches!(got, Err(StakesError::AmountIsBelowMinimum { .. })), "minimum-left", what);
                } else {
                    let left = have - a;
                    c.check(matches!(got, Ok(x) if x.is_none() || x == Some(Wit::from_nanowits(left))), "removed", what);
                    if left == 0 {
                        c.event("unstaked all");
                        removed = true;
                        m.0.remove(&k);
                    } else {
                        c.event("unstaked part");
                        let e = m.0.get_mut(&k).unwrap();
                        e.coins = left;
                        if set_nonce || via_tx {
                            e.nonce = u64::from(epoch);
                        }
                    }
                }
            }
            7 | 8 => {
                let take = op == 8;
                let mine = m.of(&v);
                let have = mine.first().map(|k| m.0[k].coins).unwrap_or(0);
                let a = if take {
                    // Collateral is only reserved when the balance allows it
                    if mine.len() > 1 { continue }
                    if c.rng.chance(1, 4) { have } else { c.rng.below(have.saturating_sub(min).max(1)) }
                } else {
                    c.rng.below(300 * WIT)
                };
                log.push(format!("e{epoch} {} {a} {}", if take { "reserve" } else { "reward" }, v));
                let Some(got) = c.nopanic("panic", || log.join("; "), || {
                    if take {
                        real.reserve_collateral(v, Wit::from_nanowits(a), Wit::from_nanowits(min))
                    } else {
                        real.add_reward(v, Wit::from_nanowits(a), epoch)
                    }
                }) else { return };
                if mine.is_empty() {
                    c.check(matches!(got, Err(StakesError::ValidatorNotFound { .. })), "unknown-validator", || log.join("; "));
                } else {
                    c.check(got.is_ok(), "reward", || log.join("; "));
                    // With several entries for one validator, any one of them takes it all
                    let target = mine.iter().find(|k| real.query_stakes(key_q(k)).ok().and_then(|l| l.first().map(|e| e.value.coins.nanowits())) != Some(m.0[k].coins));
                    let k = *target.unwrap_or(&mine[0]);
                    let e = m.0.get_mut(&k).unwrap();
                    if take {
                        c.event("collateral");
                        e.coins -= a;
                        if e.coins == 0 {
                            c.event("drained by collateral");
                        }
                    } else {
                        c.event("reward");
                        if mine.len() > 1 && (a == 0 || target.is_none()) {
                            // No way to tell which one was touched
                            if a == 0 {
                                return;
                            }
                        }
                        e.add(a, epoch);
                    }
                }
            }
            9 => {
                log.push(format!("e{epoch} mined {}", v));
                let rank = m.rank(Capability::Mining, epoch);
                if c.nopanic("panic", || log.join("; "), || real.reset_mining_age(v, epoch)).is_none() {
                    return;
                }
                if let Some(at) = rank.iter().position(|(k, _)| k.0 == v) {
                    c.event("mining reset");
                    for (i, (k, _)) in rank.iter().take(at + 1).enumerate() {
                        m.0.get_mut(k).unwrap().mining = epoch + (1 + at - i) as u32;
                    }
                }
            }
            10 => {
                let mine = m.of(&v);
                let factor = *c.rng.pick(&[1u32, 1, 1, 2, 3, 7]);
                let to = epoch + *c.rng.pick(&[1, 10]);
                if mine.iter().any(|k| m.0[k].witnessing > to) {
                    continue;
                }
                log.push(format!("e{epoch} reset {} to {to} factor {factor}", v));
                let Some(got) = c.nopanic("panic", || log.join("; "), || real.reset_age(v, Capability::Witnessing, to, factor)) else { return };
                c.check(got.is_ok() == !mine.is_empty(), "reset", || log.join("; "));
                for k in mine {
                    c.event("witnessing reset");
                    let e = m.0.get_mut(&k).unwrap();
                    e.witnessing += (to - e.witnessing) / factor;
                }
            }
            11 => {
                log.push("restart".into());
                c.event("restart");
                let b = bincode::serialize(&real).unwrap();
                match bincode::deserialize::<StakesTracker>(&b) {
                    Ok(x) => {
                        c.check(x == real.clone(), "restart-equality", || log.join("; "));
                        real = x
                    }
                    Err(e) => {
                        c.violate("restart", format!("{e}; {}", log.join("; ")));
                        return;
                    }
                }
            }
            12 => {
                log.push("clone".into());
                c.event("clone");
                let copy = real.clone();
                c.check(copy == real.clone(), "clone-equality", || log.join("; "));
                if let Some((k, e)) = m.0.iter().next() {
                    let latest = m.of(&k.0).iter().map(|k| m.0[k].witnessing).max().unwrap();
                    let real = real.clone();
                    // Two ledgers that differ only in an epoch, or only in a nonce, are not equal
                    let mut x = real.clone();
                    x.reset_age(k.0, Capability::Witnessing, latest + 1, 1).unwrap();
                    c.check(x != real, "epochs-ignored", || log.join("; "));
                    let mut x = real.clone();
                    x.remove_stake(key(k), Wit::from_nanowits(0), e.nonce as u32 + 1, true, Wit::from_nanowits(0)).unwrap();
                    c.check(e.coins == 0 || x != real, "nonce-ignored", || log.join("; "));
                }
                // Whatever happens to the old one must not show in the copy
                let mut old = std::mem::replace(&mut real, copy);
                for k in m.0.keys() {
                    let _ = old.add_stake(key(k), Wit::from_nanowits(77 * WIT), epoch + 100, true, Wit::from_nanowits(0));
                    let _ = old.reset_age(k.0, Capability::Witnessing, epoch + 5000, 1);
                    let have = m.0[k].coins + 77 * WIT;
                    let _ = old.remove_stake(key(k), Wit::from_nanowits(have), epoch, true, Wit::from_nanowits(0));
                }
            }
            _ => {
                let got = real.check_validator_withdrawer(v, w);
                let want = m.of(&v).is_empty() || m.0.contains_key(&k);
                c.check(got.is_ok() == want, "withdrawer", || format!("{got:?}; {}", log.join("; ")));
            }
        }
        if m.0.len() > before && m.of(&v).len() > 1 {
            c.event("two withdrawers");
        }
        c.eval(1);
        if !compare(c, &mut real, &m, epoch, &addr, &log) {
            return;
        }
    }
    if removed {
        c.nontrivial(&log);
    }
}
fn key_q(k: &Key) -> QueryStakesKey<PublicKeyHash> {
    QueryStakesKey::Key(key(k))
}
type Entry = StakeEntry<WIT_DECIMAL_PLACES, PublicKeyHash, Wit, u32, u64, u64>;
fn flat(l: Vec<Entry>) -> BTreeMap<Key, E> {
    l.into_iter()
        .map(|e| {
            (
                (e.key.validator, e.key.withdrawer),
                E { coins: e.value.coins.nanowits(), mining: e.value.epochs.mining, witnessing: e.value.epochs.witnessing, nonce: e.value.nonce },
            )
        })
        .collect()
}

fn compare(c: &mut Case, real: &mut StakesTracker, m: &Model, epoch: u32, addr: &[PublicKeyHash], log: &[String]) -> bool {
    let h = || log.join("; ");
    let all = real.query_stakes(QueryStakesKey::All).unwrap();
    let (n, all) = (all.len(), flat(all));
    if !c.check(n == m.0.len() && all == m.0, "entries", || format!("{all:?} instead of {:?}; {}", m.0, h())) {
        return false;
    }
    let total: u64 = m.0.values().map(|e| e.coins).sum();
    let vals: BTreeSet<_> = m.0.keys().map(|k| k.0).collect();
    let mut ok = c.check(real.total_staked().nanowits() == total, "total", || format!("{} instead of {total}; {}", real.total_staked(), h()));
    ok &= c.check(real.stakes_count() == m.0.len() && real.validator_count() == vals.len(), "counts", || format!("{} entries and {} validators instead of {} and {}; {}", real.stakes_count(), real.validator_count(), m.0.len(), vals.len(), h()));
    for a in addr {
        for by_validator in [true, false] {
            let want: BTreeMap<Key, E> = m.0.iter().filter(|(k, _)| if by_validator { k.0 == *a } else { k.1 == *a }).map(|(k, e)| (*k, e.clone())).collect();
            let q = || if by_validator { QueryStakesKey::Validator(*a) } else { QueryStakesKey::Withdrawer(*a) };
            let got = real.query_stakes(q());
            let n = got.as_ref().map(|l| l.len()).unwrap_or(0);
            let missing = got.is_err();
            let got = flat(got.unwrap_or_default());
            ok &= c.check(n == want.len() && got == want && missing == want.is_empty(), if by_validator { "by-validator" } else { "by-withdrawer" }, || format!("{a}: {got:?} instead of {want:?}; {}", h()));
            let sum: u64 = want.values().map(|e| e.coins).sum();
            let got = real.query_total_stake(q());
            ok &= c.check(matches!(&got, Ok(x) if x.nanowits() == sum && !want.is_empty()) || (got.is_err() && want.is_empty()), "address-total", || format!("{a}: {got:?} instead of {sum}; {}", h()));
        }
        for cap in ALL_CAPABILITIES {
            let got = real.query_power(*a, cap, epoch);
            let want = m.of(a).iter().map(|k| m.0[k].power(cap, epoch)).max();
            ok &= c.check(got.as_ref().ok().copied() == want, "power", || format!("{a} {cap:?}: {got:?} instead of {want:?}; {}", h()));
        }
    }
    for (k, e) in &m.0 {
        let got = real.query_nonce(key(k));
        ok &= c.check(got == Ok(e.nonce), "nonce", || format!("{k:?}: {got:?} instead of {}; {}", e.nonce, h()));
    }
    for cap in ALL_CAPABILITIES {
        for now in [epoch, epoch + 1, epoch + 777] {
            let want = m.rank(cap, now);
            let got: Vec<(Key, u64)> = real.by_rank(cap, now).map(|(k, p)| ((k.validator, k.withdrawer), p)).collect();
            ok &= c.check(got == want, "rank", || format!("{cap:?} at {now}: {got:?} instead of {want:?}; {}", h()));
        }
        let want: Vec<Key> = m.rank(cap, epoch).into_iter().map(|x| x.0).collect();
        let mut plans: Vec<(CensusStrategy, Vec<Key>)> = vec![(CensusStrategy::All, want.clone())];
        let n = c.rng.range(1, 4) as usize;
        plans.push((CensusStrategy::Take(n), want.iter().take(n).cloned().collect()));
        plans.push((CensusStrategy::StepBy(n), want.iter().step_by(n).cloned().collect()));
        if want.len() >= n {
            let step = want.len() / n;
            plans.push((CensusStrategy::Evenly(n), (0..n).map(|i| want[i * step]).collect()));
        }
        for (s, want) in plans {
            let got: Vec<Key> = real.census(cap, epoch, s).map(|k| (k.validator, k.withdrawer)).collect();
            ok &= c.check(got == want, "census", || format!("{s:?}: {got:?} instead of {want:?}; {}", h()));
        }
    }
    ok
}
