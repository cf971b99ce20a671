//! C55: what the node puts in the transactions it builds, over histories of building, confirming and
//! waiting, against an own model of which coins may be spent.
use crate::gen;
use std::collections::{BTreeMap, BTreeSet};
use vmon::{Case, Mon};
use witnet_data_structures::chain::*;
use witnet_data_structures::error::TransactionError;
use witnet_data_structures::fee::Fee;
use witnet_data_structures::transaction_factory::*;
use witnet_data_structures::utxo_pool::*;
use witnet_data_structures::wit::Wit;

pub fn builders(m: &mut Mon) {
    m.rule("Histories of building value transfers, data requests, stakes and collaterals (absolute and relative fees, every strategy, dry runs, weight limits, age limits), of confirming some of them and of time passing, over a random set of coins (time locked, pending, young, others'); every result, error and mark is compared with an own model; non-trivial: a distinct history in which a built transaction takes several coins and leaves change.");
    for k in ["transfer", "request", "stake", "collateral", "several inputs", "change", "exact", "no money", "too heavy", "dry run", "relative fee", "pending coins skipped", "coins free again"] {
        m.require(k, 20);
    }
    let n = m.n(25_000, 1_200_000);
    m.run_par("histories", n, history);
}

#[derive(Clone, Debug)]
struct Coin {
    value: u64,
    lock: u64,
    mark: u64,
    block: u32,
}

struct World {
    all: UnspentOutputsPool,
    own: OwnUnspentOutputsPool,
    coins: BTreeMap<OutputPointer, Coin>,
    me: PublicKeyHash,
    now: u64,
    foreign: BTreeMap<OutputPointer, (PublicKeyHash, u64)>,
    spent: BTreeSet<OutputPointer>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Vtt,
    Drt,
    St,
    Collateral,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Order {
    Random,
    Big,
    Small,
}

/// What a built transaction looks like whatever its kind.
struct Built {
    inputs: Vec<OutputPointer>,
    outputs: Vec<ValueTransferOutput>,
    weight: u32,
}

fn coin_value(c: &mut Case, style: u64) -> u64 {
    match style {
        0 => c.rng.range(1, 5),
        1 => 1 << c.rng.below(12),
        2 => c.rng.below(1_000_000) * 1_000_000,
        3 => 10,
        _ => {
            let b = c.rng.below(40);
            c.rng.below(1 << b) + 1
        }
    }
}

fn history(c: &mut Case) {
    let me = gen::pkh(&mut c.rng);
    let other = loop {
        let p = gen::pkh(&mut c.rng);
        if p != me {
            break p;
        }
    };
    let mut w = World { all: UnspentOutputsPool::default(), own: OwnUnspentOutputsPool::new(), coins: BTreeMap::new(), me, now: c.rng.range(1_000, 2_000_000_000), foreign: BTreeMap::new(), spent: BTreeSet::new() };
    let style = c.rng.below(5);
    let count = if c.rng.chance(1, 12) { c.rng.below(180) } else { c.rng.below(24) };
    for _ in 0..count {
        mint(c, &mut w, style);
    }
    for _ in 0..c.rng.below(4) {
        let k = gen::ptr(&mut c.rng);
        let v = coin_value(c, style);
        if !w.all.contains_key(&k) && !w.spent.contains(&k) {
            w.all.insert(k, ValueTransferOutput { pkh: other, value: v, time_lock: 0 }, 0);
            w.foreign.insert(k, (other, v));
        }
    }
    let mut trace = format!("coins {:?} at {}", w.coins.values().map(|c| (c.value, c.lock, c.mark, c.block)).collect::<Vec<_>>(), w.now);
    let mut seen = vec![];
    let mut interesting = false;
    let steps = c.rng.range(1, 7);
    for _ in 0..steps {
        c.eval(1);
        match c.rng.below(8) {
            0 => {
                let before = usable(&w, None).len();
                w.now += match c.rng.below(3) {
                    0 => 1,
                    1 => c.rng.below(200),
                    _ => 100_000,
                };
                if usable(&w, None).len() > before {
                    c.event("coins free again");
                }
                trace += &format!("; now {}", w.now);
            }
            1 => {
                mint(c, &mut w, style);
                trace += "; a new coin";
            }
            _ => {
                let built = build(c, &mut w, &mut trace, style, other);
                for (k, coin) in w.coins.iter_mut() {
                    // One violation must not lead to others.
                    coin.mark = w.own.get(k).copied().unwrap_or(coin.mark);
                }
                if let Some(b) = built {
                    if b.inputs.len() > 1 && b.outputs.last().map(|o| o.pkh == me).unwrap_or(false) {
                        interesting = true;
                    }
                    if c.rng.chance(1, 3) && b.inputs.iter().all(|k| w.coins.contains_key(k)) {
                        // It gets into a block.
                        for k in &b.inputs {
                            w.spent.insert(*k);
                            w.all.remove(k);
                            w.own.remove(k);
                            w.coins.remove(k);
                        }
                        trace += "; confirmed";
                    }
                    seen.push(b.inputs.len());
                }
            }
        }
        balances(c, &w, other, &trace);
    }
    if interesting {
        c.nontrivial(&(trace.clone(), seen));
    }
    c.sample(|| trace.clone());
}

fn mint(c: &mut Case, w: &mut World, style: u64) {
    let k = gen::ptr(&mut c.rng);
    if w.all.contains_key(&k) || w.spent.contains(&k) {
        return;
    }
    let value = coin_value(c, style);
    let near = |c: &mut Case, now: u64| match c.rng.below(12) {
        0 => now,
        1 => now + 1,
        2 => now - 1,
        3 => now + c.rng.below(300),
        _ => 0,
    };
    let lock = near(c, w.now);
    let mark = near(c, w.now);
    let block = c.rng.below(12) as u32;
    w.all.insert(k, ValueTransferOutput { pkh: w.me, value, time_lock: lock }, block);
    w.own.insert(k, mark);
    w.coins.insert(k, Coin { value, lock, mark, block });
}

fn usable(w: &World, limit: Option<u32>) -> Vec<u64> {
    w.coins.values().filter(|c| c.lock <= w.now && c.mark <= w.now && limit.map(|l| c.block <= l).unwrap_or(true)).map(|c| c.value).collect()
}

fn balances(c: &mut Case, w: &World, other: PublicKeyHash, trace: &str) {
    let total: u64 = w.coins.values().map(|c| c.value).sum();
    let locked: u64 = w.coins.values().filter(|c| c.lock > w.now).map(|c| c.value).sum();
    let b = get_utxos_balance(&w.all, w.me, w.now);
    c.eqd("balance", &b, &NodeBalance2::One { locked, unlocked: total - locked, staked: 0 }, || trace.to_string());
    c.eqd("balance-total", &b.get_total(), &Some(Wit::from_nanowits(total)), || trace.to_string());
    c.eqd("balance-one", &get_total_balance(&w.all, w.me, true), &NodeBalance::One { confirmed: None, total }, || trace.to_string());
    let theirs: u64 = w.foreign.values().filter(|x| x.0 == other).map(|x| x.1).sum();
    c.eqd("balance-other", &get_total_balance(&w.all, other, true), &NodeBalance::One { confirmed: None, total: theirs }, || trace.to_string());
}

fn build(c: &mut Case, w: &mut World, trace: &mut String, style: u64, other: PublicKeyHash) -> Option<Built> {
    let kind = *c.rng.pick(&[Kind::Vtt, Kind::Vtt, Kind::Vtt, Kind::Drt, Kind::St, Kind::St, Kind::Collateral]);
    let order = match kind {
        Kind::Drt => Order::Random,
        Kind::Collateral => Order::Small,
        _ => *c.rng.pick(&[Order::Random, Order::Big, Order::Small]),
    };
    let from = if kind == Kind::Drt || kind == Kind::Collateral {
        None
    } else {
        match c.rng.below(12) {
            0 => Some(other),
            1..=3 => Some(w.me),
            _ => None,
        }
    };
    let strategy = match order {
        Order::Random => UtxoSelectionStrategy::Random { from },
        Order::Big => UtxoSelectionStrategy::BigFirst { from },
        Order::Small => UtxoSelectionStrategy::SmallFirst { from },
    };
    let limit = (kind == Kind::Collateral).then(|| c.rng.below(14) as u32);
    let timeout = c.rng.below(400);
    let dry = kind != Kind::Collateral && c.rng.chance(1, 5);
    // Amounts around what there is.
    let free: u64 = usable(w, limit).iter().sum();
    let target = match c.rng.below(8) {
        0 => free,
        1 => free + 1,
        2 => free.saturating_sub(1),
        3 => c.rng.edgy_u64(),
        4 => coin_value(c, style),
        _ => c.rng.below(free + 2),
    };
    let relative = kind != Kind::Collateral && c.rng.chance(2, 5);
    let priority = match c.rng.below(9) {
        0 => 0.0,
        1 => 0.1,
        2 => 0.5,
        3 => 1.0,
        4 => c.rng.below(1000) as f64 / 128.0,
        5 => (free as f64 / 2000.0).floor(),
        6 => 1e30,
        7 => c.rng.below(1 << 20) as f64,
        _ => 0.001,
    };
    let fee_abs = if relative {
        0
    } else {
        match c.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => c.rng.edgy_u64(),
            _ => c.rng.below(target.min(u64::MAX - 1) / 4 + 2),
        }
    };
    let rest = if c.rng.chance(1, 8) { target } else { target.saturating_sub(fee_abs) };
    let fee = if relative { Fee::relative_from_float(priority) } else { Fee::absolute_from_nanowits(fee_abs) };
    // The outputs wanted.
    let mut outputs: Vec<ValueTransferOutput> = vec![];
    let mut dro = DataRequestOutput::default();
    let mut st = StakeOutput::default();
    let value: Option<u64> = match kind {
        Kind::Vtt => {
            let n = c.rng.below(5);
            let mut left = rest;
            for i in 0..n {
                let v = if i + 1 == n { left } else { c.rng.below(left.min(u64::MAX - 1) + 1) };
                left -= v;
                let pkh = if c.rng.chance(1, 5) { w.me } else { other };
                outputs.push(ValueTransferOutput { pkh, value: v, time_lock: c.rng.below(3) });
            }
            if c.rng.chance(1, 20) {
                outputs.push(ValueTransferOutput { pkh: other, value: c.rng.edgy_u64(), time_lock: 0 });
            }
            outputs.iter().try_fold(0u64, |a, o| a.checked_add(o.value))
        }
        Kind::Drt => {
            dro = gen::dro(&mut c.rng);
            dro.witnesses = *c.rng.pick(&[1, 2, 3, 10, 100]);
            dro.commit_and_reveal_fee = c.rng.below(3);
            dro.witness_reward = if c.rng.chance(1, 20) { c.rng.edgy_u64() } else { rest / u64::from(dro.witnesses) };
            dro.commit_and_reveal_fee.checked_mul(2).and_then(|x| x.checked_add(dro.witness_reward)).and_then(|x| x.checked_mul(u64::from(dro.witnesses)))
        }
        Kind::St => {
            st.value = rest;
            st.key = gen::stake_key(&mut c.rng);
            Some(rest)
        }
        Kind::Collateral => Some(0),
    };
    let weigh = |ins: usize, change: bool| -> u32 {
        let i = 133 * ins as u32;
        let ch = u32::from(change);
        match kind {
            Kind::Vtt | Kind::Collateral => i + 360 * (outputs.len() as u32 + ch),
            Kind::Drt => witnet_data_structures::transaction::DRTransactionBody::new(vec![], dro.clone(), vec![]).weight() + i + 36 * ch,
            Kind::St => 105 + i + 36 * ch,
        }
    };
    let max_weight = if kind == Kind::Collateral {
        u32::MAX
    } else {
        match c.rng.below(4) {
            0 => weigh(c.rng.below(6) as usize, true),
            1 => weigh(c.rng.range(1, 40) as usize, true) + c.rng.below(133) as u32,
            2 => 20_000,
            _ => 10_000_000,
        }
    };
    let what = format!("{kind:?} of {:?} fee {fee} ({:?}), order {order:?} from {from:?}, limit {limit:?}, max weight {max_weight}, dry {dry}, timeout {timeout}", value, if relative { Some(priority) } else { None });
    *trace += &format!("; {what}");
    let t = trace.clone();
    let now = w.now;
    let me = w.me;
    let collateral = if kind == Kind::Collateral { target } else { 0 };
    let fee_abs = if kind == Kind::Collateral { collateral } else { fee_abs };
    if kind == Kind::Collateral {
        let can = c.nopanic("panic", || t.clone(), || check_commit_collateral(Wit::from_nanowits(collateral), &w.own, me, &w.all, now, limit.unwrap()));
        let every: u64 = usable(w, None).iter().sum();
        let want = collateral > 0 && free >= collateral && every >= 100_000_000_000;
        c.eqd("collateral-check", &can, &Some(want), || t.clone());
    }
    let (own, all) = (&mut w.own, &w.all);
    let got: Result<Built, TransactionError> = c.nopanic("panic", || t.clone(), || match kind {
        Kind::Vtt => build_vtt(outputs.clone(), fee, own, me, all, now, timeout, &strategy, max_weight, dry).map(|b| Built { inputs: ptrs(&b.inputs), weight: b.weight(), outputs: b.outputs }),
        Kind::Drt => build_drt(dro.clone(), fee, own, me, all, now, timeout, max_weight, dry).map(|b| {
            let same = b.dr_output == dro;
            Built { inputs: ptrs(&b.inputs), weight: if same { b.weight() } else { 0 }, outputs: b.outputs }
        }),
        Kind::St => build_st(st.clone(), fee, own, me, all, now, timeout, &strategy, max_weight, dry).map(|b| {
            let same = b.output == st;
            Built { inputs: ptrs(&b.inputs), weight: if same { b.weight() } else { 0 }, outputs: b.change.into_iter().collect() }
        }),
        Kind::Collateral => build_commit_collateral(Wit::from_nanowits(collateral), own, me, all, now, timeout, limit.unwrap()).map(|(i, o)| Built { inputs: ptrs(&i), weight: 133 * i.len() as u32 + 360 * o.len() as u32, outputs: o }),
    })?;
    c.event(match kind {
        Kind::Vtt => "transfer",
        Kind::Drt => "request",
        Kind::St => "stake",
        Kind::Collateral => "collateral",
    });
    if relative {
        c.event("relative fee");
    }
    let mut coins = usable(w, limit);
    let allowed = from.map(|f| f == me).unwrap_or(true);
    if !allowed {
        coins.clear();
    }
    if coins.len() < w.coins.len() {
        c.event("pending coins skipped");
    }
    match order {
        Order::Big => coins.sort_by(|a, b| b.cmp(a)),
        _ => coins.sort(),
    }
    let available: u64 = coins.iter().sum();
    let total: u64 = if allowed { w.coins.values().map(|c| c.value).sum() } else { 0 };
    let fee_at = |weight: u32| -> u64 { if relative { (priority * f64::from(weight)) as u64 } else { fee_abs } };
    match &got {
        Ok(b) => {
            let distinct: BTreeSet<_> = b.inputs.iter().collect();
            if !c.check(distinct.len() == b.inputs.len() && !b.inputs.is_empty(), "inputs-repeated", || format!("{:?}; {t}", b.inputs)) {
                return None;
            }
            let mut sum = 0u64;
            let mut vals = vec![];
            for k in &b.inputs {
                let Some(coin) = w.coins.get(k) else {
                    c.violate("foreign-coin", format!("{k} is not an unspent coin of ours; {t}"));
                    return None;
                };
                c.check(coin.lock <= now, "locked-coin", || format!("{coin:?} at {now}; {t}"));
                c.check(coin.mark <= now, "pending-coin", || format!("{coin:?} at {now}; {t}"));
                c.check(limit.map(|l| coin.block <= l).unwrap_or(true), "young-coin", || format!("{coin:?} limit {limit:?}; {t}"));
                sum += coin.value;
                vals.push(coin.value);
            }
            c.check(allowed, "coin-of-refused-address", || t.clone());
            // The outputs asked for, in order, then at most one change output, to us, unlocked.
            let wanted = outputs.len();
            let ok = b.outputs.len() >= wanted && b.outputs[..wanted] == outputs[..] && b.outputs.len() <= wanted + 1;
            if !c.check(ok, "outputs", || format!("{:?} for {outputs:?}; {t}", b.outputs)) {
                return None;
            }
            let change = b.outputs.get(wanted);
            if let Some(ch) = change {
                c.event("change");
                c.check(ch.pkh == me && ch.time_lock == 0 && ch.value > 0, "change", || format!("{ch:?}; {t}"));
            } else {
                c.event("exact");
            }
            if b.inputs.len() > 1 {
                c.event("several inputs");
            }
            let want = weigh(b.inputs.len(), change.is_some());
            c.eqd("weight-or-content", &b.weight, &want, || t.clone());
            let Some(value) = value else {
                c.violate("overflowing-outputs-accepted", t);
                return None;
            };
            let Some(paid) = sum.checked_sub(value).and_then(|x| x.checked_sub(change.map(|c| c.value).unwrap_or(0))) else {
                c.violate("value-created", format!("inputs {sum}, outputs {value}, change {change:?}; {t}"));
                return None;
            };
            if relative {
                let least = fee_at(b.weight);
                let most = fee_at(weigh(b.inputs.len(), true));
                c.check(paid >= least, "fee-below-priority", || format!("pays {paid} for weight {} at {priority}, which is {least}; {t}", b.weight));
                c.check(paid <= most, "fee-above-priority", || format!("pays {paid} for weight {} at {priority}, at most {most}; {t}", b.weight));
            } else {
                c.eqd("fee", &paid, &fee_abs, || t.clone());
            }
            let estimated = kind == Kind::Vtt || kind == Kind::Drt;
            // With an absolute fee only the first estimate of those is checked: a known finding.
            let sig = if estimated && !relative && weigh(1, true) <= max_weight && b.inputs.len() > 1 { "absolute-fee-transaction-too-heavy" } else { "too-heavy" };
            c.check(b.weight <= max_weight, sig, || format!("weight {} of at most {max_weight}; {t}", b.weight));
            if order != Order::Random {
                vals.sort();
                if order == Order::Big {
                    vals.reverse();
                }
                c.check(vals[..] == coins[..vals.len().min(coins.len())], "selection-order", || format!("took {vals:?} of {coins:?}; {t}"));
                let without = sum - vals.last().unwrap();
                c.check(without < value + paid, "needless-input", || format!("took {vals:?} for {}; {t}", value + paid));
            }
            // The marks.
            if dry {
                c.event("dry run");
            } else {
                for k in &b.inputs {
                    w.coins.get_mut(k).unwrap().mark = now + timeout;
                }
            }
        }
        Err(e) => {
            let spend = value.and_then(|v| v.checked_add(if relative { 0 } else { fee_abs }));
            let ok = match e {
                TransactionError::ZeroAmount => spend == Some(0) && fee_at(weigh(1, true)) == 0,
                TransactionError::NoMoney { total_balance, available_balance, transaction_value } => {
                    c.event("no money");
                    let fits = if relative {
                        // At least the cheapest such transaction must be out of reach with them all.
                        *transaction_value > available && value.map(|v| v.saturating_add(fee_at(weigh(coins.len().max(1), true))) > available).unwrap_or(true)
                    } else {
                        match value {
                            Some(v) => v.checked_add(fee_abs) == Some(*transaction_value) && *transaction_value > available,
                            None => *transaction_value > available,
                        }
                    };
                    c.check(*total_balance == total && *available_balance == available, "no-money-report", || format!("{e}: {total} in total, {available} available; {t}"));
                    fits
                }
                TransactionError::FeeOverflow | TransactionError::OutputValueOverflow => {
                    value.is_none() || value.and_then(|v| v.checked_add(fee_at(weigh(coins.len().max(1), true)))).is_none()
                }
                TransactionError::ValueTransferWeightLimitExceeded { weight, max_weight: m }
                | TransactionError::StakeWeightLimitExceeded { weight, max_weight: m }
                | TransactionError::DataRequestWeightLimitExceeded { weight, max_weight: m, .. } => {
                    c.event("too heavy");
                    // Some selection of the coins that pays must not fit.
                    *m == max_weight && *weight > max_weight && weigh(coins.len().max(1), true) > max_weight && needs_too_much(order, &coins, value, relative, &fee_at, &weigh, max_weight)
                }
                _ => false,
            };
            c.check(ok, "refused", || format!("{e:?} with {available} available of {total}; {t}"));
        }
    }
    // Nothing else changed.
    for (k, coin) in &w.coins {
        let m = w.own.get(k).copied();
        if m != Some(coin.mark) {
            c.violate("marks", format!("{k} is marked {m:?}, not {}, after {:?}; {t}", coin.mark, got.as_ref().map(|b| b.inputs.clone())));
            return None;
        }
    }
    c.check(w.own.len() == w.coins.len(), "own-coins", || t.clone());
    got.ok()
}

/// Whether the transaction that takes the coins in order really outgrows the limit.
fn needs_too_much(order: Order, coins: &[u64], value: Option<u64>, relative: bool, fee_at: &dyn Fn(u32) -> u64, weigh: &dyn Fn(usize, bool) -> u32, max: u32) -> bool {
    let Some(value) = value else { return true };
    if weigh(1, true) > max {
        // Room for change is asked for from the beginning.
        return true;
    }
    if order == Order::Random {
        return true;
    }
    let mut sum = 0u64;
    for (i, v) in coins.iter().enumerate() {
        sum += v;
        let need = value.saturating_add(fee_at(weigh(i + 1, true)));
        if sum >= need {
            let change = relative || sum > need;
            return weigh(i + 1, change) > max;
        }
    }
    true
}

fn ptrs(i: &[Input]) -> Vec<OutputPointer> {
    i.iter().map(|i| *i.output_pointer()).collect()
}
