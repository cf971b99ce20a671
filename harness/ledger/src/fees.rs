//! C58: fees, priorities and their estimates.
use vmon::{Case, Mon, Rng};
use std::time::Duration;
use witnet_data_structures::chain::priority::*;
use witnet_data_structures::fee::*;
use witnet_data_structures::transaction::*;
use witnet_data_structures::types::visitor::{StatefulVisitor, Visitor};
use witnet_data_structures::wit::*;
use crate::gen;

pub fn estimates(m: &mut Mon) {
    m.rule("Histories of blocks of transactions with random fees and weights fill the engine beyond its capacity; records, contents and estimates are compared with an own model (per kind, per tier, whatever the order), and fees are read from every form of text and number; non-trivial: a distinct history with estimates strictly between the default and the highest seen.");
    for k in ["block", "estimate", "too few blocks", "evicted", "tiers differ", "fee text", "bad fee text", "amount"] {
        m.require(k, 20);
    }
    let n = m.n(1_200, 60_000);
    m.run_par("histories", n, history);
    let n = m.n(30_000, 2_000_000);
    m.run_par("amounts", n, amounts);
    let n = m.n(30_000, 2_000_000);
    m.run_par("texts", n, texts);
}

/// Highest and lowest of each kind: requests, transfers, stakes, unstakes.
type Rec = [(f64, Option<f64>); 4];

fn rec(p: &Priorities) -> Rec {
    let f = |h: Priority, l: Option<Priority>| (h.as_f64(), l.map(|x| x.as_f64()));
    [f(p.drt_highest, p.drt_lowest), f(p.vtt_highest, p.vtt_lowest), f(p.st_highest, p.st_lowest), f(p.ut_highest, p.ut_lowest)]
}

fn tiers(e: &PrioritiesEstimate) -> [[&PriorityEstimate; 5]; 4] {
    [
        [&e.drt_stinky, &e.drt_low, &e.drt_medium, &e.drt_high, &e.drt_opulent],
        [&e.vtt_stinky, &e.vtt_low, &e.vtt_medium, &e.vtt_high, &e.vtt_opulent],
        [&e.st_stinky, &e.st_low, &e.st_medium, &e.st_high, &e.st_opulent],
        [&e.ut_stinky, &e.ut_low, &e.ut_medium, &e.ut_high, &e.ut_opulent],
    ]
}

const MINUTES: [u64; 5] = [360, 60, 15, 5, 1];
const DEFAULTS: [f64; 5] = [0.1, 0.2, 0.3, 0.4, 0.5];

fn fee(r: &mut Rng, style: u64) -> u64 {
    match style {
        0 => r.range(1, 100),
        1 => r.range(1, 1_000_000),
        2 => 1_000,
        3 => {
            let b = r.below(50);
            r.below(1 << b) + 1
        }
        _ => r.range(1, 20) * 1_000_000_000,
    }
}

fn block(c: &mut Case, style: &[u64; 4]) -> (Priorities, Rec) {
    let mut v = PriorityVisitor::default();
    let mut want: Rec = [(0.0, None); 4];
    for _ in 0..c.rng.below(8) {
        let kind = c.rng.below(6) as usize;
        let tx = match kind {
            0 => Transaction::DataRequest(Default::default()),
            1 => Transaction::ValueTransfer(Default::default()),
            2 => Transaction::Stake(Default::default()),
            3 => Transaction::Unstake(Default::default()),
            4 => Transaction::Commit(Default::default()),
            _ => Transaction::Mint(Default::default()),
        };
        let fee = fee(&mut c.rng, style[kind.min(3)]);
        let weight = c.rng.range(1, 20_000) as u32;
        v.visit(&(tx, fee, weight));
        if kind < 4 {
            let p = fee as f64 / f64::from(weight);
            want[kind].0 = want[kind].0.max(p);
            want[kind].1 = Some(want[kind].1.map(|l| l.min(p)).unwrap_or(p));
        }
    }
    (v.take_state(), want)
}

fn history(c: &mut Case) {
    let style = [c.rng.below(5), c.rng.below(5), c.rng.below(5), c.rng.below(5)];
    let default = c.rng.chance(1, 12);
    let cap = if default { 2047 } else { c.rng.range(1, 60) as usize };
    let mut e = if default { PriorityEngine::default() } else { PriorityEngine::with_capacity(cap) };
    let mut model: Vec<Priorities> = vec![];
    let what = |m: &Vec<Priorities>| format!("capacity {cap}, {} records, fees {style:?}, the last {:?}", m.len(), m.last().map(rec));
    let blocks = if default { c.rng.range(2_000, 2_100) } else { c.rng.range(1, 90) };
    let period = *c.rng.pick(&[45u64, 20, 1, 300, 3_600]);
    let mut strict = false;
    for i in 0..blocks {
        let (p, want) = block(c, &style);
        c.event("block");
        if !c.check(rec(&p) == want, "record", || format!("{:?} instead of {want:?}", rec(&p))) {
            return;
        }
        e.push_priorities(p.clone());
        model.push(p);
        if model.len() > cap {
            c.event("evicted");
            model.remove(0);
        }
        if default && i + 1 != blocks {
            continue;
        }
        c.check(e.as_vec() == model, "contents", || format!("{} entries; {}", e.as_vec().len(), what(&model)));
        c.eval(1);
        let est = c.nopanic("panic", || what(&model), || e.estimate_priority(Duration::from_secs(period)));
        let Some(est) = est else { return };
        if model.len() < 20 {
            c.event("too few blocks");
            let wait = (20 - model.len() as u64) * period / 60 + 1;
            let ok = matches!(&est, Err(PriorityError::NotEnoughSampledEpochs { current, required, wait_minutes }) if *current as usize == model.len() && *required == 20 && u64::from(*wait_minutes) == wait);
            c.check(ok, "too-few", || format!("{est:?}; {}", what(&model)));
            continue;
        }
        let Ok(est) = est else {
            c.violate("no-estimate", format!("{est:?}; {}", what(&model)));
            return;
        };
        c.event("estimate");
        for (kind, ts) in tiers(&est).iter().enumerate() {
            // What a transaction needed to get into each of the blocks.
            let need: Vec<f64> = model.iter().map(|p| rec(p)[kind]).map(|(h, l)| l.unwrap_or(h)).collect();
            let (lo, hi) = need.iter().fold((f64::MAX, 0.0f64), |(a, b), x| (a.min(*x), b.max(*x)));
            let width = (hi - lo) / 50.0;
            // How many blocks each of 50 levels was enough for, counting a level's closest tenth.
            let mut count = [0u64; 51];
            for x in &need {
                let b = if width > 0.0 { ((x - lo) / width).round() as u64 } else { 0 };
                for k in b * 90 / 100..=b.min(50) {
                    count[k as usize] += 1;
                }
            }
            let n: u64 = count.iter().sum();
            for (t, got) in ts.iter().enumerate() {
                let p = got.priority.as_f64();
                let say = || format!("kind {kind}, tier {t}: {p}; {}", what(&model));
                c.check(p >= DEFAULTS[t] && p.is_finite(), "below-default", say);
                c.check(p <= hi.max(DEFAULTS[t]) * (1.0 + 1e-9), "above-highest", || format!("highest {hi}; {}", say()));
                c.check(t == 0 || p >= ts[t - 1].priority.as_f64(), "tiers-out-of-order", say);
                c.eqd("time-to-block", &got.time_to_block, &TimeToBlock::from_secs(MINUTES[t] * 60), say);
                let bound = (MINUTES[t] as f64 * 60.0 / period as f64 / model.len() as f64 * n as f64).ceil() as u64;
                let b = (0..51).rev().find(|b| count[*b] >= bound && count[*b] > 0).unwrap_or(0);
                let want = (lo + b as f64 * width).max(DEFAULTS[t]);
                c.check((p - want).abs() <= want * 1e-9, "estimate", || format!("instead of {want}; {}", say()));
                strict |= p > DEFAULTS[t] && p < hi;
                if t > 0 && p > ts[t - 1].priority.as_f64() && p > DEFAULTS[t] {
                    c.event("tiers differ");
                }
            }
        }
        // The order of the blocks does not matter.
        if c.rng.chance(1, 6) && model.len() <= 2047 {
            let mut other = model.clone();
            c.rng.shuffle(&mut other);
            let again = PriorityEngine::from_vec(other).estimate_priority(Duration::from_secs(period));
            c.check(again.as_ref() == Ok(&est), "order-dependent", || what(&model));
        }
    }
    // Taken from a list with the newest first, what does not fit is the oldest.
    let newest: Vec<Priorities> = model.iter().rev().cloned().collect();
    let k = c.rng.range(1, 30) as usize;
    let e2 = PriorityEngine::from_vec_with_capacity(newest.clone(), k);
    let mut kept: Vec<Priorities> = newest.into_iter().take(k).collect();
    kept.reverse();
    c.check(e2.as_vec() == kept, "from-vec", || format!("capacity {k}; {}", what(&model)));
    if strict {
        c.nontrivial(&(blocks, cap, style, format!("{:?}", model.last().map(rec))));
    }
    c.sample(|| what(&model));
}

fn amounts(c: &mut Case) {
    c.event("amount");
    let n = c.rng.edgy_u64();
    let w = Wit::from_nanowits(n);
    c.eqd("wit-text", &w.to_string(), &format!("{}.{:09}", n / 1_000_000_000, n % 1_000_000_000), || n.to_string());
    c.check(w.nanowits() == n && u64::from(w) == n && Wit::from(n) == w && w.wits_and_nanowits() == (n / 1_000_000_000, n % 1_000_000_000), "wit", || n.to_string());
    let m = c.rng.edgy_u64();
    if let Some(s) = n.checked_add(m) {
        c.eqd("wit-sum", &(w + Wit::from_nanowits(m)).nanowits(), &s, || format!("{n} + {m}"));
        c.eqd("wit-sum", &[w, Wit::from_nanowits(m)].into_iter().sum::<Wit>().nanowits(), &s, || format!("{n} + {m}"));
    }
    if n >= m {
        c.eqd("wit-difference", &(w - Wit::from_nanowits(m)).nanowits(), &(n - m), || format!("{n} - {m}"));
    }
    c.check((w < Wit::from_nanowits(m)) == (n < m), "wit-order", || format!("{n} < {m}"));
    if n <= u64::MAX / 1_000_000_000 {
        c.eqd("wits", &Wit::from_wits(n).nanowits(), &(n * 1_000_000_000), || n.to_string());
    }
    let d = c.rng.below(20) as u8;
    let want = n / 10u64.pow(u32::from(d).min(19));
    c.check(n.lose_precision(d) == want && w.lose_precision(d).nanowits() == want, "precision", || format!("{n} by {d} digits"));
    // A priority is what a fee is worth per unit of weight, and back, within the precision of a float.
    let weight = c.rng.edgy_u32().max(1);
    let fee = c.rng.below(1 << 50);
    let p = Priority::from_absolute_fee_weight(fee, weight);
    let back = p.derive_fee_wit(weight).nanowits();
    c.check(back.abs_diff(fee) <= 1, "fee-of-priority", || format!("{fee} for {weight} is {p}, and comes back as {back}"));
    c.eval(1);
}

fn texts(c: &mut Case) {
    c.eval(1);
    let read = |s: &str| -> Option<Fee> {
        let mut d = serde_json::Deserializer::from_str(s);
        let r = deserialize_fee_backwards_compatible(&mut d).ok();
        r
    };
    let n = c.rng.edgy_u64();
    // Few digits: serde_json may miss the last bit of long ones.
    let f = c.rng.below(1 << 18) as f64 / 16.0;
    let (s, want) = match c.rng.below(12) {
        0 => (format!("{n}"), Some(Fee::absolute_from_nanowits(n))),
        1 => (format!("\"{n}\""), Some(Fee::absolute_from_nanowits(n))),
        2 => (format!("{{\"absolute\":{n}}}"), Some(Fee::absolute_from_nanowits(n))),
        3 => (format!("{{\"absolute\":\"{n}\"}}"), Some(Fee::absolute_from_nanowits(n))),
        4 => (format!("{{\"relative\":{f:?}}}"), Some(Fee::relative_from_float(f))),
        5 => (format!("{{\"relative\":\"{f:?}\"}}"), Some(Fee::relative_from_float(f))),
        6 => (format!("{{\"relative\":{}}}", n >> 20), Some(Fee::relative_from_float((n >> 20) as f64))),
        7 => (format!("{n}.5"), None),
        8 => (format!("-{}", (n >> 1).max(1)), None),
        9 => (format!("{{\"absolute\":\"{n}.5\"}}"), None),
        10 => (format!("\"{n}0000000000000000000\""), format!("{n}0000000000000000000").parse().ok().map(Fee::absolute_from_nanowits)),
        _ => (["null", "true", "[]", "{}", "\"\"", "\"abc\"", "{\"relative\":\"x\"}", "{\"priority\":1}", "\"-1\"", "\" 1\""][c.rng.below(10) as usize].to_string(), None),
    };
    c.event(if want.is_some() { "fee text" } else { "bad fee text" });
    let got = c.nopanic("panic", || s.clone(), || read(&s)).flatten();
    c.eqd("fee-text", &got, &want, || s.clone());
    // What is written is read back.
    let fee = if c.rng.bool() { Fee::absolute_from_nanowits(n) } else { Fee::relative_from_float(f) };
    let text = serde_json::to_string(&fee).unwrap();
    c.eqd("fee-written", &read(&text), &Some(fee), || text.clone());
    match fee {
        Fee::Absolute(a) => {
            c.check(n.to_string().parse() == Ok(a) && a.as_nanowits() == n && a.to_string() == Wit::from_nanowits(n).to_string(), "absolute-fee", || text.clone());
        }
        Fee::Relative(r) => {
            let w = c.rng.below(1 << 24) as u32;
            c.check(format!("{f:?}").parse() == Ok(r) && r.into_absolute(w).as_nanowits() == (f * f64::from(w)) as u64, "relative-fee", || text.clone());
        }
    }
    let _ = gen::text;
    c.nontrivial(&s);
}
