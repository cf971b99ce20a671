//! C41: filters and reducers. C42: from reveals to a result and to who lied.
use crate::agg;
use crate::ops::context;
use crate::val::{self, *};
use serde_cbor::Value;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::radon_report::{Stage, TallyMetaData};
use witnet_rad::filters::{filter, RadonFilters};
use witnet_rad::reducers::{reduce, RadonReducers};
use witnet_rad::types::{RadonType, RadonTypes};
use V::*;

/// Items as they come from several sources: much the same, with some that are off.
pub fn items(r: &mut Rng) -> Vec<V> {
    let n = match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.range(100, 140),
        3 => r.range(126, 131) * if r.bool() { 1 } else { 2 },
        _ => r.range(2, 12),
    };
    let kind = *r.pick(&[3, 3, 3, 4, 4, 4, 7, 2, 1, 5, 0, 0]);
    let w = r.below(4);
    let cell = *r.pick(&[3, 4, 4, 7, 0]);
    let few = r.chance(1, 2);
    let pool: Vec<V> = (0..r.range(1, 3)).map(|_| item(r, kind, w, cell)).collect();
    let ragged = r.chance(1, 12);
    (0..n)
        .map(|_| {
            if r.chance(1, 60) {
                return val::scalar(r);
            }
            if few && r.chance(9, 10) {
                return r.pick(&pool).clone();
            }
            let w = if ragged && r.chance(1, 4) { w + 1 } else { w };
            item(r, kind, w, cell)
        })
        .collect()
}
fn item(r: &mut Rng, kind: u64, w: u64, cell: u64) -> V {
    match kind {
        3 => Float(match r.below(12) {
            0 => val::float(r),
            1 => *r.pick(&[f64::NAN, 0.0, -0.0, f64::INFINITY]),
            _ => 100.0 + r.below(64) as f64 / 16.0,
        }),
        4 => Int(if r.chance(1, 12) { val::int(r) } else { 1000 + i128::from(r.below(20)) }),
        2 => {
            let n = r.below(40) as usize;
            Bytes(r.bytes(n))
        }
        7 => Str(match r.below(3) {
            0 => {
                let n = r.below(36) as usize;
                hex::encode(r.bytes(n))
            }
            1 => val::text(r),
            _ => r.pick(&["a", "b"]).to_string(),
        }),
        0 => {
            if r.chance(1, 30) {
                return val::value(r, 2, Some(false));
            }
            Arr((0..w).map(|_| if cell == 0 { Arr((0..2).map(|_| item(r, 4, 0, 0)).collect()) } else { item(r, cell, 0, 0) }).collect())
        }
        k => val::of_kind(r, k, 1),
    }
}
const FILTERS: [u8; 18] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88];

pub fn aggregation(m: &mut Mon) {
    m.rule("filter or reducer with the kind and number of items and the outcome");
    for e in ["filtered", "left-out", "reduced", "mode", "mean", "median", "deviation", "hash", "tie", "more-than-127-equal", "permuted", "stage-script-accepted", "stage-script-refused", "not-enabled-yet"] {
        m.require(e, 5);
    }
    let n = m.n(480_000, 7_500_000);
    m.run_par("filter", n, filters);
    m.run_par("reducer", n, reducers);
    m.run_par("stage-script", m.n(80_000, 1_000_000), stage);
    m.run("integers-too-big", m.n(1_600, 25_000), too_big);
}
fn arr(a: &[V]) -> witnet_rad::types::array::RadonArray {
    a.iter().map(V::rad).collect::<Vec<_>>().into()
}
fn filters(k: &mut Case) {
    let r = &mut k.rng;
    let a = items(r);
    let code = if r.chance(1, 12) { *r.pick(&FILTERS) } else { *r.pick(&[5, 5, 8]) };
    let extra: Vec<Value> = match r.below(16) {
        0 => vec![],
        1 => vec![val::any_cbor(r)],
        2 => vec![Value::Float(val::float(r)), Value::Integer(1)],
        3 => vec![Value::Float(val::float(r))],
        4..=8 => vec![Value::Integer(i128::from(r.below(3)))],
        _ => vec![Value::Float(r.below(50) as f64 / 16.0)],
    };
    let want = agg::filter(&a, code, &extra);
    let c = Rules::any(r);
    let what = || format!("filter {code} {extra:?} of {a:?}");
    let ra = arr(&a);
    let prior: Option<Vec<bool>> = r.chance(1, 3).then(|| {
        let mut p = vec![false; a.len()];
        let n = r.below(4);
        p.extend((0..n).map(|_| true));
        r.shuffle(&mut p);
        p
    });
    let mut meta = TallyMetaData::default();
    if let Some(p) = &prior {
        meta.update_liars(p.clone());
    }
    let before = meta.liars.clone();
    let mut x = context(&c, Stage::Tally(meta));
    let Some(got) = k.nopanic("filter", what, || filter(&ra, RadonFilters::try_from(code).unwrap(), &extra, &mut x)) else { return };
    k.eval(1);
    let Stage::Tally(meta) = x.stage else { unreachable!() };
    k.nontrivial(&(code, a.first().map(V::kind), a.len(), want.as_ref().map(|w| w.0.len()).unwrap_or(9999)));
    match (&want, outcome(&got)) {
        (Ok((kept, out)), Ok(Arr(g))) => {
            k.check(same_all(kept, &g), "kept", || format!("{}\n expected {kept:?}\n got {g:?}", what()));
            k.event("filtered");
            // who was left out
            let mut liars = before.clone();
            if let Some(out) = out {
                if out.contains(&true) {
                    k.event("left-out");
                }
                if liars.is_empty() {
                    liars = out.clone();
                } else {
                    let mut o = out.iter();
                    for l in liars.iter_mut().filter(|l| !**l) {
                        *l = *o.next().unwrap();
                    }
                }
            }
            k.check(meta.liars == liars, "liars", || format!("{} after {before:?}\n expected {liars:?}\n got {:?}", what(), meta.liars));
            if !liars.is_empty() && out.is_some() {
                let share = liars.iter().filter(|l| !**l).count() as f32 / liars.len() as f32;
                k.check(meta.consensus == share, "consensus", || format!("{}: {} instead of {share}", what(), meta.consensus));
            }
        }
        (Result::Err(_), Result::Err(E::Other)) => {
            k.check(meta.liars == before, "liars-after-an-error", what);
            if code == 8 && !a.is_empty() && crate::interp::homogeneous(&a) {
                k.event("tie");
            }
        }
        (w, g) => k.violate("filter", format!("{}\n expected {w:?}\n got {g:?}", what())),
    }
}
fn reducers(k: &mut Case) {
    let r = &mut k.rng;
    let a = items(r);
    let code = if r.chance(1, 16) { r.below(12) as u8 } else { *r.pick(&[2, 3, 5, 7, 0x0b]) };
    let c = Rules::any(r);
    let want = agg::reduce(&a, code, &c);
    let what = || format!("reducer {code} of {a:?} under {c:?}");
    let ra = arr(&a);
    let mut x = context(&c, Stage::Contextless);
    let Some(got) = k.nopanic("reducer", what, || reduce(&ra, RadonReducers::try_from(code).unwrap(), &mut x)) else { return };
    k.eval(1);
    k.nontrivial(&(code, a.first().map(V::kind), a.len(), want.is_ok(), c.wips.is_some()));
    let got = outcome(&got);
    k.check(same_r(&want, &got), &format!("reducer-{code}"), || format!("{}\n expected {want:?}\n got {got:?}", what()));
    if want.is_ok() {
        k.event("reduced");
        k.event(match code {
            2 => "mode",
            3 => "mean",
            5 => "median",
            7 => "deviation",
            _ => "hash",
        });
    } else if code == 2 && !a.is_empty() && crate::interp::homogeneous(&a) {
        k.event("tie");
    }
    if agg::mode(&a).1 > 127 && code == 2 {
        k.event("more-than-127-equal");
    }
    // Neither the mode nor the median of integers depends on the order
    if matches!(code, 2 | 5) && a.len() > 1 && (code == 2 || matches!(a[0], Int(_))) {
        let mut b = a.clone();
        k.rng.shuffle(&mut b);
        let rb = arr(&b);
        if let Some(g2) = k.nopanic("reducer", || format!("reducer {code} of {b:?}"), || reduce(&rb, RadonReducers::try_from(code).unwrap(), &mut x)) {
            let g2 = outcome(&g2);
            k.check(same_r(&got, &g2), "depends-on-order", || format!("{}\n {got:?}\n {g2:?} for {b:?}", what()));
            k.event("permuted");
        }
    }
}
/// Integers that CBOR cannot carry are still different from each other.
fn too_big(k: &mut Case) {
    let r = &mut k.rng;
    let x = (1i128 << r.range(65, 120)) + i128::from(r.u32());
    let y = x + 1 + i128::from(r.u32());
    let a = arr(&[Int(x), Int(y), Int(y)]);
    let c = Rules { wips: Some([true; 3]), v21: true };
    k.eval(1);
    k.nontrivial(&(x, y));
    if let Some(g) = k.nopanic("reducer", || format!("{x} {y}"), || reduce(&a, RadonReducers::Mode, &mut context(&c, Stage::Contextless))) {
        let g = outcome(&g);
        k.check(matches!(g, Ok(Int(i)) if i == y), "integers-beyond-cbor-are-equal", || format!("the mode of {x}, {y}, {y} is {g:?}"));
    }
}

/// The filters and reducers of an aggregation or tally, as a script.
fn stage(k: &mut Case) {
    use witnet_data_structures::chain::{tapi::ActiveWips, RADFilter};
    use witnet_rad::operators::RadonOpCodes;
    let r = &mut k.rng;
    let good = r.chance(1, 2);
    let nf = r.below(4);
    let mut fs = vec![];
    let mut want: Option<Vec<(RadonOpCodes, Option<Vec<Value>>)>> = Some(vec![]);
    for _ in 0..nf {
        let op = if good || r.chance(1, 2) { *r.pick(&[5u32, 8]) } else { *r.pick(&[0, 1, 2, 3, 4, 6, 7, 9, 0x7f, 0x80, 0x85, 0x88, 0xff, 0x105, 0x108, 0x1_0005, u32::MAX]) };
        let (args, meaning) = match r.below(if good { 5 } else { 7 }) {
            0 => (vec![], Some(None)),
            1..=4 => {
                let v = if r.bool() { Value::Float(r.below(40) as f64 / 16.0) } else { val::any_cbor(r) };
                // what it says once written
                let b = serde_cbor::to_vec(&v).unwrap();
                let v = serde_cbor::from_slice(&b).ok();
                (b, v.map(Some))
            }
            5 => (vec![0xff], None),
            _ => (vec![0x82, 0x01], None),
        };
        match (&mut want, meaning, op) {
            (Some(w), Some(m), 5 | 8) => {
                let mut a = vec![Value::Integer(i128::from(op))];
                a.extend(m);
                w.push((RadonOpCodes::ArrayFilter, Some(a)));
            }
            _ => want = None,
        }
        fs.push(RADFilter { op, args });
    }
    let reducer = if good || r.chance(1, 2) { *r.pick(&[2u32, 3, 5, 0x0b]) } else { *r.pick(&[0, 1, 4, 6, 7, 8, 9, 0x0a, 0x0c, 0xff, 0x102, 0x103, 0x1_0002, u32::MAX]) };
    let (w17, w19) = (r.chance(3, 4), r.chance(3, 4));
    let mut w = ActiveWips::default();
    w.block_epoch = r.range(1000, 2_000_000) as u32;
    for (name, on) in [("WIP0017-0018-0019", w17), ("WIP0019", w19)] {
        // they came with the improvements 17 to 19, together; another name does not matter
        if on {
            let late = r.below(3);
            w.active_wips.insert(name.to_string(), w.block_epoch - late as u32);
        } else if r.bool() {
            w.active_wips.insert(name.to_string(), w.block_epoch + 1 + r.below(50) as u32);
        }
    }
    let enabled = match reducer {
        2 | 3 => true,
        5 | 0x0b => w17,
        _ => false,
    };
    match (&mut want, enabled) {
        (Some(v), true) => v.push((RadonOpCodes::ArrayReduce, Some(vec![Value::Integer(i128::from(reducer))]))),
        _ => want = None,
    }
    let what = || format!("{fs:?}, reducer {reducer}, {w:?}");
    let Some(got) = k.nopanic("stage-script", what, || witnet_rad::script::create_radon_script_from_filters_and_reducer(&fs, reducer, &w)) else { return };
    k.eval(1);
    k.nontrivial(&(fs.iter().map(|f| (f.op, f.args.len())).collect::<Vec<_>>(), reducer, enabled));
    k.check(got.as_ref().ok().map(|g| format!("{g:?}")) == want.as_ref().map(|g| format!("{g:?}")), "stage-script", || format!("{}\n expected {want:?}\n got {got:?}", what()));
    if !enabled && matches!(reducer, 5 | 0x0b) {
        k.event("not-enabled-yet");
    }
    k.event(if want.is_some() { "stage-script-accepted" } else { "stage-script-refused" });
}
