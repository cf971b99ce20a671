//! C42: from the reveals to the result, and to who is out of consensus.
use crate::agg;
use crate::tally::items;
use crate::val::{self, *};
use serde_cbor::Value;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::chain::{tapi::ActiveWips, RADFilter, RADTally};
use witnet_data_structures::radon_error::RadonError;
use witnet_data_structures::radon_report::{RadonReport, ReportContext, Stage};
use witnet_rad::conditions::{construct_report_from_clause_result, evaluate_tally_postcondition_clause, evaluate_tally_precondition_clause, TallyPreconditionClauseResult};
use witnet_rad::error::RadError;
use witnet_rad::types::RadonTypes;
use V::*;

pub fn verdict(m: &mut Mon) {
    m.rule("number and kinds of the reveals, the threshold and the verdict");
    for e in [
        "too-many-witnesses", "no-commits", "no-reveals", "too-few-of-a-type", "tie-of-types", "errors-agree", "errors-disagree", "tie-of-errors", "values", "another-type-is-out", "filter-left-some-out",
        "too-few-after-filters", "exactly-the-threshold", "tally-ended-with-error", "tally-script-refused", "before-the-second-fork", "permuted", "value-stands",
    ] {
        m.require(e, 5);
    }
    m.run_par("verdicts", m.n(450_000, 30_000_000), one);
}
#[derive(Debug, Clone, PartialEq)]
enum End {
    Code(u8),
    /// achieved and required consensus
    Few(f64, f64),
    /// an error without a code
    Unhandled,
}
#[derive(Debug)]
enum Pre {
    End(End),
    Errors(V),
    Values(Vec<V>, Vec<bool>, Vec<bool>),
}
/// The first step: is there a majority of a type, and is it of errors?
fn precondition(a: &[V], min: f64, commits: usize, old: bool, too_many: bool, k: &mut Vec<&'static str>) -> Pre {
    if too_many {
        k.push("too-many-witnesses");
        return Pre::End(End::Code(0x54));
    }
    if commits == 0 {
        k.push("no-commits");
        return Pre::End(End::Code(0x52));
    }
    if a.is_empty() {
        k.push("no-reveals");
        return Pre::End(End::Code(0x50));
    }
    let mut count = [0usize; 8];
    a.iter().for_each(|v| count[v.kind() as usize] += 1);
    let max = *count.iter().max().unwrap();
    let got = max as f64 / commits as f64;
    if got < min {
        k.push("too-few-of-a-type");
        return Pre::End(End::Few(got, min));
    }
    if got == min {
        k.push("exactly-the-threshold");
    }
    if count.iter().filter(|c| **c == max).count() > 1 {
        k.push("tie-of-types");
        return Pre::End(End::Unhandled);
    }
    let kind = count.iter().position(|c| *c == max).unwrap() as u8;
    if kind == 6 {
        let e: Vec<V> = a.iter().filter(|v| v.kind() == 6).cloned().collect();
        let (m, n) = agg::mode(&e);
        let got = n as f64 / if old { a.len() } else { commits } as f64;
        if got < min {
            k.push("errors-disagree");
            return Pre::End(End::Few(got, min));
        }
        return match m {
            Some(m) => {
                k.push("errors-agree");
                Pre::Errors(m)
            }
            None => {
                k.push("tie-of-errors");
                Pre::End(End::Unhandled)
            }
        };
    }
    k.push("values");
    let out: Vec<bool> = a.iter().map(|v| v.kind() != kind).collect();
    if out.contains(&true) {
        k.push("another-type-is-out");
    }
    Pre::Values(a.iter().filter(|v| v.kind() == kind).cloned().collect(), out, a.iter().map(|v| v.kind() == 6).collect())
}
#[derive(Debug)]
struct Report {
    result: Result<V, End>,
    liars: Vec<bool>,
    errors: Vec<bool>,
}
fn all(result: Result<V, End>, liars: bool, n: usize) -> Report {
    Report { result, liars: vec![liars; n], errors: vec![true; n] }
}
/// Which filters and reducers a tally can have.
pub fn allowed(fs: &[(u32, Vec<Value>)], reducer: u32, w17: bool) -> bool {
    fs.iter().all(|(f, _)| matches!(f, 5 | 8)) && (matches!(reducer, 2 | 3) || matches!(reducer, 5 | 0x0b) && w17)
}
fn report(p: &Pre, n: usize, fs: &[(u32, Vec<Value>)], reducer: u32, c: &Rules, old: bool, k: &mut Vec<&'static str>) -> Report {
    match p {
        Pre::End(e) => all(Err(e.clone()), !old, n),
        Pre::Errors(m) => all(Ok(m.clone()), false, n),
        Pre::Values(v, out, errors) => {
            if !allowed(fs, reducer, c.w17()) {
                k.push("tally-script-refused");
                let mut r = all(Err(End::Code(0x53)), !old, n);
                if old {
                    r.errors.clear();
                }
                return r;
            }
            let (mut v, mut out) = (v.clone(), out.clone());
            for (f, args) in fs {
                match agg::filter(&v, *f as u8, args) {
                    Ok((kept, left)) => {
                        v = kept;
                        if let Some(left) = left {
                            if left.contains(&true) {
                                k.push("filter-left-some-out");
                            }
                            let mut left = left.into_iter();
                            for o in out.iter_mut().filter(|o| !**o) {
                                *o = left.next().unwrap();
                            }
                        }
                    }
                    Err(_) => {
                        k.push("tally-ended-with-error");
                        return Report { result: Err(End::Unhandled), liars: out, errors: errors.clone() };
                    }
                }
            }
            let result = agg::reduce(&v, reducer as u8, c).map_err(|_| End::Unhandled);
            if result.is_err() {
                k.push("tally-ended-with-error");
            }
            Report { result, liars: out, errors: errors.clone() }
        }
    }
}
fn finish(r: Report, min: f64, commits: usize, k: &mut Vec<&'static str>) -> Report {
    if !matches!(&r.result, Ok(v) if v.kind() != 6) {
        return r;
    }
    let got = r.liars.iter().filter(|l| !**l).count() as f64 / commits as f64;
    if got > min {
        k.push("value-stands");
        return r;
    }
    k.push("too-few-after-filters");
    all(Err(End::Few(got, min)), true, r.liars.len())
}
fn end(e: &RadError) -> End {
    match e {
        RadError::InsufficientConsensus { achieved, required } => End::Few(*achieved, *required),
        RadError::UnhandledIntercept { .. } | RadError::UnhandledInterceptV2 { .. } => End::Unhandled,
        e => e.try_into_error_code().map_or(End::Unhandled, |c| End::Code(u8::from(c))),
    }
}
fn fault(r: &mut Rng) -> V {
    let e = match r.below(5) {
        0 => RadError::HttpStatus { status_code: *r.pick(&[404, 500]) },
        1 => RadError::RetrieveTimeout,
        2 => RadError::MapKeyNotFound { key: r.pick(&["a", "b"]).to_string() },
        3 => RadError::Unknown,
        _ => RadError::UnhandledIntercept { inner: None, message: Some(r.pick(&["x", "y"]).to_string()) },
    };
    Fault(RadonError::new(e).encode_tagged_bytes().unwrap())
}
fn reveals(r: &mut Rng) -> Vec<V> {
    let mut a: Vec<V> = match r.below(10) {
        0 => vec![],
        1 => {
            let n = r.range(1, 12);
            let few: Vec<V> = (0..r.range(1, 3)).map(|_| fault(r)).collect();
            (0..n).map(|_| r.pick(&few).clone()).collect()
        }
        _ => items(r).into_iter().take(40).collect(),
    };
    if r.chance(1, 2) {
        let n = r.below(4);
        for _ in 0..n {
            let x = if r.bool() { fault(r) } else { val::scalar(r) };
            let i = r.idx(a.len() + 1);
            a.insert(i, x);
        }
    }
    if r.chance(1, 8) && !a.is_empty() {
        // as many of another type
        let n = a.len();
        let f = fault(r);
        a.extend((0..n).map(|_| f.clone()));
        r.shuffle(&mut a);
    }
    a
}
fn wips(c: &Rules, old: bool) -> ActiveWips {
    let mut w = Rules { wips: Some(c.wips.unwrap_or([false; 3])), ..*c }.active().unwrap();
    if old {
        w.active_wips.insert("WIP0009-0011-0012".into(), 1000);
    }
    w
}
fn run(a: &[V], s: &RADTally, min: f64, commits: usize, w: &ActiveWips, old: bool, too_many: bool) -> (Result<TallyPreconditionClauseResult, RadError>, RadonReport<RadonTypes>) {
    let reports = || -> Vec<_> { a.iter().map(|v| RadonReport::from_result(Ok(v.rad()), &ReportContext::default())).collect() };
    let pre = evaluate_tally_precondition_clause(reports(), min, commits, w, too_many);
    let mut rep = construct_report_from_clause_result(evaluate_tally_precondition_clause(reports(), min, commits, w, too_many), s, a.len(), w);
    if !old {
        rep = evaluate_tally_postcondition_clause(rep, min, commits);
    }
    (pre, rep)
}
fn one(k: &mut Case) {
    let r = &mut k.rng;
    let a = reveals(r);
    let commits = match r.below(8) {
        0 => 0,
        1 | 2 => a.len() + r.below(4) as usize,
        _ => a.len(),
    };
    let commits = if commits < a.len() { if a.is_empty() { 0 } else { a.len() } } else { commits };
    let min = match r.below(6) {
        0 => 0.51,
        1 => r.range(51, 99) as f64 / 100.0,
        2 if commits > 0 => r.range(1, commits as u64) as f64 / commits as f64,
        3 => r.range(1, 50) as f64 / 100.0,
        4 => 0.0,
        _ => 0.6,
    };
    let too_many = r.chance(1, 40);
    let old = r.chance(1, 8);
    let c = Rules::any(r);
    let c = Rules { wips: Some(c.wips.unwrap_or([false; 3])), ..c };
    let w = wips(&c, old);
    let nf = r.below(3);
    let fs: Vec<(u32, Vec<Value>)> = (0..nf)
        .map(|_| match r.below(14) {
            0 => (*r.pick(&[0, 3, 7, 9, 0x85, 0x88, 0x105, 0x108]), vec![]),
            1 => (5, vec![]),
            2 => (5, vec![Value::Text("x".into())]),
            3..=6 => (8, if r.chance(1, 8) { vec![Value::Integer(1)] } else { vec![] }),
            7 => (5, vec![Value::Integer(i128::from(r.below(4)))]),
            _ => (5, vec![Value::Float(r.below(40) as f64 / 16.0)]),
        })
        .collect();
    let reducer = if r.chance(1, 12) { *r.pick(&[0, 1, 4, 6, 7, 8, 0x0c, 0x102, 0x103, 0xff]) } else { *r.pick(&[2, 2, 3, 3, 5, 0x0b]) };
    let s = RADTally {
        filters: fs.iter().map(|(op, args)| RADFilter { op: *op, args: args.first().map_or(vec![], |x| serde_cbor::to_vec(x).unwrap()) }).collect(),
        reducer,
    };
    let mut seen = vec![];
    let pre = precondition(&a, min, commits, old, too_many, &mut seen);
    let mut want = report(&pre, a.len(), &fs, reducer, &c, old, &mut seen);
    if old {
        seen.push("before-the-second-fork");
    } else {
        want = finish(want, min, commits, &mut seen);
    }
    let what = || format!("reveals {a:?}, {commits} commits, at least {min}, too many: {too_many}, filters {fs:?}, reducer {reducer}, {c:?}, old: {old}");
    let Some((gp, rep)) = k.nopanic("tally", what, || run(&a, &s, min, commits, &w, old, too_many)) else { return };
    k.eval(1);
    k.nontrivial(&(a.len(), a.first().map(V::kind), (min * 100.0) as u64, commits - a.len().min(commits), &seen));
    match (&pre, &gp) {
        (Pre::End(e), Err(g)) => {
            k.check(*e == end(g), "precondition", || format!("{}: {g:?} instead of {e:?}", what()));
        }
        (Pre::Errors(m), Ok(TallyPreconditionClauseResult::MajorityOfErrors { errors_mode })) => {
            let g = V::of(&RadonTypes::RadonError(errors_mode.clone()));
            k.check(m.same(&g), "precondition", || format!("{}: {g:?} instead of {m:?}", what()));
        }
        (Pre::Values(v, out, errs), Ok(TallyPreconditionClauseResult::MajorityOfValues { values, liars, errors })) => {
            let g: Vec<V> = values.iter().map(V::of).collect();
            k.check(same_all(v, &g) && out == liars && errs == errors, "precondition", || format!("{}: {g:?} {liars:?} {errors:?} instead of {pre:?}", what()));
        }
        _ => k.violate("precondition", format!("{}: {gp:?} instead of {pre:?}", what())),
    }
    let Stage::Tally(meta) = &rep.context.stage else {
        k.violate("stage", what());
        return;
    };
    let got = match &rep.result {
        RadonTypes::RadonError(e) => Err(end(e.inner())),
        v => Ok(V::of(v)),
    };
    let same = match (&want.result, &got) {
        (Ok(Fault(_)), Err(_)) => want.result.as_ref().is_ok_and(|w| w.same(&V::of(&rep.result))),
        (Ok(x), Ok(y)) => x.same(y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    };
    k.check(same, "result", || format!("{}\n expected {want:?}\n got {got:?}", what()));
    k.check(meta.liars == want.liars && meta.errors == want.errors, "who-is-out", || format!("{}\n expected {want:?}\n got liars {:?} errors {:?}", what(), meta.liars, meta.errors));
    if !old {
        // Whatever the tally is, a value has more honest reveals behind it than the threshold
        let honest = meta.liars.iter().filter(|l| !**l).count();
        k.check(got.is_err() || honest as f64 / commits as f64 > min, "value-without-consensus", what);
        k.check(meta.liars.len() == a.len() && meta.errors.len() == a.len(), "lengths", what);
    }
    // The result can be published
    if !matches!(&got, Ok(v) if crate::enc::encode(v).is_none()) {
        k.check(rep.result.encode_().is_ok(), "no-encoding", what);
    }
    // The order of the reveals makes no difference
    if a.len() > 1 && (reducer == 2 || reducer == 5) && fs.iter().all(|f| f.0 == 8) {
        let mut p: Vec<usize> = (0..a.len()).collect();
        k.rng.shuffle(&mut p);
        let b: Vec<V> = p.iter().map(|i| a[*i].clone()).collect();
        if let Some((_, r2)) = k.nopanic("tally", || format!("{} as {b:?}", what()), || run(&b, &s, min, commits, &w, old, too_many)) {
            let Stage::Tally(m2) = &r2.context.stage else { return };
            let same = match (&rep.result, &r2.result) {
                (RadonTypes::RadonError(x), RadonTypes::RadonError(y)) => end(x.inner()) == end(y.inner()),
                // there is no order of floats and zeros of both signs
                (x, y) => V::of(x).same(&V::of(y)) || matches!((x, y), (RadonTypes::Float(x), RadonTypes::Float(y)) if witnet_rad::types::RadonType::value(x) == witnet_rad::types::RadonType::value(y)),
            };
            let who = m2.liars.is_empty() || p.iter().enumerate().all(|(at, from)| m2.liars[at] == meta.liars[*from]);
            k.check(same && who, "depends-on-order", || format!("{}\n {:?} {:?}\n as {b:?}: {:?} {:?}", what(), rep.result, meta.liars, r2.result, m2.liars));
            k.event("permuted");
        }
    }
    for s in seen {
        k.event(s);
    }
}
trait Encode {
    fn encode_(&self) -> Result<Vec<u8>, RadError>;
}
impl Encode for RadonTypes {
    fn encode_(&self) -> Result<Vec<u8>, RadError> {
        witnet_data_structures::radon_report::TypeLike::encode(self)
    }
}
