//! C40: what every operator does. C39: what a whole script does, whatever it is.
use crate::interp::{self, Call, Trace, OPS, OPS2};
use crate::val::{self, *};
use serde_cbor::Value;
use std::collections::BTreeMap;
use vmon::{Case, Mon, Rng};
use witnet_data_structures::proto::versioning::ProtocolVersion;
use witnet_data_structures::radon_report::{ReportContext, RetrievalMetadata, Stage};
use witnet_rad::operators::{operate_in_context, RadonOpCodes};
use witnet_rad::script::{execute_contextfree_radon_script, execute_radon_script, unpack_radon_call, unpack_radon_script, unpack_subscript, RadonCall, RadonScriptExecutionSettings};
use witnet_rad::types::RadonTypes;
use V::*;

pub fn int_arg(r: &mut Rng) -> Value {
    Value::Integer(val::int(r))
}
fn sep(r: &mut Rng) -> Value {
    Value::Text((*r.pick(&[",", ".", "", " ", "'", "X", "00"])).into())
}
fn seps(r: &mut Rng) -> Vec<Value> {
    let n = *r.pick(&[0, 0, 1, 2, 2, 3]);
    (0..n).map(|_| if r.chance(1, 12) { val::any_cbor(r) } else { sep(r) }).collect()
}
fn filter_args(r: &mut Rng) -> Vec<Value> {
    let code = *r.pick(&[5, 5, 5, 8, 8, 0, 3, 0x85, 9, 300, -1]);
    let mut a = vec![Value::Integer(code)];
    if code == 5 && r.chance(7, 8) || r.chance(1, 12) {
        a.push(match r.below(4) {
            0 => Value::Integer(i128::from(r.below(4))),
            1 => Value::Float(val::float(r)),
            2 => Value::Float(r.below(30) as f64 / 10.0),
            _ => r.pick(&[Value::Integer(1), Value::Integer(-1), Value::Bool(true)]).clone(),
        });
    }
    a
}
fn path(r: &mut Rng) -> Value {
    let mut p = "$".to_string();
    for _ in 0..r.below(3) {
        match r.below(3) {
            0 => p.push_str(&format!("[{}]", r.below(4))),
            _ => p.push_str(&format!(".{}", r.pick(&["a", "b", "c", "key"]))),
        }
    }
    if r.chance(1, 4) {
        p.push_str("[*]");
    }
    Value::Text(p)
}
fn slice_args(r: &mut Rng) -> Vec<Value> {
    let n = r.below(4).min(2).max(u64::from(r.chance(9, 10)));
    (0..n)
        .map(|_| match r.below(10) {
            0 => val::any_cbor(r),
            1 => int_arg(r),
            2 => Value::Integer(*r.pick(&[i32::MIN as i128, i32::MAX as i128, i32::MIN as i128 - 1])),
            _ => Value::Integer(i128::from(r.below(24)) - 8),
        })
        .collect()
}
fn pattern(r: &mut Rng) -> Value {
    Value::Text(match r.below(8) {
        0 => r.ascii(4),
        1 => "(".into(),
        2 => "[0-9]+".into(),
        3 => "(a)(b)?".into(),
        4 => "".into(),
        5 => "$".into(),
        _ => (*r.pick(&[",", "a", ".", "\\s", "X"])).into(),
    })
}
pub fn subscript_arg(r: &mut Rng, item: Option<&V>, c: &Rules, d: usize) -> Value {
    if d == 0 || r.chance(1, 12) {
        return if r.chance(1, 3) { val::any_cbor(r) } else { Value::Array(vec![]) };
    }
    let n = r.below(4) as usize;
    let script = script_for(r, item.unwrap_or(&Int(1)), c, n, d - 1);
    Value::Array(script.iter().map(pack).collect())
}
pub fn pack(c: &Call) -> Value {
    match &c.1 {
        None => Value::Integer(i128::from(c.0)),
        Some(a) => Value::Array(std::iter::once(Value::Integer(i128::from(c.0))).chain(a.iter().cloned()).collect()),
    }
}
/// Arguments that usually fit.
pub fn args_for(r: &mut Rng, op: u8, v: &V, c: &Rules, d: usize) -> Option<Vec<Value>> {
    match r.below(40) {
        0 => return None,
        1 => return Some(vec![]),
        2 => return Some((0..r.below(3)).map(|_| val::any_cbor(r)).collect()),
        _ => {}
    }
    let some = |x: Vec<Value>| Some(x);
    match op {
        0x13..=0x19 => {
            let n = if let Arr(a) = v { a.len() as u64 } else { 3 };
            let i = match r.below(12) {
                0 => int_arg(r),
                1 => Value::Integer(-1),
                _ => Value::Integer(i128::from(r.below(n + 1).min(n.saturating_sub(u64::from(r.chance(5, 6)))))),
            };
            let mut a = vec![i];
            if op == 0x16 || op == 0x17 {
                a.extend(seps(r));
            }
            some(a)
        }
        0x11 => {
            if r.bool() {
                return some(filter_args(r));
            }
            let first = if let Arr(a) = v { a.first() } else { None };
            let s = subscript_arg(r, first, c, d);
            // end it with a comparison, if it can
            if let (Value::Array(mut calls), Some(f)) = (s.clone(), first) {
                if let Ok(sub) = interp::subscript(&s) {
                    if let Ok(last) = interp::run(f, &sub, c, &mut vec![]) {
                        let end = match last {
                            Int(_) => Some(Value::Array(vec![Value::Integer(if r.bool() { 0x43 } else { 0x44 }), int_arg(r)])),
                            Float(_) => Some(Value::Array(vec![Value::Integer(if r.bool() { 0x53 } else { 0x55 }), Value::Float(val::float(r))])),
                            Bool(_) => Some(Value::Integer(0x22)),
                            Str(_) => {
                                let m = BTreeMap::from([(Value::Text("a".into()), Value::Bool(true)), (Value::Text("true".into()), Value::Bool(true))]);
                                Some(Value::Array(vec![Value::Integer(0x75), Value::Map(m), Value::Bool(false)]))
                            }
                            _ => None,
                        };
                        calls.extend(end);
                        return some(vec![Value::Array(calls)]);
                    }
                }
            }
            some(vec![s])
        }
        0x1A => {
            let first = if let Arr(a) = v { a.first() } else { None };
            some(vec![subscript_arg(r, first, c, d)])
        }
        0x1D => {
            if r.chance(1, 3) {
                return some(vec![]);
            }
            let first = if let Arr(a) = v { a.first() } else { None };
            some(vec![subscript_arg(r, first, c, d)])
        }
        0x1B => some(vec![Value::Integer(*r.pick(&[2, 2, 3, 3, 5, 5, 7, 0x0b, 0x0b, 0, 4, 12, 260]))]),
        0x30 | 0x71 => match r.below(6) {
            0 => None,
            1 => some(vec![]),
            _ => some(vec![Value::Integer(*r.pick(&[0, 0x10, 0x11, 0x80, 1, 0x80, 300]))]),
        },
        0x31 => some(vec![Value::Integer(*r.pick(&[0x0a, 0x0a, 0x0a, 0x0b, 0, 10 + 256]))]),
        0x32 | 0x4A => match r.below(4) {
            0 => None,
            _ => some(vec![Value::Integer(*r.pick(&[0, 1, 1, 2, 255, 257]))]),
        },
        0x3C | 0x7C => some(slice_args(r)),
        0x43 | 0x44 | 0x46 | 0x47 => {
            let near = if let Int(i) = v { *i } else { 0 };
            some(vec![match r.below(6) {
                0 => Value::Integer(near.clamp(-(1 << 63), (1 << 63) - 1)),
                1 => Value::Integer(val::big(r).clamp(-(1 << 64), (1 << 64) - 1)),
                2 => Value::Integer(*r.pick(&[0, 1, -1, 2, 10])),
                3 => val::any_cbor(r),
                _ => int_arg(r),
            }])
        }
        0x49 => some(vec![Value::Integer(if r.chance(7, 8) { i128::from(r.below(140)) } else { val::int(r) })]),
        0x53 | 0x55 | 0x56 | 0x57 | 0x59 => some(vec![match r.below(6) {
            0 => int_arg(r),
            1 => if let Float(f) = v { Value::Float(*f) } else { Value::Null },
            2 => val::any_cbor(r),
            _ => Value::Float(val::float(r)),
        }]),
        0x61..=0x67 => {
            let k = match v {
                Map(m) if !m.is_empty() && r.chance(5, 6) => {
                    let i = r.idx(m.len());
                    m.keys().nth(i).unwrap().clone()
                }
                _ => val::key(r),
            };
            let mut a = vec![if r.chance(1, 12) { Value::Bytes(k.into_bytes()) } else { Value::Text(k) }];
            if op == 0x64 || op == 0x65 {
                a.extend(seps(r));
            }
            some(a)
        }
        0x72 | 0x73 => {
            if r.bool() {
                None
            } else {
                some(seps(r))
            }
        }
        0x75 => {
            let mut m = BTreeMap::new();
            let kind = *r.pick(&[1, 2, 3, 4, 7, 5, 0]);
            for _ in 0..r.below(4) {
                let k = match v {
                    Str(s) if r.bool() => s.clone(),
                    _ => val::key(r),
                };
                let k2 = if r.chance(4, 5) { kind } else { r.below(8) };
                m.insert(Value::Text(k), val::of_kind(r, k2, 1).cbor());
            }
            let m = Value::Map(m);
            let d = val::of_kind(r, kind, 1).cbor();
            some(vec![m, d])
        }
        0x76 => match r.below(4) {
            0 | 1 => None,
            2 => some(vec![path(r)]),
            _ => some(vec![Value::Array((0..r.below(4)).map(|_| path(r)).collect())]),
        },
        0x77 => {
            if r.bool() {
                None
            } else {
                some(vec![path(r)])
            }
        }
        0x7B => {
            let p = pattern(r);
            let q = Value::Text((*r.pick(&["", "Z", "$1", "${0}0", "$$"])).into());
            some(vec![p, q])
        }
        0x7D => {
            if r.chance(1, 6) {
                None
            } else {
                some(vec![pattern(r)])
            }
        }
        _ => None,
    }
}
pub fn all_ops() -> impl Iterator<Item = u8> {
    OPS.iter().chain(&OPS2).map(|(c, _)| *c)
}
pub fn op_for(r: &mut Rng, v: &V) -> u8 {
    let lo = match v.kind() {
        0 => 0x10,
        1 => 0x20,
        2 => 0x30,
        3 => 0x50,
        4 => 0x40,
        5 => 0x60,
        _ => 0x70,
    };
    let mine: Vec<u8> = if r.chance(1, 25) { all_ops().collect() } else { all_ops().filter(|o| o & 0xf0 == lo || (*o == 0 && lo == 0)).collect() };
    *r.pick(&mine)
}
pub fn script_for(r: &mut Rng, v: &V, c: &Rules, n: usize, d: usize) -> Vec<Call> {
    let mut out = vec![];
    let mut at = v.clone();
    for _ in 0..n {
        // prefer what goes on
        let mut best = None;
        for _ in 0..4 {
            let o = op_for(r, &at);
            let a = args_for(r, o, &at, c, d);
            let call = (o, a);
            match interp::op(&at, &call, c, &mut vec![]) {
                Ok(x) => {
                    best = Some((call, Some(x)));
                    break;
                }
                _ => best = Some((call, None)),
            }
        }
        let (call, next) = best.unwrap();
        out.push(call);
        match next {
            Some(x) => at = x,
            None if r.chance(1, 3) => {}
            None => break,
        }
    }
    out
}
pub fn code(o: u8) -> RadonOpCodes {
    RadonOpCodes::try_from(o).expect("an operator")
}
pub fn calls(s: &[Call]) -> Vec<RadonCall> {
    s.iter().map(|(o, a)| (code(*o), a.clone())).collect()
}
pub fn context(c: &Rules, stage: Stage<RadonTypes>) -> ReportContext<RadonTypes> {
    let mut x = ReportContext::from_stage(stage);
    x.active_wips = c.active();
    x.protocol_version = if c.v21 { Some(ProtocolVersion::V2_1) } else { Some(ProtocolVersion::V2_0) };
    x
}

/// Every operator against its definition.
pub fn operators(m: &mut Mon) {
    m.rule("operator, kinds of arguments and outcome");
    for op in all_ops() {
        if op != 0x78 && op != 0xff {
            m.require(format!("ok:{}", interp::name(op).unwrap()).as_str(), 1);
        }
    }
    let n = m.n(480_000, 10_000_000);
    m.run_par("operator", n, |k: &mut Case| {
        let r = &mut k.rng;
        let c = Rules::any(r);
        let op = {
            let all: Vec<u8> = all_ops().filter(|o| *o != 0x78).collect();
            *r.pick(&all)
        };
        let kind = match op >> 4 {
            1 => 0,
            2 => 1,
            3 => 2,
            4 => 4,
            5 => 3,
            6 => 5,
            7 => 7,
            _ => *r.pick(&[0, 1, 2, 3, 4, 5, 7]),
        };
        let kind = if r.chance(1, 30) { *r.pick(&[0, 1, 2, 3, 4, 5, 7]) } else { kind };
        let v = match (op, kind) {
            (0x76 | 0x77, 7) if r.chance(9, 10) => {
                let mut j = val::json(r, 3);
                for _ in 0..6 {
                    if (op == 0x76) == j.is_array() && (op == 0x77) == j.is_object() {
                        break;
                    }
                    j = val::json(r, 3);
                }
                Str(j.to_string())
            }
            (0x70, 7) => Str((*r.pick(&["true", "false", "true\n", "True", "", "truefalse"])).into()),
            (0x72 | 0x73, 7) => Str(val::number_text(r)),
            (_, 4) => Int(if r.bool() { val::big(r) } else { val::int(r) }),
            (0x32, 2) => {
                let n = r.below(18) as usize;
                Bytes(r.bytes(n))
            }
            (0x7C, 7) if r.bool() => Str(r.unicode(8)),
            (0x1B | 0x11 | 0x1D, 0) if r.chance(2, 3) => numeric_array(r),
            _ => val::of_kind(r, kind, 3),
        };
        if op == 0x1D && r.chance(1, 4) {
            // sorted by something that may be of several kinds
            let n = r.range(1, 5);
            let kinds: Vec<u64> = (0..2).map(|_| *r.pick(&[1, 3, 4, 7])).collect();
            let v = Arr((0..n).map(|_| { let x = *r.pick(&kinds); let e = val::of_kind(r, x, 0); Arr(vec![e.clone(), e]) }).collect());
            let call = Value::Array(vec![Value::Array(vec![Value::Integer(0x1B), Value::Integer(2)])]);
            return one(k, &v, &(op, Some(vec![call])), &c);
        }
        let args = args_for(r, op, &v, &c, 2);
        one(k, &v, &(op, args), &c);
    });
    m.run("xml", m.n(24_000, 300_000), xml);
}
fn numeric_array(r: &mut Rng) -> V {
    let n = r.below(7);
    match r.below(4) {
        0 => Arr((0..n).map(|_| Int(i128::from(r.below(5)))).collect()),
        1 => Arr((0..n).map(|_| Float(r.below(50) as f64 / 4.0)).collect()),
        2 => {
            let w = r.below(4);
            Arr((0..n).map(|_| Arr((0..w).map(|_| Int(i128::from(r.below(5)))).collect())).collect())
        }
        _ => Arr((0..n).map(|_| { let s = r.pick(&["a", "b", "ab", "00", "ff"]).to_string(); Str(s) }).collect()),
    }
}
fn one(k: &mut Case, v: &V, call: &Call, c: &Rules) {
    let mut t = Trace::new();
    let want = interp::op(v, call, c, &mut t);
    let what = || format!("{} of {v:?} with {:?} under {c:?}", interp::name(call.0).unwrap(), call.1);
    let name = interp::name(call.0).unwrap_or("?");
    let rc = (code(call.0), call.1.clone());
    let input = v.rad();
    let mut x = context(c, Stage::Contextless);
    let got = k.nopanic(name, what, || operate_in_context(input, &rc, &mut x));
    let Some(got) = got else { return };
    let got = outcome(&got);
    k.check(same_r(&want, &got), name, || format!("{}\n expected {want:?}\n got      {got:?}", what()));
    k.eval(1);
    if want.is_ok() {
        k.event(&format!("ok:{name}"));
    } else {
        k.event("refused");
    }
    let shape: Vec<_> = call.1.iter().flatten().map(|v| std::mem::discriminant(v)).collect();
    k.nontrivial(&(call.0, v.kind(), call.1.is_some(), shape, want.is_ok()));
}
/// A tree of XML with what it must be read as.
fn tree(r: &mut Rng, d: u64, out: &mut String) -> V {
    let mut map: BTreeMap<String, V> = BTreeMap::new();
    let name = *r.pick(&["a", "b", "item", "Z-1"]);
    out.push_str(&format!("<{name}"));
    for a in ["x", "y", "id"] {
        if r.chance(1, 5) {
            let v: String = (0..r.below(4)).map(|_| *r.pick(&['p', 'q', '1', ' '])).collect();
            out.push_str(&format!(" {a}=\"{v}\""));
            map.insert(format!("@{a}"), Str(v));
        }
    }
    let n = if d == 0 { r.below(2) } else { r.below(4) };
    let mut texts = vec![];
    let mut kids: Vec<(String, V)> = vec![];
    if n == 0 && r.bool() {
        out.push_str("/>");
    } else {
        out.push('>');
        let mut text = false;
        for _ in 0..n {
            // two texts are never next to each other
            if (d == 0 || r.chance(1, 3)) && !text {
                let t = *r.pick(&[" ", "hello", " 1 2 ", "\n\t", "x&lt;y", "3.5"]);
                out.push_str(t);
                let t = t.trim().replace("&lt;", "<");
                if !t.is_empty() {
                    texts.push(Str(t));
                }
                text = true;
            } else if d > 0 {
                text = false;
                let start = out.len();
                let v = tree(r, d - 1, out);
                let name: String = out[start + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '-').collect();
                kids.push((name, v));
            }
        }
        out.push_str(&format!("</{name}>"));
    }
    let text = match texts.len() {
        0 => None,
        1 => texts.pop(),
        _ => Some(Arr(texts)),
    };
    if kids.is_empty() && map.is_empty() {
        return text.unwrap_or(Str(String::new()));
    }
    if let Some(t) = text {
        map.insert("_text".into(), t);
    }
    for (k, v) in kids {
        match map.get_mut(&k) {
            None => {
                map.insert(k, v);
            }
            Some(Arr(a)) => a.push(v),
            Some(x) => {
                let old = x.clone();
                *x = Arr(vec![old, v]);
            }
        }
    }
    Map(map)
}
fn xml(k: &mut Case) {
    let r = &mut k.rng;
    let mut s = String::new();
    if r.chance(1, 10) {
        s.push_str("<?xml version=\"1.0\"?>");
    }
    let start = s.len();
    let (want, name) = if r.chance(1, 8) {
        // a chain
        let n = r.range(18, 24) as usize;
        for _ in 0..n {
            s.push_str("<c>");
        }
        s.push('t');
        for _ in 0..n {
            s.push_str("</c>");
        }
        let mut v = Str("t".into());
        for _ in 1..n {
            v = Map(BTreeMap::from([("c".to_string(), v)]));
        }
        (if n - 1 > 20 { None } else { Some(v) }, "c".to_string())
    } else {
        let d = r.below(4);
        let v = tree(r, d, &mut s);
        (Some(v), s[start + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '-').collect())
    };
    let broken = r.chance(1, 8);
    if broken {
        s.pop();
    }
    let want = want.filter(|_| !broken).map(|v| Map(BTreeMap::from([(name, v)])));
    let c = Rules { wips: Some([true; 3]), v21: true };
    let input = Str(s.clone()).rad();
    let got = k.nopanic("StringParseXMLMap", || s.clone(), || operate_in_context(input, &(code(0x78), None), &mut context(&c, Stage::Contextless)));
    let Some(got) = got else { return };
    let ok = match (&want, outcome(&got)) {
        (Some(w), Ok(g)) => w.same(&g),
        (None, Err(_)) => true,
        _ => false,
    };
    k.check(ok, "StringParseXMLMap", || format!("{s}\n expected {want:?}\n got {:?}", outcome(&got)));
    k.eval(1);
    k.nontrivial(&s);
}

/// C39
pub fn scripts(m: &mut Mon) {
    m.rule("sequence of operators with outcome");
    m.require("ended-with-a-value", 50);
    m.require("ended-with-an-error", 50);
    m.require("subscripts-recorded", 20);
    m.require("error-within-a-subscript", 5);
    m.require("packed", 50);
    m.require("bytes-refused", 20);
    m.require("bytes-understood", 20);
    m.require("clock-went-back", 5);
    let n = m.n(96_000, 2_000_000);
    m.run_par("script", n, run_one);
    m.run_par("unpacking", m.n(160_000, 2_000_000), unpacking);
    m.run("operator-codes", m.n(2_400, 10_000), codes);
    m.run("clock", m.n(60, 600), clock);
}
fn settings(i: u64) -> RadonScriptExecutionSettings {
    RadonScriptExecutionSettings { breakpoints: i & 1 != 0, partial_results: i & 2 != 0, timing: i & 4 != 0 }
}
fn run_one(k: &mut Case) {
    let r = &mut k.rng;
    let c = Rules::any(r);
    let d = r.below(4) as usize;
    let v = val::value(r, d, None);
    let n = r.below(7) as usize;
    let mut s = script_for(r, &v, &c, n, 2);
    if r.chance(1, 6) {
        // anything at all
        let n = r.below(5);
        s = (0..n)
            .map(|_| {
                let all: Vec<u8> = all_ops().collect();
                let o = *r.pick(&all);
                let a = args_for(r, o, &v, &c, 2);
                (o, a)
            })
            .collect();
    }
    let text = format!("{s:?}");
    let xml = text.contains("120");
    // within subscripts the settings are those of the stage
    let flat = !s.iter().any(|c| matches!(c.0, 0x11 | 0x1A | 0x1D));
    let mut t = Trace::new();
    let want = interp::steps(&v, &s, &c, &mut t);
    let rs = calls(&s);
    let input = v.rad();
    let what = || format!("{s:?} on {v:?} under {c:?}");
    let which = r.below(4);
    let mut results: Vec<V> = vec![];
    for i in 0..8u64 {
        let stage = match which {
            0 => Stage::Contextless,
            1 => Stage::Aggregation,
            _ => Stage::Retrieval(RetrievalMetadata::default()),
        };
        let mut x = context(&c, stage);
        let (input, rs2) = (input.clone(), rs.clone());
        let Some(got) = k.nopanic("script", what, || execute_radon_script(input, &rs2, &mut x, settings(i))) else { return };
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                k.violate("not-intercepted", format!("{} ended with {e:?} instead of a report", what()));
                return;
            }
        };
        let end = V::of(&got.result);
        if let Some(f) = results.first() {
            k.check(f.same(&end), "depends-on-settings", || format!("{}: {f:?} and {end:?} with settings {i}", what()));
        }
        results.push(end.clone());
        k.check(got.partial_results.is_some() == (i & 2 != 0), "partial-results", || format!("{}: settings {i}", what()));
        if let Some(p) = &got.partial_results {
            let p: Vec<V> = p.iter().map(V::of).collect();
            k.check(p.last().is_some_and(|l| l.same(&end)), "last-partial-result", || format!("{}: {p:?} but the result is {end:?}", what()));
            if !xml {
                let vals: Vec<&V> = want.iter().filter_map(|w| w.as_ref().ok()).collect();
                let ok = p.len() == want.len() && vals.iter().zip(&p).all(|(a, b)| a.same(b));
                k.check(ok, "partial-results", || format!("{}\n expected {want:?}\n got {p:?}", what()));
            }
        }
        if i & 1 != 0 {
            if !s.is_empty() && !xml && flat {
                let last = (want.len() - 1).max(1) - 1;
                k.check(got.context.call_index == Some(last), "call-index", || format!("{}: call index {:?}, expected {last}", what(), got.context.call_index));
            }
        } else if flat {
            k.check(got.context.call_index.is_none(), "call-index", || format!("{}: a call index without breakpoints", what()));
        }
        k.check(!flat || got.context.start_time.is_some() == (i & 4 != 0) && got.context.completion_time.is_some() == (i & 4 != 0), "timing", what);
        if let (Stage::Retrieval(meta), true, false) = (&got.context.stage, which >= 2, xml) {
            let g = &meta.subscript_partial_results;
            let ok = g.len() == t.len() && g.iter().zip(&t).all(|(a, b)| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_all(&x.iter().map(V::of).collect::<Vec<_>>(), y)));
            k.check(ok, "subscript-partial-results", || format!("{}\n expected {t:?}\n got {g:?}", what()));
            if !t.is_empty() && i == 0 {
                k.event("subscripts-recorded");
            }
        }
    }
    // the result itself
    if !xml {
        let end = want.last().unwrap();
        match (end, &results[0]) {
            (Ok(w), g) => {
                k.check(w.same(g), "result", || format!("{}\n expected {w:?}\n got {g:?}", what()));
                k.event("ended-with-a-value");
            }
            (Result::Err(e), Fault(_)) => {
                k.event("ended-with-an-error");
                if *e == E::Unhandled {
                    k.event("error-within-a-subscript");
                }
            }
            (w, g) => k.violate("result", format!("{}\n expected {w:?}\n got {g:?}", what())),
        }
    }
    // without a context
    {
        let (input, rs2) = (input.clone(), rs.clone());
        let a = k.nopanic("contextfree", what, || execute_contextfree_radon_script(input, &rs2));
        if let (Some(a), false) = (a, xml) {
            let _ = a;
        }
    }
    k.eval(1);
    k.nontrivial(&(s.iter().map(|c| c.0).collect::<Vec<_>>(), want.len()));
    // packed and back
    let packed = Value::Array(s.iter().map(pack).collect());
    if let Ok(b) = serde_cbor::to_vec(&packed) {
        match unpack_radon_script(&b) {
            Ok(u) => {
                let ok = u.len() == rs.len() && u.iter().zip(&rs).all(|(a, b)| a.0 == b.0 && format!("{:?}", a.1) == format!("{:?}", b.1));
                k.check(ok, "unpacked", || format!("{}: unpacked as {u:?}", what()));
                k.event("packed");
            }
            Result::Err(e) => k.violate("unpacked", format!("{}: {e:?}", what())),
        }
    }
}
fn unpacking(k: &mut Case) {
    let r = &mut k.rng;
    let b = match r.below(4) {
        0 => {
            let n = r.below(30) as usize;
            r.bytes(n)
        }
        1 => {
            let v = val::any_cbor(r);
            serde_cbor::to_vec(&v).unwrap_or_default()
        }
        _ => {
            let n = r.below(5) as usize;
            let c = Rules::any(r);
            let v = val::value(r, 2, None);
            let s = script_for(r, &v, &c, n, 2);
            let v = Value::Array(s.iter().map(pack).collect());
            let mut b = serde_cbor::to_vec(&v).unwrap_or_default();
            for _ in 0..r.below(3) {
                if !b.is_empty() {
                    let i = r.idx(b.len());
                    b[i] = if r.bool() { r.u8() } else { b[i] ^ 1 };
                }
            }
            if r.chance(1, 6) && !b.is_empty() {
                let i = r.idx(b.len());
                b.truncate(i);
            }
            b
        }
    };
    let Some(got) = k.nopanic("unpacking", || hex::encode(&b), || unpack_radon_script(&b)) else { return };
    k.eval(1);
    match got {
        Ok(s) => {
            k.event("bytes-understood");
            // what is understood is a list of calls with known operators
            let v: Result<Value, _> = serde_cbor::from_slice(&b);
            let Ok(Value::Array(a)) = v else {
                k.violate("unpacked-from-nothing", hex::encode(&b));
                return;
            };
            k.check(a.len() == s.len(), "unpacked", || format!("{} calls from {a:?}", s.len()));
            for (call, raw) in s.iter().zip(&a) {
                let ok = match (raw, &call.1) {
                    (Value::Integer(i), None) => i & 0xff == i128::from(call.0 as u8) && *i >= 0,
                    (Value::Array(x), Some(args)) => x.first() == Some(&Value::Integer(i128::from(call.0 as u8))) && format!("{:?}", &x[1..]) == format!("{args:?}"),
                    _ => false,
                };
                k.check(ok, "unpacked", || format!("{call:?} from {raw:?}"));
            }
            // ...and running it on anything ends
            let v = val::value(&mut k.rng, 2, None);
            let c = Rules::any(&mut k.rng);
            let input = v.rad();
            let mut x = context(&c, Stage::Retrieval(RetrievalMetadata::default()));
            k.nopanic("script", || format!("{s:?} on {v:?}"), || execute_radon_script(input, &s, &mut x, settings(7)));
        }
        Result::Err(_) => k.event("bytes-refused"),
    }
}
/// Codes that are not operators are refused.
fn codes(k: &mut Case) {
    let r = &mut k.rng;
    let i = match r.below(4) {
        0 => i128::from(r.below(256)),
        1 => i128::from(r.below(4096)),
        2 => -1 - i128::from(r.below(300)),
        _ => val::int(r),
    };
    let compound = r.bool();
    let v = if compound { Value::Array(vec![Value::Integer(i)]) } else { Value::Integer(i) };
    let known = u8::try_from(i).ok().filter(|o| interp::name(*o).is_some());
    let got = unpack_radon_call(&v);
    let sub = unpack_subscript(&Value::Array(vec![v.clone()]));
    k.eval(1);
    k.nontrivial(&i);
    k.check(got.is_ok() == sub.is_ok(), "subscript", || format!("{v:?}"));
    match (known, got) {
        (Some(o), Ok(c)) => {
            k.check(c.0 as u8 == o, "operator-code", || format!("{v:?} is {c:?}"));
        }
        (None, Result::Err(_)) => {}
        (None, Ok(c)) => k.violate(if !compound && i > 255 { "operator-code-above-255" } else { "operator-code" }, format!("{v:?} is accepted as {c:?}")),
        (Some(_), Result::Err(e)) => k.violate("operator-code", format!("{v:?} is refused: {e:?}")),
    }
}
/// The wall clock may go back while a script runs.
fn clock(k: &mut Case) {
    let back = 1 + k.rng.below(1 << 20) as i64;
    let each = k.rng.bool();
    let v = Int(val::int(&mut k.rng));
    let input = v.rad();
    let s = vec![(code(0x40), None), (code(0x42), None)];
    let c = Rules { wips: Some([true; 3]), v21: true };
    let mut x = context(&c, Stage::Contextless);
    crate::clock::set(-back, each);
    let got = k.nopanic("clock", || format!("the clock goes back {back} s"), || execute_radon_script(input, &s, &mut x, settings(7)));
    let moved = crate::clock::reset();
    k.eval(1);
    k.nontrivial(&back);
    if moved > 0 {
        k.event("clock-went-back");
    }
    if let Some(Ok(g)) = got {
        let t = g.running_time.as_secs_f64();
        k.check(t < 60.0, "clock", || format!("{t} s"));
    }
}
