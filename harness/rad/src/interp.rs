//! The reference interpreter of RADON scripts, over own values.
use crate::val::{Rules, E, R, V};
use base64::Engine;
use serde_cbor::Value;
use std::collections::BTreeMap;
use V::*;

pub type Call = (u8, Option<Vec<Value>>);
/// (code, name)
pub const OPS: [(u8, &str); 58] = [
    (0x00, "Identity"), (0x10, "ArrayCount"), (0x11, "ArrayFilter"), (0x13, "ArrayGetArray"), (0x14, "ArrayGetBoolean"), (0x15, "ArrayGetBytes"), (0x16, "ArrayGetFloat"),
    (0x17, "ArrayGetInteger"), (0x18, "ArrayGetMap"), (0x19, "ArrayGetString"), (0x1A, "ArrayMap"), (0x1B, "ArrayReduce"), (0x1D, "ArraySort"), (0x20, "BooleanAsString"),
    (0x22, "BooleanNegate"), (0x30, "BytesToString"), (0x31, "BytesHash"), (0x32, "BytesToInteger"), (0x34, "BytesLength"), (0x3C, "BytesSlice"), (0x40, "IntegerAbsolute"),
    (0x41, "IntegerToFloat"), (0x42, "IntegerToString"), (0x43, "IntegerGreaterThan"), (0x44, "IntegerLessThan"), (0x46, "IntegerModulo"), (0x47, "IntegerMultiply"),
    (0x48, "IntegerNegate"), (0x49, "IntegerPower"), (0x4A, "IntegerToBytes"), (0x50, "FloatAbsolute"), (0x51, "FloatAsString"), (0x52, "FloatCeiling"), (0x53, "FloatGreaterThan"),
    (0x54, "FloatFloor"), (0x55, "FloatLessThan"), (0x56, "FloatModulo"), (0x57, "FloatMultiply"), (0x58, "FloatNegate"), (0x59, "FloatPower"), (0x5B, "FloatRound"),
    (0x5D, "FloatTruncate"), (0x61, "MapGetArray"), (0x62, "MapGetBoolean"), (0x63, "MapGetBytes"), (0x64, "MapGetFloat"), (0x65, "MapGetInteger"), (0x66, "MapGetMap"),
    (0x67, "MapGetString"), (0x68, "MapKeys"), (0x69, "MapValues"), (0x70, "StringAsBoolean"), (0x71, "StringAsBytes"), (0x72, "StringAsFloat"), (0x73, "StringAsInteger"),
    (0x74, "StringLength"), (0x75, "StringMatch"), (0x76, "StringParseJSONArray"),
];
pub const OPS2: [(u8, &str); 8] = [
    (0x77, "StringParseJSONMap"), (0x78, "StringParseXMLMap"), (0x79, "StringToLowerCase"), (0x7A, "StringToUpperCase"), (0x7B, "StringReplace"), (0x7C, "StringSlice"),
    (0x7D, "StringSplit"), (0xFF, "Fail"),
];
pub fn name(op: u8) -> Option<&'static str> {
    OPS.iter().chain(&OPS2).find(|(c, _)| *c == op).map(|(_, n)| *n)
}

/// What the subscripts went through: per subscript, rows of values (the input first).
pub type Trace = Vec<Vec<Vec<V>>>;

pub fn run(v: &V, script: &[Call], c: &Rules, t: &mut Trace) -> R {
    steps(v, script, c, t).pop().unwrap()
}
/// The input and every result up to the first error.
pub fn steps(v: &V, script: &[Call], c: &Rules, t: &mut Trace) -> Vec<R> {
    let mut out = vec![Ok(v.clone())];
    for call in script {
        let Ok(v) = out.last().unwrap() else { break };
        let r = op(&v.clone(), call, c, t);
        out.push(r);
    }
    out
}

fn other<T>() -> Result<T, E> {
    Err(E::Other)
}
fn a_u8(v: &Value) -> Result<u8, E> {
    match v {
        Value::Integer(i) => u8::try_from(*i).or(other()),
        _ => other(),
    }
}
fn a_i32(v: &Value) -> Result<i32, E> {
    match v {
        Value::Integer(i) => i32::try_from(*i).or(other()),
        _ => other(),
    }
}
fn a_i128(v: Option<&Value>) -> Result<i128, E> {
    match v {
        Some(Value::Integer(i)) => Ok(*i),
        _ => other(),
    }
}
fn a_f64(v: Option<&Value>) -> Result<f64, E> {
    match v {
        Some(Value::Integer(i)) => Ok(*i as f64),
        Some(Value::Float(f)) => Ok(*f),
        _ => other(),
    }
}
fn a_str(v: &Value) -> Result<String, E> {
    match v {
        Value::Text(s) => Ok(s.clone()),
        Value::Bytes(b) => String::from_utf8(b.clone()).or(other()),
        _ => other(),
    }
}
/// A value given as an argument: what cannot be understood inside of arrays and maps is left out.
pub fn from_arg(v: &Value) -> Option<V> {
    Some(match v {
        Value::Bool(b) => Bool(*b),
        Value::Integer(i) => Int(*i),
        Value::Float(f) => Float(*f),
        Value::Text(s) => Str(s.clone()),
        Value::Bytes(b) => Bytes(b.clone()),
        Value::Array(a) => Arr(a.iter().filter_map(from_arg).collect()),
        Value::Map(m) => {
            let mut o = BTreeMap::new();
            let mut ks = vec![];
            for (k, v) in m {
                ks.push((a_str(k).ok()?, v));
            }
            for (k, v) in ks {
                if let Some(v) = from_arg(v) {
                    o.insert(k, v);
                }
            }
            Map(o)
        }
        _ => return None,
    })
}
fn as_text(v: &V) -> Result<String, E> {
    Ok(match v {
        Bool(b) => b.to_string(),
        Float(f) => f.to_string(),
        Int(i) => i.to_string(),
        Str(s) => s.clone(),
        Bytes(b) => String::from_utf8(b.clone()).or(other())?,
        _ => return other(),
    })
}
fn get(item: V, kind: u8) -> R {
    if kind == 7 {
        return as_text(&item).map(Str);
    }
    if item.kind() == kind {
        Ok(item)
    } else {
        other()
    }
}
/// Before improvement 24
fn get_number_old(item: V, kind: u8) -> R {
    match (item, kind) {
        (Float(f), 3) => Ok(Float(f)),
        (Int(i), 3) => Ok(Float(i as f64)),
        (Str(s), 3) => s.parse().map(Float).or(other()),
        (Int(i), 4) => Ok(Int(i)),
        (Str(s), 4) => s.parse().map(Int).or(other()),
        _ => other(),
    }
}
fn normal(s: &str, seps: &[Value]) -> String {
    let (mut t, mut d) = (",".to_string(), ".".to_string());
    if seps.len() == 1 || seps.len() == 2 {
        t = a_str(&seps[0]).unwrap_or(t);
    }
    if seps.len() == 2 {
        d = a_str(&seps[1]).unwrap_or(d);
    }
    s.replace(&t, "").replace(&d, ".")
}
fn number(s: &str, kind: u8) -> R {
    if kind == 3 {
        s.parse().map(Float).or(other())
    } else {
        s.parse().map(Int).or(other())
    }
}
fn got(item: V, kind: u8, seps: &[Value], c: &Rules) -> R {
    match kind {
        3 | 4 if c.w24() => number(&normal(&as_text(&item)?, seps), kind),
        3 | 4 => get_number_old(item, kind),
        _ => get(item, kind),
    }
}
pub fn subscript(v: &Value) -> Result<Vec<Call>, E> {
    let Value::Array(a) = v else { return other() };
    a.iter()
        .map(|c| match c {
            // C39 asks for the strict reading; here only the low byte counts, as in the scripts.
            Value::Integer(i) if *i >= 0 => match *i as u8 {
                o if name(o).is_some() => Ok((o, None)),
                _ => other(),
            },
            Value::Array(a) => match a.split_first() {
                Some((Value::Integer(i), rest)) => match u8::try_from(*i) {
                    Ok(o) if name(o).is_some() => Ok((o, Some(rest.to_vec()))),
                    _ => other(),
                },
                _ => other(),
            },
            _ => other(),
        })
        .collect()
}
fn each(a: &[V], arg: &Value, c: &Rules, t: &mut Trace, mut done: impl FnMut(&V, V) -> Result<(), E>) -> Result<(), E> {
    let sub = subscript(arg)?;
    let mut rows: Vec<Vec<V>> = vec![vec![]; sub.len() + 1];
    for item in a {
        let st = steps(item, &sub, c, t);
        let last = match st.last().unwrap() {
            Ok(v) => v.clone(),
            Err(E::Other) => return Err(E::Unhandled),
            Err(e) => return Err(e.clone()),
        };
        done(item, last)?;
        for (row, x) in rows.iter_mut().zip(st) {
            row.push(x?);
        }
    }
    t.push(rows);
    Ok(())
}
pub fn homogeneous(a: &[V]) -> bool {
    a.windows(2).all(|w| w[0].kind() == w[1].kind())
}
fn slice<T: Clone>(x: &[T], args: &[Value]) -> Result<(usize, usize), E> {
    let n = x.len() as i64;
    let start = i64::from(a_i32(args.first().ok_or(E::Other)?)?);
    let end = args.get(1).and_then(|v| a_i32(v).ok()).map_or(n, i64::from);
    let fix = |i: i64| (if i < 0 { i + n } else { i }).clamp(0, n) as usize;
    let (s, e) = (fix(start), fix(end));
    Ok((s, e.max(s)))
}
/// RADON's reading of JSON without a path: nulls are left out, whole numbers are integers.
pub fn json(j: &serde_json::Value) -> Option<V> {
    use serde_json::Value as J;
    Some(match j {
        J::Null => return None,
        J::Bool(b) => Bool(*b),
        J::String(s) => Str(s.clone()),
        J::Array(a) => Arr(a.iter().filter_map(json).collect()),
        J::Object(o) => Map(o.iter().filter_map(|(k, v)| Some((k.clone(), json(v)?))).collect()),
        J::Number(n) => {
            if let Some(i) = n.as_i64() {
                Int(i.into())
            } else if let Some(u) = n.as_u64() {
                Int(u.into())
            } else {
                let f = n.as_f64().unwrap();
                // positive and below 10^38
                if f.is_normal() && f.fract() == 0.0 && f.log10() < 38.0 {
                    Int(f as i128)
                } else {
                    Float(f)
                }
            }
        }
    })
}
/// What a JSON path selects: nulls are empty strings, numbers stay as they were written.
pub fn selected(j: &serde_json::Value) -> V {
    use serde_json::Value as J;
    match j {
        J::Null => Str(String::new()),
        J::Bool(b) => Bool(*b),
        J::String(s) => Str(s.clone()),
        J::Array(a) => Arr(a.iter().map(selected).collect()),
        J::Object(o) => Map(o.iter().map(|(k, v)| (k.clone(), selected(v))).collect()),
        J::Number(n) => match (n.as_i64(), n.as_u64()) {
            (Some(i), _) => Int(i.into()),
            (_, Some(u)) => Int(u.into()),
            _ => Float(n.as_f64().unwrap()),
        },
    }
}
/// Only `$` followed by `.key` and `[n]`, with keys of letters
fn path<'a>(j: &'a serde_json::Value, p: &str) -> Option<Vec<&'a serde_json::Value>> {
    let mut at = j;
    let mut rest = p.strip_prefix('$')?;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix('.') {
            let n = r.find(['.', '[']).unwrap_or(r.len());
            match at.as_object().and_then(|o| o.get(&r[..n])) {
                Some(x) => at = x,
                None => return Some(vec![]),
            }
            rest = &r[n..];
        } else if let Some(r) = rest.strip_prefix("[*]") {
            if !r.is_empty() {
                return None;
            }
            return Some(match at {
                serde_json::Value::Array(a) => a.iter().collect(),
                serde_json::Value::Object(o) => o.values().collect(),
                _ => vec![],
            });
        } else {
            let r = rest.strip_prefix('[')?;
            let n = r.find(']')?;
            match at.as_array().and_then(|a| a.get(r[..n].parse::<usize>().ok()?)) {
                Some(x) => at = x,
                None => return Some(vec![]),
            }
            rest = &r[n + 1..];
        }
    }
    Some(vec![at])
}

pub fn op(v: &V, call: &Call, c: &Rules, t: &mut Trace) -> R {
    let (o, args) = (call.0, call.1.as_deref());
    let first = args.and_then(|a| a.first());
    let unsupported = || Err(E::Unsupported(v.type_name(), name(o).unwrap_or("?").to_string(), call.1.clone()));
    let int = |x: Option<i128>| x.map(Int).ok_or(E::Overflow);
    if o == 0 && args.is_none() {
        return Ok(v.clone());
    }
    match (v, o, args) {
        // arrays
        (Arr(a), 0x10, None) => Ok(Int(a.len() as i128)),
        (Arr(a), 0x13..=0x19, Some(args)) => {
            let kind = [0, 1, 2, 3, 4, 5, 7][usize::from(o - 0x13)];
            let many = matches!(kind, 3 | 4) && c.w24();
            if args.is_empty() || (!many && args.len() != 1) {
                return other();
            }
            let i = a_i32(&args[0])?;
            let item = usize::try_from(i).ok().and_then(|i| a.get(i)).ok_or(E::Bounds(i))?;
            got(item.clone(), kind, &args[1..], c)
        }
        (Arr(a), 0x11, Some(args)) => match first {
            Some(f @ Value::Array(_)) => {
                let mut out = vec![];
                each(a, f, c, t, |item, r| {
                    match r {
                        Bool(true) => out.push(item.clone()),
                        Bool(false) => {}
                        _ => return other(),
                    }
                    Ok(())
                })?;
                Ok(Arr(out))
            }
            Some(Value::Integer(f)) => crate::agg::filter(a, u8::try_from(*f).or(other())?, &args[1..]).map(|(kept, _)| Arr(kept)),
            _ => other(),
        },
        (Arr(a), 0x1A, Some([arg])) => {
            let mut out = vec![];
            each(a, arg, c, t, |_, r| {
                out.push(r);
                Ok(())
            })?;
            Ok(Arr(out))
        }
        (Arr(_), 0x1A, Some(_)) => other(),
        (Arr(a), 0x1B, Some([arg])) => crate::agg::reduce(a, a_u8(arg)?, c),
        (Arr(_), 0x1B, Some(_)) => other(),
        (Arr(a), 0x1D, Some(args)) => {
            if args.len() > 1 {
                return other();
            }
            let none = Value::Array(vec![]);
            let mut keys = vec![];
            each(a, first.unwrap_or(&none), c, t, |_, r| {
                keys.push(r);
                Ok(())
            })?;
            if a.is_empty() {
                return Ok(v.clone());
            }
            if !homogeneous(a) || !homogeneous(&keys) {
                return other();
            }
            let mut at: Vec<usize> = (0..a.len()).collect();
            match &keys[0] {
                Str(_) | Int(_) => at.sort_by(|x, y| match (&keys[*x], &keys[*y]) {
                    (Str(x), Str(y)) => x.cmp(y),
                    (Int(x), Int(y)) => x.cmp(y),
                    _ => unreachable!(),
                }),
                _ => return other(),
            }
            Ok(Arr(at.into_iter().map(|i| a[i].clone()).collect()))
        }
        // booleans
        (Bool(b), 0x20, None) => Ok(Str(b.to_string())),
        (Bool(b), 0x22, None) => Ok(Bool(!b)),
        // bytes
        (Bytes(b), 0x30, _) => {
            let how = if c.v21 { first.map_or(Ok(0), a_u8)? } else { 0 };
            Ok(Str(match how {
                0 => hex::encode(b),
                0x10 => bs58::encode(b).into_string(),
                0x11 => base64::engine::general_purpose::STANDARD.encode(b),
                0x80 => String::from_utf8(b.clone()).unwrap_or_default(),
                _ => return other(),
            }))
        }
        (Bytes(b), 0x31, Some(_)) => match a_u8(first.ok_or(E::Other)?)? {
            0x0A => Ok(Bytes(vref::hash::sha256(b).to_vec())),
            _ => other(),
        },
        (Bytes(b), 0x32, _) if c.v21 => {
            let little = first.map_or(Ok(0), a_u8)? == 1;
            if b.is_empty() || b.len() > 16 {
                return other();
            }
            let mut x: u128 = 0;
            let n = b.len();
            for (i, byte) in b.iter().enumerate() {
                // the given bytes are the last ones of sixteen
                x |= u128::from(*byte) << (8 * if little { 16 - n + i } else { n - 1 - i });
            }
            Ok(Int(x as i128))
        }
        (Bytes(b), 0x34, None) if c.v21 => Ok(Int(b.len() as i128)),
        (Bytes(b), 0x3C, Some(args)) if c.v21 => slice(b, args).map(|(s, e)| Bytes(b[s..e].to_vec())),
        // integers
        (Int(i), 0x40, None) => int(if *i == i128::MIN { None } else { Some(i.abs()) }),
        (Int(i), 0x41, None) => Ok(Float(*i as f64)),
        (Int(i), 0x42, None) => Ok(Str(i.to_string())),
        (Int(i), 0x43, Some(_)) => Ok(Bool(*i > a_i128(first)?)),
        (Int(i), 0x44, Some(_)) => Ok(Bool(*i < a_i128(first)?)),
        (Int(i), 0x46, Some(_)) => {
            let m = a_i128(first)?;
            int(if m == 0 || (m == -1 && *i == i128::MIN) { None } else { Some(i % m) })
        }
        (Int(i), 0x47, Some(_)) => int(i.checked_mul(a_i128(first)?)),
        (Int(i), 0x48, None) => int(if *i == i128::MIN { None } else { Some(-i) }),
        (Int(i), 0x49, Some(_)) => {
            let e = u32::try_from(a_i128(first)?).or(other())?;
            int(power(*i, e))
        }
        (Int(i), 0x4A, _) if c.v21 => {
            let little = first.map_or(Ok(0), a_u8)? == 1;
            let mut b: Vec<u8> = (0..16).map(|k| (*i >> (8 * (15 - k))) as u8).collect();
            if little {
                b.reverse();
            }
            Ok(Bytes(b))
        }
        // floats
        (Float(f), 0x50, None) => Ok(Float(f.abs())),
        (Float(f), 0x51, None) => Ok(Str(f.to_string())),
        (Float(f), 0x52, None) => Ok(Int(f.ceil() as i128)),
        (Float(f), 0x53, Some(_)) => Ok(Bool(*f > a_f64(first)?)),
        (Float(f), 0x54, None) => Ok(Int(f.floor() as i128)),
        (Float(f), 0x55, Some(_)) => Ok(Bool(*f < a_f64(first)?)),
        (Float(f), 0x56, Some(_)) => Ok(Float(f % a_f64(first)?)),
        (Float(f), 0x57, Some(_)) => Ok(Float(f * a_f64(first)?)),
        (Float(f), 0x58, None) => Ok(Float(-f)),
        (Float(f), 0x59, Some(_)) => Ok(Float(f.powf(a_f64(first)?))),
        (Float(f), 0x5B, None) => Ok(Int(f.round() as i128)),
        (Float(f), 0x5D, None) => Ok(Int(f.trunc() as i128)),
        // maps
        (Map(m), 0x61..=0x67, Some(args)) => {
            let kind = [0, 1, 2, 3, 4, 5, 7][usize::from(o - 0x61)];
            let k = a_str(first.ok_or(E::Other)?)?;
            let item = m.get(&k).ok_or(E::Key(k))?;
            got(item.clone(), kind, &args[1..], c)
        }
        (Map(m), 0x68, None) => Ok(Arr(m.keys().cloned().map(Str).collect())),
        (Map(m), 0x69, None) => Ok(Arr(m.values().cloned().collect())),
        // strings
        (Str(s), 0x70, None) => match s.strip_suffix('\n').unwrap_or(s) {
            "true" => Ok(Bool(true)),
            "false" => Ok(Bool(false)),
            _ => other(),
        },
        (Str(s), 0x71, _) => match first.map_or(Ok(0), a_u8)? {
            0 => {
                let d = s.strip_prefix("0x").unwrap_or(s);
                let d = if d.len() % 2 == 1 { format!("0{d}") } else { d.to_string() };
                hex::decode(d).map(Bytes).or(other())
            }
            0x10 => bs58::decode(s).into_vec().map(Bytes).or(other()),
            0x11 => base64::engine::general_purpose::STANDARD.decode(s).map(Bytes).or(other()),
            0x80 => Ok(Bytes(s.clone().into_bytes())),
            _ => other(),
        },
        (Str(s), 0x72 | 0x73, _) => {
            let s = s.strip_suffix('\n').unwrap_or(s);
            let k = if o == 0x72 { 3 } else { 4 };
            if c.w24() {
                number(&normal(s, args.unwrap_or_default()), k)
            } else {
                number(s, k)
            }
        }
        (Str(s), 0x74, None) => Ok(Int(s.len() as i128)),
        (Str(s), 0x75, Some(args)) => {
            let Some(Map(m)) = first.filter(|f| matches!(f, Value::Map(_))).and_then(from_arg) else { return other() };
            let default = from_arg(args.get(1).ok_or(E::Other)?).ok_or(E::Other)?;
            match (m.get(s), &default) {
                (None, d) => Ok(d.clone()),
                (Some(Str(x)), Str(_)) => Ok(Str(x.clone())),
                (Some(Bytes(x)), Str(_)) => String::from_utf8(x.clone()).map(Str).or(other()),
                (Some(_), Str(_)) => other(),
                (Some(x), Float(_)) => get_number_old(x.clone(), 3),
                (Some(x), Int(_)) => get_number_old(x.clone(), 4),
                (Some(x), d) => get(x.clone(), d.kind()),
            }
        }
        (Str(s), 0x76, _) => {
            let j: serde_json::Value = serde_json::from_str(s).or(other())?;
            let find = |p: &str| path(&j, p).ok_or(E::Other);
            match first {
                None => match json(&j) {
                    Some(a @ Arr(_)) => Ok(a),
                    _ => other(),
                },
                Some(Value::Text(p)) => Ok(Arr(find(p)?.into_iter().map(selected).collect())),
                Some(Value::Array(ps)) => {
                    let mut out = vec![];
                    for p in ps {
                        let Value::Text(p) = p else { return other() };
                        let mut f: Vec<V> = find(p)?.into_iter().map(selected).collect();
                        if f.len() > 1 {
                            out.push(Arr(f))
                        } else {
                            out.append(&mut f)
                        }
                    }
                    Ok(Arr(out))
                }
                _ => other(),
            }
        }
        (Str(s), 0x77, _) => {
            let j: serde_json::Value = serde_json::from_str(s).or(other())?;
            let x = match first {
                None => json(&j),
                Some(Value::Text(p)) => json(path(&j, p).and_then(|f| f.first().copied()).ok_or(E::Other)?),
                _ => None,
            };
            match x {
                Some(m @ Map(_)) => Ok(m),
                _ => other(),
            }
        }
        (Str(s), 0x79, None) => Ok(Str(s.to_lowercase())),
        (Str(s), 0x7A, None) => Ok(Str(s.to_uppercase())),
        (Str(s), 0x7B, _) if c.v21 => match args {
            Some([p, q, ..]) => {
                let (p, q) = (a_str(p)?, a_str(q)?);
                Ok(Str(regex::Regex::new(&p).or(other())?.replace_all(s, q).to_string()))
            }
            _ => other(),
        },
        (Str(s), 0x7C, Some(args)) if c.v21 => {
            let (a, e) = slice(s.as_bytes(), args)?;
            if a == e {
                return Ok(Str(String::new()));
            }
            s.get(a..e).map(|s| Str(s.to_string())).ok_or(E::Other)
        }
        (Str(s), 0x7D, _) if c.v21 => {
            let p = first.map_or(Ok(String::new()), a_str)?;
            Ok(Arr(regex::Regex::new(&p).or(other())?.split(s).map(|x| Str(x.to_string())).collect()))
        }
        (Str(_), 0x78, None) => other(),
        _ => unsupported(),
    }
}
fn power(b: i128, e: u32) -> Option<i128> {
    match (b, e) {
        (_, 0) | (1, _) => return Some(1),
        (0, _) => return Some(0),
        (-1, e) => return Some(if e % 2 == 0 { 1 } else { -1 }),
        _ => {}
    }
    let mut x: i128 = 1;
    for _ in 0..e {
        x = x.checked_mul(b)?;
    }
    Some(x)
}
