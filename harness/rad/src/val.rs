//! Own values: what a RADON value is, apart from how witnet_rad represents it.
use serde_cbor::Value;
use std::collections::{BTreeMap, HashMap};
use vmon::Rng;
use witnet_data_structures::chain::tapi::ActiveWips;
use witnet_rad::error::RadError;
use witnet_rad::types::{array::RadonArray, boolean::RadonBoolean, bytes::RadonBytes, float::RadonFloat, integer::RadonInteger, map::RadonMap, string::RadonString, RadonType, RadonTypes};

#[derive(Clone, Debug)]
pub enum V {
    Arr(Vec<V>),
    Bool(bool),
    Bytes(Vec<u8>),
    Float(f64),
    Int(i128),
    Map(BTreeMap<String, V>),
    Str(String),
    /// An error value, by its encoding.
    Fault(Vec<u8>),
}
use V::*;

impl V {
    pub fn kind(&self) -> u8 {
        match self {
            Arr(_) => 0,
            Bool(_) => 1,
            Bytes(_) => 2,
            Float(_) => 3,
            Int(_) => 4,
            Map(_) => 5,
            Fault(_) => 6,
            Str(_) => 7,
        }
    }
    pub fn type_name(&self) -> &'static str {
        match self {
            Arr(_) => "RadonArray",
            Bool(_) => "RadonBoolean",
            Bytes(_) => "RadonBytes",
            Float(_) => "RadonFloat",
            Int(_) => "RadonInteger",
            Map(_) => "RadonMap",
            Fault(_) => "RadonError",
            Str(_) => "RadonString",
        }
    }
    pub fn rad(&self) -> RadonTypes {
        match self {
            Arr(a) => RadonArray::from(a.iter().map(V::rad).collect::<Vec<_>>()).into(),
            Bool(b) => RadonBoolean::from(*b).into(),
            Bytes(b) => RadonBytes::from(b.clone()).into(),
            Float(f) => RadonFloat::from(*f).into(),
            Int(i) => RadonInteger::from(*i).into(),
            Map(m) => RadonMap::from(m.iter().map(|(k, v)| (k.clone(), v.rad())).collect::<BTreeMap<_, _>>()).into(),
            Str(s) => RadonString::from(s.clone()).into(),
            Fault(b) => RadonTypes::try_from(b.as_slice()).expect("an error's encoding"),
        }
    }
    pub fn of(r: &RadonTypes) -> V {
        match r {
            RadonTypes::Array(a) => Arr(a.value().iter().map(V::of).collect()),
            RadonTypes::Boolean(b) => Bool(b.value()),
            RadonTypes::Bytes(b) => Bytes(b.value()),
            RadonTypes::Float(f) => Float(f.value()),
            RadonTypes::Integer(i) => Int(i.value()),
            RadonTypes::Map(m) => Map(m.value().iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
            RadonTypes::String(s) => Str(s.value()),
            RadonTypes::RadonError(e) => Fault(e.encode_tagged_bytes().unwrap_or_default()),
        }
    }
    /// Equality of every bit, except that there is one NaN.
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (Arr(a), Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Bool(a), Bool(b)) => a == b,
            (Bytes(a), Bytes(b)) => a == b,
            (Float(a), Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Int(a), Int(b)) => a == b,
            (Map(a), Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same(y)),
            (Str(a), Str(b)) => a == b,
            (Fault(a), Fault(b)) => a == b,
            _ => false,
        }
    }
    /// Its CBOR form as an argument of an operator.
    pub fn cbor(&self) -> Value {
        match self {
            Arr(a) => Value::Array(a.iter().map(V::cbor).collect()),
            Bool(b) => Value::Bool(*b),
            Bytes(b) => Value::Bytes(b.clone()),
            Float(f) => Value::Float(*f),
            Int(i) => Value::Integer(*i),
            Map(m) => Value::Map(m.iter().map(|(k, v)| (Value::Text(k.clone()), v.cbor())).collect()),
            Str(s) => Value::Text(s.clone()),
            Fault(_) => Value::Null,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Arr(a) => 1 + a.iter().map(V::depth).max().unwrap_or(0),
            Map(m) => 1 + m.values().map(V::depth).max().unwrap_or(0),
            _ => 0,
        }
    }
}
pub fn same_all(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y))
}

/// What kind of error, as far as the protocol tells errors apart.
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Overflow,
    Bounds(i32),
    Key(String),
    Unsupported(&'static str, String, Option<Vec<Value>>),
    /// An error without code of its own that a subscript ended with.
    Unhandled,
    /// An error without code.
    Other,
    /// Some other code.
    Code(u8),
}
pub type R = Result<V, E>;

pub fn class(e: &RadError) -> E {
    match e {
        RadError::Overflow => E::Overflow,
        RadError::ArrayIndexOutOfBounds { index } => E::Bounds(*index),
        RadError::MapKeyNotFound { key } => E::Key(key.clone()),
        RadError::UnsupportedOperator { input_type, operator, args } => {
            let t = ["RadonArray", "RadonBoolean", "RadonBytes", "RadonFloat", "RadonInteger", "RadonMap", "RadonString"].into_iter().find(|t| t == input_type).unwrap_or("?");
            E::Unsupported(t, operator.clone(), args.clone())
        }
        RadError::UnhandledIntercept { .. } | RadError::UnhandledInterceptV2 { .. } => E::Unhandled,
        e => match e.try_into_error_code() {
            Ok(c) => E::Code(u8::from(c)),
            Result::Err(_) => E::Other,
        },
    }
}
pub fn outcome(r: &Result<RadonTypes, RadError>) -> R {
    match r {
        Ok(RadonTypes::RadonError(e)) => Result::Err(class(e.inner())),
        Ok(v) => Ok(V::of(v)),
        Result::Err(e) => Result::Err(class(e)),
    }
}
pub fn same_r(a: &R, b: &R) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.same(b),
        // NaN arguments are not equal to themselves
        (Result::Err(a), Result::Err(b)) => a == b || format!("{a:?}") == format!("{b:?}"),
        _ => false,
    }
}

/// Which rules apply.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rules {
    /// None: no list of active improvements in the context
    pub wips: Option<[bool; 3]>,
    pub v21: bool,
}
impl Rules {
    pub fn any(r: &mut Rng) -> Rules {
        let wips = match r.below(8) {
            0 => None,
            1 => Some([r.bool(), r.bool(), r.bool()]),
            _ => Some([true; 3]),
        };
        Rules { wips, v21: r.chance(2, 3) }
    }
    pub fn w17(&self) -> bool {
        self.wips.is_some_and(|w| w[0])
    }
    pub fn w24(&self) -> bool {
        self.wips.is_none_or(|w| w[2])
    }
    pub fn active(&self) -> Option<ActiveWips> {
        self.wips.map(|w| {
            let mut m = HashMap::new();
            for (k, on) in [("WIP0017-0018-0019", w[0]), ("WIP0024", w[2])] {
                m.insert(k.to_string(), if on { 10 } else { 1000 });
            }
            for k in ["WIP0008", "WIP0009-0011-0012", "THIRD_HARD_FORK", "WIP0014-0016", "WIP0020-0021", "WIP0022", "WIP0023", "WIP0025", "WIP0026", "WIP0027", "WIP0028"] {
                m.insert(k.to_string(), 0);
            }
            ActiveWips { active_wips: m, block_epoch: 100 }
        })
    }
}

pub fn int(r: &mut Rng) -> i128 {
    match r.below(9) {
        0 => 0,
        1 => i128::from(r.below(20)) - 10,
        2 => *r.pick(&[i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, -(1 << 63) + 1, 255, 256, -1, 1, 23, 24, 65535, 65536]),
        3 => i128::from(r.edgy_u64()),
        4 => -i128::from(r.edgy_u64() >> 1),
        5 => 1i128 << r.below(64),
        _ => i128::from(r.below(2000)) - 1000,
    }
}
/// Beyond what CBOR can carry: only results of operators are that big.
pub fn big(r: &mut Rng) -> i128 {
    match r.below(5) {
        0 => *r.pick(&[i128::MIN, i128::MAX, i128::MIN + 1, -(1 << 64), 1 << 64, 1 << 126, -(1 << 126)]),
        1 => {
            let s = r.below(127);
            (i128::from(r.u64()) << 64 | i128::from(r.u64())) >> s
        }
        _ => int(r),
    }
}
pub fn float(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.5, -0.5, 1.5, 2.5, -1.5]),
        1 => f64::from_bits(r.u64()),
        2 => *r.pick(&[i128::MAX as f64, i128::MIN as f64, 1.8e38, -1.8e38, 9007199254740993.0, 4503599627370495.5]),
        3 => (r.below(2000) as f64 - 1000.0) / 2.0,
        4 => (r.below(200) as f64 - 100.0) / 10.0,
        5 => r.below(100) as f64,
        _ => (r.below(2_000_000) as f64 - 1e6) / 1000.0,
    }
}
pub fn number_text(r: &mut Rng) -> String {
    let n = r.below(4);
    let mut s = match n {
        0 => int(r).to_string(),
        1 => float(r).to_string(),
        2 => format!("{},{:03},{:03}", r.below(999), r.below(1000), r.below(1000)),
        _ => format!("{}.{:03},{:02}", r.below(999), r.below(1000), r.below(100)),
    };
    match r.below(10) {
        0 => s.push('\n'),
        1 => s.insert(0, '+'),
        2 => s.insert(0, ' '),
        3 => s.push_str("e3"),
        _ => {}
    }
    s
}
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 | 2 => number_text(r),
        3 => {
            let n = r.below(12) as usize;
            hex::encode(r.bytes(n))
        }
        4 => {
            let n = r.below(12) as usize;
            format!("0x{}", &hex::encode(r.bytes(n))[..(2 * n).saturating_sub(1)])
        }
        5 => (*r.pick(&["true", "false", "true\n", "True", "a", "b", "key", "a,b,c", "aXbXc", "0x", "NaN", "inf", "-inf", "1e400"])).into(),
        6 => r.unicode(8),
        7 => json(r, 2).to_string(),
        8 => {
            let n = r.below(9) as usize;
            let b = r.bytes(n);
            bs58::encode(b).into_string()
        }
        9 => {
            use base64::Engine;
            let n = r.below(9) as usize;
            base64::engine::general_purpose::STANDARD.encode(r.bytes(n))
        }
        _ => r.ascii(10),
    }
}
pub fn key(r: &mut Rng) -> String {
    if r.chance(1, 6) {
        r.unicode(4)
    } else {
        (*r.pick(&["a", "b", "c", "key", "last", "0", ""])).into()
    }
}
pub fn scalar(r: &mut Rng) -> V {
    match r.below(6) {
        0 => Bool(r.bool()),
        1 => {
            let n = r.below(40) as usize;
            Bytes(if r.bool() { r.bytes(n) } else { r.ascii(8).into_bytes() })
        }
        2 => Float(float(r)),
        3 | 4 => Int(int(r)),
        _ => Str(text(r)),
    }
}
pub fn of_kind(r: &mut Rng, k: u64, d: usize) -> V {
    match k {
        1 => Bool(r.bool()),
        2 => {
            let n = r.below(20) as usize;
            Bytes(r.bytes(n))
        }
        3 => Float(float(r)),
        4 => Int(int(r)),
        5 => value(r, d, Some(true)),
        0 => value(r, d, Some(false)),
        _ => Str(text(r)),
    }
}
pub fn value(r: &mut Rng, d: usize, map: Option<bool>) -> V {
    let k = match map {
        None => r.below(3),
        Some(m) => u64::from(m),
    };
    if d == 0 {
        return match map {
            None => scalar(r),
            Some(true) => Map(BTreeMap::new()),
            Some(false) => Arr(vec![]),
        };
    }
    match k {
        0 => {
            let n = r.below(6);
            if r.chance(1, 8) {
                return Arr((0..n).map(|_| value(r, d - 1, None)).collect());
            }
            if r.chance(1, 5) {
                // rows of one length
                let w = r.below(4);
                let ks: Vec<u64> = (0..w).map(|_| *r.pick(&[1, 3, 4, 4, 4, 7])).collect();
                let one = *r.pick(&[3, 4, 4]);
                let homog = r.chance(3, 4);
                return Arr((0..n).map(|_| Arr(ks.iter().map(|k| of_kind(r, if homog { one } else { *k }, 0)).collect())).collect());
            }
            let k = r.below(8);
            let few = r.chance(1, 3);
            let pool: Vec<V> = (0..2).map(|_| of_kind(r, k, d - 1)).collect();
            Arr((0..n)
                .map(|_| if few { r.pick(&pool).clone() } else { of_kind(r, k, d - 1) })
                .collect())
        }
        1 => {
            let n = r.below(5);
            Map((0..n)
                .map(|_| {
                    let k = key(r);
                    (k, value(r, d - 1, None))
                })
                .collect())
        }
        _ => scalar(r),
    }
}
pub fn json(r: &mut Rng, d: usize) -> serde_json::Value {
    use serde_json::{json, Value as J};
    match r.below(if d == 0 { 6 } else { 8 }) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 => json!(r.edgy_u64()),
        3 => json!(r.u64() as i64),
        4 => serde_json::Number::from_f64(float(r)).map_or(J::Null, J::Number),
        5 => J::String(if r.bool() { number_text(r) } else { r.unicode(5) }),
        6 => {
            let n = r.below(5);
            J::Array((0..n).map(|_| json(r, d - 1)).collect())
        }
        _ => {
            let n = r.below(5);
            J::Object((0..n).map(|_| (key(r), json(r, d - 1))).collect())
        }
    }
}
/// Any CBOR value, as an argument that fits nothing.
pub fn any_cbor(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => Value::Null,
        1 => Value::Array(vec![]),
        2 => {
            let v = scalar(r).cbor();
            Value::Array(vec![v, Value::Null])
        }
        3 => {
            let mut m = BTreeMap::new();
            m.insert(Value::Integer(1), Value::Null);
            m.insert(Value::Text("a".into()), scalar(r).cbor());
            Value::Map(m)
        }
        _ => value(r, 2, None).cbor(),
    }
}
