use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone, Debug)]
pub enum Value {
    Null,
    Bool(bool),
    Integer(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Array(Vec<Value>),
    Map(BTreeMap<Value, Value>),
    Tag(u64, Box<Value>),
    #[doc(hidden)]
    __Hidden,
}
impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Value {}
impl PartialOrd for Value {
    fn partial_cmp(&self, o: &Value) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Value {
    fn major(&self) -> u8 {
        match self {
            Value::Null | Value::Bool(_) | Value::Float(_) => 7,
            Value::Integer(v) => u8::from(*v < 0),
            Value::Bytes(_) => 2,
            Value::Text(_) => 3,
            Value::Array(_) => 4,
            Value::Map(_) => 5,
            Value::Tag(_, _) => 6,
            Value::__Hidden => unreachable!(),
        }
    }
}
// Canonical order: major type, then length, then contents
impl Ord for Value {
    fn cmp(&self, o: &Value) -> Ordering {
        use Value::*;
        if self.major() != o.major() {
            return self.major().cmp(&o.major());
        }
        match (self, o) {
            (Integer(a), Integer(b)) => a.abs().cmp(&b.abs()),
            (Bytes(a), Bytes(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Text(a), Text(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Array(a), Array(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Map(a), Map(b)) if a.len() != b.len() => a.len().cmp(&b.len()),
            (Bytes(a), Bytes(b)) => a.cmp(b),
            (Text(a), Text(b)) => a.cmp(b),
            (a, b) => crate::to_vec(a).unwrap().cmp(&crate::to_vec(b).unwrap()),
        }
    }
}
macro_rules! from {
    ($v:ident: $($t:ty),*) => { $( impl From<$t> for Value { fn from(x: $t) -> Value { Value::$v(x.into()) } } )* };
}
from!(Bool: bool);
from!(Integer: i8, i16, i32, i64, u8, u16, u32, u64, i128);
from!(Float: f32, f64);
from!(Bytes: Vec<u8>);
from!(Text: String);
from!(Array: Vec<Value>);
from!(Map: BTreeMap<Value, Value>);

impl Serialize for Value {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Value::Null => s.serialize_unit(),
            Value::Bool(b) => s.serialize_bool(*b),
            Value::Integer(i) if *i >= -(1i128 << 64) && *i < 1i128 << 64 => s.serialize_i128(*i),
            Value::Integer(_) => Err(serde::ser::Error::custom("The number can't be stored in CBOR")),
            // serde_cbor writes every NaN as f9 7e00
            Value::Float(f) if f.is_nan() => s.serialize_f64(f64::NAN),
            Value::Float(f) => s.serialize_f64(*f),
            Value::Bytes(b) => s.serialize_bytes(b),
            Value::Text(t) => s.serialize_str(t),
            Value::Array(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for e in a {
                    q.serialize_element(e)?
                }
                q.end()
            }
            Value::Map(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, v) in m {
                    q.serialize_entry(k, v)?
                }
                q.end()
            }
            Value::Tag(_, v) => v.serialize(s),
            Value::__Hidden => unreachable!(),
        }
    }
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Value;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("any valid CBOR value")
    }
    fn visit_unit<E>(self) -> Result<Value, E> {
        Ok(Value::Null)
    }
    fn visit_none<E>(self) -> Result<Value, E> {
        Ok(Value::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Value::deserialize(d)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
        Value::deserialize(d)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
        Ok(Value::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
        Ok(Value::Integer(v.into()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
        Ok(Value::Integer(v.into()))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Value, E> {
        Ok(Value::Integer(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
        Ok(Value::Float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Value, E> {
        Ok(Value::Text(v.into()))
    }
    fn visit_string<E>(self, v: String) -> Result<Value, E> {
        Ok(Value::Text(v))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Value, E> {
        Ok(Value::Bytes(v.into()))
    }
    fn visit_byte_buf<E>(self, v: Vec<u8>) -> Result<Value, E> {
        Ok(Value::Bytes(v))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut v = Vec::new();
        while let Some(e) = a.next_element()? {
            v.push(e)
        }
        Ok(Value::Array(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
        let mut m = BTreeMap::new();
        while let Some((k, v)) = a.next_entry()? {
            m.insert(k, v);
        }
        Ok(Value::Map(m))
    }
}
impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Value, D::Error> {
        d.deserialize_any(V)
    }
}
pub fn to_value<T: Serialize>(t: T) -> crate::Result<Value> {
    crate::from_slice(&crate::to_vec(&t)?)
}
pub fn from_value<T: de::DeserializeOwned>(v: Value) -> crate::Result<T> {
    // As in serde_cbor: a round trip through the encoding
    crate::from_slice(&crate::to_vec(&v)?)
}
