//! Decoding, with the leniency of serde_cbor 0.11 (without its "tags" feature): tags are skipped, an
//! integer is accepted where a float is expected, `undefined` is a unit, at most 128 levels.
use crate::{Error, Result, Value};
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, Deserializer, IntoDeserializer, Visitor};

struct In<'a>(&'a [u8]);
fn err<T>(m: &str) -> Result<T> {
    Err(Error(m.into()))
}
impl In<'_> {
    fn take(&mut self, n: usize) -> Result<Vec<u8>> {
        if self.0.len() < n {
            return err("EOF while parsing a value");
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.to_vec())
    }
    fn byte(&mut self) -> Result<u8> {
        Ok(self.take(1)?[0])
    }
    fn uint(&mut self, info: u8) -> Result<u64> {
        let n = match info {
            0..=23 => return Ok(info.into()),
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return err("unassigned type"),
        };
        Ok(self.take(n)?.iter().fold(0, |a, b| a << 8 | u64::from(*b)))
    }
    fn blob(&mut self, b: u8) -> Result<Vec<u8>> {
        let (major, info) = (b >> 5, b & 31);
        if info != 31 {
            let n = self.uint(info)?;
            return self.take(usize::try_from(n).map_err(|_| Error("length out of range".into()))?);
        }
        let mut out = vec![];
        loop {
            let c = self.byte()?;
            if c == 0xff {
                return Ok(out);
            }
            if c >> 5 != major || c & 31 == 31 {
                return err("unexpected code");
            }
            out.extend(self.blob(c)?)
        }
    }
    fn value(&mut self, depth: u8) -> Result<Value> {
        let b = self.byte()?;
        self.item(b, depth)
    }
    fn item(&mut self, b: u8, depth: u8) -> Result<Value> {
        let (major, info) = (b >> 5, b & 31);
        let deeper = || depth.checked_sub(1).filter(|d| *d > 0).ok_or(Error("recursion limit exceeded".into()));
        Ok(match major {
            0 => Value::Integer(self.uint(info)?.into()),
            1 => Value::Integer(-1 - i128::from(self.uint(info)?)),
            2 => Value::Bytes(self.blob(b)?),
            3 => Value::Text(String::from_utf8(self.blob(b)?).map_err(|_| Error("invalid UTF-8".into()))?),
            4 => {
                let d = deeper()?;
                let n = if info == 31 { u64::MAX } else { self.uint(info)? };
                let mut v = vec![];
                for _ in 0..n {
                    let b = self.byte()?;
                    if info == 31 && b == 0xff {
                        break;
                    }
                    v.push(self.item(b, d)?)
                }
                Value::Array(v)
            }
            5 => {
                let d = deeper()?;
                let n = if info == 31 { u64::MAX } else { self.uint(info)? };
                let mut m = std::collections::BTreeMap::new();
                for _ in 0..n {
                    let b = self.byte()?;
                    if info == 31 && b == 0xff {
                        break;
                    }
                    let k = self.item(b, d)?;
                    let v = self.value(d)?;
                    m.insert(k, v);
                }
                Value::Map(m)
            }
            6 => {
                let d = deeper()?;
                self.uint(info)?;
                self.value(d)?
            }
            _ => match info {
                20 => Value::Bool(false),
                21 => Value::Bool(true),
                22 | 23 => Value::Null,
                25 => Value::Float(half(self.uint(25)? as u16)),
                26 => Value::Float(f32::from_bits(self.uint(26)? as u32).into()),
                27 => Value::Float(f64::from_bits(self.uint(27)?)),
                31 => return err("unexpected code"),
                _ => return err("unassigned type"),
            },
        })
    }
}
fn half(h: u16) -> f64 {
    let (e, m) = (i32::from(h >> 10 & 0x1f), f64::from(h & 0x3ff));
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 if m == 0.0 => f64::INFINITY,
        31 => f64::NAN,
        _ => (m + 1024.0) * 2f64.powi(e - 25),
    };
    if h & 0x8000 != 0 {
        -v
    } else {
        v
    }
}
pub(crate) fn decode(b: &[u8]) -> Result<Value> {
    let mut r = In(b);
    let v = r.value(128).and_then(|v| if r.0.is_empty() { Ok(v) } else { err("trailing data") });
    v.map_err(|e| Error(format!("{} at offset {}", e.0, b.len() - r.0.len())))
}

impl<'de> IntoDeserializer<'de, Error> for Value {
    type Deserializer = Value;
    fn into_deserializer(self) -> Value {
        self
    }
}
impl<'de> Deserializer<'de> for Value {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(b),
            Value::Integer(i) => {
                if let Ok(u) = u64::try_from(i) {
                    v.visit_u64(u)
                } else if let Ok(i) = i64::try_from(i) {
                    v.visit_i64(i)
                } else {
                    v.visit_i128(i)
                }
            }
            Value::Float(f) => v.visit_f64(f),
            Value::Bytes(b) => v.visit_byte_buf(b),
            Value::Text(t) => v.visit_string(t),
            Value::Array(a) => {
                let mut d = SeqDeserializer::new(a.into_iter());
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Map(m) => {
                let mut d = MapDeserializer::new(m.into_iter());
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Value::Tag(_, x) => x.deserialize_any(v),
            Value::__Hidden => Err(de::Error::custom("hidden")),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
        match self {
            Value::Null => v.visit_none(),
            x => v.visit_some(x),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
