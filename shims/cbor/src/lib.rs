//! Stand-in for cbor-codec: the generic value encoder and decoder.
pub use decoder::GenericDecoder;
pub use encoder::GenericEncoder;

#[derive(Clone, Debug)]
pub struct Config {
    pub max_len_array: usize,
    pub max_len_bytes: usize,
    pub max_len_text: usize,
    pub max_len_object: usize,
    pub max_nesting: usize,
}
impl Default for Config {
    fn default() -> Config {
        Config { max_len_array: 1000, max_len_bytes: 0x500_0000, max_len_text: 0x500_0000, max_len_object: 1000, max_nesting: 16 }
    }
}

pub mod types {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Tag {
        DateTime,
        Timestamp,
        Bignum,
        NegativeBignum,
        Decimal,
        Bigfloat,
        ToBase64Url,
        ToBase64,
        ToBase16,
        Cbor,
        Uri,
        Base64Url,
        Base64,
        Regex,
        Mime,
        CborSelf,
        Unassigned(u64),
    }
    impl Tag {
        pub fn of(x: u64) -> Tag {
            match x {
                0 => Tag::DateTime,
                1 => Tag::Timestamp,
                2 => Tag::Bignum,
                3 => Tag::NegativeBignum,
                4 => Tag::Decimal,
                5 => Tag::Bigfloat,
                21 => Tag::ToBase64Url,
                22 => Tag::ToBase64,
                23 => Tag::ToBase16,
                24 => Tag::Cbor,
                32 => Tag::Uri,
                33 => Tag::Base64Url,
                34 => Tag::Base64,
                35 => Tag::Regex,
                36 => Tag::Mime,
                55799 => Tag::CborSelf,
                _ => Tag::Unassigned(x),
            }
        }
        pub fn to(&self) -> u64 {
            match *self {
                Tag::DateTime => 0,
                Tag::Timestamp => 1,
                Tag::Bignum => 2,
                Tag::NegativeBignum => 3,
                Tag::Decimal => 4,
                Tag::Bigfloat => 5,
                Tag::ToBase64Url => 21,
                Tag::ToBase64 => 22,
                Tag::ToBase16 => 23,
                Tag::Cbor => 24,
                Tag::Uri => 32,
                Tag::Base64Url => 33,
                Tag::Base64 => 34,
                Tag::Regex => 35,
                Tag::Mime => 36,
                Tag::CborSelf => 55799,
                Tag::Unassigned(x) => x,
            }
        }
    }
}

pub mod value {
    use super::types::Tag;
    use std::collections::{BTreeMap, LinkedList};
    #[derive(Clone, Debug, PartialEq)]
    pub enum Value {
        Array(Vec<Value>),
        Bool(bool),
        Break,
        Bytes(Bytes),
        F32(f32),
        F64(f64),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        Int(Int),
        Map(BTreeMap<Key, Value>),
        Null,
        Simple(Simple),
        Tagged(Tag, Box<Value>),
        Text(Text),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
        Undefined,
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Bytes {
        Bytes(Vec<u8>),
        Chunks(LinkedList<Vec<u8>>),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Text {
        Text(String),
        Chunks(LinkedList<String>),
    }
    /// -1 - n for `Neg(n)`
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Int {
        Neg(u64),
        Pos(u64),
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Simple {
        Unassigned(u8),
        Reserved(u8),
    }
    #[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub enum Key {
        Bool(bool),
        Bytes(Bytes),
        Int(Int),
        Text(Text),
        I8(i8),
        I16(i16),
        I32(i32),
        I64(i64),
        U8(u8),
        U16(u16),
        U32(u32),
        U64(u64),
    }
}

pub mod encoder {
    use super::value::*;
    use std::io::Write;
    #[derive(Debug)]
    pub enum EncodeError {
        UnexpectedEOF,
        InvalidValue(Value),
        IoError(std::io::Error),
        InvalidSimpleValue(Simple),
    }
    impl std::fmt::Display for EncodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "EncodeError: {self:?}")
        }
    }
    impl std::error::Error for EncodeError {}
    impl From<std::io::Error> for EncodeError {
        fn from(e: std::io::Error) -> Self {
            EncodeError::IoError(e)
        }
    }
    pub type EncodeResult = Result<(), EncodeError>;
    pub struct Encoder<W> {
        writer: W,
    }
    impl<W> Encoder<W> {
        pub fn into_writer(self) -> W {
            self.writer
        }
    }
    pub struct GenericEncoder<W> {
        encoder: Encoder<W>,
    }
    impl<W: Write> GenericEncoder<W> {
        pub fn new(w: W) -> Self {
            GenericEncoder { encoder: Encoder { writer: w } }
        }
        pub fn into_inner(self) -> Encoder<W> {
            self.encoder
        }
        fn w(&mut self, b: &[u8]) -> EncodeResult {
            Ok(self.encoder.writer.write_all(b)?)
        }
        fn head(&mut self, major: u8, n: u64) -> EncodeResult {
            let m = major << 5;
            match n {
                0..=23 => self.w(&[m | n as u8]),
                24..=0xff => self.w(&[m | 24, n as u8]),
                0x100..=0xffff => {
                    self.w(&[m | 25])?;
                    self.w(&(n as u16).to_be_bytes())
                }
                0x1_0000..=0xffff_ffff => {
                    self.w(&[m | 26])?;
                    self.w(&(n as u32).to_be_bytes())
                }
                _ => {
                    self.w(&[m | 27])?;
                    self.w(&n.to_be_bytes())
                }
            }
        }
        fn int(&mut self, x: i64) -> EncodeResult {
            if x < 0 {
                self.head(1, (-1 - x) as u64)
            } else {
                self.head(0, x as u64)
            }
        }
        fn bytes(&mut self, b: &Bytes) -> EncodeResult {
            match b {
                Bytes::Bytes(b) => {
                    self.head(2, b.len() as u64)?;
                    self.w(b)
                }
                Bytes::Chunks(c) => {
                    self.w(&[0x5f])?;
                    for b in c {
                        self.head(2, b.len() as u64)?;
                        self.w(b)?
                    }
                    self.w(&[0xff])
                }
            }
        }
        fn text(&mut self, b: &Text) -> EncodeResult {
            match b {
                Text::Text(b) => {
                    self.head(3, b.len() as u64)?;
                    self.w(b.as_bytes())
                }
                Text::Chunks(c) => {
                    self.w(&[0x7f])?;
                    for b in c {
                        self.head(3, b.len() as u64)?;
                        self.w(b.as_bytes())?
                    }
                    self.w(&[0xff])
                }
            }
        }
        pub fn value(&mut self, x: &Value) -> EncodeResult {
            match x {
                Value::Array(v) => {
                    self.head(4, v.len() as u64)?;
                    for e in v {
                        self.value(e)?
                    }
                    Ok(())
                }
                Value::Bool(b) => self.w(&[if *b { 0xf5 } else { 0xf4 }]),
                Value::Break => Err(EncodeError::InvalidValue(Value::Break)),
                Value::Bytes(b) => self.bytes(b),
                Value::F32(f) => {
                    self.w(&[0xfa])?;
                    self.w(&f.to_bits().to_be_bytes())
                }
                Value::F64(f) => {
                    self.w(&[0xfb])?;
                    self.w(&f.to_bits().to_be_bytes())
                }
                Value::I8(n) => self.int((*n).into()),
                Value::I16(n) => self.int((*n).into()),
                Value::I32(n) => self.int((*n).into()),
                Value::I64(n) => self.int(*n),
                Value::Int(Int::Pos(n)) => self.head(0, *n),
                Value::Int(Int::Neg(n)) => self.head(1, *n),
                Value::Map(m) => {
                    self.head(5, m.len() as u64)?;
                    for (k, v) in m {
                        match k {
                            Key::Bool(b) => self.value(&Value::Bool(*b))?,
                            Key::Bytes(b) => self.bytes(b)?,
                            Key::Int(i) => self.value(&Value::Int(*i))?,
                            Key::Text(t) => self.text(t)?,
                            Key::I8(n) => self.int((*n).into())?,
                            Key::I16(n) => self.int((*n).into())?,
                            Key::I32(n) => self.int((*n).into())?,
                            Key::I64(n) => self.int(*n)?,
                            Key::U8(n) => self.head(0, (*n).into())?,
                            Key::U16(n) => self.head(0, (*n).into())?,
                            Key::U32(n) => self.head(0, (*n).into())?,
                            Key::U64(n) => self.head(0, *n)?,
                        }
                        self.value(v)?
                    }
                    Ok(())
                }
                Value::Null => self.w(&[0xf6]),
                Value::Simple(Simple::Unassigned(n) | Simple::Reserved(n)) => {
                    if *n < 24 {
                        self.w(&[0xe0 | n])
                    } else {
                        self.w(&[0xf8, *n])
                    }
                }
                Value::Tagged(t, b) => {
                    self.head(6, t.to())?;
                    self.value(b)
                }
                Value::Text(t) => self.text(t),
                Value::U8(n) => self.head(0, (*n).into()),
                Value::U16(n) => self.head(0, (*n).into()),
                Value::U32(n) => self.head(0, (*n).into()),
                Value::U64(n) => self.head(0, *n),
                Value::Undefined => self.w(&[0xf7]),
            }
        }
    }
}

pub mod decoder {
    use super::value::*;
    use super::{types::Tag, Config};
    use std::collections::BTreeMap;
    use std::io::Read;
    #[derive(Debug)]
    pub enum DecodeError {
        DuplicateKey(Box<Key>),
        IntOverflow(u64),
        InvalidKey(Box<Value>),
        InvalidUtf8(std::str::Utf8Error),
        IoError(std::io::Error),
        TooLong { max: usize, actual: u64 },
        TooNested,
        UnexpectedBreak,
        UnexpectedEOF,
        UnexpectedType { info: u8 },
    }
    impl std::fmt::Display for DecodeError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "DecodeError: {self:?}")
        }
    }
    impl std::error::Error for DecodeError {}
    impl From<std::io::Error> for DecodeError {
        fn from(e: std::io::Error) -> Self {
            if e.kind() == std::io::ErrorKind::UnexpectedEof {
                DecodeError::UnexpectedEOF
            } else {
                DecodeError::IoError(e)
            }
        }
    }
    pub type DecodeResult<A> = Result<A, DecodeError>;
    pub struct GenericDecoder<R> {
        config: Config,
        r: R,
    }
    impl<R: Read> GenericDecoder<R> {
        pub fn new(config: Config, r: R) -> Self {
            GenericDecoder { config, r }
        }
        pub fn into_reader(self) -> R {
            self.r
        }
        fn byte(&mut self) -> DecodeResult<u8> {
            let mut b = [0];
            self.r.read_exact(&mut b)?;
            Ok(b[0])
        }
        fn arg(&mut self, info: u8) -> DecodeResult<u64> {
            Ok(match info {
                0..=23 => info.into(),
                24 => self.byte()?.into(),
                25 => {
                    let mut b = [0; 2];
                    self.r.read_exact(&mut b)?;
                    u16::from_be_bytes(b).into()
                }
                26 => {
                    let mut b = [0; 4];
                    self.r.read_exact(&mut b)?;
                    u32::from_be_bytes(b).into()
                }
                27 => {
                    let mut b = [0; 8];
                    self.r.read_exact(&mut b)?;
                    u64::from_be_bytes(b)
                }
                _ => return Err(DecodeError::UnexpectedType { info }),
            })
        }
        fn blob(&mut self, info: u8, max: usize) -> DecodeResult<Vec<u8>> {
            let n = self.arg(info)?;
            if n > max as u64 {
                return Err(DecodeError::TooLong { max, actual: n });
            }
            let mut v = Vec::new();
            (&mut self.r).take(n).read_to_end(&mut v)?;
            if v.len() as u64 != n {
                return Err(DecodeError::UnexpectedEOF);
            }
            Ok(v)
        }
        fn utf8(v: Vec<u8>) -> DecodeResult<String> {
            String::from_utf8(v).map_err(|e| DecodeError::InvalidUtf8(e.utf8_error()))
        }
        pub fn value(&mut self) -> DecodeResult<Value> {
            let n = self.config.max_nesting;
            self.go(n)
        }
        fn go(&mut self, nest: usize) -> DecodeResult<Value> {
            let b = self.byte()?;
            self.item(b, nest)
        }
        fn item(&mut self, b: u8, nest: usize) -> DecodeResult<Value> {
            if nest == 0 {
                return Err(DecodeError::TooNested);
            }
            let (major, info) = (b >> 5, b & 31);
            Ok(match major {
                0 => match info {
                    0..=24 => Value::U8(self.arg(info)? as u8),
                    25 => Value::U16(self.arg(info)? as u16),
                    26 => Value::U32(self.arg(info)? as u32),
                    _ => Value::U64(self.arg(info)?),
                },
                1 => {
                    let n = self.arg(info)?;
                    let v = -1 - i128::from(n);
                    if let Ok(x) = i8::try_from(v) {
                        Value::I8(x)
                    } else if let Ok(x) = i16::try_from(v) {
                        Value::I16(x)
                    } else if let Ok(x) = i32::try_from(v) {
                        Value::I32(x)
                    } else if let Ok(x) = i64::try_from(v) {
                        Value::I64(x)
                    } else {
                        Value::Int(Int::Neg(n))
                    }
                }
                2 if info == 31 => {
                    let mut c = std::collections::LinkedList::new();
                    loop {
                        let b = self.byte()?;
                        if b == 0xff {
                            break;
                        }
                        if b >> 5 != 2 || b & 31 == 31 {
                            return Err(DecodeError::UnexpectedType { info: b });
                        }
                        let m = self.config.max_len_bytes;
                        c.push_back(self.blob(b & 31, m)?)
                    }
                    Value::Bytes(Bytes::Chunks(c))
                }
                2 => {
                    let m = self.config.max_len_bytes;
                    Value::Bytes(Bytes::Bytes(self.blob(info, m)?))
                }
                3 if info == 31 => {
                    let mut c = std::collections::LinkedList::new();
                    loop {
                        let b = self.byte()?;
                        if b == 0xff {
                            break;
                        }
                        if b >> 5 != 3 || b & 31 == 31 {
                            return Err(DecodeError::UnexpectedType { info: b });
                        }
                        let m = self.config.max_len_text;
                        let t = self.blob(b & 31, m)?;
                        c.push_back(Self::utf8(t)?)
                    }
                    Value::Text(Text::Chunks(c))
                }
                3 => {
                    let m = self.config.max_len_text;
                    let t = self.blob(info, m)?;
                    Value::Text(Text::Text(Self::utf8(t)?))
                }
                4 => {
                    let mut v = Vec::new();
                    if info == 31 {
                        loop {
                            let b = self.byte()?;
                            if b == 0xff {
                                break;
                            }
                            if v.len() >= self.config.max_len_array {
                                return Err(DecodeError::TooLong { max: self.config.max_len_array, actual: v.len() as u64 });
                            }
                            v.push(self.item(b, nest - 1)?)
                        }
                    } else {
                        let n = self.arg(info)?;
                        if n > self.config.max_len_array as u64 {
                            return Err(DecodeError::TooLong { max: self.config.max_len_array, actual: n });
                        }
                        for _ in 0..n {
                            v.push(self.go(nest - 1)?)
                        }
                    }
                    Value::Array(v)
                }
                5 => {
                    let mut m = BTreeMap::new();
                    let n = if info == 31 { u64::MAX } else { self.arg(info)? };
                    if info != 31 && n > self.config.max_len_object as u64 {
                        return Err(DecodeError::TooLong { max: self.config.max_len_object, actual: n });
                    }
                    let mut i = 0;
                    while i < n {
                        let b = self.byte()?;
                        if info == 31 && b == 0xff {
                            break;
                        }
                        if m.len() >= self.config.max_len_object {
                            return Err(DecodeError::TooLong { max: self.config.max_len_object, actual: n });
                        }
                        let k = match self.item(b, nest - 1)? {
                            Value::Bool(b) => Key::Bool(b),
                            Value::Bytes(b) => Key::Bytes(b),
                            Value::Int(x) => Key::Int(x),
                            Value::Text(t) => Key::Text(t),
                            Value::I8(n) => Key::I8(n),
                            Value::I16(n) => Key::I16(n),
                            Value::I32(n) => Key::I32(n),
                            Value::I64(n) => Key::I64(n),
                            Value::U8(n) => Key::U8(n),
                            Value::U16(n) => Key::U16(n),
                            Value::U32(n) => Key::U32(n),
                            Value::U64(n) => Key::U64(n),
                            v => return Err(DecodeError::InvalidKey(Box::new(v))),
                        };
                        if m.contains_key(&k) {
                            return Err(DecodeError::DuplicateKey(Box::new(k)));
                        }
                        let v = self.go(nest - 1)?;
                        m.insert(k, v);
                        i += 1;
                    }
                    Value::Map(m)
                }
                6 => {
                    let t = self.arg(info)?;
                    Value::Tagged(Tag::of(t), Box::new(self.go(nest - 1)?))
                }
                _ => match info {
                    20 => Value::Bool(false),
                    21 => Value::Bool(true),
                    22 => Value::Null,
                    23 => Value::Undefined,
                    24 => Value::Simple(match self.byte()? {
                        n @ 0..=31 => Simple::Reserved(n),
                        n => Simple::Unassigned(n),
                    }),
                    25 => {
                        let mut b = [0; 2];
                        self.r.read_exact(&mut b)?;
                        Value::F32(half(u16::from_be_bytes(b)))
                    }
                    26 => {
                        let mut b = [0; 4];
                        self.r.read_exact(&mut b)?;
                        Value::F32(f32::from_bits(u32::from_be_bytes(b)))
                    }
                    27 => {
                        let mut b = [0; 8];
                        self.r.read_exact(&mut b)?;
                        Value::F64(f64::from_bits(u64::from_be_bytes(b)))
                    }
                    31 => Value::Break,
                    n => Value::Simple(Simple::Unassigned(n)),
                },
            })
        }
    }
    fn half(h: u16) -> f32 {
        let (e, m) = (i32::from(h >> 10 & 0x1f), f32::from(h & 0x3ff));
        let v = match e {
            0 => m * 2f32.powi(-24),
            31 => {
                if h & 0x3ff == 0 {
                    f32::INFINITY
                } else {
                    f32::NAN
                }
            }
            _ => (m + 1024.0) * 2f32.powi(e - 25),
        };
        if h & 0x8000 != 0 {
            -v
        } else {
            v
        }
    }
}
