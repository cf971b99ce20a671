//! Stand-in for the parts of rust-protobuf 2.28 that witnet uses: proto3 wire format, `Message`,
//! `RepeatedField`, `SingularPtrField`, unknown-field preservation.
use std::any::Any;
use std::fmt::{self, Debug};

#[derive(Debug)]
pub enum ProtobufError {
    WireError(WireError),
    Utf8(std::str::Utf8Error),
}
#[derive(Debug)]
pub enum WireError {
    UnexpectedEof,
    UnexpectedWireType(u32),
    IncorrectTag(u32),
    IncorrectVarint,
    OverRecursionLimit,
    TruncatedMessage,
}
impl fmt::Display for ProtobufError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ProtobufError {}
impl From<WireError> for ProtobufError {
    fn from(e: WireError) -> Self {
        ProtobufError::WireError(e)
    }
}
pub type ProtobufResult<T> = Result<T, ProtobufError>;

pub trait Clear {
    fn clear(&mut self);
}

pub trait Message: Debug + Clear + Any + Send + Sync {
    fn write_to_vec_raw(&self, out: &mut Vec<u8>);
    fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> ProtobufResult<()>;
    fn is_initialized(&self) -> bool {
        true
    }
    fn write_to_bytes(&self) -> ProtobufResult<Vec<u8>> {
        let mut v = Vec::new();
        self.write_to_vec_raw(&mut v);
        Ok(v)
    }
    fn write_to_vec(&self, v: &mut Vec<u8>) -> ProtobufResult<()> {
        self.write_to_vec_raw(v);
        Ok(())
    }
    fn compute_size(&self) -> u32 {
        let mut v = Vec::new();
        self.write_to_vec_raw(&mut v);
        v.len() as u32
    }
    fn merge_from_bytes(&mut self, bytes: &[u8]) -> ProtobufResult<()> {
        let mut is = CodedInputStream::new(bytes);
        self.merge_from(&mut is)
    }
    fn as_any(&self) -> &dyn Any;
    fn new() -> Self
    where
        Self: Sized;
    fn parse_from_bytes(bytes: &[u8]) -> ProtobufResult<Self>
    where
        Self: Sized,
    {
        let mut m = Self::new();
        m.merge_from_bytes(bytes)?;
        Ok(m)
    }
}

pub trait ProtobufEnum: Sized + Copy {
    fn value(&self) -> i32;
    fn from_i32(v: i32) -> Option<Self>;
}

#[derive(Clone, Default, PartialEq, Eq, Debug, Hash)]
pub struct UnknownFields {
    raw: Vec<u8>,
}
impl UnknownFields {
    pub fn push(&mut self, raw: &[u8]) {
        self.raw.extend_from_slice(raw)
    }
    pub fn write(&self, out: &mut Vec<u8>) {
        out.extend_from_slice(&self.raw)
    }
    pub fn is_empty(&self) -> bool {
        self.raw.is_empty()
    }
    pub fn clear(&mut self) {
        self.raw.clear()
    }
}

/// Repeated field
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct RepeatedField<T>(Vec<T>);
impl<T> Default for RepeatedField<T> {
    fn default() -> Self {
        RepeatedField(Vec::new())
    }
}
impl<T: Debug> Debug for RepeatedField<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> RepeatedField<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn from_vec(v: Vec<T>) -> Self {
        RepeatedField(v)
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
    pub fn push(&mut self, t: T) {
        self.0.push(t)
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
}
impl<T> From<Vec<T>> for RepeatedField<T> {
    fn from(v: Vec<T>) -> Self {
        RepeatedField(v)
    }
}
impl<T> From<RepeatedField<T>> for Vec<T> {
    fn from(v: RepeatedField<T>) -> Self {
        v.0
    }
}
impl<T> std::ops::Deref for RepeatedField<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T> std::ops::DerefMut for RepeatedField<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        &mut self.0
    }
}
impl<T> IntoIterator for RepeatedField<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<T> std::iter::FromIterator<T> for RepeatedField<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        RepeatedField(i.into_iter().collect())
    }
}

/// Singular message field
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SingularPtrField<T>(Option<Box<T>>);
impl<T> Default for SingularPtrField<T> {
    fn default() -> Self {
        SingularPtrField(None)
    }
}
impl<T: Debug> Debug for SingularPtrField<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> SingularPtrField<T> {
    pub fn some(t: T) -> Self {
        SingularPtrField(Some(Box::new(t)))
    }
    pub fn none() -> Self {
        SingularPtrField(None)
    }
    pub fn from_option(o: Option<T>) -> Self {
        SingularPtrField(o.map(Box::new))
    }
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn into_option(self) -> Option<T> {
        self.0.map(|b| *b)
    }
    pub fn as_ref(&self) -> Option<&T> {
        self.0.as_deref()
    }
    pub fn as_mut(&mut self) -> Option<&mut T> {
        self.0.as_deref_mut()
    }
    pub fn take(&mut self) -> Option<T> {
        self.0.take().map(|b| *b)
    }
    pub fn clear(&mut self) {
        self.0 = None
    }
    pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> SingularPtrField<U> {
        SingularPtrField(self.0.map(|b| Box::new(f(*b))))
    }
    pub fn unwrap(self) -> T {
        *self.0.unwrap()
    }
}
impl<T> From<Option<T>> for SingularPtrField<T> {
    fn from(o: Option<T>) -> Self {
        Self::from_option(o)
    }
}

pub struct CodedInputStream<'a> {
    buf: &'a [u8],
    pos: usize,
    depth: u32,
}
impl<'a> CodedInputStream<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        CodedInputStream { buf, pos: 0, depth: 0 }
    }
    pub fn eof(&self) -> bool {
        self.pos >= self.buf.len()
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn since(&self, start: usize) -> &'a [u8] {
        &self.buf[start..self.pos]
    }
    pub fn read_varint(&mut self) -> ProtobufResult<u64> {
        let mut r = 0u64;
        for i in 0..10 {
            let b = *self.buf.get(self.pos).ok_or(WireError::UnexpectedEof)?;
            self.pos += 1;
            r |= u64::from(b & 0x7f).checked_shl(i * 7).unwrap_or(0);
            if b < 0x80 {
                return Ok(r);
            }
        }
        Err(WireError::IncorrectVarint.into())
    }
    /// (field number, wire type)
    pub fn read_tag(&mut self) -> ProtobufResult<(u32, u32)> {
        let v = self.read_varint()? as u32;
        let (n, w) = (v >> 3, v & 7);
        if n == 0 || w > 5 {
            return Err(WireError::IncorrectTag(v).into());
        }
        Ok((n, w))
    }
    fn take(&mut self, n: usize) -> ProtobufResult<&'a [u8]> {
        if self.buf.len() - self.pos < n {
            return Err(WireError::TruncatedMessage.into());
        }
        let s = &self.buf[self.pos..self.pos + n];
        self.pos += n;
        Ok(s)
    }
    pub fn fixed32(&mut self, wt: u32) -> ProtobufResult<u32> {
        expect(wt, 5)?;
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn fixed64(&mut self, wt: u32) -> ProtobufResult<u64> {
        expect(wt, 1)?;
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn double(&mut self, wt: u32) -> ProtobufResult<f64> {
        Ok(f64::from_bits(self.fixed64(wt)?))
    }
    pub fn uint32(&mut self, wt: u32) -> ProtobufResult<u32> {
        expect(wt, 0)?;
        Ok(self.read_varint()? as u32)
    }
    pub fn int32(&mut self, wt: u32) -> ProtobufResult<i32> {
        expect(wt, 0)?;
        Ok(self.read_varint()? as i32)
    }
    pub fn uint64(&mut self, wt: u32) -> ProtobufResult<u64> {
        expect(wt, 0)?;
        self.read_varint()
    }
    pub fn int64(&mut self, wt: u32) -> ProtobufResult<i64> {
        expect(wt, 0)?;
        Ok(self.read_varint()? as i64)
    }
    pub fn boolean(&mut self, wt: u32) -> ProtobufResult<bool> {
        expect(wt, 0)?;
        Ok(self.read_varint()? != 0)
    }
    pub fn bytes(&mut self, wt: u32) -> ProtobufResult<Vec<u8>> {
        expect(wt, 2)?;
        let n = self.read_varint()? as u32 as usize;
        Ok(self.take(n)?.to_vec())
    }
    pub fn string(&mut self, wt: u32) -> ProtobufResult<String> {
        String::from_utf8(self.bytes(wt)?).map_err(|e| ProtobufError::Utf8(e.utf8_error()))
    }
    pub fn message<M: Message>(&mut self, wt: u32) -> ProtobufResult<M> {
        expect(wt, 2)?;
        let n = self.read_varint()? as u32 as usize;
        let body = self.take(n)?;
        if self.depth >= 100 {
            return Err(WireError::OverRecursionLimit.into());
        }
        let mut sub = CodedInputStream { buf: body, pos: 0, depth: self.depth + 1 };
        let mut m = M::new();
        m.merge_from(&mut sub)?;
        Ok(m)
    }
    /// Skip the payload of an unknown field
    pub fn skip(&mut self, wt: u32) -> ProtobufResult<()> {
        match wt {
            0 => {
                self.read_varint()?;
            }
            1 => {
                self.take(8)?;
            }
            2 => {
                let n = self.read_varint()? as u32 as usize;
                self.take(n)?;
            }
            5 => {
                self.take(4)?;
            }
            3 => loop {
                let (_, w) = self.read_tag()?;
                if w == 4 {
                    break;
                }
                if w == 3 {
                    return Err(WireError::UnexpectedWireType(3).into());
                }
                self.skip(w)?;
            },
            _ => return Err(WireError::UnexpectedWireType(wt).into()),
        }
        Ok(())
    }
}
fn expect(wt: u32, want: u32) -> ProtobufResult<()> {
    if wt == want {
        Ok(())
    } else {
        Err(WireError::UnexpectedWireType(wt).into())
    }
}

pub mod wire {
    use super::Message;
    pub fn varint(out: &mut Vec<u8>, mut v: u64) {
        while v >= 0x80 {
            out.push((v as u8) | 0x80);
            v >>= 7;
        }
        out.push(v as u8);
    }
    pub fn tag(out: &mut Vec<u8>, n: u32, wt: u32) {
        varint(out, u64::from(n << 3 | wt))
    }
    pub fn uint32(out: &mut Vec<u8>, n: u32, v: u32) {
        tag(out, n, 0);
        varint(out, v.into())
    }
    pub fn uint64(out: &mut Vec<u8>, n: u32, v: u64) {
        tag(out, n, 0);
        varint(out, v)
    }
    pub fn int64(out: &mut Vec<u8>, n: u32, v: i64) {
        tag(out, n, 0);
        varint(out, v as u64)
    }
    pub fn int32(out: &mut Vec<u8>, n: u32, v: i32) {
        tag(out, n, 0);
        varint(out, i64::from(v) as u64)
    }
    pub fn boolean(out: &mut Vec<u8>, n: u32, v: bool) {
        tag(out, n, 0);
        varint(out, v.into())
    }
    pub fn fixed32(out: &mut Vec<u8>, n: u32, v: u32) {
        tag(out, n, 5);
        out.extend_from_slice(&v.to_le_bytes())
    }
    pub fn fixed64(out: &mut Vec<u8>, n: u32, v: u64) {
        tag(out, n, 1);
        out.extend_from_slice(&v.to_le_bytes())
    }
    pub fn double(out: &mut Vec<u8>, n: u32, v: f64) {
        fixed64(out, n, v.to_bits())
    }
    pub fn bytes(out: &mut Vec<u8>, n: u32, v: &[u8]) {
        tag(out, n, 2);
        varint(out, v.len() as u64);
        out.extend_from_slice(v)
    }
    pub fn message<M: Message>(out: &mut Vec<u8>, n: u32, m: &M) {
        let mut b = Vec::new();
        m.write_to_vec_raw(&mut b);
        bytes(out, n, &b)
    }
}
