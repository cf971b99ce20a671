//! Stand-in for serde_cbor 0.11: `Value`, `to_vec`, `from_slice`, `value::{to_value, from_value}`.
mod de;
pub mod value;
pub use value::Value;

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: std::fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}
impl serde::de::Error for Error {
    fn custom<T: std::fmt::Display>(t: T) -> Self {
        Error(t.to_string())
    }
}
pub type Result<T> = std::result::Result<T, Error>;

pub fn to_vec<T: serde::Serialize + ?Sized>(v: &T) -> Result<Vec<u8>> {
    let mut out = Vec::new();
    ciborium::into_writer(v, &mut out).map_err(|e| Error(e.to_string()))?;
    Ok(out)
}

/// Like serde_cbor: at most 128 levels, no trailing bytes.
pub fn from_slice<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T> {
    T::deserialize(de::decode(b)?)
}
pub fn from_reader<T: serde::de::DeserializeOwned, R: std::io::Read>(mut r: R) -> Result<T> {
    let mut v = Vec::new();
    r.read_to_end(&mut v).map_err(|e| Error(e.to_string()))?;
    from_slice(&v)
}
