//! Stand-in for bech32 0.11: `encode::<Bech32>`, `decode` (accepting Bech32m and Bech32 checksums), `Hrp`.
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bech32 {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bech32m {}
pub trait Checksum {
    const TARGET: u32;
}
impl Checksum for Bech32 {
    const TARGET: u32 = 1;
}
impl Checksum for Bech32m {
    const TARGET: u32 = 0x2bc8_30a3;
}
#[derive(Clone, Debug)]
pub struct Hrp(String);
// Equality ignores case, as in the real crate
impl PartialEq for Hrp {
    fn eq(&self, o: &Hrp) -> bool {
        self.0.eq_ignore_ascii_case(&o.0)
    }
}
impl Eq for Hrp {}
impl Hrp {
    pub fn parse_unchecked(s: &str) -> Hrp {
        Hrp(s.into())
    }
    pub fn parse(s: &str) -> Result<Hrp, DecodeError> {
        if s.is_empty() || s.len() > 83 || s.bytes().any(|b| !(33..=126).contains(&b)) {
            return Err(DecodeError("invalid human-readable part"));
        }
        if s.bytes().any(|b| b.is_ascii_lowercase()) && s.bytes().any(|b| b.is_ascii_uppercase()) {
            return Err(DecodeError("mixed case"));
        }
        Ok(Hrp(s.into()))
    }
    pub fn as_str(&self) -> &str {
        &self.0
    }
    pub fn to_lowercase(&self) -> String {
        self.0.to_lowercase()
    }
    pub fn as_bytes(&self) -> &[u8] {
        self.0.as_bytes()
    }
}
impl fmt::Display for Hrp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct DecodeError(pub &'static str);
impl fmt::Display for DecodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for DecodeError {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EncodeError(pub &'static str);
impl fmt::Display for EncodeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for EncodeError {}

const CHARS: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
fn polymod(v: impl Iterator<Item = u8>) -> u32 {
    const G: [u32; 5] = [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c = 1u32;
    for x in v {
        let b = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ u32::from(x);
        for (i, g) in G.iter().enumerate() {
            if b >> i & 1 == 1 {
                c ^= g
            }
        }
    }
    c
}
fn expand(h: &str) -> Vec<u8> {
    let h = h.to_ascii_lowercase();
    let mut v: Vec<u8> = h.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(h.bytes().map(|b| b & 31));
    v
}
pub fn encode<C: Checksum>(hrp: Hrp, data: &[u8]) -> Result<String, EncodeError> {
    let mut d = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = (acc << 8 | u32::from(*b)) & 0xfff;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            d.push((acc >> bits & 31) as u8)
        }
    }
    if bits > 0 {
        d.push((acc << (5 - bits) & 31) as u8)
    }
    let pm = polymod(expand(&hrp.0).into_iter().chain(d.iter().copied()).chain([0; 6])) ^ C::TARGET;
    for i in 0..6 {
        d.push((pm >> (5 * (5 - i)) & 31) as u8)
    }
    let s = format!("{}1{}", hrp.to_lowercase(), d.iter().map(|x| CHARS[*x as usize] as char).collect::<String>());
    if s.len() > 1023 {
        return Err(EncodeError("too long"));
    }
    Ok(s)
}
pub fn decode(s: &str) -> Result<(Hrp, Vec<u8>), DecodeError> {
    if s.bytes().any(|b| b.is_ascii_lowercase()) && s.bytes().any(|b| b.is_ascii_uppercase()) {
        return Err(DecodeError("mixed case"));
    }
    if s.len() > 1023 {
        return Err(DecodeError("too long"));
    }
    let i = s.rfind('1').ok_or(DecodeError("missing separator"))?;
    let hrp = Hrp::parse(&s[..i])?;
    let mut d = vec![];
    for b in s[i + 1..].bytes() {
        let b = b.to_ascii_lowercase();
        d.push(CHARS.iter().position(|c| *c == b).ok_or(DecodeError("invalid character"))? as u8)
    }
    if d.len() < 6 {
        return Err(DecodeError("checksum too short"));
    }
    let pm = polymod(expand(&hrp.0).into_iter().chain(d.iter().copied()));
    if pm != Bech32::TARGET && pm != Bech32m::TARGET {
        return Err(DecodeError("invalid checksum"));
    }
    d.truncate(d.len() - 6);
    let (mut acc, mut bits, mut out) = (0u32, 0, vec![]);
    for x in d {
        acc = (acc << 5 | u32::from(x)) & 0xfff;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8)
        }
    }
    if bits >= 5 || acc & ((1 << bits) - 1) != 0 {
        return Err(DecodeError("invalid padding"));
    }
    Ok((hrp, out))
}
