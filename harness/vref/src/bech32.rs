//! BIP-173 reference.
const CH: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";

fn polymod(v: &[u8]) -> u32 {
    const G: [u32; 5] = [0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
    let mut c = 1u32;
    for x in v {
        let t = c >> 25;
        c = ((c & 0x1ffffff) << 5) ^ u32::from(*x);
        for (i, g) in G.iter().enumerate() {
            if (t >> i) & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}
fn expand(h: &str) -> Vec<u8> {
    let mut v: Vec<u8> = h.bytes().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(h.bytes().map(|b| b & 31));
    v
}
/// Encode 5-bit groups.
pub fn encode5(hrp: &str, d: &[u8]) -> String {
    let mut v = expand(hrp);
    v.extend_from_slice(d);
    v.extend([0; 6]);
    let p = polymod(&v) ^ 1;
    let mut s = format!("{hrp}1");
    for x in d {
        s.push(CH[*x as usize] as char);
    }
    for i in 0..6 {
        s.push(CH[((p >> (5 * (5 - i))) & 31) as usize] as char);
    }
    s
}
pub fn to5(b: &[u8]) -> Vec<u8> {
    let mut acc = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for x in b {
        acc = (acc << 8) | u32::from(*x);
        n += 8;
        while n >= 5 {
            n -= 5;
            o.push(((acc >> n) & 31) as u8);
        }
        acc &= 0xff;
    }
    if n > 0 {
        o.push(((acc << (5 - n)) & 31) as u8);
    }
    o
}
pub fn from5(d: &[u8]) -> Option<Vec<u8>> {
    let mut acc = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for x in d {
        acc = (acc << 5) | u32::from(*x);
        n += 5;
        if n >= 8 {
            n -= 8;
            o.push((acc >> n) as u8);
            acc &= (1 << n) - 1;
        }
    }
    if n >= 5 || acc != 0 {
        return None;
    }
    Some(o)
}
pub fn encode(hrp: &str, bytes: &[u8]) -> String {
    encode5(hrp, &to5(bytes))
}
/// (hrp in lower case, 5-bit data) when the string is valid bech32 (no length cap).
pub fn decode(s: &str) -> Option<(String, Vec<u8>)> {
    if s.bytes().any(|b| !(33..=126).contains(&b)) {
        return None;
    }
    let lower = s.bytes().any(|b| b.is_ascii_lowercase());
    let upper = s.bytes().any(|b| b.is_ascii_uppercase());
    if lower && upper {
        return None;
    }
    let s = s.to_ascii_lowercase();
    let p = s.rfind('1')?;
    if p == 0 || s.len() - p - 1 < 6 {
        return None;
    }
    let hrp = &s[..p];
    let mut d = vec![];
    for b in s[p + 1..].bytes() {
        d.push(CH.iter().position(|c| *c == b)? as u8);
    }
    let mut v = expand(hrp);
    v.extend_from_slice(&d);
    if polymod(&v) != 1 {
        return None;
    }
    d.truncate(d.len() - 6);
    Some((hrp.to_string(), d))
}
