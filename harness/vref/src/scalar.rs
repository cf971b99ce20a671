//! Arithmetic modulo the secp256k1 group order, on big-endian 32-byte strings.
pub const N: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe,
    0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
/// (a + b) mod n for a, b < n.
pub fn add(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    let mut c = 0u16;
    for i in (0..32).rev() {
        let s = u16::from(a[i]) + u16::from(b[i]) + c;
        r[i] = s as u8;
        c = s >> 8;
    }
    if c == 1 || r >= N {
        r = sub(&r, &N);
    }
    r
}
/// a - b mod 2^256.
pub fn sub(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    let mut c = 0i16;
    for i in (0..32).rev() {
        let s = i16::from(a[i]) - i16::from(b[i]) - c;
        r[i] = s as u8;
        c = i16::from(s < 0);
    }
    r
}
/// 0 < a < n
pub fn valid(a: &[u8; 32]) -> bool {
    *a != [0; 32] && *a < N
}
/// a * b mod n by double-and-add.
pub fn mul(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let mut r = [0u8; 32];
    for byte in b {
        for i in (0..8).rev() {
            r = add(&r, &r);
            if (byte >> i) & 1 == 1 {
                r = add(&r, a);
            }
        }
    }
    r
}
/// a^-1 mod n (Fermat).
pub fn inv(a: &[u8; 32]) -> [u8; 32] {
    let mut two = [0u8; 32];
    two[31] = 2;
    let e = sub(&N, &two);
    let mut r = [0u8; 32];
    r[31] = 1;
    for byte in e {
        for i in (0..8).rev() {
            r = mul(&r, &r);
            if (byte >> i) & 1 == 1 {
                r = mul(&r, a);
            }
        }
    }
    r
}
/// Reduce a 256-bit number mod n.
pub fn reduce(a: &[u8; 32]) -> [u8; 32] {
    if *a >= N { sub(a, &N) } else { *a }
}
/// Is `a` greater than n/2 ?
pub fn is_high(a: &[u8; 32]) -> bool {
    let neg = sub(&N, a);
    *a > neg
}
/// RFC 6979 nonce (SHA-256) for key d and 32-byte digest z.
pub fn rfc6979(d: &[u8; 32], z: &[u8; 32]) -> [u8; 32] {
    use crate::hash::hmac256;
    let mut v = [1u8; 32];
    let mut k = [0u8; 32];
    k = hmac256(&k, &[&v, &[0], d, z]);
    v = hmac256(&k, &[&v]);
    k = hmac256(&k, &[&v, &[1], d, z]);
    v = hmac256(&k, &[&v]);
    loop {
        v = hmac256(&k, &[&v]);
        if valid(&v) {
            return v;
        }
        k = hmac256(&k, &[&v, &[0]]);
        v = hmac256(&k, &[&v]);
    }
}
