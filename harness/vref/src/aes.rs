//! AES-256 (FIPS 197) and CBC with PKCS#7, slow and simple.
pub struct Aes256 {
    rk: Vec<[u8; 16]>,
    sbox: [u8; 256],
    inv: [u8; 256],
}

fn mul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a;
        }
        let hi = a & 0x80;
        a <<= 1;
        if hi != 0 {
            a ^= 0x1b;
        }
        b >>= 1;
    }
    r
}

impl Aes256 {
    pub fn new(key: &[u8]) -> Self {
        assert_eq!(key.len(), 32);
        let mut sbox = [0u8; 256];
        let mut inv = [0u8; 256];
        for x in 0..=255u8 {
            // multiplicative inverse
            let mut i = 0u8;
            if x != 0 {
                for c in 1..=255u8 {
                    if mul(x, c) == 1 {
                        i = c;
                        break;
                    }
                }
            }
            let s = i ^ i.rotate_left(1) ^ i.rotate_left(2) ^ i.rotate_left(3) ^ i.rotate_left(4) ^ 0x63;
            sbox[x as usize] = s;
            inv[s as usize] = x;
        }
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| c.try_into().unwrap()).collect();
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t.rotate_left(1);
                for b in &mut t {
                    *b = sbox[*b as usize];
                }
                t[0] ^= rcon;
                rcon = mul(rcon, 2);
            } else if i % 8 == 4 {
                for b in &mut t {
                    *b = sbox[*b as usize];
                }
            }
            for j in 0..4 {
                t[j] ^= w[i - 8][j];
            }
            w.push(t);
        }
        let rk = w.chunks(4).map(|c| c.concat().try_into().unwrap()).collect();
        Aes256 { rk, sbox, inv }
    }
    fn add(&self, s: &mut [u8; 16], r: usize) {
        for i in 0..16 {
            s[i] ^= self.rk[r][i];
        }
    }
    pub fn encrypt_block(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        self.add(&mut s, 0);
        for r in 1..=14 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = self.sbox[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != 14 {
                for c in 0..4 {
                    let a: [u8; 4] = t[4 * c..4 * c + 4].try_into().unwrap();
                    for k in 0..4 {
                        t[4 * c + k] = mul(a[k], 2) ^ mul(a[(k + 1) % 4], 3) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4];
                    }
                }
            }
            s = t;
            self.add(&mut s, r);
        }
        s
    }
    pub fn decrypt_block(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        for r in (1..=14).rev() {
            self.add(&mut s, r);
            if r != 14 {
                for c in 0..4 {
                    let a: [u8; 4] = s[4 * c..4 * c + 4].try_into().unwrap();
                    for k in 0..4 {
                        s[4 * c + k] = mul(a[k], 14) ^ mul(a[(k + 1) % 4], 11) ^ mul(a[(k + 2) % 4], 13) ^ mul(a[(k + 3) % 4], 9);
                    }
                }
            }
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * ((c + row) % 4) + row] = self.inv[s[4 * c + row] as usize];
                }
            }
            s = t;
        }
        self.add(&mut s, 0);
        s
    }
    pub fn cbc_encrypt(&self, iv: &[u8; 16], pt: &[u8]) -> Vec<u8> {
        let mut p = pt.to_vec();
        let n = 16 - p.len() % 16;
        p.extend(std::iter::repeat(n as u8).take(n));
        let mut prev = *iv;
        let mut out = vec![];
        for c in p.chunks(16) {
            let mut x = [0; 16];
            for i in 0..16 {
                x[i] = c[i] ^ prev[i];
            }
            prev = self.encrypt_block(&x);
            out.extend_from_slice(&prev);
        }
        out
    }
    /// None: not a whole number (>= 1) of blocks, or bad padding.
    pub fn cbc_decrypt(&self, iv: &[u8; 16], ct: &[u8]) -> Option<Vec<u8>> {
        if ct.len() % 16 != 0 {
            return None;
        }
        let mut prev = *iv;
        let mut out = vec![];
        for c in ct.chunks(16) {
            let c: [u8; 16] = c.try_into().unwrap();
            let d = self.decrypt_block(&c);
            for i in 0..16 {
                out.push(d[i] ^ prev[i]);
            }
            prev = c;
        }
        let n = *out.last()? as usize;
        if n == 0 || n > 16 || n > out.len() || out[out.len() - n..].iter().any(|b| *b as usize != n) {
            return None;
        }
        out.truncate(out.len() - n);
        Some(out)
    }
}
