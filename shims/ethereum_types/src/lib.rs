//! Stand-in for `ethereum_types::U256`: what the hash arithmetic needs.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct U256([u64; 4]); // most significant first, so that the derived order is the numeric one
impl U256 {
    pub fn from_big_endian(b: &[u8]) -> U256 {
        assert!(b.len() <= 32);
        let mut p = [0u8; 32];
        p[32 - b.len()..].copy_from_slice(b);
        let mut o = [0; 4];
        for i in 0..4 {
            o[i] = u64::from_be_bytes(p[8 * i..8 * i + 8].try_into().unwrap())
        }
        U256(o)
    }
    pub fn to_big_endian(&self) -> [u8; 32] {
        let mut p = [0u8; 32];
        for i in 0..4 {
            p[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_be_bytes())
        }
        p
    }
    pub fn low_u64(&self) -> u64 {
        self.0[3]
    }
    pub fn zero() -> U256 {
        U256([0; 4])
    }
    pub fn max_value() -> U256 {
        U256([u64::MAX; 4])
    }
    pub fn is_zero(&self) -> bool {
        self.0 == [0; 4]
    }
    fn bit(&self, i: usize) -> u64 {
        self.0[3 - i / 64] >> (i % 64) & 1
    }
    fn shl1(&mut self, b: u64) -> bool {
        let mut c = b;
        for i in (0..4).rev() {
            let n = self.0[i] >> 63;
            self.0[i] = self.0[i] << 1 | c;
            c = n
        }
        c == 1
    }
    fn wsub(&mut self, o: &U256) {
        let mut b = false;
        for i in (0..4).rev() {
            let (x, b1) = self.0[i].overflowing_sub(o.0[i]);
            let (x, b2) = x.overflowing_sub(b.into());
            self.0[i] = x;
            b = b1 || b2
        }
    }
    pub fn div_mod(self, d: U256) -> (U256, U256) {
        assert!(!d.is_zero(), "division by zero");
        let (mut q, mut r) = (U256::zero(), U256::zero());
        for i in (0..256).rev() {
            let over = r.shl1(self.bit(i));
            let ge = over || r >= d;
            if ge {
                r.wsub(&d)
            }
            q.shl1(ge.into());
        }
        (q, r)
    }
}
macro_rules! from { ($($t:ty),*) => { $( impl From<$t> for U256 { fn from(x: $t) -> U256 { U256([0, 0, 0, x.into()]) } } )* } }
from!(u64, u32, u16, u8, bool);
