//! Stand-in for bs58 (Bitcoin alphabet, no checksum).
const A: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub struct Encode(Vec<u8>);
pub fn encode<T: AsRef<[u8]>>(b: T) -> Encode {
    Encode(b.as_ref().to_vec())
}
impl Encode {
    pub fn into_string(self) -> String {
        let z = self.0.iter().take_while(|b| **b == 0).count();
        let mut d: Vec<u8> = vec![];
        for b in &self.0[z..] {
            let mut c = u32::from(*b);
            for x in d.iter_mut() {
                c += u32::from(*x) << 8;
                *x = (c % 58) as u8;
                c /= 58;
            }
            while c > 0 {
                d.push((c % 58) as u8);
                c /= 58;
            }
        }
        std::iter::repeat('1').take(z).chain(d.iter().rev().map(|x| A[*x as usize] as char)).collect()
    }
}
pub struct Decode(Vec<u8>);
pub mod decode {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        InvalidCharacter { character: char, index: usize },
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{self:?}")
        }
    }
    impl std::error::Error for Error {}
}
pub fn decode<T: AsRef<[u8]>>(b: T) -> Decode {
    Decode(b.as_ref().to_vec())
}
impl Decode {
    pub fn into_vec(self) -> Result<Vec<u8>, decode::Error> {
        let z = self.0.iter().take_while(|b| **b == b'1').count();
        let mut d: Vec<u8> = vec![];
        for (i, b) in self.0.iter().enumerate() {
            let p = A.iter().position(|a| a == b).ok_or(decode::Error::InvalidCharacter { character: *b as char, index: i })?;
            if i < z {
                continue;
            }
            let mut c = p as u32;
            for x in d.iter_mut() {
                c += u32::from(*x) * 58;
                *x = c as u8;
                c >>= 8;
            }
            while c > 0 {
                d.push(c as u8);
                c >>= 8;
            }
        }
        Ok(std::iter::repeat(0).take(z).chain(d.into_iter().rev()).collect())
    }
}
