//! Stand-in for witnet-bls-signatures. Keys and signatures have the real sizes; verification and validity
//! checks are keyed hashes. Only the shape matters to the properties checked here.
use sha2::{Digest, Sha256};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for Error {}
fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p)
    }
    h.finalize().into()
}
pub trait MultiSignature<PublicKey, SecretKey, Signature> {
    type Error;
    fn derive_public_key(&mut self, sk: SecretKey) -> Result<Vec<u8>, Self::Error>;
    fn sign(&mut self, sk: SecretKey, message: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, signature: Signature, message: &[u8], pk: PublicKey) -> Result<(), Self::Error>;
}
pub mod bn256 {
    use super::*;
    #[derive(Debug, Clone, Copy)]
    pub struct Bn256;
    pub struct PrivateKey(Vec<u8>);
    impl PrivateKey {
        pub fn new<T: AsRef<[u8]>>(b: T) -> Result<Self, Error> {
            let b = b.as_ref();
            if b.len() != 32 || b.iter().all(|x| *x == 0) {
                return Err(Error("invalid private key"));
            }
            Ok(PrivateKey(b.to_vec()))
        }
        pub fn to_bytes(&self) -> Vec<u8> {
            self.0.clone()
        }
    }
    pub struct PublicKey(Vec<u8>);
    impl PublicKey {
        pub fn from_compressed<T: AsRef<[u8]>>(b: T) -> Result<Self, Error> {
            let b = b.as_ref();
            if b.len() != 65 || !matches!(b[0], 0x0a | 0x0b) || b[33..] != sha(&[b"pk", &b[1..33]]) {
                return Err(Error("invalid compressed public key"));
            }
            Ok(PublicKey(b.to_vec()))
        }
        pub fn to_compressed(&self) -> Result<Vec<u8>, Error> {
            Ok(self.0.clone())
        }
        pub fn to_uncompressed(&self) -> Result<Vec<u8>, Error> {
            let mut v = self.0[1..].to_vec();
            v.extend_from_slice(&sha(&[b"y0", &self.0]));
            v.extend_from_slice(&sha(&[b"y1", &self.0]));
            Ok(v)
        }
    }
    impl MultiSignature<&[u8], &[u8], &[u8]> for Bn256 {
        type Error = Error;
        fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            PrivateKey::new(sk)?;
            let x = sha(&[b"x", sk]);
            let mut v = vec![0x0a | (x[31] & 1)];
            v.extend_from_slice(&x);
            v.extend_from_slice(&sha(&[b"pk", &x]));
            Ok(v)
        }
        fn sign(&mut self, sk: &[u8], message: &[u8]) -> Result<Vec<u8>, Error> {
            let pk = self.derive_public_key(sk)?;
            let s = sha(&[b"sig", &pk, message]);
            let mut v = vec![2 | (s[31] & 1)];
            v.extend_from_slice(&s);
            Ok(v)
        }
        fn verify(&mut self, signature: &[u8], message: &[u8], pk: &[u8]) -> Result<(), Error> {
            PublicKey::from_compressed(pk)?;
            if signature.len() == 33 && signature[1..] == sha(&[b"sig", pk, message]) {
                Ok(())
            } else {
                Err(Error("verification failed"))
            }
        }
    }
}
