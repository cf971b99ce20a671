//! Stand-in for vrf-rs, for the one suite witnet uses (ECVRF-SECP256K1-SHA256-TAI).
pub trait VRF<PublicKey, SecretKey> {
    type Error;
    fn prove(&mut self, x: SecretKey, alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
    fn verify(&mut self, y: PublicKey, pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Self::Error>;
}

pub mod openssl {
    use hmac::{Hmac, Mac};
    use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
    use sha2::{Digest, Sha256};

    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum CipherSuite {
        P256_SHA256_TAI,
        K163_SHA256_TAI,
        SECP256K1_SHA256_TAI,
    }
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum Error {
        CodedPoint,
        HashToPoint,
        InvalidProof,
        InvalidSecretKey,
        InvalidPublicKey,
        Unsupported,
    }
    impl std::fmt::Display for Error {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "VRF error: {self:?}")
        }
    }
    impl std::error::Error for Error {}

    const SUITE: u8 = 0xfe;
    #[derive(Debug)]
    pub struct ECVRF {
        ctx: Secp256k1<secp256k1::All>,
    }
    fn sha(parts: &[&[u8]]) -> [u8; 32] {
        let mut h = Sha256::new();
        for p in parts {
            h.update(p)
        }
        h.finalize().into()
    }
    fn hmac(k: &[u8], parts: &[&[u8]]) -> [u8; 32] {
        let mut h = <Hmac<Sha256> as Mac>::new_from_slice(k).unwrap();
        for p in parts {
            h.update(p)
        }
        h.finalize().into_bytes().into()
    }
    /// Any 32 bytes, reduced modulo the group order; None for zero
    fn scalar(b: [u8; 32]) -> Option<SecretKey> {
        if let Ok(s) = SecretKey::from_slice(&b) {
            return Some(s);
        }
        // b >= n (or zero): subtract n
        const N: [u8; 32] = [
            0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6,
            0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
        ];
        if b < N {
            return None;
        }
        let mut o = [0u8; 32];
        let mut borrow = 0i32;
        for i in (0..32).rev() {
            let mut d = i32::from(b[i]) - i32::from(N[i]) - borrow;
            borrow = 0;
            if d < 0 {
                d += 256;
                borrow = 1;
            }
            o[i] = d as u8;
        }
        SecretKey::from_slice(&o).ok()
    }
    impl ECVRF {
        pub fn from_suite(s: CipherSuite) -> Result<Self, Error> {
            if s != CipherSuite::SECP256K1_SHA256_TAI {
                return Err(Error::Unsupported);
            }
            Ok(ECVRF { ctx: Secp256k1::new() })
        }
        pub fn derive_public_key(&mut self, sk: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(sk).map_err(|_| Error::InvalidSecretKey)?;
            Ok(PublicKey::from_secret_key(&self.ctx, &sk).serialize().to_vec())
        }
        fn hash_to_point(&self, pk: &PublicKey, alpha: &[u8]) -> Result<PublicKey, Error> {
            for ctr in 0u8..255 {
                let h = sha(&[&[SUITE, 1], &pk.serialize(), alpha, &[ctr]]);
                let mut b = [2u8; 33];
                b[1..].copy_from_slice(&h);
                if let Ok(p) = PublicKey::from_slice(&b) {
                    return Ok(p);
                }
            }
            Err(Error::HashToPoint)
        }
        fn nonce(&self, sk: &SecretKey, data: &[u8]) -> SecretKey {
            let d = sha(&[data]);
            let h1 = scalar(d).map(|s| s.secret_bytes()).unwrap_or([0; 32]);
            let x = sk.secret_bytes();
            let (mut v, mut k) = ([1u8; 32], [0u8; 32]);
            k = hmac(&k, &[&v, &[0], &x, &h1]);
            v = hmac(&k, &[&v]);
            k = hmac(&k, &[&v, &[1], &x, &h1]);
            v = hmac(&k, &[&v]);
            loop {
                v = hmac(&k, &[&v]);
                if let Ok(s) = SecretKey::from_slice(&v) {
                    return s;
                }
                k = hmac(&k, &[&v, &[0]]);
                v = hmac(&k, &[&v]);
            }
        }
        fn challenge(points: &[&PublicKey]) -> [u8; 16] {
            let ser: Vec<_> = points.iter().map(|p| p.serialize()).collect();
            let mut parts: Vec<&[u8]> = vec![&[SUITE, 2]];
            parts.extend(ser.iter().map(|s| &s[..]));
            sha(&parts)[..16].try_into().unwrap()
        }
        fn c_scalar(c: &[u8; 16]) -> Scalar {
            let mut b = [0; 32];
            b[16..].copy_from_slice(c);
            Scalar::from_be_bytes(b).unwrap()
        }
        fn decode(pi: &[u8]) -> Result<(PublicKey, [u8; 16], [u8; 32]), Error> {
            if pi.len() != 81 {
                return Err(Error::InvalidProof);
            }
            let g = PublicKey::from_slice(&pi[..33]).map_err(|_| Error::CodedPoint)?;
            Ok((g, pi[33..49].try_into().unwrap(), pi[49..].try_into().unwrap()))
        }
        fn gamma_to_hash(g: &PublicKey) -> Vec<u8> {
            sha(&[&[SUITE, 3], &g.serialize()]).to_vec()
        }
        pub fn proof_to_hash(&mut self, pi: &[u8]) -> Result<Vec<u8>, Error> {
            Ok(Self::gamma_to_hash(&Self::decode(pi)?.0))
        }
    }
    impl super::VRF<&[u8], &[u8]> for ECVRF {
        type Error = Error;
        fn prove(&mut self, x: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let sk = SecretKey::from_slice(x).map_err(|_| Error::InvalidSecretKey)?;
            let pk = PublicKey::from_secret_key(&self.ctx, &sk);
            let h = self.hash_to_point(&pk, alpha)?;
            let gamma = h.mul_tweak(&self.ctx, &Scalar::from(sk)).map_err(|_| Error::HashToPoint)?;
            let k = self.nonce(&sk, &h.serialize());
            let u = PublicKey::from_secret_key(&self.ctx, &k);
            let v = h.mul_tweak(&self.ctx, &Scalar::from(k)).map_err(|_| Error::HashToPoint)?;
            let c = Self::challenge(&[&h, &gamma, &u, &v]);
            let cx = sk.mul_tweak(&Self::c_scalar(&c)).map_err(|_| Error::InvalidProof)?;
            let s = k.add_tweak(&Scalar::from(cx)).map_err(|_| Error::InvalidProof)?;
            let mut out = gamma.serialize().to_vec();
            out.extend_from_slice(&c);
            out.extend_from_slice(&s.secret_bytes());
            Ok(out)
        }
        fn verify(&mut self, y: &[u8], pi: &[u8], alpha: &[u8]) -> Result<Vec<u8>, Error> {
            let (gamma, c, s) = Self::decode(pi)?;
            let pk = PublicKey::from_slice(y).map_err(|_| Error::InvalidPublicKey)?;
            let h = self.hash_to_point(&pk, alpha)?;
            let s = scalar(s).ok_or(Error::InvalidProof)?;
            let cs = Self::c_scalar(&c);
            let e = |_| Error::InvalidProof;
            // U = s*B - c*Y, V = s*H - c*Gamma
            let u = PublicKey::from_secret_key(&self.ctx, &s)
                .combine(&pk.mul_tweak(&self.ctx, &cs).map_err(e)?.negate(&self.ctx))
                .map_err(e)?;
            let v = h
                .mul_tweak(&self.ctx, &Scalar::from(s))
                .map_err(e)?
                .combine(&gamma.mul_tweak(&self.ctx, &cs).map_err(e)?.negate(&self.ctx))
                .map_err(e)?;
            if Self::challenge(&[&h, &gamma, &u, &v]) == c {
                Ok(Self::gamma_to_hash(&gamma))
            } else {
                Err(Error::InvalidProof)
            }
        }
    }
}
