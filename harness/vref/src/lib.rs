//! Independent reference implementations, written from the standards.
pub mod aes;
pub mod bech32;
pub mod hash;
pub mod scalar;
pub mod words;

#[cfg(test)]
mod tests {
    fn hx(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hx(&super::hash::sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(&hx(&super::hash::sha512(b"abc"))[..32], "ddaf35a193617abacc417349ae204131");
        assert_eq!(hx(&super::hash::pbkdf2_256(b"password", b"salt", 2)), "ae4d0c95af6b46d32d0adff928f06dd02a303f8ef3c251dfd6e2d85a95474c43");
        // FIPS 197 C.3
        let key: Vec<u8> = (0..32).collect();
        let pt: Vec<u8> = (0..16).map(|i| i * 0x11).collect();
        assert_eq!(hx(&super::aes::Aes256::new(&key).encrypt_block(pt[..].try_into().unwrap())), "8ea2b7ca516745bfeafc49904b496089");
        let s = super::bech32::encode("a", &[]);
        assert_eq!(s, "a12uel5l");
        assert!(super::bech32::decode("abcdef1qpzry9x8gf2tvdw0s3jn54khce6mua7lmqqqxw").is_some());
    }
}
