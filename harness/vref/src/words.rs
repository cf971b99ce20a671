//! BIP-39 reference.
use crate::hash::{pbkdf2_512, sha256};
pub fn list() -> Vec<&'static str> {
    include_str!("english.txt").lines().map(str::trim).filter(|l| !l.is_empty()).collect()
}
pub fn encode(entropy: &[u8]) -> String {
    let l = list();
    let cs = sha256(entropy)[0];
    let mut bits: Vec<u8> = vec![];
    for b in entropy {
        for i in (0..8).rev() {
            bits.push((b >> i) & 1);
        }
    }
    for i in 0..entropy.len() / 4 {
        bits.push((cs >> (7 - i)) & 1);
    }
    bits.chunks(11)
        .map(|c| l[c.iter().fold(0usize, |a, b| a * 2 + *b as usize)])
        .collect::<Vec<_>>()
        .join(" ")
}
/// Entropy of a phrase of single-space separated words, if valid.
pub fn decode(phrase: &str) -> Option<Vec<u8>> {
    let l = list();
    let words: Vec<&str> = phrase.split(' ').collect();
    if ![12, 15, 18, 21, 24].contains(&words.len()) {
        return None;
    }
    let mut bits: Vec<u8> = vec![];
    for w in &words {
        let i = l.iter().position(|x| x == w)?;
        for k in (0..11).rev() {
            bits.push(((i >> k) & 1) as u8);
        }
    }
    let cs = words.len() / 3;
    let eb = bits.len() - cs;
    let ent: Vec<u8> = bits[..eb].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a * 2 + b)).collect();
    let h = sha256(&ent)[0];
    for i in 0..cs {
        if bits[eb + i] != (h >> (7 - i)) & 1 {
            return None;
        }
    }
    Some(ent)
}
pub fn seed(phrase: &str, pass_nfkd: &str) -> [u8; 64] {
    pbkdf2_512(phrase.as_bytes(), format!("mnemonic{pass_nfkd}").as_bytes(), 2048)
}
