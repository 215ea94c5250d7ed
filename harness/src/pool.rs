//! Fixed keys.  The executor derives them once, with the real code.
#![allow(dead_code)]
use fluence_keypair::{KeyFormat, KeyPair, PublicKey};

pub const ED: usize = 5;

pub fn ed(i: usize) -> KeyPair {
    let mut s = [0u8; 32];
    for (j, b) in s.iter_mut().enumerate() {
        *b = (17 + i * 31 + j * 7) as u8;
    }
    KeyPair::from_secret_key(s.to_vec(), KeyFormat::Ed25519).unwrap()
}

pub fn secp(i: usize) -> KeyPair {
    let mut s = [0u8; 32];
    for (j, b) in s.iter_mut().enumerate() {
        *b = (5 + i * 29 + j * 3) as u8;
    }
    KeyPair::from_secret_key(s.to_vec(), KeyFormat::Secp256k1).unwrap()
}

pub fn rsa(i: usize) -> KeyPair {
    let mut der = match i {
        0 => include_bytes!("../data/rsa-2048.pk8").to_vec(),
        _ => include_bytes!("../data/rsa-3072.pk8").to_vec(),
    };
    KeyPair::rsa_from_pkcs8(&mut der).unwrap()
}

pub fn eds(n: usize) -> Vec<KeyPair> {
    (0..n).map(ed).collect()
}

pub fn publics(k: &[KeyPair]) -> Vec<PublicKey> {
    k.iter().map(|k| k.public()).collect()
}
