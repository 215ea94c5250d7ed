//! Serialised forms (serde) and the hashable wrapper of public keys.
use crate::{pool, rt::*};
use fluence_keypair::{KeyFormat, PublicKey, Signature};
use libp2p_identity::PeerId;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::time::Duration;
use trust_graph::{Auth, Certificate, PublicKeyHashable as PK, Revocation, Trust, TrustRelation};

/// through one of three formats and back
fn trip<T: Serialize + DeserializeOwned>(fmt: u64, x: &T) -> Option<T> {
    match fmt {
        0 => bincode::deserialize(&bincode::serialize(x).ok()?).ok(),
        1 => serde_json::from_slice(&serde_json::to_vec(x).ok()?).ok(),
        _ => rmp_serde::from_slice(&rmp_serde::to_vec(x).ok()?).ok(),
    }
}

/// arbitrary bytes; fewer where every value of a byte has its own length
fn sig_bytes(fmt: u64) -> Vec<u8> {
    if fmt == 0 {
        let n = [0usize, 1, 64, 72, 256][choose("len", 5) as usize];
        bytes("sig", n)
    } else {
        let n = choose("len", 3) as usize;
        bytes("sig", n)
    }
}
fn sig(fmt: u64) -> Signature {
    let t = [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1][choose("type", 3) as usize];
    Signature::from_bytes(t, sig_bytes(fmt))
}
fn time(fmt: u64, name: &str) -> Duration {
    match fmt {
        // decimal digits
        1 => Duration::from_secs(
            [0u64, 7, u32::MAX as u64 + 1, u64::MAX][choose(name, 4) as usize],
        ),
        0 => {
            let n = bits(&format!("{name}_nanos"), 30) as u32;
            assume(n < 1_000_000_000);
            Duration::new(word(name), n)
        }
        _ => Duration::from_secs(word(name)),
    }
}
fn keys() -> Vec<PublicKey> {
    pool::publics(&[pool::ed(0), pool::secp(0), pool::rsa(0)])
}
fn key(name: &str) -> PublicKey {
    keys()[choose(name, 3) as usize].clone()
}

#[no_mangle]
pub extern "C" fn h_serde_key() {
    let fmt = choose("format", 3);
    if choose_bool("what") {
        let s = sig(fmt);
        match trip(fmt, &s) {
            Some(x) => check(x == s, "a signature survives serialisation"),
            None => fail("a serialised signature can be read"),
        }
    } else {
        let k = key("key");
        match trip(fmt, &k) {
            Some(x) => check(x == k, "a public key survives serialisation"),
            None => fail("a serialised public key can be read"),
        }
        for o in keys() {
            let same = bincode::serialize(&o).unwrap() == bincode::serialize(&k).unwrap();
            check(same == (o == k), "different keys have different serialised forms");
        }
    }
    obs_u64("fmt", fmt);
}

fn one_trust(fmt: u64) -> Trust {
    Trust::new(key("for"), time(fmt, "exp"), time(fmt, "iss"), sig(fmt))
}

#[no_mangle]
pub extern "C" fn h_serde_trust() {
    let fmt = choose("format", 3);
    let t = one_trust(fmt);
    match trip(fmt, &t) {
        Some(x) => check(x == t, "a trust survives serialisation"),
        None => fail("a serialised trust can be read"),
    }
    obs_u64("fmt", fmt);
}

#[no_mangle]
pub extern "C" fn h_serde_relation() {
    let fmt = choose("format", 3);
    let by = key("by");
    if choose_bool("kind") {
        let t = Trust::new(keys()[0].clone(), time(fmt, "exp"), time(fmt, "iss"), sig(fmt));
        let r = TrustRelation::Auth(Auth { trust: t.clone(), issued_by: by.clone() });
        match trip(fmt, &r) {
            Some(TrustRelation::Auth(a)) => {
                check((a.trust == t) & (a.issued_by == by), "an authorization survives serialisation")
            }
            _ => fail("a serialised authorization can be read"),
        }
    } else {
        let r = Revocation::new(by.clone(), key("for"), time(fmt, "at"), sig(fmt));
        let same = |x: &Revocation| {
            (x.pk == r.pk)
                & (x.revoked_by == r.revoked_by)
                & (x.revoked_at == r.revoked_at)
                & (x.signature == r.signature)
        };
        match trip(fmt, &TrustRelation::Revocation(r.clone())) {
            Some(TrustRelation::Revocation(x)) => check(same(&x), "a revocation survives serialisation"),
            _ => fail("a serialised revocation can be read"),
        }
    }
    obs_u64("fmt", fmt);
}

#[derive(Serialize, Deserialize)]
struct Certs {
    #[serde(with = "trust_graph::certificate_serde::vec")]
    v: Vec<Certificate>,
}

/// lists of certificates
#[no_mangle]
pub extern "C" fn h_serde_certs() {
    let fmt = choose("format", 3);
    let n = choose("n", 3) as usize;
    let mut v = vec![];
    for _ in 0..n {
        let m = choose("m", 3) as usize;
        let mut c = vec![];
        for k in 0..m {
            let s = bytes("sig", k);
            let e = [0u64, 7, u64::MAX][choose("exp", 3) as usize];
            c.push(Trust::new(
                keys()[k % 2].clone(),
                Duration::from_secs(e),
                Duration::from_secs(3),
                Signature::from_bytes(KeyFormat::Ed25519, s),
            ));
        }
        v.push(Certificate::new_unverified(c));
    }
    let c = Certs { v };
    match trip(fmt, &c) {
        Some(x) => {
            check(x.v.len() == c.v.len(), "a list of certificates keeps its length");
            for (a, b) in x.v.iter().zip(c.v.iter()) {
                check(a == b, "a certificate survives serialisation");
            }
        }
        None => fail("a serialised list of certificates can be read"),
    }
    obs_u64("n", n as u64);
}

#[derive(Serialize, Deserialize)]
struct Peer {
    #[serde(with = "fluence_keypair::peerid_serializer")]
    p: PeerId,
}

#[no_mangle]
pub extern "C" fn h_serde_peer() {
    let fmt = choose("format", 3);
    let p = key("key").to_peer_id();
    match trip(fmt, &Peer { p }) {
        Some(x) => check(x.p == p, "a peer id survives serialisation"),
        None => fail("a serialised peer id can be read"),
    }
    obs_u64("fmt", fmt);
}

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// the hashable wrapper is the key: equality, hash, text, views, as a map key
#[no_mangle]
pub extern "C" fn h_hashable() {
    let all = pool::publics(&[
        pool::ed(0),
        pool::ed(1),
        pool::secp(0),
        pool::secp(1),
        pool::rsa(0),
        pool::rsa(1),
    ]);
    let (a, b) = (choose("a", 6) as usize, choose("b", 6) as usize);
    let (x, y): (PK, PK) = (all[a].clone().into(), all[b].clone().into());
    check((x == y) == (a == b), "wrappers are equal exactly if their keys are");
    check(a != b || hash(&x) == hash(&y), "equal wrappers have equal hashes");
    let r: &PK = all[a].as_ref();
    check(*r == x && hash(r) == hash(&x), "a view of a key is its wrapper");
    let back: &PublicKey = x.as_ref();
    check(*back == all[a], "a wrapper gives back its key");
    check(PublicKey::from(x.clone()) == all[a], "a wrapper gives back its key");
    check((x.to_string() == y.to_string()) == (a == b), "different keys have different texts");
    match PK::from_str(&x.to_string()) {
        Ok(z) => check(z == x, "the text of a key reads as that key"),
        Err(_) => fail("the text of a key reads as that key"),
    }
    let mut m: HashMap<PK, u64> = HashMap::new();
    m.insert(x, 1);
    m.insert(y, 2);
    check(m.len() == if a == b { 1 } else { 2 }, "a map has one entry per key");
    check(m.get(all[a].as_ref()) == Some(&(if a == b { 2 } else { 1 })), "a map finds a key's entry");
    obs_u64("a", a as u64);
}

/// the hash of lists and of arbitrary ed25519 keys
#[no_mangle]
pub extern "C" fn h_hashable_any() {
    let dec = |n: &str| -> Option<PublicKey> {
        let mut v = vec![0u8];
        v.extend(bytes(n, 32));
        PublicKey::decode(&v).ok()
    };
    if let (Some(a), Some(b)) = (dec("a"), dec("b")) {
        let (x, y): (PK, PK) = (a.clone().into(), b.clone().into());
        check((x == y) == (a.encode() == b.encode()), "wrappers are equal exactly if their keys are");
        if a.encode() == b.encode() {
            check(hash(&x) == hash(&y), "equal wrappers have equal hashes");
            reach("equal");
        }
    }
    obs_u64("x", 0);
}

#[no_mangle]
pub extern "C" fn h_serde_hashable() {
    let fmt = choose("format", 3);
    let k: PK = key("key").into();
    match trip(fmt, &k) {
        Some(x) => check(x == k, "a wrapped key survives serialisation"),
        None => fail("a serialised wrapped key can be read"),
    }
    obs_u64("fmt", fmt);
}

/// reading arbitrary serialised bytes never panics, and what is read is sound
#[no_mangle]
pub extern "C" fn h_serde_total() {
    serde_total(choose("what", 6))
}

fn serde_total(what: u64) {
    let n;
    match what {
        0 => {
            n = [0usize, 1, 2, 31, 32, 33][choose("len", 6) as usize];
            let mut t = vec![choose("variant", 4) as u8, 0, 0, 0];
            if n > 7 || choose_bool("prefix") {
                let l = [n as u64, n as u64 + 1, 0, u64::MAX][choose("said", 4) as usize];
                t.extend(l.to_le_bytes());
            }
            t.extend(bytes("b", n));
            let _ = bincode::deserialize::<PublicKey>(&t);
        }
        1 => {
            n = [0usize, 1, 2, 31, 32, 33][choose("len", 6) as usize];
            let mut t = vec![choose("variant", 4) as u8, 0, 0, 0];
            if n > 7 || choose_bool("prefix") {
                let l = [n as u64, n as u64 + 1, 0, u64::MAX][choose("said", 4) as usize];
                t.extend(l.to_le_bytes());
            }
            t.extend(bytes("b", n));
            let _ = bincode::deserialize::<Signature>(&t);
        }
        2 => {
            n = [0usize, 7, 8, 9, 10, 11][choose("len", 6) as usize];
            let _ = bincode::deserialize::<PK>(&bytes("b", n));
        }
        3 => {
            n = choose("len", 3) as usize;
            let _ = rmp_serde::from_slice::<PK>(&bytes("b", n));
        }
        4 => {
            n = choose("len", 3) as usize;
            let mut t = b"\"".to_vec();
            let b = bytes("b", n);
            for x in &b {
                assume(*x < 128 && *x >= 32 && *x != b'"' && *x != b'\\');
            }
            t.extend(b);
            t.push(b'"');
            let _ = serde_json::from_slice::<PK>(&t);
        }
        _ => {
            n = choose("len", 3) as usize;
            let b = bytes("b", n);
            let mut t = vec![n as u8, 0, 0, 0, 0, 0, 0, 0];
            t.extend(b);
            let _ = bincode::deserialize::<Peer>(&t);
            t.insert(0, 1);
            t.splice(1..1, [0u8; 7]);
            let _ = bincode::deserialize::<Certs>(&t);
        }
    }
    obs_u64("n", n as u64);
}
