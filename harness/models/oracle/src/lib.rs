//! Shared state of the idealised cryptographic primitives.
//!
//! The crates next to this one are the real crates.io sources with only their
//! number-theoretic core replaced (point arithmetic, RSA exponentiation, the
//! SHA-256 compression over symbolic data).  What replaces it is the standard
//! idealisation:
//!   * a hash is an injective function: equal inputs give equal digests,
//!     different inputs different digests;
//!   * a signature verifies if and only if the holder of the key signed exactly
//!     that message (perfect unforgeability, deterministic signing);
//!   * base58 is a bijection between byte strings and texts.
//! Everything that is concrete is computed by the real code.
#![allow(static_mut_refs)]

extern "C" {
    fn symx_mem_eq(a: *const u8, b: *const u8, n: usize) -> u8;
    fn symx_is_concrete(a: *const u8, n: usize) -> u8;
    fn symx_bits(name: *const u8, len: usize, bits: u32) -> u64;
}

pub fn concrete(b: &[u8]) -> bool {
    unsafe { symx_is_concrete(b.as_ptr(), b.len()) != 0 }
}

/// 0/1, symbolic if the contents are
pub fn eq(a: &[u8], b: &[u8]) -> u8 {
    if a.len() != b.len() {
        return 0;
    }
    if a.is_empty() {
        return 1;
    }
    unsafe { symx_mem_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}

pub fn choice(name: &str) -> bool {
    unsafe { symx_bits(name.as_ptr(), name.len(), 1) != 0 }
}

struct Tables {
    sha: Vec<(Vec<u8>, [u8; 32])>,
    sig: Vec<(u8, Vec<u8>, Vec<u8>, Vec<u8>)>,
    memo: Vec<(u8, Vec<u8>, Option<Vec<u8>>)>,
    b58: Vec<(Vec<u8>, Vec<u8>)>,
    ctr: u64,
}

static mut T: Tables = Tables {
    sha: Vec::new(),
    sig: Vec::new(),
    memo: Vec::new(),
    b58: Vec::new(),
    ctr: 0,
};

fn t() -> &'static mut Tables {
    unsafe { &mut T }
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

/// n bytes unlike any other
pub fn fresh(tag: u8, n: usize) -> Vec<u8> {
    let tb = t();
    tb.ctr += 1;
    let mut out = Vec::with_capacity(n + 8);
    let mut i = 0u64;
    while out.len() < n {
        let w = mix(mix(tb.ctr.wrapping_mul(0x1_0001) ^ ((tag as u64) << 56)) ^ i);
        out.extend_from_slice(&w.to_le_bytes());
        i += 1;
    }
    out.truncate(n);
    out
}

/// The SHA-256 of `input`; `real` computes it for concrete data.
pub fn sha256(input: &[u8], real: fn(&[u8]) -> [u8; 32]) -> [u8; 32] {
    let tb = t();
    for (i, o) in tb.sha.iter() {
        if i.len() == input.len() && eq(i, input) != 0 {
            return *o;
        }
    }
    let out = if concrete(input) {
        real(input)
    } else {
        let mut o = [0u8; 32];
        o.copy_from_slice(&fresh(1, 32));
        o
    };
    tb.sha.push((input.to_vec(), out));
    out
}

/// Result of an expensive pure function on concrete input, computed once.
pub fn memo(tag: u8, key: &[u8], real: &mut dyn FnMut() -> Option<Vec<u8>>) -> Option<Vec<u8>> {
    if let Some(r) = memo_get(tag, key) {
        return r;
    }
    let r = real();
    memo_put(tag, key, r.clone());
    r
}

/// Looks for an earlier result for an equal key (may branch on symbolic keys).
pub fn memo_get(tag: u8, key: &[u8]) -> Option<Option<Vec<u8>>> {
    for (g, k, v) in t().memo.iter() {
        if *g == tag && k.len() == key.len() && eq(k, key) != 0 {
            return Some(v.clone());
        }
    }
    None
}

pub fn memo_put(tag: u8, key: &[u8], val: Option<Vec<u8>>) {
    t().memo.push((tag, key.to_vec(), val));
}

/// Deterministic signature of `msg` under the key whose public part is `pk`.
pub fn sign(alg: u8, pk: &[u8], msg: &[u8], len: usize) -> Vec<u8> {
    let tb = t();
    for (a, p, m, s) in tb.sig.iter() {
        if *a == alg && p.len() == pk.len() && m.len() == msg.len() && (eq(p, pk) & eq(m, msg)) != 0
        {
            return s.clone();
        }
    }
    let s = fresh(16 + alg, len);
    tb.sig.push((alg, pk.to_vec(), msg.to_vec(), s.clone()));
    s
}

/// Lets the caller normalise the signature bytes just produced.
pub fn resign(alg: u8, pk: &[u8], msg: &[u8], fix: fn(&mut [u8]), len: usize) -> Vec<u8> {
    let tb = t();
    let n = tb.sig.len();
    let s = sign(alg, pk, msg, len);
    if tb.sig.len() > n {
        let e = tb.sig.last_mut().unwrap();
        fix(&mut e.3);
        return e.3.clone();
    }
    s
}

pub fn verify(alg: u8, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let mut ok = 0u8;
    for (a, p, m, s) in t().sig.iter() {
        if *a == alg && p.len() == pk.len() && m.len() == msg.len() && s.len() == sig.len() {
            ok |= eq(p, pk) & eq(m, msg) & eq(s, sig);
        }
    }
    ok != 0
}

const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

/// Text for symbolic bytes.
pub fn b58_encode(bytes: &[u8], room: usize) -> Vec<u8> {
    let tb = t();
    for (b, s) in tb.b58.iter() {
        if b.len() == bytes.len() && eq(b, bytes) != 0 {
            return s.clone();
        }
    }
    // same length as a typical real encoding
    let n = bytes.len() * 138 / 100 + 1;
    let n = if n < 12 { 12 } else { n };
    let n = if n > room { room } else { n };
    let s: Vec<u8> = fresh(2, n)
        .iter()
        .map(|b| B58[(*b % 57) as usize + 1])
        .collect();
    tb.b58.push((bytes.to_vec(), s.clone()));
    s
}

/// Remembers a really computed encoding, so that symbolic bytes that equal it
/// get the same text.
pub fn b58_seen(bytes: &[u8], text: &[u8]) {
    let tb = t();
    for (b, _) in tb.b58.iter() {
        if b.len() == bytes.len() && concrete(b) && eq(b, bytes) != 0 {
            return;
        }
    }
    tb.b58.push((bytes.to_vec(), text.to_vec()));
}

/// The bytes behind a text made by `b58_encode`.
pub fn b58_decode(text: &[u8]) -> Option<Vec<u8>> {
    if !concrete(text) {
        return None;
    }
    for (b, s) in t().b58.iter() {
        if s.len() == text.len() && eq(s, text) != 0 {
            return Some(b.clone());
        }
    }
    None
}
