//! fluence-keypair: signatures, encodings, decoders, peer ids.
use crate::{pool, rt::*};
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use std::convert::TryFrom;
use std::str::FromStr;

fn sign_verify(keys: &[KeyPair], lens: &[usize]) {
    let pks = pool::publics(keys);
    let n = keys.len() as u64;
    let signer = choose("signer", n) as usize;
    let verifier = choose("verifier", n) as usize;
    let l1 = lens[choose("len", lens.len() as u64) as usize];
    let l2 = lens[choose("len", lens.len() as u64) as usize];
    let m1 = bytes("m1", l1);
    let m2 = bytes("m2", l2);
    let sig = match keys[signer].sign(&m1) {
        Ok(s) => s,
        Err(_) => {
            fail("signing succeeds");
            return;
        }
    };
    let ok = pks[verifier].verify(&m2, &sig).is_ok();
    let same = KeyPair::verify(&pks[verifier], &m2, &sig).is_ok();
    check(ok == same, "KeyPair::verify agrees with PublicKey::verify");
    check(
        ok == (signer == verifier && m1 == m2),
        "a signature verifies exactly under the signing key and for the signed message",
    );
    obs_bool("ok", ok);
    reach(if ok { "accepted" } else { "rejected" });
}

/// every key type, every pair of keys, messages of 0..3 arbitrary bytes
#[no_mangle]
pub extern "C" fn h_sig_genuine() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::secp(1), pool::rsa(0), pool::rsa(1)];
    sign_verify(&keys, &[0, 1, 3]);
}

/// longer messages (more than one hash block)
#[no_mangle]
pub extern "C" fn h_sig_genuine_long() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::secp(1), pool::rsa(0)];
    sign_verify(&keys, &[32, 33, 65]);
}

/// signature bytes changed arbitrarily at one or two places, cut or extended
#[no_mangle]
pub extern "C" fn h_sig_tampered() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let k = choose("key", 3) as usize;
    let msg = bytes("msg", 3);
    let sig = keys[k].sign(&msg).unwrap();
    let pk = keys[k].public();
    let good = sig.to_vec().to_vec();
    let mut raw = good.clone();
    let how = choose("how", 4);
    match how {
        0 => {
            // one byte, any position (step 8 for the long RSA signature)
            let step = if k == 2 { 8 } else { 1 };
            let n = (raw.len() + step - 1) / step;
            let p = choose("pos", n as u64) as usize * step;
            // as a difference, so that it means the same for every signature
            raw[p] ^= byte("new");
        }
        1 => {
            // the last two bytes
            let n = raw.len();
            raw[n - 1] ^= byte("new");
            raw[n - 2] ^= byte("new");
        }
        2 => {
            let n = choose("cut", 5) as usize;
            let keep = raw.len() - n;
            raw.truncate(keep);
            if n == 4 {
                raw.clear();
            }
        }
        _ => {
            let n = 1 + choose("extra", 2) as usize;
            for _ in 0..n {
                raw.push(byte("new"));
            }
        }
    }
    let same = raw == good;
    let ok = pk.verify(&msg, &Signature::from_bytes(keys[k].key_format(), raw)).is_ok();
    check(ok == same, "a changed signature is rejected");
    obs_bool("ok", ok);
}

/// arbitrary signature bytes, nothing signed by this key for this message
#[no_mangle]
pub extern "C" fn h_sig_forged() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let other = pool::ed(1);
    let k = choose("key", 3) as usize;
    let msg = bytes("msg", 2);
    let fake = bytes("other", 2);
    assume(msg != fake);
    // material an attacker can have: signatures of other messages and keys
    let s1 = keys[k].sign(&fake).unwrap();
    let s2 = other.sign(&msg).unwrap();
    let raw = match choose("form", 5) {
        0 => {
            // a DER parser splits on every byte: keep those short
            let lens = if k == 1 { [0usize, 1, 2, 7, 8] } else { [0, 1, 63, 64, 65] };
            let n = lens[choose("len", 5) as usize];
            let mut v = bytes("sig", n);
            if n == 64 {
                // a scalar in range, so that the comparison itself is reached
                v[63] &= 0x0f;
            }
            v
        }
        1 => s1.to_vec().to_vec(),
        2 => s2.to_vec().to_vec(),
        3 => {
            // well-formed DER of two arbitrary short integers
            let (r, s) = (bytes("r", 2), bytes("s", 2));
            let mut v = vec![0x30, 8, 2, 2];
            v.extend(r);
            v.extend([2, 2]);
            v.extend(s);
            v
        }
        _ => vec![byte("fill"); if k == 2 { 256 } else { 70 }],
    };
    let pk = keys[k].public();
    let f = keys[choose("tag", 3) as usize].key_format();
    let ok = pk.verify(&msg, &Signature::from_bytes(f, raw)).is_ok();
    check(!ok, "no signature is accepted for a message the key never signed");
    obs_bool("ok", ok);
}

fn pk_eq(a: &PublicKey, b: &PublicKey) -> bool {
    a == b
}

/// decode(b) = pk implies encode(pk) = b, and decode(encode(pk)) = pk
#[no_mangle]
pub extern "C" fn h_pk_codec() {
    // sizes around the two fixed ones, and short ones (RSA keys are any bytes)
    let lens = [1usize, 2, 9, 32, 33, 34, 35];
    let n = lens[choose("len", lens.len() as u64) as usize];
    let b = bytes("pk", n);
    match PublicKey::decode(&b) {
        Ok(pk) => {
            let e = pk.encode();
            check(e == b, "encoding a decoded public key gives the same bytes");
            check(pk.to_vec() == b[1..].to_vec(), "to_vec is the encoding without the type byte");
            let f = pk.get_key_format();
            check(u8::from(f) == b[0], "the type byte names the key format");
            let s = bs58::encode(&e).into_string();
            match PublicKey::from_base58(&s) {
                Ok(q) => check(pk_eq(&q, &pk), "base58 text of a key decodes to the key"),
                Err(_) => fail("base58 text of a key decodes"),
            }
            obs("key", &e);
            reach("decoded");
        }
        Err(_) => {
            check(
                b[0] > 2 || (b[0] == 0) | (b[0] == 2),
                "an RSA key of any content decodes",
            );
            // right type and length: only an invalid point may be refused
            reach("refused");
            obs("refused", &[1]);
        }
    }
}

/// generated keys of every type
#[no_mangle]
pub extern "C" fn h_pk_codec_real() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::secp(1), pool::rsa(0), pool::rsa(1)];
    let i = choose("i", 6) as usize;
    let j = choose("j", 6) as usize;
    let (p, q) = (keys[i].public(), keys[j].public());
    let e = p.encode();
    match PublicKey::decode(&e) {
        Ok(d) => {
            check(d == p, "decode inverts encode");
            check((d == q) == (i == j), "different keys stay different");
        }
        Err(_) => fail("decode inverts encode"),
    }
    let s = bs58::encode(&e).into_string();
    match PublicKey::from_base58(&s) {
        Ok(d) => check(d == p, "from_base58 inverts base58 of encode"),
        Err(_) => fail("from_base58 inverts base58 of encode"),
    }
    check((e == q.encode()) == (i == j), "encodings differ for different keys");
    check(p.get_key_format() == keys[i].key_format(), "formats agree");
    obs("e", &e);
}

/// signatures of every type with arbitrary bytes
#[no_mangle]
pub extern "C" fn h_sig_codec() {
    let lens = [0usize, 1, 2, 64, 72];
    let n = lens[choose("len", lens.len() as u64) as usize];
    let raw = bytes("raw", n);
    let f = [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1][choose("fmt", 3) as usize];
    let s = Signature::from_bytes(f, raw.clone());
    check(s.to_vec() == &raw[..], "from_bytes keeps the bytes");
    check(s.get_signature_type() == f, "from_bytes keeps the type");
    let r = s.get_raw_signature();
    check(r.bytes == raw && r.sig_type == f, "the raw signature has the same bytes and type");
    let e = s.encode();
    check(e.len() == n + 1 && e[0] == u8::from(f), "one type byte, then the signature");
    match Signature::decode(e.clone()) {
        Ok(d) => {
            check(d == s, "decode inverts encode");
            check(d.get_signature_type() == f, "the type survives");
        }
        Err(_) => fail("decode inverts encode"),
    }
    obs("e", &e);
}

/// arbitrary bytes as signature: decoded and encoded again they are the same
#[no_mangle]
pub extern "C" fn h_sig_decode_any() {
    let n = choose("len", 5) as usize;
    let b = bytes("b", n);
    match Signature::decode(b.clone()) {
        Ok(s) => {
            check(s.encode() == b, "encoding a decoded signature gives the same bytes");
            obs_bool("ok", true);
        }
        Err(_) => {
            check(n == 0 || b[0] > 2, "only an unknown type byte is refused");
            obs_bool("ok", false);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_key_format() {
    let v = byte("v");
    match KeyFormat::try_from(v) {
        Ok(f) => {
            check(u8::from(f) == v, "type byte survives");
            let s: String = f.into();
            match KeyFormat::from_str(&s) {
                Ok(g) => check(g == f, "format name survives"),
                Err(_) => fail("format name survives"),
            }
            obs("name", s.as_bytes());
        }
        Err(_) => {
            check(v > 2, "known type bytes are accepted");
            obs("none", &[]);
        }
    }
}

/// key pairs from arbitrary secrets: to_vec / from_vec / secret
#[no_mangle]
pub extern "C" fn h_keypair_codec() {
    let known = [pool::ed(0), pool::secp(0)];
    let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1][choose("fmt", 2) as usize];
    let lens = [0usize, 31, 32, 33];
    let n = lens[choose("len", 4) as usize];
    let sk = bytes("sk", n);
    match KeyPair::from_secret_key(sk.clone(), f) {
        Ok(kp) => {
            check(n == 32, "a secret key has 32 bytes");
            check(kp.key_format() == f, "format");
            check(kp.public().get_key_format() == f, "format of the public key");
            match kp.secret() {
                Ok(s) => check(s == sk, "secret returns the bytes it was made from"),
                Err(_) => fail("secret is available"),
            }
            let v = kp.to_vec();
            match KeyPair::from_vec(v, f) {
                Ok(k2) => {
                    check(k2.public() == kp.public(), "public key survives to_vec/from_vec");
                    check(k2.secret().unwrap() == sk, "secret survives to_vec/from_vec");
                    let m = bytes("m", 1);
                    let s = k2.sign(&m).unwrap();
                    check(kp.public().verify(&m, &s).is_ok(), "the copy signs for the original");
                }
                Err(_) => fail("from_vec inverts to_vec"),
            }
            // a different key keeps verifying nothing of this one
            let m = bytes("m", 1);
            let s = kp.sign(&m).unwrap();
            for k in known.iter() {
                if k.secret().unwrap() != sk {
                    check(k.public().verify(&m, &s).is_err(), "keys of other secrets refuse");
                }
            }
            obs("v", &kp.secret().unwrap());
        }
        Err(_) => {
            check(
                n != 32 || f == KeyFormat::Secp256k1,
                "32 bytes are an ed25519 secret key",
            );
            obs("err", &[]);
        }
    }
    check(
        KeyPair::from_vec(vec![0; 4], KeyFormat::Rsa).is_err()
            && KeyPair::from_secret_key(vec![0; 4], KeyFormat::Rsa).is_err(),
        "RSA pairs are refused",
    );
}

/// 64 bytes as ed25519 key pair: accepted only if the halves belong together
#[no_mangle]
pub extern "C" fn h_keypair_mismatch() {
    let a = pool::ed(0);
    let b = pool::ed(1);
    let (x, y) = (choose_bool("x"), choose_bool("y"));
    let (va, vb) = (a.to_vec(), b.to_vec());
    let mut v = if x { va[..32].to_vec() } else { vb[..32].to_vec() };
    v.extend(if y { &va[32..] } else { &vb[32..] });
    let p = choose("pos", 4) as usize;
    let i = 32 + p * 9;
    let old = v[i];
    v[i] = byte("new");
    let same = v[i] == old;
    match KeyPair::from_vec(v, KeyFormat::Ed25519) {
        Ok(k) => {
            check(x == y && same, "halves that do not belong together are refused");
            check(k.public() == if x { a.public() } else { b.public() }, "the right key");
            obs_bool("ok", true);
        }
        Err(_) => {
            check(!(x == y && same), "a genuine pair is accepted");
            obs_bool("ok", false);
        }
    }
}

/// decoders on arbitrary bytes: any result, never a panic
#[no_mangle]
pub extern "C" fn h_decode_total() {
    match choose("what", 6) {
        0 => {
            let n = choose("len", 36) as usize;
            let b = bytes("b", n);
            obs_bool("pk", PublicKey::decode(&b).is_ok());
        }
        1 => {
            let n = choose("len", 6) as usize;
            let b = bytes("b", n);
            let ok = match String::from_utf8(b) {
                Ok(s) => PublicKey::from_base58(&s).is_ok(),
                Err(_) => false,
            };
            obs_bool("b58", ok);
        }
        2 => {
            let lens = [0usize, 1, 32, 63, 64, 65];
            let n = lens[choose("len", 6) as usize];
            let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1, KeyFormat::Rsa]
                [choose("fmt", 3) as usize];
            let mut b = bytes("b", n);
            if n == 64 {
                b[33] = 3; // keeps the decision about the point small
            }
            let _ = KeyPair::from_vec(b, f);
            obs("kp", &[]);
        }
        3 => {
            let n = choose("len", 10) as usize;
            let mut b = bytes("b", n);
            let ok = KeyPair::secp256k1_from_der(&mut b).is_ok();
            check(!ok, "no secp256k1 key fits in nine bytes");
            obs("der", &[]);
        }
        4 => {
            let n = choose("len", 8) as usize;
            let mut b = bytes("b", n);
            let ok = KeyPair::rsa_from_pkcs8(&mut b).is_ok();
            check(!ok, "no RSA key fits in seven bytes");
            obs("pkcs8", &[]);
        }
        _ => {
            let n = choose("len", 10) as usize;
            // an RSA key is not validated when decoded; its peer id must exist
            let mut b = vec![1u8];
            b.extend(bytes("b", n));
            let pk = PublicKey::decode(&b).unwrap();
            obs("x509", &pk.to_peer_id().to_bytes()[..2]);
        }
    }
}

/// ECPrivateKey DER with an arbitrary 32-byte key
#[no_mangle]
pub extern "C" fn h_secp_der() {
    let sk = bytes("sk", 32);
    let mut der = vec![0x30, 3 + 34, 2, 1, 1, 4, 32];
    der.extend(&sk);
    match KeyPair::secp256k1_from_der(&mut der) {
        Ok(kp) => {
            check(kp.secret().unwrap() == sk, "the key in the container is the key");
            obs_bool("ok", true);
        }
        Err(_) => {
            check(
                KeyPair::from_secret_key(sk, KeyFormat::Secp256k1).is_err(),
                "a container is refused only if the key is",
            );
            obs_bool("ok", false);
        }
    }
}

/// public key -> peer id -> public key, and through libp2p's key types
#[no_mangle]
pub extern "C" fn h_peer_id() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::secp(1), pool::rsa(0), pool::rsa(1)];
    let i = choose("i", 6) as usize;
    let j = choose("j", 6) as usize;
    let (p, q) = (keys[i].public(), keys[j].public());
    let id = p.to_peer_id();
    check(id == keys[i].get_peer_id(), "a key pair has the peer id of its public key");
    check((id == q.to_peer_id()) == (i == j), "different keys have different peer ids");
    match PublicKey::try_from(id) {
        Ok(r) => {
            check(i < 4, "an RSA key is not inlined in a peer id");
            check(r == p, "the peer id gives back the key");
        }
        Err(_) => check(i >= 4, "an inlined key can be extracted"),
    }
    let lp: libp2p_identity::PublicKey = p.clone().into();
    let back: PublicKey = lp.into();
    check(back == p, "conversion to libp2p and back gives the same public key");
    obs("id", &id.to_bytes());
}

#[no_mangle]
pub extern "C" fn h_libp2p_keypair() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let i = choose("i", 3) as usize;
    let kp = keys[i].clone();
    let lp: libp2p_identity::Keypair = kp.clone().into();
    let id = libp2p_identity::PeerId::from_public_key(&lp.public());
    check(id == kp.get_peer_id(), "same peer id on both sides");
    let back: KeyPair = lp.into();
    check(back.public() == kp.public(), "public key survives");
    if i < 2 {
        check(back.secret().unwrap() == kp.secret().unwrap(), "secret survives");
    }
    let m = bytes("m", 2);
    let s = back.sign(&m).unwrap();
    check(kp.public().verify(&m, &s).is_ok(), "the converted key signs for the original");
    obs("id", &id.to_bytes());
}

/// secrets are erased from the buffer they are imported from, and not printed
#[no_mangle]
pub extern "C" fn h_secret_erased() {
    if choose_bool("rsa") {
        let mut der = if choose_bool("big") {
            include_bytes!("../data/rsa-3072.pk8").to_vec()
        } else {
            include_bytes!("../data/rsa-2048.pk8").to_vec()
        };
        check(KeyPair::rsa_from_pkcs8(&mut der).is_ok(), "a key can be imported");
        check(der.iter().all(|b| *b == 0), "an imported key is erased from its buffer");
    } else {
        let sk = bytes("sk", 32);
        let mut der = vec![0x30, 3 + 34, 2, 1, 1, 4, 32];
        der.extend(&sk);
        if KeyPair::secp256k1_from_der(&mut der).is_ok() {
            let mut x = 0;
            for b in &der {
                x |= *b;
            }
            check(x == 0, "an imported key is erased from its buffer");
            reach("imported");
        }
    }
    obs_u64("done", 1);
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

#[no_mangle]
pub extern "C" fn h_secret_debug() {
    // a secret key prints the same whatever it is
    let f = [KeyFormat::Ed25519, KeyFormat::Secp256k1][choose("fmt", 2) as usize];
    let text = |k: &KeyPair| match k {
        KeyPair::Ed25519(k) => (format!("{:?}", k.secret()), format!("{k:?}")),
        KeyPair::Secp256k1(k) => (format!("{:?}", k.secret()), format!("{k:?}")),
        _ => Default::default(),
    };
    let known = match f {
        KeyFormat::Ed25519 => pool::ed(0),
        _ => pool::secp(0),
    };
    let (s, all) = text(&known);
    let sk = known.secret().unwrap();
    for t in [hex(&sk), bs58::encode(&sk).into_string(), format!("{sk:?}"), format!("{:?}", &sk[..4])] {
        let t = t.trim_matches(|c| c == '[' || c == ']').to_lowercase();
        check(!all.to_lowercase().contains(&t), "a key pair prints without its secret");
    }
    let b = bytes("sk", 32);
    if let Ok(k) = KeyPair::from_secret_key(b, f) {
        let t = match &k {
            KeyPair::Ed25519(k) => format!("{:?}", k.secret()),
            KeyPair::Secp256k1(k) => format!("{:?}", k.secret()),
            _ => Default::default(),
        };
        check(t == s, "a secret key prints the same whatever it is");
        reach("printed");
    }
    obs_u64("done", 1);
}

/// secp256k1 signatures of digests made elsewhere
#[no_mangle]
pub extern "C" fn h_sig_hashed() {
    let (a, b) = (choose("signer", 2) as usize, choose("verifier", 2) as usize);
    let (ka, kb) = (pool::secp(a), pool::secp(b));
    let lens = [0usize, 31, 32, 33];
    let m = bytes("m", lens[choose("mlen", 4) as usize]);
    let n = bytes("n", lens[choose("nlen", 4) as usize]);
    // digests count modulo the order of the group, 2^256 - 2^128.4
    assume(m.first() != Some(&0xff) && n.first() != Some(&0xff));
    if let (KeyPair::Secp256k1(ka), KeyPair::Secp256k1(kb)) = (&ka, &kb) {
        match ka.secret().sign_hashed(&m) {
            Ok(s) => {
                check(m.len() == 32, "a digest has 32 bytes");
                let ok = kb.public().verify_hashed(&n, &s).is_ok();
                check(ok == ((a == b) & (m == n)), "a signature of a digest verifies exactly for it");
                reach(if ok { "accepted" } else { "rejected" });
            }
            Err(_) => check(m.len() != 32, "every digest can be signed"),
        }
    }
    obs_u64("done", 1);
}

/// arbitrary keys inlined in peer ids
#[no_mangle]
pub extern "C" fn h_peer_id_any() {
    let t = choose("type", 5) as u8; // RSA, ed25519, secp256k1, ECDSA, unknown
    let lens = if t == 0 || t > 2 { [0usize, 1, 2, 3, 4] } else { [0, 1, 2, 32, 33] };
    let n = lens[choose("len", 5) as usize];
    let key = if t == 1 && n == 32 {
        // libp2p decides with the real curve arithmetic
        match choose("which", 4) {
            0 => pool::ed(0).public().to_vec(),
            1 => vec![2; 32],
            2 => vec![0xff; 32],
            _ => vec![0; 32],
        }
    } else if n == 33 && t == 1 {
        vec![7; 33]
    } else if n == 32 && t == 2 {
        vec![2; 32]
    } else {
        bytes("key", n)
    };
    let mut b = vec![0u8, 4 + n as u8, 8, t, 0x12, n as u8];
    b.extend(&key);
    if let Ok(id) = libp2p_identity::PeerId::from_bytes(&b) {
        match PublicKey::try_from(id) {
            Ok(k) => {
                check(k.to_vec() == key || t == 0, "the key is the one in the peer id");
                check(k.to_peer_id() == id, "the key has the peer id it came from");
                check(t < 3, "only known kinds of keys are found");
                reach("key");
            }
            Err(_) => reach("refused"),
        }
    }
    obs_u64("done", 1);
}

/// RSA keys of any size keep their bytes through libp2p's types
#[no_mangle]
pub extern "C" fn h_rsa_any() {
    let lens = [0usize, 1, 9, 103, 104, 105, 106, 107, 108, 109, 110, 126, 127, 128, 231, 232, 233, 234, 235, 236, 237, 238, 254, 255, 256, 257, 270, 526];
    let n = lens[choose("len", 28) as usize];
    let mut b = vec![1u8];
    b.extend(bytes("b", n));
    match PublicKey::decode(&b) {
        Ok(k) => {
            let l: libp2p_identity::PublicKey = k.clone().into();
            let back: PublicKey = l.into();
            check(back == k, "an RSA key survives libp2p's form");
            check(back.encode() == b, "an RSA key keeps its bytes");
        }
        Err(_) => fail("an RSA key can be decoded"),
    }
    obs_u64("done", 1);
}
