use crate::{pool, rt::*};
use fluence_keypair::{KeyPair, PublicKey, Signature};
use std::time::Duration;
use trust_graph::{Revocation, Trust};

pub fn dur(name: &str) -> Duration {
    let s = word(name);
    // below 2^29, so that no carry into the seconds has to be considered
    let n = bits("nanos", 29);
    Duration::new(s, n as u32)
}

/// A trust verifies exactly when it is unexpired and its issuer signed exactly
/// these fields.
#[no_mangle]
pub extern "C" fn h_trust_verify() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::rsa(0)];
    let pks = pool::publics(&keys);
    let signer = choose("signer", 4) as usize;
    let claimed = choose("claimed", 4) as usize;
    let (f1, f2) = (choose("for", 3) as usize, choose("for", 3) as usize);
    let (e1, i1) = (dur("exp"), dur("iss"));
    let (e2, i2) = (dur("exp"), dur("iss"));
    let now = dur("now");
    let t1 = Trust::create(&keys[signer], pks[f1].clone(), e1, i1);
    let t2 = Trust::new(pks[f2].clone(), e2, i2, t1.signature.clone());
    let ok = Trust::verify(&t2, &pks[claimed], now).is_ok();
    let genuine = signer == claimed
        && f1 == f2
        && (e1.as_secs() == e2.as_secs()) & (i1.as_secs() == i2.as_secs());
    check(ok == (genuine & (e2 >= now)), "Trust::verify accepts exactly unexpired genuine trusts");
    obs_bool("ok", ok);
    reach(if ok { "accepted" } else { "rejected" });
}

/// A revocation verifies exactly when the revoker signed exactly this key and time.
#[no_mangle]
pub extern "C" fn h_revocation_verify() {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::rsa(0)];
    let pks = pool::publics(&keys);
    let signer = choose("signer", 4) as usize;
    let claimed = choose("claimed", 4) as usize;
    let (p1, p2) = (choose("pk", 4) as usize, choose("pk", 4) as usize);
    let (t1, t2) = (dur("at"), dur("at"));
    let r1 = Revocation::create(&keys[signer], pks[p1].clone(), t1);
    check(
        r1.pk == pks[p1] && r1.revoked_by == pks[signer] && r1.revoked_at == t1,
        "a created revocation carries its fields",
    );
    check(Revocation::verify(&r1).is_ok(), "a created revocation verifies");
    let r2 = Revocation::new(pks[claimed].clone(), pks[p2].clone(), t2, r1.signature.clone());
    let ok = Revocation::verify(&r2).is_ok();
    let genuine = signer == claimed && p1 == p2 && t1.as_secs() == t2.as_secs();
    check(ok == genuine, "Revocation::verify accepts exactly genuine revocations");
    obs_bool("ok", ok);
    reach(if ok { "accepted" } else { "rejected" });
}

/// A signature made for a trust never serves as a revocation, nor the reverse.
#[no_mangle]
pub extern "C" fn h_domain_separation() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0), pool::rsa(1)];
    let pks = pool::publics(&keys);
    let signer = choose("signer", 3) as usize;
    let (p1, p2) = (choose("pk", 4) as usize, choose("pk", 4) as usize);
    let (e, i, r, now) = (dur("exp"), dur("iss"), dur("rev"), dur("now"));
    if choose_bool("dir") {
        let t = Trust::create(&keys[signer], pks[p1].clone(), e, i);
        let rev = Revocation::new(pks[signer].clone(), pks[p2].clone(), r, t.signature);
        check(Revocation::verify(&rev).is_err(), "a trust signature is no revocation");
    } else {
        let rev = Revocation::create(&keys[signer], pks[p1].clone(), r);
        let t = Trust::new(pks[p2].clone(), e, i, rev.signature);
        check(
            Trust::verify(&t, &pks[signer], now).is_err(),
            "a revocation signature is no trust",
        );
    }
    obs_bool("done", true);
}

/// arbitrary bytes never verify as somebody's trust or revocation
#[no_mangle]
pub extern "C" fn h_trust_forged() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let k = choose("key", 3) as usize;
    let pk = keys[k].public();
    let f = pool::ed(1).public();
    let n = [64usize, 8, 256][k];
    let mut raw = bytes("sig", n);
    if k == 0 {
        raw[63] &= 0x0f;
    }
    let s = Signature::from_bytes(keys[k].key_format(), raw);
    if choose_bool("what") {
        let t = Trust::new(f, dur("exp"), dur("iss"), s);
        check(Trust::verify(&t, &pk, dur("now")).is_err(), "a forged trust is refused");
    } else {
        let r = Revocation::new(pk, f, dur("rev"), s);
        check(Revocation::verify(&r).is_err(), "a forged revocation is refused");
    }
    obs_bool("done", true);
}

pub fn any_key(name: &str) -> PublicKey {
    let keys = [pool::ed(0), pool::ed(1), pool::secp(0), pool::secp(1)];
    keys[choose(name, 4) as usize].public()
}

/// any signature bytes of the sizes the algorithms produce
pub fn any_sig() -> Signature {
    use fluence_keypair::KeyFormat::*;
    let (f, n) = [
        (Ed25519, 64usize),
        (Secp256k1, 70),
        (Secp256k1, 72),
        (Rsa, 0),
        (Rsa, 200),
    ][choose("sigkind", 5) as usize];
    Signature::from_bytes(f, bytes("sig", n))
}

/// binary form of a trust: decode inverts encode
#[no_mangle]
pub extern "C" fn h_trust_codec() {
    let (e, i) = (word("exp"), word("iss"));
    let t = Trust::new(any_key("for"), Duration::from_secs(e), Duration::from_secs(i), any_sig());
    let b = t.encode();
    match Trust::decode(&b) {
        Ok(d) => {
            check(d.issued_for == t.issued_for, "issued_for survives encoding");
            check(d.expires_at == t.expires_at, "expires_at survives encoding");
            check(d.issued_at == t.issued_at, "issued_at survives encoding");
            check(d.signature == t.signature, "signature survives encoding");
        }
        Err(_) => fail("an encoded trust decodes"),
    }
    obs("b", &b);
}

/// keys and signatures whose encoding does not fit the one-byte length
#[no_mangle]
pub extern "C" fn h_trust_codec_rsa() {
    let kp = pool::rsa(0);
    let what = choose("what", 2);
    let t = if what == 0 {
        Trust::new(
            kp.public(),
            Duration::from_secs(2),
            Duration::from_secs(1),
            Signature::from_bytes(fluence_keypair::KeyFormat::Ed25519, vec![7; 64]),
        )
    } else {
        Trust::create(&kp, pool::ed(0).public(), Duration::from_secs(2), Duration::from_secs(1))
    };
    let ok = match Trust::decode(&t.encode()) {
        Ok(d) => d == t,
        Err(_) => false,
    };
    check(ok, "a trust with an RSA key or signature survives encoding");
    obs_bool("ok", ok);
}

/// different trusts have different encodings
#[no_mangle]
pub extern "C" fn h_trust_codec_injective() {
    let mk = || {
        let k = [pool::ed(0), pool::secp(0)][choose("for", 2) as usize].public();
        let n = [64usize, 70][choose("sigkind", 2) as usize];
        Trust::new(
            k,
            Duration::from_secs(word("exp")),
            Duration::from_secs(word("iss")),
            Signature::from_bytes(fluence_keypair::KeyFormat::Ed25519, bytes("sig", n)),
        )
    };
    let (a, b) = (mk(), mk());
    let (x, y) = (a.encode(), b.encode());
    let same = (a.issued_for == b.issued_for)
        & (a.expires_at == b.expires_at)
        & (a.issued_at == b.issued_at)
        & (a.signature == b.signature);
    check((x == y) == same, "encodings are equal exactly for equal trusts");
    obs("x", &x);
}

/// arbitrary bytes: refused or re-encoded identically, never a panic
#[no_mangle]
pub extern "C" fn h_trust_decode_any() {
    let form = choose("form", 3);
    let b = match form {
        0 => {
            let n = choose("len", 24) as usize;
            bytes("b", n)
        }
        1 => {
            // ed25519 key in place, then a signature length and anything
            let n = [16usize, 17, 18, 19, 24][choose("len", 5) as usize];
            let mut v = vec![33u8];
            v.extend(pool::ed(0).public().encode());
            v.extend(bytes("b", n));
            v
        }
        _ => {
            let mut v = vec![34u8];
            v.extend(pool::secp(0).public().encode());
            v.push(2);
            v.extend(bytes("b", 2));
            let n = [15usize, 16, 17][choose("len", 3) as usize];
            v.extend(bytes("t", n));
            v
        }
    };
    match Trust::decode(&b) {
        Ok(t) => {
            check(t.encode() == b, "an accepted encoding is the encoding of what it decodes to");
            obs("ok", &t.encode());
            reach("accepted");
        }
        Err(_) => {
            obs("err", &[]);
            reach("refused");
        }
    }
}

/// a few times including the extremes, with one symbolic digit pair
pub fn some_secs(name: &str) -> u64 {
    match choose(name, 6) {
        0 => 0,
        1 => u64::MAX,
        2 => u64::MAX - 1,
        3 => 1u64 << 63,
        4 => 10_000_000_000 + choose("low", 3) * 9_999,
        _ => {
            let v = bits("small", 7);
            v
        }
    }
}

/// text form of a trust: four lines that convert_from_strings reads back
#[no_mangle]
pub extern "C" fn h_trust_text() {
    let k = [pool::ed(0), pool::secp(0), pool::rsa(0)][choose("for", 3) as usize].public();
    let (e, i) = (some_secs("exp"), some_secs("iss"));
    let t = Trust::new(k, Duration::from_secs(e), Duration::from_secs(i), any_sig());
    let s = t.to_string();
    let l: Vec<&str> = s.lines().collect();
    check(l.len() == 4, "a trust is four lines");
    match Trust::convert_from_strings(l[0], l[1], l[2], l[3]) {
        Ok(d) => {
            check(d.issued_for == t.issued_for, "issued_for survives the text form");
            check(d.expires_at == t.expires_at, "expires_at survives the text form");
            check(d.issued_at == t.issued_at, "issued_at survives the text form");
            check(d.signature == t.signature, "signature survives the text form");
        }
        Err(_) => fail("a trust's text converts back"),
    }
    obs("e", &e.to_le_bytes());
}
