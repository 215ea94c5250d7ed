//! Certificates: verification, issuance, encodings.
use crate::trust::{any_key, any_sig, dur, some_secs};
use crate::{pool, rt::*};
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use std::str::FromStr;
use std::time::Duration;
use trust_graph::{Certificate, Trust};

/// index of a key, new ones in order of appearance (keys of one type are
/// interchangeable)
fn canonical(name: &str, seen: &mut usize, max: usize) -> usize {
    let n = (*seen + 1).min(max);
    let v = choose(name, n as u64) as usize;
    if v == *seen {
        *seen += 1;
    }
    v
}

struct Link {
    signer: usize,
    target: usize,
    /// the signed fields are the stated ones
    genuine: bool,
    expires: Duration,
}

struct Spec {
    links: Vec<Link>,
    cert: Certificate,
}

impl Spec {
    /// independent statement of when a certificate is good
    fn valid(&self, roots: &[bool], now: Duration) -> bool {
        let l = &self.links;
        if l.is_empty() || !roots[l[0].target] {
            return false;
        }
        let mut ok = true;
        for k in 0..l.len() {
            let giver = if k == 0 { l[0].target } else { l[k - 1].target };
            ok = ok & (l[k].signer == giver) & l[k].genuine & (l[k].expires >= now);
        }
        ok
    }
}

/// A chain of `n` trusts with arbitrary signers, targets and times; `alter` of
/// them states fields other than the signed ones.
fn chain(keys: &[KeyPair], n: usize, alter: bool, honest: bool) -> Spec {
    let pks = pool::publics(keys);
    let mut seen = 0usize;
    let mut links = Vec::new();
    let mut trusts = Vec::new();
    let bad = if alter { choose("bad", n as u64 + 1) as usize } else { n };
    let wrong = if honest { choose("wrong", n as u64 + 1) as usize } else { n };
    for k in 0..n {
        let target = canonical("for", &mut seen, keys.len());
        let giver = if k == 0 { target } else { links.last().map(|l: &Link| l.target).unwrap() };
        let signer = if honest && wrong != k {
            giver
        } else {
            canonical("by", &mut seen, keys.len())
        };
        let (e, i) = (dur("exp"), dur("iss"));
        let mut t = Trust::create(&keys[signer], pks[target].clone(), e, i);
        let mut genuine = true;
        let mut target = target;
        let mut e = e;
        if bad == k {
            match choose("alter", 2) {
                0 => {
                    let (e2, i2) = (dur("exp"), dur("iss"));
                    genuine = (e2.as_secs() == e.as_secs()) & (i2.as_secs() == i.as_secs());
                    t.expires_at = e2;
                    t.issued_at = i2;
                    e = e2;
                }
                _ => {
                    let t2 = canonical("for", &mut seen, keys.len());
                    genuine = t2 == target;
                    t.issued_for = pks[t2].clone();
                    target = t2;
                }
            }
        }
        links.push(Link { signer, target, genuine, expires: e });
        trusts.push(t);
    }
    Spec { links, cert: Certificate::new_unverified(trusts) }
}

fn verify_chain(keys: &[KeyPair], n: usize, alter: bool, honest: bool) {
    let pks = pool::publics(keys);
    let s = chain(keys, n, alter, honest);
    let now = dur("now");
    // which keys are trusted roots
    let mask = choose("roots", 1 << keys.len().min(3)) as usize;
    let isroot: Vec<bool> = (0..keys.len()).map(|k| mask >> k & 1 == 1).collect();
    let roots: Vec<PublicKey> =
        (0..keys.len()).filter(|k| isroot[*k]).map(|k| pks[k].clone()).collect();
    let ok = Certificate::verify(&s.cert, &roots, now).is_ok();
    let want = s.valid(&isroot, now);
    check(
        ok == want,
        "a certificate verifies exactly if it starts at a trusted root, every trust is signed by the previous key and none is expired",
    );
    obs_bool("ok", ok);
    reach(if ok { "accepted" } else { "rejected" });
}

/// chains of up to 2 arbitrary trusts
#[no_mangle]
pub extern "C" fn h_cert_verify() {
    let keys = pool::eds(3);
    let n = choose("n", 3) as usize;
    verify_chain(&keys, n, true, false);
}

/// chains of 3 arbitrary trusts
#[no_mangle]
pub extern "C" fn h_cert_verify3() {
    let keys = pool::eds(3);
    verify_chain(&keys, 3, false, false);
}

/// chains of 4 to 6 different keys with one wrong signer or one altered trust,
/// and arbitrary times
#[no_mangle]
pub extern "C" fn h_cert_verify_long() {
    let keys = pool::eds(6);
    let pks = pool::publics(&keys);
    let n = 4 + choose("n", 3) as usize;
    // at most one trust is signed by somebody else or altered
    let defect = choose("defect", 2 * n as u64 + 1) as usize;
    let wrong = if defect < n { defect } else { n };
    let bad = if defect >= n { defect - n } else { n };
    let now = dur("now");
    let mut want = true;
    let mut v = Vec::new();
    for k in 0..n {
        let giver = if k == 0 { 0 } else { k - 1 };
        let signer = if k == wrong { choose("by", 6) as usize } else { giver };
        let (e, i) = (dur("exp"), dur("iss"));
        let mut t = Trust::create(&keys[signer], pks[k].clone(), e, i);
        if bad == k {
            let (e2, i2) = (dur("exp"), dur("iss"));
            want &= (e2.as_secs() == e.as_secs()) & (i2.as_secs() == i.as_secs());
            t.expires_at = e2;
            t.issued_at = i2;
        }
        want = want & (signer == giver) & (t.expires_at >= now);
        v.push(t);
    }
    let ok =
        Certificate::verify(&Certificate::new_unverified(v), &[pks[0].clone()], now).is_ok();
    check(
        ok == want,
        "a long certificate verifies exactly if every trust is signed by the previous key and none is expired",
    );
    obs_bool("ok", ok);
    reach(if ok { "accepted" } else { "rejected" });
}

/// other key types in the chain
#[no_mangle]
pub extern "C" fn h_cert_verify_types() {
    let all = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let (a, b) = (choose("a", 3) as usize, choose("b", 3) as usize);
    let keys = [all[a].clone(), all[b].clone()];
    let pks = pool::publics(&keys);
    let now = dur("now");
    let (e0, e1) = (dur("exp"), dur("exp"));
    let s0 = choose("signer", 2) as usize;
    let s1 = choose("signer", 2) as usize;
    let c = Certificate::new_unverified(vec![
        Trust::create(&keys[s0], pks[0].clone(), e0, dur("iss")),
        Trust::create(&keys[s1], pks[1].clone(), e1, dur("iss")),
    ]);
    let ok = Certificate::verify(&c, &[pks[0].clone()], now).is_ok();
    let want =
        (keys_eq(s0, 0, a, b) && keys_eq(s1, 0, a, b)) & (e0 >= now) & (e1 >= now);
    check(ok == want, "certificates with any key types verify exactly if genuine");
    obs_bool("ok", ok);
}

fn keys_eq(i: usize, j: usize, a: usize, b: usize) -> bool {
    i == j || a == b
}

/// issue: extends exactly the verified prefix that ends at the issuer
fn issue(with_trust: bool, n: usize) {
    let keys = pool::eds(3);
    let pks = pool::publics(&keys);
    let s = chain(&keys, n, false, true);
    let now = dur("now");
    let by = choose("issuer", 3) as usize;
    let target = choose("target", 3) as usize;
    let (e, i) = (dur("newexp"), dur("newiss"));
    let own_roots: Vec<bool> =
        (0..3).map(|k| !s.links.is_empty() && s.links[0].target == k).collect();
    let last = s.links.iter().rposition(|l| l.target == by);
    let want = s.valid(&own_roots, now) & (e >= i) & last.is_some();
    // with_trust: the trust is given, signed by anybody
    let signer = if with_trust { choose("signer", 3) as usize } else { by };
    let t = Trust::create(&keys[signer], pks[target].clone(), e, i);
    let r = if with_trust {
        Certificate::issue_with_trust(pks[by].clone(), t.clone(), &s.cert, now)
    } else {
        Certificate::issue(&keys[by], pks[target].clone(), &s.cert, e, i, now)
    };
    match r {
        Ok(c) => {
            check(want, "a certificate is issued only from a verified certificate that contains the issuer");
            let k = last.unwrap();
            check(c.chain.len() == k + 2, "the new chain ends right after the issuer");
            for j in 0..=k {
                check(c.chain[j] == s.cert.chain[j], "the prefix is unchanged");
            }
            check(c.chain[k + 1] == t, "the last trust is the issued one");
            let good =
                Certificate::verify(&c, &[s.cert.chain[0].issued_for.clone()], now).is_ok();
            check(
                good == ((signer == by) & (e >= now)),
                "an issued certificate verifies until it expires",
            );
            reach("issued");
            obs_u64("len", c.chain.len() as u64);
        }
        Err(_) => {
            check(!want, "a verified certificate can be extended by its members");
            reach("refused");
            obs_u64("len", 0);
        }
    }
}

#[no_mangle]
pub extern "C" fn h_cert_issue() {
    let n = choose("n", 3) as usize;
    issue(false, n);
}

#[no_mangle]
pub extern "C" fn h_cert_issue3() {
    issue(false, 3);
}

#[no_mangle]
pub extern "C" fn h_cert_issue_trust3() {
    issue(true, 3);
}

#[no_mangle]
pub extern "C" fn h_cert_issue_trust() {
    let n = choose("n", 3) as usize;
    issue(true, n);
}

/// issue_root and new_from_root_trust
#[no_mangle]
pub extern "C" fn h_cert_root() {
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0), pool::ed(1)];
    let pks = pool::publics(&keys);
    let r = choose("root", 3) as usize;
    let f = choose("for", 4) as usize;
    let (e, i, now) = (dur("exp"), dur("iss"), dur("now"));
    let c = Certificate::issue_root(&keys[r], pks[f].clone(), e, i);
    check(
        c.chain.len() == 2
            && c.chain[0].issued_for == pks[r]
            && c.chain[1].issued_for == pks[f],
        "a root certificate has the root's and the given key",
    );
    check((c.chain[1].expires_at == e) & (c.chain[1].issued_at == i), "times are the given ones");
    // the root trust expires at u64::MAX seconds
    let root_ok = now <= Duration::from_secs(u64::MAX);
    let ok = Certificate::verify(&c, &[pks[r].clone()], now).is_ok();
    check(ok == ((e >= now) & root_ok), "a root certificate verifies until it expires");
    check(
        Certificate::verify(&c, &[pks[(r + 1) % 4].clone()], now).is_err(),
        "a certificate of another root is refused",
    );
    // from two trusts
    let s = choose("signer", 4) as usize;
    let q = choose("rootsigner", 4) as usize;
    let e0 = dur("exp");
    let t0 = Trust::create(&keys[q], pks[r].clone(), e0, i);
    let t1 = Trust::create(&keys[s], pks[f].clone(), e, i);
    let want = (q == r && s == r) & (e0 >= now) & (e >= now);
    match Certificate::new_from_root_trust(t0.clone(), t1.clone(), now) {
        Ok(c) => {
            check(want, "a certificate is built only from genuine unexpired trusts");
            check(c.chain.len() == 2 && c.chain[0] == t0 && c.chain[1] == t1, "from exactly these");
            obs_bool("ok", true);
        }
        Err(_) => {
            check(!want, "genuine trusts make a certificate");
            obs_bool("ok", false);
        }
    }
}

fn any_trust(secs: fn(&str) -> u64) -> Trust {
    Trust::new(
        any_key("for"),
        Duration::from_secs(secs("exp")),
        Duration::from_secs(secs("iss")),
        any_sig(),
    )
}

/// binary form
#[no_mangle]
pub extern "C" fn h_cert_codec() {
    let n = choose("n", 4) as usize;
    let mut v = Vec::new();
    for k in 0..n {
        if k < 2 {
            v.push(any_trust(word));
        } else {
            v.push(Trust::new(
                pool::ed(0).public(),
                Duration::from_secs(word("exp")),
                Duration::from_secs(word("iss")),
                Signature::from_bytes(KeyFormat::Ed25519, bytes("sig", 64)),
            ));
        }
    }
    let long = v.iter().any(|t| t.encode().len() > 255);
    if long {
        // does not fit the one-byte length of the format
        obs("long", &[]);
        return;
    }
    let c = Certificate::new_unverified(v);
    let b = c.encode();
    match Certificate::decode(&b) {
        Ok(d) => {
            check(n >= 2, "a certificate has at least two trusts");
            check(d.chain.len() == n, "the number of trusts survives encoding");
            for k in 0..n {
                check(d.chain[k] == c.chain[k], "every trust survives encoding");
            }
        }
        Err(_) => check(n < 2, "an encoded certificate decodes"),
    }
    obs("b", &b);
}

/// many trusts: the count byte
#[no_mangle]
pub extern "C" fn h_cert_codec_many() {
    let n = [16usize, 127, 128, 255][choose("n", 4) as usize];
    let t = Trust::new(
        pool::ed(0).public(),
        Duration::from_secs(5),
        Duration::from_secs(1),
        Signature::from_bytes(KeyFormat::Ed25519, vec![9; 64]),
    );
    let mut v = vec![t; n];
    let p = n - 1;
    v[p].expires_at = Duration::from_secs(word("exp"));
    let c = Certificate::new_unverified(v);
    match Certificate::decode(&c.encode()) {
        Ok(d) => check(d == c, "a long certificate survives encoding"),
        Err(_) => fail("a long certificate decodes"),
    }
    obs_u64("n", n as u64);
}

#[no_mangle]
pub extern "C" fn h_cert_codec_rsa() {
    let kp = pool::rsa(0);
    let c = Certificate::issue_root(
        &kp,
        pool::ed(0).public(),
        Duration::from_secs(2),
        Duration::from_secs(1),
    );
    let ok = match Certificate::decode(&c.encode()) {
        Ok(d) => d == c,
        Err(_) => false,
    };
    check(ok, "a certificate with an RSA key or signature survives encoding");
    obs_bool("ok", ok);
}

/// text form, also through the serde module
#[no_mangle]
pub extern "C" fn h_cert_text() {
    let n = choose("n", 3) as usize;
    let mut v = Vec::new();
    for k in 0..n {
        if k == 0 {
            v.push(any_trust(some_secs));
        } else {
            v.push(Trust::new(
                pool::rsa(0).public(),
                Duration::from_secs(77),
                Duration::from_secs(5),
                Signature::from_bytes(KeyFormat::Secp256k1, bytes("sig", 3)),
            ));
        }
    }
    let c = Certificate::new_unverified(v);
    let s = c.to_string();
    match Certificate::from_str(&s) {
        Ok(d) => {
            check(d.chain.len() == n, "the number of trusts survives the text form");
            for k in 0..n {
                check(d.chain[k] == c.chain[k], "every trust survives the text form");
            }
        }
        Err(_) => fail("a certificate's text parses"),
    }
    obs_u64("n", n as u64);
}

/// arbitrary bytes as certificate
#[no_mangle]
pub extern "C" fn h_cert_decode_any() {
    let form = choose("form", 3);
    let b = match form {
        0 => {
            let n = choose("len", 20) as usize;
            bytes("b", n)
        }
        1 => {
            // a well-formed first trust, then anything
            let t = Trust::new(
                pool::ed(0).public(),
                Duration::from_secs(5),
                Duration::from_secs(1),
                Signature::from_bytes(KeyFormat::Ed25519, vec![9; 3]),
            )
            .encode();
            let mut v = vec![0u8; 6];
            v.push(2);
            v.push(t.len() as u8);
            v.extend(&t);
            let n = [0usize, 1, 2, 8, 20][choose("len", 5) as usize];
            v.extend(bytes("b", n));
            v
        }
        _ => {
            let n = choose("count", 4) as u8;
            let mut v = vec![0u8; 6];
            v.push(n);
            v.push(19);
            v.extend([1u8, 1, 1, 1]);
            v.extend(bytes("b", 15));
            v.push(byte("len2"));
            v.extend(bytes("b", 19));
            v
        }
    };
    match Certificate::decode(&b) {
        Ok(c) => {
            check(c.chain.len() >= 2, "a decoded certificate has at least two trusts");
            let e = c.encode();
            check(
                e.len() <= b.len() && e[6..] == b[6..e.len()],
                "an accepted encoding starts with the encoding of what it decodes to",
            );
            obs("ok", &e);
            reach("accepted");
        }
        Err(_) => obs("err", &[]),
    }
}

/// arbitrary short texts as certificate
#[no_mangle]
pub extern "C" fn h_cert_parse_any() {
    let form = choose("form", 2);
    let s = if form == 0 {
        let n = choose("len", 5) as usize;
        let mut v = bytes("c", n);
        for b in v.iter_mut() {
            // digits, letters and line ends
            let c = [b'1', b'a', b'\n', b'\r', b' '][choose("pick", 5) as usize];
            *b = c;
        }
        String::from_utf8(v).unwrap()
    } else {
        // six lines, one of them arbitrary
        let t = Trust::new(
            pool::ed(0).public(),
            Duration::from_secs(5),
            Duration::from_secs(1),
            Signature::from_bytes(KeyFormat::Ed25519, vec![9; 64]),
        )
        .to_string();
        let mut l: Vec<String> = vec!["11".into(), "1111".into()];
        l.extend(t.lines().map(|x| x.to_string()));
        let k = choose("line", 6) as usize;
        let n = choose("len", 3) as usize;
        let b = bytes("c", n);
        match String::from_utf8(b) {
            Ok(x) => l[k] = x,
            Err(_) => return,
        }
        l.join("\n")
    };
    match Certificate::from_str(&s) {
        Ok(c) => {
            obs_u64("n", c.chain.len() as u64);
            reach("accepted");
        }
        Err(_) => obs_u64("n", 99),
    }
}
