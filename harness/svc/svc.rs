//! The service (/repo/service) over the real SQLite: storage, call checks,
//! transfer objects, whole histories of calls.
#![allow(dead_code)]
use crate::dto;
use crate::service_api as api;
use crate::storage_impl::{create_tables, SQLiteStorage};
use crate::vpool as pool;
use crate::vrt::*;
use fluence_keypair::{KeyFormat, KeyPair, PublicKey, Signature};
use marine_rs_sdk::{set_call_parameters, CallParameters, SecurityTetraplet};
use std::convert::TryFrom;
use std::time::Duration;
use trust_graph::{
    Auth, Certificate, PublicKeyHashable as PK, Revocation, Storage, Trust, TrustGraph,
    TrustRelation,
};

fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}

fn storage() -> SQLiteStorage {
    create_tables();
    SQLiteStorage::new(marine_sqlite_connector::open("*").unwrap())
}

fn pid(k: &KeyPair) -> String {
    k.get_peer_id().to_base58()
}

fn same_auth(a: &Auth, b: &Auth) -> bool {
    (a.issued_by == b.issued_by) & (a.trust == b.trust)
}
fn same_rev(a: &Revocation, b: &Revocation) -> bool {
    (a.pk == b.pk)
        & (a.revoked_by == b.revoked_by)
        & (a.revoked_at == b.revoked_at)
        & (a.signature == b.signature)
}
fn same(a: &TrustRelation, b: &TrustRelation) -> bool {
    match (a, b) {
        (TrustRelation::Auth(a), TrustRelation::Auth(b)) => same_auth(a, b),
        (TrustRelation::Revocation(a), TrustRelation::Revocation(b)) => same_rev(a, b),
        _ => false,
    }
}

fn relation(kind: u64, f: &PublicKey, b: &PublicKey, issued: u64, expires: u64, sig: Vec<u8>) -> TrustRelation {
    let signature = Signature::from_bytes(KeyFormat::Ed25519, sig);
    if kind == 0 {
        TrustRelation::Auth(Auth {
            trust: Trust {
                issued_for: f.clone(),
                expires_at: secs(expires),
                issued_at: secs(issued),
                signature,
            },
            issued_by: b.clone(),
        })
    } else {
        TrustRelation::Revocation(Revocation {
            pk: f.clone(),
            revoked_at: secs(issued),
            revoked_by: b.clone(),
            signature,
        })
    }
}

fn update(s: &mut SQLiteStorage, r: &TrustRelation) {
    let ok = match r {
        TrustRelation::Auth(a) => s.update_auth(a.clone(), secs(0)).is_ok(),
        TrustRelation::Revocation(r) => s.revoke(r.clone()).is_ok(),
    };
    check(ok, "the storage accepts a relation");
}

/// the relation of a pair, and that all three ways of asking agree
fn look(s: &SQLiteStorage, f: &PublicKey, b: &PublicKey) -> Option<TrustRelation> {
    let (pf, pb): (PK, PK) = (f.clone().into(), b.clone().into());
    let r = match s.get_relation(&pf, &pb) {
        Ok(r) => r,
        Err(_) => {
            fail("a relation can be read");
            None
        }
    };
    let auths = s.get_authorizations(&pf).unwrap_or_default();
    let revs = s.get_revocations(&pf).unwrap_or_default();
    let a: Vec<_> = auths.iter().filter(|a| a.issued_by == *b).collect();
    let v: Vec<_> = revs.iter().filter(|r| r.revoked_by == *b).collect();
    match &r {
        None => check(a.is_empty() && v.is_empty(), "no relation, no authorization or revocation"),
        Some(TrustRelation::Auth(x)) => check(
            a.len() == 1 && v.is_empty() && same_auth(a[0], x),
            "an authorization is listed for its subject, once",
        ),
        Some(TrustRelation::Revocation(x)) => check(
            v.len() == 1 && a.is_empty() && same_rev(v[0], x),
            "a revocation is listed for its subject, once",
        ),
    }
    r
}

fn is(r: &Option<TrustRelation>, want: &Option<TrustRelation>) -> bool {
    match (r, want) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}

/// what is stored is what is read
fn store(all: bool) {
    let mut s = storage();
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let p = pool::publics(&keys);
    let f = choose("for", 3) as usize;
    let b = if all { choose("by", 3) as usize } else { (f + 1) % 3 };
    let kind = choose("kind", 2);
    let (fmt, n) = [
        (KeyFormat::Ed25519, 64usize),
        (KeyFormat::Rsa, 256),
        (KeyFormat::Secp256k1, 70),
        (KeyFormat::Ed25519, 0),
    ][choose("sigkind", 4) as usize];
    let (i, e) = (word("iss"), word("exp"));
    let mut r = relation(kind, &p[f], &p[b], i, e, vec![]);
    let sig = Signature::from_bytes(fmt, bytes("sig", n));
    match &mut r {
        TrustRelation::Auth(a) => a.trust.signature = sig,
        TrustRelation::Revocation(r) => r.signature = sig,
    }
    update(&mut s, &r);
    for x in 0..3 {
        for y in 0..3 {
            let want = if x == f && y == b { Some(r.clone()) } else { None };
            check(is(&look(&s, &p[x], &p[y]), &want), "exactly the stored relation is found, unchanged");
        }
    }
    obs_u64("i", i);
}
#[no_mangle]
pub extern "C" fn s_store() {
    store(false);
}
#[no_mangle]
pub extern "C" fn s_store_all() {
    store(true);
}

/// of the relations of a pair the latest is kept, the earlier offered on a tie
fn latest(n: usize, width: u32) {
    let mut s = storage();
    let p = pool::publics(&pool::eds(3));
    // a neighbour that must not be touched
    let other = relation(choose("other", 2), &p[1], &p[2], 40, 50, vec![99]);
    update(&mut s, &other);
    let mut held: Option<TrustRelation> = None;
    let mut at = 0u64;
    for k in 0..n {
        let kind = choose("kind", 2);
        let i = bits("iss", width);
        let r = relation(kind, &p[0], &p[1], i, 1000 + k as u64, vec![k as u8]);
        update(&mut s, &r);
        if held.is_none() || i > at {
            held = Some(r);
            at = i;
        }
    }
    check(is(&look(&s, &p[0], &p[1]), &held), "the latest relation of a pair is kept");
    check(is(&look(&s, &p[1], &p[2]), &Some(other)), "other pairs are not affected");
    check(look(&s, &p[1], &p[0]).is_none(), "the reverse pair is not affected");
    obs_u64("at", at);
}

#[no_mangle]
pub extern "C" fn s_latest() {
    latest(2, 64);
}
#[no_mangle]
pub extern "C" fn s_latest3() {
    latest(3, 9);
}
#[no_mangle]
pub extern "C" fn s_latest4() {
    latest(4, 7);
}

/// expired trusts are removed, everything else stays
fn gc(rows: usize, width: u32) {
    let mut s = storage();
    let p = pool::publics(&pool::eds(3));
    let pairs = [(0usize, 1usize), (0, 2), (1, 1), (2, 0)];
    let mut all = vec![];
    for k in 0..rows {
        let (f, b) = pairs[k];
        let kind = choose("kind", 2);
        let e = bits("exp", width);
        let r = relation(kind, &p[f], &p[b], 10 + k as u64, e, vec![k as u8]);
        update(&mut s, &r);
        all.push((f, b, kind, e, r));
    }
    // the stored times are signed 64-bit numbers
    let now = bits("now", width.min(63));
    check(s.remove_expired(secs(now)).is_ok(), "expired trusts can be removed");
    for (f, b, kind, e, r) in all {
        let x = look(&s, &p[f], &p[b]);
        if kind == 1 {
            check(is(&x, &Some(r)), "a revocation is never removed");
        } else if x.is_none() {
            check(e <= now, "a trust is removed only after it expired");
        } else {
            check(e >= now, "an expired trust is removed");
            check(is(&x, &Some(r)), "a trust that is kept is unchanged");
        }
    }
    obs_u64("now", now);
}

#[no_mangle]
pub extern "C" fn s_gc() {
    gc(2, 64);
}
#[no_mangle]
pub extern "C" fn s_gc3() {
    gc(3, 10);
}
#[no_mangle]
pub extern "C" fn s_gc4() {
    gc(4, 8);
}

/// the last factor set for a root counts, and roots are listed once
#[no_mangle]
pub extern "C" fn s_roots() {
    let mut s = storage();
    let keys = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let p = pool::publics(&keys);
    let mut want: Vec<Option<u32>> = vec![None; 3];
    let n = choose("n", 4);
    for _ in 0..n {
        let k = choose("key", 2) as usize;
        let w = bits("factor", 32) as u32;
        check(s.set_root_weight_factor(p[k].clone().into(), w).is_ok(), "a root can be set");
        want[k] = Some(w);
    }
    let listed = s.root_keys().unwrap_or_default();
    for k in 0..3 {
        let pk: PK = p[k].clone().into();
        match s.get_root_weight_factor(&pk) {
            Ok(x) => check(x == want[k], "the factor of a root is the one last set"),
            Err(_) => fail("the factor of a root can be read"),
        }
        let c = listed.iter().filter(|x| **x == pk).count();
        check(c == want[k].is_some() as usize, "every root is listed exactly once");
    }
    obs_u64("n", listed.len() as u64);
}

// ---- calls ------------------------------------------------------------------

const HOST: &str = "some_host_id";

fn good_tetraplet(host: &str) -> SecurityTetraplet {
    SecurityTetraplet::new(host, "peer", "timestamp_sec", "")
}

/// call parameters whose argument `arg` is the host's time
fn attested(arg: usize) -> CallParameters {
    let mut t = vec![vec![]; arg];
    t.push(vec![good_tetraplet(HOST)]);
    CallParameters { host_id: HOST.into(), tetraplets: t, ..Default::default() }
}

fn attest(arg: usize) {
    set_call_parameters(attested(arg));
}

fn owner() -> CallParameters {
    CallParameters {
        init_peer_id: "owner".into(),
        service_creator_peer_id: "owner".into(),
        host_id: HOST.into(),
        ..Default::default()
    }
}

fn set_root(k: &KeyPair, len: u32) {
    set_call_parameters(owner());
    check(api::set_root(pid(k), len).success, "the owner can set a root");
}

fn dto_trust(by: &KeyPair, f: &KeyPair, e: u64, i: u64) -> dto::Trust {
    Trust::create(by, f.public(), secs(e), secs(i)).into()
}
fn copy(t: &dto::Trust) -> dto::Trust {
    dto::Trust {
        issued_for: t.issued_for.clone(),
        expires_at: t.expires_at,
        signature: t.signature.clone(),
        sig_type: t.sig_type.clone(),
        issued_at: t.issued_at,
    }
}

fn add(by: &KeyPair, f: &KeyPair, e: u64, i: u64, now: u64) -> crate::results::AddTrustResult {
    attest(2);
    api::add_trust(dto_trust(by, f, e, i), pid(by), now)
}

/// a text that equals `s` or not: unchanged, one character changed arbitrarily,
/// shortened, extended or empty
fn perturb(name: &str, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    match choose(name, 5) {
        0 => {}
        1 => {
            let p = choose("pos", 3) as usize * (b.len() - 1) / 2;
            b[p] = 0x20 | (b[p] ^ bits("diff", 4) as u8);
        }
        2 => {
            b.pop();
        }
        3 => b.push(b'x'),
        _ => b.clear(),
    }
    String::from_utf8(b).unwrap_or_default()
}

/// only the creator of the service sets roots
#[no_mangle]
pub extern "C" fn s_set_root() {
    create_tables();
    let k = [pool::ed(0), pool::secp(0), pool::rsa(0)];
    let creator = pid(&k[1]);
    let host = [creator.clone(), HOST.to_string()][choose("host", 2) as usize].clone();
    let t = choose("target", 4) as usize;
    let target = if t < 3 { pid(&k[t]) } else { "nonsense0".to_string() };
    // somebody who is a root, or not yet
    let first = pool::ed(1);
    let before = choose_bool("before");
    if before {
        set_root(&first, 2);
    }
    let init = match choose("who", 6) {
        0 => perturb("init", &creator),
        1 => host.clone(),
        2 => target.clone(),
        3 => "service0".to_string(),
        4 => "particle0".to_string(),
        _ => pid(&first),
    };
    let len = bits("len", 32) as u32;
    let owner = init == creator;
    set_call_parameters(CallParameters {
        init_peer_id: init,
        service_creator_peer_id: creator,
        host_id: host,
        service_id: "service0".into(),
        particle_id: "particle0".into(),
        tetraplets: vec![],
    });
    let r = api::set_root(target, len);
    // an RSA key is not in its peer id
    check(r.success == (owner & (t < 2)), "a root is set exactly by the owner, for a valid peer id");
    check(r.success == r.error.is_empty(), "an error is reported exactly on failure");
    let s = storage();
    let first: PK = first.public().into();
    let mut roots = s.root_keys().unwrap_or_default();
    check(roots.contains(&first) == before, "a root stays");
    roots.retain(|x| *x != first);
    check(roots.len() == r.success as usize, "roots change exactly on success");
    if r.success {
        let pk: PK = k[t].public().into();
        check(roots[0] == pk, "the root is the given key");
        // its weight tells the chain length
        attest(1);
        let w = api::get_weight(pid(&k[t]), 5);
        let l = if len > 16 { 16 } else { len };
        check(w.success && w.weight == 1 << l, "the root has the weight of its chain length");
        reach("set");
    } else {
        reach("refused");
    }
    obs_bool("ok", r.success);
}

/// every call that takes a time accepts it only from the host
fn timestamp(what: usize) {
    create_tables();
    let k = pool::eds(3);
    set_root(&k[0], 3);
    check(add(&k[0], &k[0], 100, 1, 10).success, "a root trust can be added");
    check(add(&k[0], &k[1], 100, 1, 10).success, "a trust can be added");
    let host = if what == 2 || what == 3 { pid(&k[1]) } else { HOST.to_string() };
    // the argument that is the time
    let arg = [1usize, 2, 0, 1, 1, 2, 2, 2, 1, 1, 1][what];
    // which argument has a tetraplet, and which
    let n = choose("tetraplets", 3) as usize;
    let at = if n == 1 { choose("at", 4) as usize } else { arg };
    let mut t = vec![vec![]; 4];
    let mut good = false;
    let part = if n == 0 { 0 } else { choose("part", 3) };
    let mk = || {
        let mut p = good_tetraplet(&host);
        match part {
            0 => {
                p.peer_pk = match choose("whose", 4) {
                    0 => perturb("peer", &host),
                    1 => pid(&k[0]),
                    2 => "creator0".to_string(),
                    _ => "particle0".to_string(),
                }
            }
            1 => p.service_id = perturb("service", "peer"),
            _ => p.function_name = perturb("function", "timestamp_sec"),
        }
        p
    };
    let mut first = None;
    if n > 0 {
        let p = mk();
        good = at == arg && p == good_tetraplet(&host);
        first = Some(p);
    }
    if n == 1 {
        t[at] = vec![first.clone().unwrap()];
    } else if n == 2 {
        // all arguments but the time are attested
        for x in 0..4 {
            t[x] = vec![good_tetraplet(&host)];
        }
        t[arg] = vec![first.clone().unwrap()];
        good = first.unwrap() == good_tetraplet(&host);
    }
    let short = choose("short", 3);
    if short == 1 {
        t.truncate(2);
    } else if short == 2 && !good && !t[arg].is_empty() {
        // a list whose later element is genuine
        t[arg].push(good_tetraplet(&host));
    }
    if arg >= t.len() {
        good = false;
    }
    let cp = CallParameters {
        host_id: host,
        tetraplets: t,
        init_peer_id: pid(&k[0]),
        service_creator_peer_id: "creator0".into(),
        particle_id: "particle0".into(),
        ..Default::default()
    };
    let trust = dto_trust(&k[1], &k[2], 100, 2);
    let rev: dto::Revocation = Revocation::create(&k[0], k[1].public(), secs(3)).into();
    let cert = Certificate::issue_root(&k[0], k[2].public(), secs(100), secs(2));
    let cert = Certificate::new_unverified(vec![
        Trust::create(&k[0], k[0].public(), secs(100), secs(2)),
        cert.chain[1].clone(),
    ]);
    let p: Vec<String> = k.iter().map(pid).collect();
    set_call_parameters(cp);
    let (ok, err) = match what {
        0 => {
            let r = api::get_all_certs(p[1].clone(), 20);
            check(r.certificates.len() == r.success as usize, "certificates only on success");
            (r.success, r.error)
        }
        1 => {
            let r = api::get_all_certs_from(p[1].clone(), p[0].clone(), 20);
            check(r.certificates.len() == r.success as usize, "certificates only on success");
            (r.success, r.error)
        }
        2 => {
            let r = api::get_host_certs(20);
            check(r.certificates.len() == r.success as usize, "certificates only on success");
            (r.success, r.error)
        }
        3 => {
            let r = api::get_host_certs_from(p[0].clone(), 20);
            check(r.certificates.len() == r.success as usize, "certificates only on success");
            (r.success, r.error)
        }
        4 => {
            let r = api::get_weight(p[1].clone(), 20);
            check(r.weight == 4 * r.success as u32, "a weight only on success");
            (r.success, r.error)
        }
        5 => {
            let r = api::get_weight_from(p[1].clone(), p[0].clone(), 20);
            check(r.weight == 4 * r.success as u32, "a weight only on success");
            (r.success, r.error)
        }
        6 => {
            let r = api::verify_trust(copy(&trust), p[1].clone(), 20);
            (r.success, r.error)
        }
        7 => {
            let r = api::add_trust(copy(&trust), p[1].clone(), 20);
            check(r.weight == 2 * r.success as u32, "a weight only on success");
            (r.success, r.error)
        }
        8 => {
            let r = api::revoke(rev, 20);
            (r.success, r.error)
        }
        9 => {
            let r = api::insert_cert(cert.into(), 20);
            (r.success, r.error)
        }
        _ => {
            let r = api::insert_cert_raw(cert.to_string(), 20);
            (r.success, r.error)
        }
    };
    check(ok == good, "a call with a time succeeds exactly if the time comes from the host");
    check(ok == err.is_empty(), "an error is reported exactly on failure");
    // nothing is stored by a refused call
    let s = storage();
    let changed = look(&s, &k[2].public(), &k[1].public()).is_some()
        || look(&s, &k[2].public(), &k[0].public()).is_some()
        || matches!(look(&s, &k[1].public(), &k[0].public()), Some(TrustRelation::Revocation(_)));
    check(changed == (ok && what >= 7), "a refused call stores nothing");
    reach(if ok { "accepted" } else { "refused" });
    obs_bool("ok", ok);
}

#[no_mangle]
pub extern "C" fn s_time_certs() {
    timestamp(choose("what", 4) as usize);
}
#[no_mangle]
pub extern "C" fn s_time_weight() {
    timestamp(4 + choose("what", 3) as usize);
}
#[no_mangle]
pub extern "C" fn s_time_change() {
    timestamp(7 + choose("what", 4) as usize);
}

/// trusts and revocations from the future are refused
#[no_mangle]
pub extern "C" fn s_future() {
    create_tables();
    let k = pool::eds(2);
    set_root(&k[0], 3);
    check(add(&k[0], &k[0], 1000, 1, 10).success, "a root trust can be added");
    let now = 10 + bits("now", 8);
    let at = bits("at", 9);
    let s = storage();
    if choose_bool("what") {
        let e = bits("exp", 9);
        let r = add(&k[0], &k[1], e, at, now);
        check(
            r.success == ((at <= now) & (e >= now)),
            "a trust is added exactly if issued before now and expiring after",
        );
        check(look(&s, &k[1].public(), &k[0].public()).is_some() == r.success, "stored exactly on success");
        obs_bool("ok", r.success);
    } else {
        attest(1);
        let r = api::revoke(Revocation::create(&k[0], k[1].public(), secs(at)).into(), now);
        check(r.success == (at <= now), "a revocation is accepted exactly if issued before now");
        check(look(&s, &k[1].public(), &k[0].public()).is_some() == r.success, "stored exactly on success");
        obs_bool("ok", r.success);
    }
}

/// transfer objects lose nothing
#[no_mangle]
pub extern "C" fn s_dto() {
    let keys = [pool::ed(0), pool::secp(0)];
    let p = pool::publics(&keys);
    let f = choose("for", 2) as usize;
    let n = [0usize, 1, 64, 70][choose("len", 4) as usize];
    let fmt = [KeyFormat::Ed25519, KeyFormat::Rsa, KeyFormat::Secp256k1][choose("fmt", 3) as usize];
    let sig = Signature::from_bytes(fmt, bytes("sig", n));
    let (e, i) = (word("exp"), word("iss"));
    match choose("what", 3) {
        0 => {
            let t = Trust::new(p[f].clone(), secs(e), secs(i), sig);
            let d: dto::Trust = t.clone().into();
            check(d.expires_at == e && d.issued_at == i, "times are carried in seconds");
            check(d.issued_for == pid(&keys[f]), "the subject is carried as peer id");
            match Trust::try_from(d) {
                Ok(x) => check(x == t, "a trust survives its transfer object"),
                Err(_) => fail("a trust's transfer object converts back"),
            }
        }
        1 => {
            let b = choose("by", 2) as usize;
            let r = Revocation::new(p[b].clone(), p[f].clone(), secs(i), sig);
            let d: dto::Revocation = r.clone().into();
            check(d.revoked_at == i, "the time is carried in seconds");
            check(
                d.revoked_peer_id == pid(&keys[f]) && d.revoked_by == pid(&keys[b]),
                "the keys are carried as peer ids",
            );
            match Revocation::try_from(d) {
                Ok(x) => check(same_rev(&x, &r), "a revocation survives its transfer object"),
                Err(_) => fail("a revocation's transfer object converts back"),
            }
        }
        _ => {
            let m = choose("n", 4) as usize;
            let mut v = vec![];
            for k in 0..m {
                let s = Signature::from_bytes(fmt, bytes("sig", 2));
                v.push(Trust::new(p[k % 2].clone(), secs(word("exp")), secs(word("iss")), s));
            }
            let c = Certificate::new_unverified(v);
            let d: dto::Certificate = c.clone().into();
            match Certificate::try_from(d) {
                Ok(x) => check(x == c, "a certificate survives its transfer object"),
                Err(_) => fail("a certificate's transfer object converts back"),
            }
        }
    }
    obs_u64("n", n as u64);
}

/// transfer objects with broken texts are refused, never a panic
#[no_mangle]
pub extern "C" fn s_dto_any() {
    let k = pool::ed(0);
    let good = Trust::create(&k, k.public(), secs(5), secs(1));
    let mut d: dto::Trust = good.clone().into();
    let what = choose("what", 4);
    let text = |n: usize| -> String {
        let b: Vec<u8> = (0..n).map(|_| bits("c", 7) as u8).collect();
        String::from_utf8(b).unwrap()
    };
    match what {
        0 => {
            let n = choose("len", 3) as usize;
            d.issued_for = text(n);
        }
        1 => d.issued_for = pid(&pool::rsa(0)),
        2 => {
            let n = choose("len", 4) as usize;
            d.signature = text(n);
        }
        _ => d.sig_type = perturb("type", &d.sig_type.clone()),
    }
    let stype = d.sig_type.clone();
    match Trust::try_from(d) {
        Ok(t) => {
            check(what >= 2, "a broken peer id is refused");
            check(t.issued_for == good.issued_for, "the subject is the one given");
            if what == 3 {
                check(stype == "Ed25519" || stype == "ed25519", "an unknown signature type is refused");
            }
            obs_bool("ok", true);
        }
        Err(_) => {
            obs_bool("ok", false);
        }
    }
}

/// bytes -> signature -> object -> verified -> stored -> certificate
#[no_mangle]
pub extern "C" fn s_pipeline() {
    create_tables();
    let k = [pool::ed(0), pool::secp(0), pool::ed(1), pool::secp(1)];
    let (a, b) = (choose("root", 2) as usize, 2 + choose("peer", 2) as usize);
    set_root(&k[a], 2);
    let now = 100;
    let step = |by: usize, f: usize, e: u64, i: u64| -> bool {
        let g = api::get_trust_bytes(pid(&k[f]), e, i);
        check(g.success, "the bytes to sign are available");
        let sig = k[by].sign(&g.result).unwrap().to_vec().to_vec();
        let t = api::issue_trust(pid(&k[f]), e, i, sig);
        check(t.success, "a trust can be issued");
        check(t.trust.expires_at == e && t.trust.issued_at == i && t.trust.issued_for == pid(&k[f]), "as asked");
        attest(2);
        let v = api::verify_trust(copy(&t.trust), pid(&k[by]), now);
        check(v.success == (e >= now), "an issued trust verifies until it expires");
        let other = api::verify_trust(copy(&t.trust), pid(&k[f]), now);
        check((by == f) | !other.success, "a trust of another issuer is refused");
        let r = api::add_trust(t.trust, pid(&k[by]), now);
        check(r.success == ((e >= now) & (i <= now)), "an issued trust can be added until it expires");
        r.success
    };
    check(step(a, a, 1000, 1), "the root's own trust can be added");
    let (e, i) = (bits("exp", 10), bits("iss", 10));
    let ok = step(a, b, e, i);
    attest(1);
    let w = api::get_weight(pid(&k[b]), now);
    // a trust that expires right now may count or not
    assume(e != now);
    check(w.success && w.weight == 2 * ok as u32, "the weight shows the added trust");
    check(w.peer_id == pid(&k[b]), "the weight is for the peer asked for");
    let c = api::get_all_certs(pid(&k[b]), now);
    check(c.success && c.certificates.len() == ok as usize, "the certificate is there");
    for x in c.certificates.iter() {
        check(x.chain.len() == 2 && x.chain[1].issued_for == pid(&k[b]) && x.chain[1].expires_at == e, "as issued");
    }
    // revocation
    let at = bits("rev", 10);
    let g = api::get_revocation_bytes(pid(&k[b]), at);
    check(g.success, "the bytes to sign are available");
    let sig = k[a].sign(&g.result).unwrap().to_vec().to_vec();
    let r = api::issue_revocation(pid(&k[a]), pid(&k[b]), at, sig);
    check(r.success, "a revocation can be issued");
    let rr = api::revoke(r.revocation, now);
    check(rr.success == (at <= now), "an issued revocation is accepted");
    let counts = rr.success & (!ok | (at > i));
    let x = api::export_revocations(pid(&k[b]));
    check(x.success && x.revocations.len() == counts as usize, "the revocation is exported exactly if newer");
    let w = api::get_weight(pid(&k[b]), now);
    check(w.weight == if ok & !counts { 2 } else { 0 }, "a revoked peer has no weight");
    obs_u64("w", w.weight as u64);
}

/// a certificate with a root trust as the library issues it
#[no_mangle]
pub extern "C" fn s_issued_root() {
    create_tables();
    let k = pool::eds(2);
    set_root(&k[0], 2);
    let raw = choose_bool("raw");
    // the text form has the times in decimal digits
    let (e, now) = if raw {
        let far = choose("far", 3) * (u64::MAX / 4 + 1);
        (far + bits("exp", 4), bits("now", 4))
    } else {
        (word("exp"), bits("now", 63))
    };
    let c = Certificate::issue_root(&k[0], k[1].public(), secs(e), secs(1));
    attest(1);
    let ok = if raw {
        api::insert_cert_raw(c.to_string(), now).success
    } else {
        api::insert_cert(c.clone().into(), now).success
    };
    check(ok == (e >= now), "a certificate is inserted exactly if unexpired");
    assume(e != now);
    let w = api::get_weight(pid(&k[1]), now);
    check(w.success && w.weight == 2 * ok as u32, "an inserted certificate gives weight");
    let cs = api::get_all_certs(pid(&k[1]), now);
    check(cs.success && cs.certificates.len() == ok as usize, "an inserted certificate is found");
    for x in cs.certificates {
        match Certificate::try_from(x) {
            Ok(x) => check(x == c, "the certificate found is the inserted one"),
            Err(_) => fail("the certificate found is the inserted one"),
        }
    }
    obs_bool("ok", ok);
}

// ---- histories --------------------------------------------------------------

/// what the service must know after a history, by the rules
struct Ref {
    n: usize,
    /// (subject, issuer) -> (is trust, issued_at, expires_at)
    rel: Vec<Option<(bool, u64, u64)>>,
    root: Vec<Option<u32>>,
}

impl Ref {
    fn get(&self, f: usize, b: usize) -> Option<(bool, u64, u64)> {
        self.rel[f * self.n + b]
    }
    fn put(&mut self, f: usize, b: usize, x: (bool, u64, u64)) {
        let c = f * self.n + b;
        match self.rel[c] {
            Some(o) if o.1 >= x.1 => {}
            _ => self.rel[c] = Some(x),
        }
    }
    fn gc(&mut self, now: u64) {
        for c in self.rel.iter_mut() {
            if let Some((true, _, e)) = *c {
                if e <= now {
                    *c = None;
                }
            }
        }
    }
    fn paths(&self, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        let v = *cur.last().unwrap();
        if cur.len() > 1 && self.root[v].is_some() && matches!(self.get(v, v), Some((true, _, _))) {
            out.push(cur.iter().rev().copied().collect());
        }
        for w in 0..self.n {
            if cur.contains(&w) || !matches!(self.get(v, w), Some((true, _, _))) {
                continue;
            }
            if cur.iter().any(|x| matches!(self.get(*x, w), Some((false, _, _)))) {
                continue;
            }
            cur.push(w);
            self.paths(cur, out);
            cur.pop();
        }
    }
    fn weight(&self, t: usize) -> u32 {
        let one = |l: u32, d: u32| if d > l { 0 } else { 1u32 << (l - d) };
        let mut best = self.root[t].map(|l| one(l, 0)).unwrap_or(0);
        let mut out = vec![];
        self.paths(&mut vec![t], &mut out);
        for p in out {
            best = best.max(one(self.root[p[0]].unwrap(), p.len() as u32 - 1));
        }
        best
    }
}

/// any `steps` calls over `n` peers, then what every peer's weight is
fn history(n: usize, steps: usize, times: u64) {
    create_tables();
    let k = pool::eds(n);
    let mut m = Ref { n, rel: vec![None; n * n], root: vec![None; n] };
    set_root(&k[0], 2);
    m.root[0] = Some(2);
    check(add(&k[0], &k[0], 1000, 1, 10).success, "a root trust can be added");
    m.put(0, 0, (true, 1, 1000));
    let mut now = 10u64;
    for _ in 0..steps {
        now += 10;
        match choose("call", 3) {
            0 => {
                let (f, b) = (choose("for", n as u64) as usize, choose("by", n as u64) as usize);
                let (i, e) = (2 + choose("iss", times) * 3, [25u64, 1000][choose("exp", 2) as usize]);
                let r = add(&k[b], &k[f], e, i, now);
                let ok = e >= now;
                check(r.success == ok, "a genuine unexpired trust is accepted");
                m.gc(now);
                if ok {
                    let w = m.weight(b);
                    let w = if f == b { w } else { w / 2 };
                    check(r.weight == w, "the weight of an added trust follows from what is stored");
                    if w > 0 {
                        m.put(f, b, (true, i, e));
                    }
                }
            }
            1 => {
                let (f, b) = (choose("for", n as u64) as usize, choose("by", n as u64) as usize);
                let i = 2 + choose("iss", times) * 3;
                attest(1);
                let r = api::revoke(Revocation::create(&k[b], k[f].public(), secs(i)).into(), now);
                check(r.success, "a genuine revocation is accepted");
                m.put(f, b, (false, i, 0));
            }
            _ => {
                let r = choose("root", n as u64) as usize;
                let l = choose("len", 3) as u32;
                set_root(&k[r], l);
                m.root[r] = Some(l);
            }
        }
    }
    now += 10;
    m.gc(now);
    for t in 0..n {
        attest(1);
        let w = api::get_weight(pid(&k[t]), now);
        check(
            w.success && w.weight == m.weight(t),
            "after any history of calls a weight follows from the latest relations and roots",
        );
        let mut out = vec![];
        m.paths(&mut vec![t], &mut out);
        let c = api::get_all_certs(pid(&k[t]), now);
        check(c.success, "certificates can be read");
        for p in out {
            let x = c
                .certificates
                .iter()
                .filter(|x| {
                    x.chain.len() == p.len()
                        && x.chain.iter().zip(p.iter()).all(|(t, k2)| t.issued_for == pid(&k[*k2]))
                })
                .count();
            check(x == 1, "after any history every valid chain is returned once");
        }
        obs_u64("w", w.weight as u64);
    }
}

#[no_mangle]
pub extern "C" fn s_history() {
    history(2, 2, 2);
}
#[no_mangle]
pub extern "C" fn s_history3() {
    history(2, 3, 2);
}
#[no_mangle]
pub extern "C" fn s_history_wide() {
    history(3, 2, 2);
}
