//! The trust graph over an arbitrary storage content.
//!
//! The storage of the harness answers every question about the relation between
//! two keys with a fresh symbolic choice (none, trust, revocation, expired
//! trust), made when it is first asked and remembered: all contents over `n`
//! keys are explored, as far as they matter.
use crate::{pool, rt::*};
use fluence_keypair::{KeyPair, PublicKey};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
use trust_graph::{
    Auth, Certificate, PublicKeyHashable as PK, Revocation, Storage, StorageError, Trust,
    TrustGraph, TrustRelation, WeightFactor,
};

const UNKNOWN: u8 = 255;
const NONE: u8 = 0;
const TRUST: u8 = 1;
const REVOKED: u8 = 2;
const EXPIRED: u8 = 3;

const ISSUED: u64 = 50;
const EARLY: u64 = 100;
const LATE: u64 = 100_000;

#[derive(Debug)]
pub struct NoError;
impl std::fmt::Display for NoError {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for NoError {}
impl StorageError for NoError {}

#[derive(Clone, Copy)]
pub struct Limits {
    /// at most this many revocations / expired trusts in the storage
    pub revocations: usize,
    pub expired: usize,
}

pub struct World {
    pub n: usize,
    pub keys: Vec<KeyPair>,
    pub pks: Vec<PublicKey>,
    limits: Limits,
    rel: Vec<u8>,
    trusts: Vec<Option<Trust>>,
    revs: Vec<Option<Revocation>>,
    pub roots: Vec<Option<u32>>,
    /// max_chain_len as given to set_root
    pub lens: Vec<Option<u32>>,
    gc: bool,
    undo: Vec<(usize, u8)>,
    pub stored: Vec<Auth>,
    pub revoked: Vec<Revocation>,
    pub lookups: usize,
}

impl World {
    pub fn new(n: usize, limits: Limits) -> World {
        let keys = pool::eds(n);
        let pks = pool::publics(&keys);
        World {
            n,
            keys,
            pks,
            limits,
            rel: vec![UNKNOWN; n * n],
            trusts: vec![None; n * n],
            revs: vec![None; n * n],
            roots: vec![None; n],
            lens: vec![None; n],
            gc: false,
            undo: vec![],
            stored: vec![],
            revoked: vec![],
            lookups: 0,
        }
    }
    pub fn index(&self, pk: &PublicKey) -> Option<usize> {
        self.pks.iter().position(|p| p == pk)
    }
    fn raw(&mut self, f: usize, b: usize) -> u8 {
        let c = f * self.n + b;
        if self.rel[c] == UNKNOWN {
            let mut opts = vec![NONE, TRUST];
            if self.limits.revocations > 0 {
                opts.push(REVOKED);
            }
            if self.limits.expired > 0 {
                opts.push(EXPIRED);
            }
            let v = opts[choose("rel", opts.len() as u64) as usize];
            if v == REVOKED {
                self.limits.revocations -= 1;
            }
            if v == EXPIRED {
                self.limits.expired -= 1;
            }
            self.rel[c] = v;
        }
        self.rel[c]
    }
    /// what the storage would hand out
    fn held(&mut self, f: usize, b: usize) -> u8 {
        match self.raw(f, b) {
            EXPIRED if self.gc => NONE,
            x => x,
        }
    }
    /// what counts: an expired trust does not
    pub fn live(&mut self, f: usize, b: usize) -> u8 {
        match self.raw(f, b) {
            EXPIRED => NONE,
            x => x,
        }
    }
    pub fn set(&mut self, f: usize, b: usize, v: u8) {
        let n = self.n;
        self.rel[f * n + b] = v;
    }
    pub fn trust(&mut self, f: usize, b: usize) -> Trust {
        let c = f * self.n + b;
        if self.trusts[c].is_none() {
            let e = if self.rel[c] == EXPIRED { EARLY } else { LATE };
            self.trusts[c] = Some(Trust::create(
                &self.keys[b],
                self.pks[f].clone(),
                Duration::from_secs(e),
                Duration::from_secs(ISSUED + c as u64),
            ));
        }
        self.trusts[c].clone().unwrap()
    }
    pub fn revocation(&mut self, f: usize, b: usize) -> Revocation {
        let c = f * self.n + b;
        if self.revs[c].is_none() {
            self.revs[c] = Some(Revocation::create(
                &self.keys[b],
                self.pks[f].clone(),
                Duration::from_secs(ISSUED + c as u64),
            ));
        }
        self.revs[c].clone().unwrap()
    }
    /// back to the content before any update
    pub fn rollback(&mut self) {
        while let Some((c, v)) = self.undo.pop() {
            self.rel[c] = v;
        }
    }
    pub fn is_root(&self, k: usize) -> bool {
        self.roots[k].is_some()
    }
    pub fn root_pks(&self) -> Vec<PublicKey> {
        (0..self.n).filter(|k| self.is_root(*k)).map(|k| self.pks[k].clone()).collect()
    }

    /// All key paths root..target, written independently of the search: every
    /// sequence of different keys, from a root with a self-signed trust, each
    /// trusted by the previous one, none revoked by an earlier one.
    pub fn paths(&mut self, target: usize) -> Vec<Vec<usize>> {
        let mut out = Vec::new();
        let mut cur = vec![target];
        self.walk(&mut cur, &mut out);
        out
    }
    fn walk(&mut self, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        // cur: target first
        let v = *cur.last().unwrap();
        if cur.len() > 1 && self.is_root(v) && self.live(v, v) == TRUST {
            out.push(cur.iter().rev().copied().collect());
        }
        for w in 0..self.n {
            if cur.contains(&w) || self.live(v, w) != TRUST {
                continue;
            }
            let mut cut = false;
            for x in cur.iter() {
                if self.live(*x, w) == REVOKED {
                    cut = true;
                }
            }
            if !cut {
                cur.push(w);
                self.walk(cur, out);
                cur.pop();
            }
        }
    }

    /// weight of a key by the documented rule: a root allows chains of
    /// max_chain_len trusts (16 at most) after its own; its weight is 2^that and
    /// every further trust halves it
    pub fn weight(&mut self, target: usize) -> u32 {
        let mut best = match self.lens[target] {
            Some(l) => weight_of(l, 0),
            None => 0,
        };
        for p in self.paths(target) {
            let w = weight_of(self.lens[p[0]].unwrap(), p.len() as u32 - 1);
            if w > best {
                best = w;
            }
        }
        best
    }
}

pub fn weight_of(max_chain_len: u32, steps: u32) -> u32 {
    let l = if max_chain_len > 16 { 16 } else { max_chain_len };
    if steps > l {
        0
    } else {
        1u32 << (l - steps)
    }
}

#[derive(Clone)]
pub struct Store(pub Rc<RefCell<World>>);

impl Storage for Store {
    type Error = NoError;
    fn get_relation(&self, f: &PK, b: &PK) -> Result<Option<TrustRelation>, NoError> {
        let mut w = self.0.borrow_mut();
        let (Some(f), Some(b)) = (w.index(f.as_ref()), w.index(b.as_ref())) else {
            return Ok(None);
        };
        Ok(match w.held(f, b) {
            NONE => None,
            REVOKED => Some(TrustRelation::Revocation(w.revocation(f, b))),
            _ => Some(TrustRelation::Auth(Auth {
                trust: w.trust(f, b),
                issued_by: w.pks[b].clone(),
            })),
        })
    }
    fn get_authorizations(&self, f: &PK) -> Result<Vec<Auth>, NoError> {
        let mut w = self.0.borrow_mut();
        let Some(f) = w.index(f.as_ref()) else { return Ok(vec![]) };
        let mut v = vec![];
        for b in 0..w.n {
            let h = w.held(f, b);
            if h == TRUST || h == EXPIRED {
                v.push(Auth { trust: w.trust(f, b), issued_by: w.pks[b].clone() });
            }
        }
        Ok(v)
    }
    fn get_revocations(&self, f: &PK) -> Result<Vec<Revocation>, NoError> {
        let mut w = self.0.borrow_mut();
        let Some(f) = w.index(f.as_ref()) else { return Ok(vec![]) };
        let mut v = vec![];
        for b in 0..w.n {
            if w.held(f, b) == REVOKED {
                v.push(w.revocation(f, b));
            }
        }
        Ok(v)
    }
    fn insert(&mut self, r: TrustRelation) -> Result<(), NoError> {
        match r {
            TrustRelation::Auth(a) => self.0.borrow_mut().stored.push(a),
            TrustRelation::Revocation(r) => self.0.borrow_mut().revoked.push(r),
        }
        Ok(())
    }
    fn get_root_weight_factor(&self, pk: &PK) -> Result<Option<WeightFactor>, NoError> {
        let w = self.0.borrow();
        Ok(w.index(pk.as_ref()).and_then(|i| w.roots[i]))
    }
    fn set_root_weight_factor(&mut self, pk: PK, f: WeightFactor) -> Result<(), NoError> {
        let mut w = self.0.borrow_mut();
        let i = w.index(pk.as_ref()).unwrap();
        w.roots[i] = Some(f);
        Ok(())
    }
    fn root_keys(&self) -> Result<Vec<PK>, NoError> {
        Ok(self.0.borrow().root_pks().into_iter().map(|p| p.into()).collect())
    }
    fn revoke(&mut self, r: Revocation) -> Result<(), NoError> {
        self.0.borrow_mut().revoked.push(r);
        Ok(())
    }
    fn update_auth(&mut self, a: Auth, _cur: Duration) -> Result<(), NoError> {
        let mut w = self.0.borrow_mut();
        if let (Some(f), Some(b)) = (w.index(&a.trust.issued_for), w.index(&a.issued_by)) {
            let c = f * w.n + b;
            let old = w.rel[c];
            w.undo.push((c, old));
            w.set(f, b, TRUST);
            w.trusts[c] = Some(a.trust.clone());
        }
        w.stored.push(a);
        Ok(())
    }
    fn remove_expired(&mut self, t: Duration) -> Result<(), NoError> {
        // the harness asks at times strictly between EARLY and LATE
        if (t > Duration::from_secs(EARLY)) & (t < Duration::from_secs(LATE)) {
            self.0.borrow_mut().gc = true;
        }
        Ok(())
    }
}

pub type Graph = TrustGraph<Store>;

#[derive(Clone, Copy, PartialEq)]
pub enum Len {
    /// long enough for every chain
    Long,
    /// 0, 1, 2 and more than the maximum, in any rotation
    Small,
    /// any 32-bit number
    Any,
}

/// `n` keys, any subset of them roots
pub fn world(n: usize, limits: Limits, lens: Len) -> (Rc<RefCell<World>>, Graph) {
    let w = Rc::new(RefCell::new(World::new(n, limits)));
    let mut g = TrustGraph::new(Store(w.clone()));
    // keys other than the first are interchangeable: only the number of roots
    // among them matters
    let shift = if lens == Len::Small { choose("lens", 4) as usize } else { 0 };
    let first = choose_bool("root");
    let others = choose("roots", n as u64) as usize;
    for k in 0..n {
        if if k == 0 { first } else { k <= others } {
            let len = match lens {
                Len::Any => bits("max_chain_len", 32) as u32,
                Len::Small => [0u32, 1, 2, 17][(shift + k) % 4],
                Len::Long => 10 + k as u32,
            };
            let pk = w.borrow().pks[k].clone();
            if g.set_root(pk, len).is_err() {
                fail("a root can be set");
            }
            w.borrow_mut().lens[k] = Some(len);
        }
    }
    (w, g)
}

/// a time after EARLY and before LATE
pub fn now() -> Duration {
    let t = bits("now", 17);
    assume((t > EARLY) & (t < LATE));
    Duration::from_secs(t)
}

fn certs(g: &mut Graph, pk: &PublicKey, t: Duration) -> Vec<Certificate> {
    match g.get_all_certs(pk.clone(), t) {
        Ok(c) => c,
        Err(_) => {
            fail("certificates can be read");
            vec![]
        }
    }
}

fn obs_certs(w: &World, c: &[Certificate]) {
    let mut v: Vec<Vec<u8>> = c
        .iter()
        .map(|c| c.chain.iter().map(|t| w.index(&t.issued_for).unwrap_or(99) as u8).collect())
        .collect();
    v.sort();
    for x in v {
        obs("cert", &x);
    }
}

fn sound(n: usize, l: Limits) {
    let (w, mut g) = world(n, l, Len::Long);
    let target = 0;
    let t = now();
    let pk = w.borrow().pks[target].clone();
    let cs = certs(&mut g, &pk, t);
    check_sound(&mut w.borrow_mut(), &cs, target, t);
    obs_certs(&w.borrow(), &cs);
}

fn check_sound(w: &mut World, cs: &[Certificate], target: usize, t: Duration) {
    let pk = w.pks[target].clone();
    let roots = w.root_pks();
    for c in cs.iter() {
        check(c.chain.len() > 1, "a certificate has more than the root trust");
        check(c.chain.last().unwrap().issued_for == pk, "a certificate ends at the asked key");
        let mut prev = w.index(&c.chain[0].issued_for).unwrap();
        check(w.is_root(prev), "a certificate starts at a root");
        let mut used: Vec<(usize, usize)> = vec![];
        for tr in c.chain.iter() {
            let f = w.index(&tr.issued_for).unwrap();
            check(w.live(f, prev) == TRUST, "every link is a stored, unexpired trust of the previous key");
            check(w.trust(f, prev) == *tr, "every link is the stored trust");
            check(!used.contains(&(f, prev)), "no trust is used twice");
            used.push((f, prev));
            prev = f;
        }
        check(
            Certificate::verify(c, &roots, t).is_ok(),
            "a returned certificate verifies for the roots of the graph",
        );
        reach("certificate");
    }
}

fn complete(n: usize, l: Limits) {
    let (w, mut g) = world(n, l, Len::Long);
    let target = 0;
    let t = now();
    let pk = w.borrow().pks[target].clone();
    let cs = certs(&mut g, &pk, t);
    check_complete(&mut w.borrow_mut(), &cs, target, t);
    obs_certs(&w.borrow(), &cs);
}

fn check_complete(w: &mut World, cs: &[Certificate], target: usize, _t: Duration) {
    for p in w.paths(target) {
        let mut chain = vec![];
        let mut prev = p[0];
        for k in p.iter() {
            chain.push(w.trust(*k, prev));
            prev = *k;
        }
        let c = Certificate::new_unverified(chain);
        let m = cs.iter().filter(|x| **x == c).count();
        check(m > 0, "every unrevoked chain of trusts from a root is returned");
        check(m == 1, "every chain is returned once");
        reach("path");
    }
    for i in 0..cs.len() {
        for j in 0..i {
            check(cs[i] != cs[j], "no certificate is returned twice");
        }
    }
}

fn revoked(n: usize, l: Limits) {
    let (w, mut g) = world(n, l, Len::Long);
    let target = 0;
    let t = now();
    let pk = w.borrow().pks[target].clone();
    let cs = certs(&mut g, &pk, t);
    check_revoked(&mut w.borrow_mut(), &cs, target, t);
    obs_certs(&w.borrow(), &cs);
}

fn check_revoked(w: &mut World, cs: &[Certificate], target: usize, _t: Duration) {
    let pk = w.pks[target].clone();
    for c in cs.iter() {
        let k: Vec<usize> = c.chain.iter().map(|t| w.index(&t.issued_for).unwrap()).collect();
        for j in 0..k.len() {
            for i in 0..j {
                if k[i] != k[j] {
                    check(
                        w.live(k[j], k[i]) != REVOKED,
                        "no returned chain contains a key revoked by an earlier key of the chain",
                    );
                }
            }
        }
    }
    // what the search says about revocations of one key
    if let Ok(r) = g_revocations(w, &pk) {
        for b in 0..w.n {
            let m = r.iter().filter(|r| r.revoked_by == w.pks[b] && r.pk == pk).count();
            check(m == (w.live(target, b) == REVOKED) as usize, "get_revocations lists the revocations");
        }
    }
}

fn g_revocations(w: &mut World, pk: &PublicKey) -> Result<Vec<Revocation>, ()> {
    // the world is borrowed here, so ask a second graph over the same content
    let f = w.index(pk).unwrap();
    let mut copy = World::new(w.n, Limits { revocations: 0, expired: 0 });
    for b in 0..w.n {
        let v = w.raw(f, b);
        copy.set(f, b, v);
    }
    let g = TrustGraph::new(Store(Rc::new(RefCell::new(copy))));
    g.get_revocations(pk.clone()).map_err(|_| ())
}

const FULL: Limits = Limits { revocations: 99, expired: 0 };

/// all contents over 3 keys
#[no_mangle]
pub extern "C" fn h_graph_sound() {
    sound(3, FULL);
}
#[no_mangle]
pub extern "C" fn h_graph_complete() {
    complete(3, FULL);
}
#[no_mangle]
pub extern "C" fn h_graph_revoked() {
    revoked(3, FULL);
}
/// 4 keys, up to one revocation
#[no_mangle]
pub extern "C" fn h_graph_sound4() {
    sound(4, Limits { revocations: 1, expired: 0 });
}
#[no_mangle]
pub extern "C" fn h_graph_complete4() {
    complete(4, Limits { revocations: 1, expired: 0 });
}
#[no_mangle]
pub extern "C" fn h_graph_revoked4() {
    revoked(4, Limits { revocations: 1, expired: 0 });
}
/// expired trusts among the stored ones
#[no_mangle]
pub extern "C" fn h_graph_expired() {
    sound(3, Limits { revocations: 0, expired: 9 });
}

fn weight(n: usize, l: Limits) {
    let (w, mut g) = world(n, l, Len::Any);
    let target = 0;
    let t = now();
    let pk = w.borrow().pks[target].clone();
    let want = w.borrow_mut().weight(target);
    match g.weight(pk, t) {
        Ok(x) => {
            check(
                x == want,
                "the weight of a key is the best over its chains of 2^(max_chain_len - trusts after the root)",
            );
            obs_u64("w", x as u64);
        }
        Err(_) => fail("a weight can be computed"),
    }
}

/// trusts only, any max_chain_len
#[no_mangle]
pub extern "C" fn h_graph_weight() {
    weight(3, Limits { revocations: 0, expired: 0 });
}
#[no_mangle]
pub extern "C" fn h_graph_weight_rev() {
    weight(3, Limits { revocations: 1, expired: 1 });
}

/// one chain of any length up to 20 from the only root
#[no_mangle]
pub extern "C" fn h_graph_weight_line() {
    let n = 2 + choose("n", 19) as usize;
    let w = Rc::new(RefCell::new(World::new(n, Limits { revocations: 0, expired: 0 })));
    let mut g = TrustGraph::new(Store(w.clone()));
    for f in 0..n {
        for b in 0..n {
            w.borrow_mut().set(f, b, if b == f + 1 || (f == b && f == n - 1) { TRUST } else { NONE });
        }
    }
    let len = bits("max_chain_len", 32) as u32;
    let root = w.borrow().pks[n - 1].clone();
    let pk = w.borrow().pks[0].clone();
    if g.set_root(root, len).is_err() {
        fail("a root can be set");
    }
    let want = weight_of(len, n as u32 - 1);
    match g.weight(pk, now()) {
        Ok(x) => {
            check(x == want, "the weight halves with every trust and is zero beyond max_chain_len");
            obs_u64("w", x as u64);
        }
        Err(_) => fail("a weight can be computed"),
    }
}

fn from(n: usize, l: Limits, lens: Len) {
    let (w, mut g) = world(n, l, lens);
    let target = 0;
    let via = choose("via", n as u64) as usize;
    let t = now();
    let (pk, vk) = (w.borrow().pks[target].clone(), w.borrow().pks[via].clone());
    if lens == Len::Any {
        let mut want = 0;
        {
            let mut w = w.borrow_mut();
            for p in w.paths(target) {
                if p.contains(&via) {
                    let x = weight_of(w.lens[p[0]].unwrap(), p.len() as u32 - 1);
                    if x > want {
                        want = x;
                    }
                }
            }
        }
        match g.weight_from(pk, vk, t) {
            Ok(x) => {
                check(x == want, "weight_from is the best weight over the chains through the issuer");
                obs_u64("w", x as u64);
            }
            Err(_) => fail("a weight can be computed"),
        }
        return;
    }
    let all = certs(&mut g, &pk, t);
    let some = match g.get_all_certs_from(pk.clone(), vk.clone(), t) {
        Ok(c) => c,
        Err(_) => {
            fail("certificates can be read");
            return;
        }
    };
    for c in all.iter() {
        let has = c.chain.iter().any(|t| t.issued_for == vk);
        let n = some.iter().filter(|x| *x == c).count();
        check(n == has as usize, "get_all_certs_from returns exactly the certificates that contain the issuer");
        if has {
            reach("through");
        }
    }
    for c in some.iter() {
        check(all.contains(c), "get_all_certs_from returns certificates of get_all_certs");
    }
    obs_certs(&w.borrow(), &some);
}

#[no_mangle]
pub extern "C" fn h_graph_from() {
    from(3, Limits { revocations: 1, expired: 0 }, Len::Long);
}
#[no_mangle]
pub extern "C" fn h_graph_weight_from() {
    from(3, Limits { revocations: 0, expired: 0 }, Len::Any);
}

/// what adding one trust must do
struct Offer {
    trust: Trust,
    f: usize,
    by: usize,
    genuine: bool,
}

fn offer(w: &World, f: usize, by: usize, spoil: bool) -> Offer {
    let n = w.n as u64;
    // genuine, signed by somebody else, or altered
    let how = if spoil { 1 + choose("how", 2) } else { 0 };
    let signer = if how == 1 { choose("signer", n) as usize } else { by };
    let (e, i) = (Duration::from_secs(bits("exp", 17)), Duration::from_secs(word("iss")));
    let mut trust = Trust::create(&w.keys[signer], w.pks[f].clone(), e, i);
    let mut genuine = signer == by;
    if how == 2 {
        let x = Duration::from_secs(bits("exp", 17));
        genuine = genuine & (x == e);
        trust.expires_at = x;
    }
    Offer { trust, f, by, genuine }
}

fn add_trust(n: usize, l: Limits, lens: Len) {
    let (w, mut g) = world(n, l, lens);
    let by = 0;
    let f = choose("for", 2) as usize;
    let spoil = choose_bool("spoil");
    let o = offer(&w.borrow(), f, by, spoil);
    let t = now();
    let pk = w.borrow().pks[by].clone();
    let r = g.add_trust(o.trust.clone(), pk.clone(), t);
    let good = o.genuine & (o.trust.expires_at >= t);
    let mut w = w.borrow_mut();
    w.rollback();
    check(w.revoked.is_empty(), "no revocation is stored by add_trust");
    match r {
        Ok(x) => {
            check(good, "only a genuine unexpired trust is accepted");
            let wi = w.weight(by);
            let want = if f == by { wi } else { wi / 2 };
            check(x == want, "the weight of a trust is half its issuer's, or all if self-signed");
            check(
                w.stored.len() == (x != 0) as usize,
                "a trust is stored exactly if it has weight",
            );
            for a in w.stored.iter() {
                check(a.trust == o.trust && a.issued_by == pk, "the stored trust is the given one");
            }
            obs_u64("w", x as u64);
            reach(if x != 0 { "stored" } else { "weightless" });
        }
        Err(_) => {
            check(!good, "a genuine unexpired trust is accepted");
            check(w.stored.is_empty(), "a refused trust is not stored");
            obs_u64("w", 9999);
            reach("refused");
        }
    }
}

#[no_mangle]
pub extern "C" fn h_graph_add_trust() {
    add_trust(3, Limits { revocations: 0, expired: 0 }, Len::Small);
}
#[no_mangle]
pub extern "C" fn h_graph_add_trust2() {
    add_trust(2, Limits { revocations: 2, expired: 2 }, Len::Any);
}

/// a certificate is added trust by trust
fn add_cert(n: usize, len: usize, l: Limits) {
    let (w, mut g) = world(n, l, Len::Long);
    let t = now();
    let bad = choose("bad", len as u64 + 1) as usize;
    let mut offers: Vec<Offer> = vec![];
    let mut by = choose("start", n as u64) as usize;
    for k in 0..len {
        let f = if k == 0 { by } else { choose("next", n as u64) as usize };
        offers.push(offer(&w.borrow(), f, by, k == bad));
        by = f;
    }
    let cert = Certificate::new_unverified(offers.iter().map(|o| o.trust.clone()).collect());
    let r = g.add(cert, t);
    // the same by the rules, on the content before
    let mut m = w.borrow_mut();
    m.rollback();
    let mut stored: Vec<(usize, usize)> = vec![];
    let mut ok = true;
    for o in offers.iter() {
        if !(o.genuine & (o.trust.expires_at >= t)) {
            ok = false;
            break;
        }
        let x = m.weight(o.by);
        let x = if o.f == o.by { x } else { x / 2 };
        if x > 0 {
            m.set(o.f, o.by, TRUST);
            stored.push((o.f, o.by));
        }
    }
    check(r.is_ok() == ok, "a certificate is added exactly if every trust in it is genuine and unexpired");
    check(m.stored.len() == stored.len(), "the trusts connected to a root are stored, no others");
    for (k, a) in m.stored.iter().enumerate() {
        let (f, b) = stored[k];
        check(
            a.trust.issued_for == m.pks[f] && a.issued_by == m.pks[b],
            "the stored trusts are the certificate's, with the issuers of the chain",
        );
    }
    obs_u64("stored", m.stored.len() as u64);
    reach(if ok { "added" } else { "refused" });
}

#[no_mangle]
pub extern "C" fn h_graph_add_cert() {
    let len = 1 + choose("len", 2) as usize;
    add_cert(2, len, Limits { revocations: 1, expired: 0 });
}
#[no_mangle]
pub extern "C" fn h_graph_add_cert_long() {
    add_cert(2, 3, Limits { revocations: 0, expired: 0 });
}
#[no_mangle]
pub extern "C" fn h_graph_add_cert3() {
    add_cert(3, 2, Limits { revocations: 0, expired: 0 });
}

/// an empty certificate is refused
#[no_mangle]
pub extern "C" fn h_graph_add_empty() {
    let (w, mut g) = world(2, Limits { revocations: 0, expired: 0 }, Len::Long);
    let r = g.add(Certificate::new_unverified(vec![]), now());
    check(r.is_err(), "an empty certificate is refused");
    check(w.borrow().stored.is_empty(), "nothing is stored");
    obs_bool("ok", r.is_ok());
}

/// revoke stores exactly genuine revocations
#[no_mangle]
pub extern "C" fn h_graph_revoke() {
    let (w, mut g) = world(3, Limits { revocations: 0, expired: 0 }, Len::Long);
    let (signer, by, pk, pk2) = (
        choose("signer", 3) as usize,
        choose("by", 3) as usize,
        choose("pk", 3) as usize,
        choose("pk", 3) as usize,
    );
    let (t1, t2) = (word("at"), word("at"));
    let mut r = Revocation::create(
        &w.borrow().keys[signer],
        w.borrow().pks[pk].clone(),
        Duration::from_secs(t1),
    );
    r.revoked_by = w.borrow().pks[by].clone();
    r.pk = w.borrow().pks[pk2].clone();
    r.revoked_at = Duration::from_secs(t2);
    let genuine = signer == by && pk == pk2 && t1 == t2;
    let ok = g.revoke(r.clone()).is_ok();
    let w = w.borrow();
    check(ok == genuine, "exactly genuine revocations are accepted");
    check(w.revoked.len() == ok as usize, "exactly accepted revocations are stored");
    check(w.stored.is_empty(), "no trust is stored");
    for x in w.revoked.iter() {
        check(
            x.pk == r.pk && x.revoked_by == r.revoked_by && x.revoked_at == r.revoked_at && x.signature == r.signature,
            "the stored revocation is the given one",
        );
    }
    obs_bool("ok", ok);
}

/// a chain of `n` keys with any two relations changed
fn spine(n: usize, check_it: fn(&mut World, &[Certificate], usize, Duration)) {
    let w = Rc::new(RefCell::new(World::new(n, Limits { revocations: 0, expired: 0 })));
    let mut g = TrustGraph::new(Store(w.clone()));
    for f in 0..n {
        for b in 0..n {
            w.borrow_mut().set(f, b, if b == f + 1 || (f == b && f == n - 1) { TRUST } else { NONE });
        }
    }
    let cells = (n * n) as u64;
    let c1 = choose("cell", cells);
    let c2 = choose("cell", cells);
    assume(c1 <= c2);
    for c in [c1 as usize, c2 as usize] {
        let v = [NONE, TRUST, REVOKED, EXPIRED][choose("rel", 4) as usize];
        w.borrow_mut().set(c / n, c % n, v);
    }
    let second = choose("second_root", n as u64) as usize;
    for r in [n - 1, second] {
        let pk = w.borrow().pks[r].clone();
        if g.set_root(pk, 16).is_err() {
            fail("a root can be set");
        }
        w.borrow_mut().lens[r] = Some(16);
    }
    let t = now();
    let pk = w.borrow().pks[0].clone();
    let cs = certs(&mut g, &pk, t);
    check_it(&mut w.borrow_mut(), &cs, 0, t);
    obs_certs(&w.borrow(), &cs);
}

#[no_mangle]
pub extern "C" fn h_graph_sound_spine() {
    spine(5, check_sound);
}
#[no_mangle]
pub extern "C" fn h_graph_complete_spine() {
    spine(5, check_complete);
}
#[no_mangle]
pub extern "C" fn h_graph_revoked_spine() {
    spine(5, check_revoked);
}
#[no_mangle]
pub extern "C" fn h_graph_sound_spine6() {
    spine(6, check_sound);
}
#[no_mangle]
pub extern "C" fn h_graph_complete_spine6() {
    spine(6, check_complete);
}
#[no_mangle]
pub extern "C" fn h_graph_revoked_spine6() {
    spine(6, check_revoked);
}
