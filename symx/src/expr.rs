//! Hash-consed bit-vector expressions (width 1..=128) with light simplification.
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

pub type E = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u16, u128),
    Var(u16, u32),
    Bin(B, u16, E, E),
    Cmp(C, E, E),
    ZExt(u16, E),
    SExt(u16, E),
    /// lo, width
    Extract(u16, u16, E),
    /// hi, lo
    Concat(u16, E, E),
    Ite(u16, E, E, E),
    Not(u16, E),
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub vars: Vec<(String, u16)>,
    varmap: HashMap<(String, u16), u32>,
    varsets: Vec<Option<Rc<Vec<u32>>>>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx{nodes:vec![Node::Const(1,0)],map:Default::default(),vars:vec![],varmap:HashMap::new(),varsets:vec![None]});
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

fn intern(n: Node) -> E {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(e) = c.map.get(&n) {
            return *e;
        }
        let id = c.nodes.len() as E;
        c.nodes.push(n);
        c.varsets.push(None);
        c.map.insert(n, id);
        id
    })
}
pub fn node(e: E) -> Node {
    CTX.with(|c| c.borrow().nodes[e as usize])
}
pub fn width(e: E) -> u16 {
    match node(e) {
        Node::Const(w, _) | Node::Var(w, _) | Node::Bin(_, w, _, _) => w,
        Node::Cmp(..) => 1,
        Node::ZExt(w, _) | Node::SExt(w, _) | Node::Extract(_, w, _) => w,
        Node::Concat(w, _, _) | Node::Ite(w, _, _, _) | Node::Not(w, _) => w,
    }
}
pub fn konst(w: u16, v: u128) -> E {
    intern(Node::Const(w, v & mask(w)))
}
pub fn is_const(e: E) -> Option<u128> {
    match node(e) {
        Node::Const(_, v) => Some(v),
        _ => None,
    }
}
pub fn var(name: &str, w: u16) -> E {
    let id = CTX.with(|c| {
        let mut c = c.borrow_mut();
        let k = (name.to_string(), w);
        if let Some(i) = c.varmap.get(&k) {
            return *i;
        }
        let i = c.vars.len() as u32;
        c.vars.push(k.clone());
        c.varmap.insert(k, i);
        i
    });
    intern(Node::Var(w, id))
}
pub fn var_info(id: u32) -> (String, u16) {
    CTX.with(|c| c.borrow().vars[id as usize].clone())
}

pub fn vars_of(e: E) -> Rc<Vec<u32>> {
    if let Some(v) = CTX.with(|c| c.borrow().varsets[e as usize].clone()) {
        return v;
    }
    let r: Rc<Vec<u32>> = match node(e) {
        Node::Const(..) => Rc::new(vec![]),
        Node::Var(_, id) => Rc::new(vec![id]),
        Node::Bin(_, _, a, b) | Node::Cmp(_, a, b) | Node::Concat(_, a, b) => {
            merge(&vars_of(a), &vars_of(b))
        }
        Node::ZExt(_, a) | Node::SExt(_, a) | Node::Extract(_, _, a) | Node::Not(_, a) => vars_of(a),
        Node::Ite(_, c, a, b) => merge(&merge(&vars_of(c), &vars_of(a)), &vars_of(b)),
    };
    CTX.with(|c| c.borrow_mut().varsets[e as usize] = Some(r.clone()));
    r
}
fn merge(a: &Rc<Vec<u32>>, b: &Rc<Vec<u32>>) -> Rc<Vec<u32>> {
    if a.is_empty() || Rc::ptr_eq(a, b) {
        return b.clone();
    }
    if b.is_empty() {
        return a.clone();
    }
    let mut v: Vec<u32> = a.iter().chain(b.iter()).cloned().collect();
    v.sort();
    v.dedup();
    Rc::new(v)
}

pub fn fold_bin(op: B, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(
        m & match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::UDiv => a.checked_div(b)?,
            B::URem => a.checked_rem(b)?,
            B::SDiv => sext(a, w).checked_div(sext(b, w))? as u128,
            B::SRem => sext(a, w).checked_rem(sext(b, w))? as u128,
            B::Shl => {
                if b >= w as u128 {
                    0
                } else {
                    a << b
                }
            }
            B::LShr => {
                if b >= w as u128 {
                    0
                } else {
                    a >> b
                }
            }
            B::AShr => {
                let s = if b >= w as u128 { w as u128 - 1 } else { b };
                (sext(a, w) >> s) as u128
            }
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
        },
    )
}
pub fn fold_cmp(op: C, w: u16, a: u128, b: u128) -> bool {
    match op {
        C::Eq => a == b,
        C::Ult => a < b,
        C::Ule => a <= b,
        C::Slt => sext(a, w) < sext(b, w),
        C::Sle => sext(a, w) <= sext(b, w),
    }
}

/// split view (hi, lo, lo_width)
fn split(e: E) -> Option<(Option<E>, E, u16, u16)> {
    // returns (hi expr or None meaning zero, lo expr, lo width, hi width)
    match node(e) {
        Node::Concat(w, h, l) => {
            let lw = width(l);
            Some((Some(h), l, lw, w - lw))
        }
        Node::ZExt(w, a) => {
            let lw = width(a);
            Some((None, a, lw, w - lw))
        }
        _ => None,
    }
}

pub fn bin(op: B, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        if let Some(r) = fold_bin(op, w, x, y) {
            return konst(w, r);
        }
    }
    let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
    if comm && ca.is_some() {
        return bin(op, b, a);
    }
    if w == 1 {
        match op {
            B::Add | B::Sub => return bin(B::Xor, a, b),
            B::Mul => return bin(B::And, a, b),
            _ => {}
        }
    }
    if a == b {
        match op {
            B::And | B::Or => return a,
            B::Xor | B::Sub => return konst(w, 0),
            _ => {}
        }
    }
    if let Some(k) = cb {
        match op {
            B::Add | B::Sub | B::Or | B::Xor | B::Shl | B::LShr | B::AShr if k == 0 => return a,
            B::Mul | B::And if k == 0 => return konst(w, 0),
            B::Mul | B::UDiv if k == 1 => return a,
            B::And if k == mask(w) => return a,
            B::Or if k == mask(w) => return b,
            B::Xor if k == mask(w) => return not(a),
            B::Shl if k >= w as u128 => return konst(w, 0),
            B::LShr if k >= w as u128 => return konst(w, 0),
            B::Shl => {
                let k = k as u16;
                return concat(extract(a, 0, w - k), konst(k, 0));
            }
            B::LShr => {
                let k = k as u16;
                return zext(extract(a, k, w - k), w);
            }
            B::UDiv | B::URem if k > 0 && ubound(a) < k => {
                return if op == B::UDiv { konst(w, 0) } else { a };
            }
            B::UDiv if k.is_power_of_two() => {
                return bin(B::LShr, a, konst(w, k.trailing_zeros() as u128))
            }
            B::URem if k.is_power_of_two() => return bin(B::And, a, konst(w, k - 1)),
            B::Mul if k.is_power_of_two() => {
                return bin(B::Shl, a, konst(w, k.trailing_zeros() as u128))
            }
            B::And => {
                if (k + 1).is_power_of_two() {
                    let n = (k + 1).trailing_zeros() as u16;
                    return zext(extract(a, 0, n), w);
                }
            }
            B::Sub => return bin(B::Add, a, konst(w, 0u128.wrapping_sub(k))),
            B::Add => {
                if let Node::Bin(B::Add, _, x, y) = node(a) {
                    if let Some(k2) = is_const(y) {
                        return bin(B::Add, x, konst(w, k.wrapping_add(k2)));
                    }
                }
            }
            _ => {}
        }
        // distribute over ite with constant arms
        if let Node::Ite(_, c, x, y) = node(a) {
            if is_const(x).is_some() && is_const(y).is_some() {
                return ite(c, bin(op, x, b), bin(op, y, b));
            }
        }
    }
    if w == 1 && matches!(op, B::And | B::Or) {
        if not(a) == b {
            return konst(1, (op == B::Or) as u128);
        }
    }
    if matches!(op, B::And | B::Or | B::Xor) {
        if let (Some((h1, l1, lw1, hw)), Some((h2, l2, lw2, _))) = (split(a), split_or_const(b)) {
            if lw1 == lw2 {
                let z = |h: Option<E>| h.unwrap_or_else(|| konst(hw, 0));
                return concat(bin(op, z(h1), z(h2)), bin(op, l1, l2));
            }
        }
        // const on b with different split
        if let (Some(k), Some((h1, l1, lw, hw))) = (cb, split(a)) {
            let h = h1.unwrap_or_else(|| konst(hw, 0));
            return concat(
                bin(op, h, konst(hw, k >> lw)),
                bin(op, l1, konst(lw, k & mask(lw))),
            );
        }
    }
    if comm && a > b && cb.is_none() {
        return intern(Node::Bin(op, w, b, a));
    }
    intern(Node::Bin(op, w, a, b))
}
fn split_or_const(e: E) -> Option<(Option<E>, E, u16, u16)> {
    split(e)
}

pub fn not(a: E) -> E {
    let w = width(a);
    match node(a) {
        Node::Const(_, v) => konst(w, !v),
        Node::Not(_, x) => x,
        Node::Cmp(C::Ult, x, y) => cmp(C::Ule, y, x),
        Node::Cmp(C::Ule, x, y) => cmp(C::Ult, y, x),
        Node::Cmp(C::Slt, x, y) => cmp(C::Sle, y, x),
        Node::Cmp(C::Sle, x, y) => cmp(C::Slt, y, x),
        _ => intern(Node::Not(w, a)),
    }
}

/// A cheap upper bound of an unsigned value.
fn ubound(a: E) -> u128 {
    match node(a) {
        Node::Const(_, v) => v,
        Node::ZExt(_, x) => ubound(x),
        Node::Ite(_, _, x, y) => ubound(x).max(ubound(y)),
        _ => mask(width(a)),
    }
}

pub fn cmp(op: C, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        return konst(1, fold_cmp(op, w, x, y) as u128);
    }
    if a == b {
        return konst(1, matches!(op, C::Eq | C::Ule | C::Sle) as u128);
    }
    if op == C::Eq && ca.is_some() {
        return cmp(op, b, a);
    }
    if let Some(k) = cb {
        match op {
            C::Eq if w == 1 => return if k == 1 { a } else { not(a) },
            C::Ult if k == 0 => return konst(1, 0),
            C::Ult if k == 1 => return cmp(C::Eq, a, konst(w, 0)),
            C::Ule if k == mask(w) => return konst(1, 1),
            C::Ule if k == 0 => return cmp(C::Eq, a, b),
            _ => {}
        }
        match node(a) {
            Node::Ite(_, c, x, y) => {
                if is_const(x).is_some() || is_const(y).is_some() {
                    return ite(c, cmp(op, x, b), cmp(op, y, b));
                }
            }
            Node::ZExt(_, x) => {
                let xw = width(x);
                if matches!(op, C::Eq | C::Ult | C::Ule) {
                    if k > mask(xw) {
                        return konst(1, (op != C::Eq) as u128);
                    }
                    return cmp(op, x, konst(xw, k));
                }
                // signed: zext value is non-negative (w > xw)
                if sext(k, w) < 0 {
                    return konst(1, 0);
                }
                let uop = if op == C::Slt { C::Ult } else { C::Ule };
                if k > mask(xw) {
                    return konst(1, 1);
                }
                return cmp(uop, x, konst(xw, k));
            }
            Node::Concat(_, h, l) if op == C::Eq => {
                let lw = width(l);
                return bin(
                    B::And,
                    cmp(C::Eq, h, konst(w - lw, k >> lw)),
                    cmp(C::Eq, l, konst(lw, k & mask(lw))),
                );
            }
            Node::Not(_, x) if op == C::Eq => return cmp(C::Eq, x, konst(w, !k)),
            Node::Bin(B::Xor, _, x, y) if op == C::Eq => {
                if let Some(k2) = is_const(y) {
                    return cmp(C::Eq, x, konst(w, k ^ k2));
                }
                if k == 0 {
                    return cmp(C::Eq, x, y);
                }
            }
            Node::Bin(B::Add, _, x, y) if op == C::Eq => {
                if let Some(k2) = is_const(y) {
                    return cmp(C::Eq, x, konst(w, k.wrapping_sub(k2)));
                }
            }
            Node::Bin(B::Or, _, x, y) if op == C::Eq && k == 0 => {
                let z = konst(w, 0);
                return bin(B::And, cmp(C::Eq, x, z), cmp(C::Eq, y, z));
            }
            _ => {}
        }
    }
    if let Some(k) = ca {
        match op {
            C::Ult if k == mask(w) => return konst(1, 0),
            C::Ule if k == 0 => return konst(1, 1),
            C::Ult if k == 0 => return not(cmp(C::Eq, b, a)),
            _ => {}
        }
        match node(b) {
            Node::Ite(_, c, x, y) => {
                if is_const(x).is_some() || is_const(y).is_some() {
                    return ite(c, cmp(op, a, x), cmp(op, a, y));
                }
            }
            Node::ZExt(_, x) => {
                let xw = width(x);
                if matches!(op, C::Ult | C::Ule) {
                    if k > mask(xw) {
                        return konst(1, 0);
                    }
                    return cmp(op, konst(xw, k), x);
                }
            }
            _ => {}
        }
    }
    if let (Node::ZExt(_, x), Node::ZExt(_, y)) = (node(a), node(b)) {
        if width(x) == width(y) && matches!(op, C::Eq | C::Ult | C::Ule) {
            return cmp(op, x, y);
        }
    }
    if op == C::Eq {
        if let (Node::Concat(_, h1, l1), Node::Concat(_, h2, l2)) = (node(a), node(b)) {
            if width(l1) == width(l2) {
                return bin(B::And, cmp(C::Eq, h1, h2), cmp(C::Eq, l1, l2));
            }
        }
        if a > b {
            return intern(Node::Cmp(op, b, a));
        }
    }
    intern(Node::Cmp(op, a, b))
}

pub fn zext(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    match node(a) {
        Node::Const(_, v) => konst(w, v),
        Node::ZExt(_, x) => zext(x, w),
        Node::Ite(_, c, x, y) if is_const(x).is_some() && is_const(y).is_some() => {
            ite(c, zext(x, w), zext(y, w))
        }
        _ => intern(Node::ZExt(w, a)),
    }
}
pub fn sext_e(a: E, w: u16) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    match node(a) {
        Node::Const(_, v) => konst(w, sext(v, aw) as u128),
        Node::ZExt(_, x) => zext(x, w),
        Node::Ite(_, c, x, y) if is_const(x).is_some() && is_const(y).is_some() => {
            ite(c, sext_e(x, w), sext_e(y, w))
        }
        _ if aw == 1 => ite(a, konst(w, u128::MAX), konst(w, 0)),
        _ => intern(Node::SExt(w, a)),
    }
}
pub fn extract(a: E, lo: u16, w: u16) -> E {
    let aw = width(a);
    debug_assert!(lo + w <= aw && w > 0, "extract {} {} of {}", lo, w, aw);
    if w == aw {
        return a;
    }
    match node(a) {
        Node::Const(_, v) => konst(w, v >> lo),
        Node::Extract(l2, _, x) => extract(x, lo + l2, w),
        Node::Concat(_, h, l) => {
            let lw = width(l);
            if lo >= lw {
                extract(h, lo - lw, w)
            } else if lo + w <= lw {
                extract(l, lo, w)
            } else {
                concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo))
            }
        }
        Node::ZExt(_, x) => {
            let xw = width(x);
            if lo >= xw {
                konst(w, 0)
            } else if lo + w <= xw {
                extract(x, lo, w)
            } else {
                zext(extract(x, lo, xw - lo), w)
            }
        }
        Node::SExt(_, x) if lo + w <= width(x) => extract(x, lo, w),
        Node::Ite(_, c, x, y) if is_const(x).is_some() || is_const(y).is_some() => {
            ite(c, extract(x, lo, w), extract(y, lo, w))
        }
        Node::Bin(op @ (B::And | B::Or | B::Xor), _, x, y) => {
            bin(op, extract(x, lo, w), extract(y, lo, w))
        }
        Node::Bin(op @ (B::Add | B::Sub | B::Mul), _, x, y) if lo == 0 => {
            bin(op, extract(x, 0, w), extract(y, 0, w))
        }
        Node::Not(_, x) => not(extract(x, lo, w)),
        _ => intern(Node::Extract(lo, w, a)),
    }
}
pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    assert!(w <= 128);
    match (is_const(h), is_const(l)) {
        (Some(a), Some(b)) => return konst(w, (a << lw) | b),
        (Some(0), _) => return zext(l, w),
        _ => {}
    }
    if let (Node::Extract(lo1, _, x), Node::Extract(lo2, w2, y)) = (node(h), node(l)) {
        if x == y && lo1 == lo2 + w2 {
            return extract(x, lo2, w);
        }
    }
    // h = extract(x, lw..), l = x[0..lw] where l simplified differently
    if let Node::Extract(lo1, _, x) = node(h) {
        if lo1 >= lw && extract(x, lo1 - lw, lw) == l {
            return extract(x, lo1 - lw, w);
        }
    }
    if let Node::Concat(_, lh, ll) = node(l) {
        // try merging h with lh
        if let (Node::Extract(lo1, _, x), Node::Extract(lo2, w2, y)) = (node(h), node(lh)) {
            if x == y && lo1 == lo2 + w2 {
                return concat(extract(x, lo2, hw + w2), ll);
            }
        }
        if is_const(h).is_some() && is_const(lh).is_some() {
            return concat(concat(h, lh), ll);
        }
    }
    if let Node::ZExt(_, x) = node(h) {
        // zext(x) ++ l == zext(x ++ l)
        return zext(concat(x, l), w);
    }
    if let (Node::Ite(_, c1, a, b), Node::Ite(_, c2, x, y)) = (node(h), node(l)) {
        if c1 == c2 {
            return ite(c1, concat(a, x), concat(b, y));
        }
    }
    if let Node::Concat(_, hh, hl) = node(h) {
        // right-associate
        return concat(hh, concat(hl, l));
    }
    intern(Node::Concat(w, h, l))
}
pub fn ite(c: E, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if let Some(v) = is_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    if let Node::Not(_, x) = node(c) {
        return ite(x, b, a);
    }
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(B::Or, c, b),
            (Some(0), None) => return bin(B::And, not(c), b),
            (None, Some(0)) => return bin(B::And, c, a),
            (None, Some(1)) => return bin(B::Or, not(c), a),
            _ => {}
        }
    }
    if let Node::Ite(_, c2, x, _) = node(a) {
        if c2 == c {
            return ite(c, x, b);
        }
    }
    if let Node::Ite(_, c2, _, y) = node(b) {
        if c2 == c {
            return ite(c, a, y);
        }
    }
    intern(Node::Ite(w, c, a, b))
}

pub type Model = FxMap<u32, u128>;

pub fn eval(e: E, m: &Model) -> u128 {
    let mut memo: FxMap<E, u128> = Default::default();
    eval_rec(e, m, &mut memo)
}
fn eval_rec(e: E, m: &Model, memo: &mut FxMap<E, u128>) -> u128 {
    match node(e) {
        Node::Const(_, v) => return v,
        Node::Var(w, id) => return m.get(&id).cloned().unwrap_or(0) & mask(w),
        _ => {}
    }
    if let Some(v) = memo.get(&e) {
        return *v;
    }
    let r = match node(e) {
        Node::Const(_, v) => v,
        Node::Var(..) => unreachable!(),
        Node::Bin(op, w, a, b) => {
            let (x, y) = (eval_rec(a, m, memo), eval_rec(b, m, memo));
            match fold_bin(op, w, x, y) {
                Some(v) => v,
                // SMT-LIB semantics for division by zero
                None => match op {
                    B::UDiv => mask(w),
                    B::URem | B::SRem => x,
                    B::SDiv => {
                        if sext(x, w) >= 0 {
                            mask(w)
                        } else {
                            1
                        }
                    }
                    _ => 0,
                },
            }
        }
        Node::Cmp(op, a, b) => {
            let w = width(a);
            fold_cmp(op, w, eval_rec(a, m, memo), eval_rec(b, m, memo)) as u128
        }
        Node::ZExt(_, a) => eval_rec(a, m, memo),
        Node::SExt(w, a) => (sext(eval_rec(a, m, memo), width(a)) as u128) & mask(w),
        Node::Extract(lo, w, a) => (eval_rec(a, m, memo) >> lo) & mask(w),
        Node::Concat(_, h, l) => (eval_rec(h, m, memo) << width(l)) | eval_rec(l, m, memo),
        Node::Ite(_, c, a, b) => {
            if eval_rec(c, m, memo) == 1 {
                eval_rec(a, m, memo)
            } else {
                eval_rec(b, m, memo)
            }
        }
        Node::Not(w, a) => !eval_rec(a, m, memo) & mask(w),
    };
    memo.insert(e, r);
    r
}
