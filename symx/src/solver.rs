//! Z3 back end (C API), with constraint slicing and a query cache.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("symx: z3 error code {}", e);
    std::process::exit(3);
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub hard: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: P,
    s: P,
    hard: P,
    sorts: FxMap<u32, usize>,
    bits: [usize; 2],
    bv: FxMap<E, usize>,
    bo: FxMap<E, usize>,
    cache: FxMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    pub st: Stats,
    pub dump: Option<(String, usize)>,
    pub dump_over: u64,
}

#[derive(Debug)]
pub enum Sat {
    Sat(Rc<Vec<(u32, u128)>>),
    Unsat,
    Unknown,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, on_error);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            // easy queries: the incremental core; what it cannot do quickly goes
            // to the bit-blasting strategy for QF_BV
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 300_000);
            Z3_solver_set_params(c, s, p);
            let l = CString::new("QF_BV").unwrap();
            let hard = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, hard);
            let p2 = Z3_mk_params(c);
            Z3_params_inc_ref(c, p2);
            Z3_params_set_uint(c, p2, Z3_mk_string_symbol(c, k.as_ptr()), 500_000_000);
            Z3_solver_set_params(c, hard, p2);
            Solver {
                c,
                s,
                hard,
                sorts: Default::default(),
                bits: [0; 2],
                bv: Default::default(),
                bo: Default::default(),
                cache: Default::default(),
                st: Stats::default(),
                dump: None,
                dump_over: 0,
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(p) = self.sorts.get(&w) {
            return *p as P;
        }
        let s = unsafe { Z3_mk_bv_sort(self.c, w as c_uint) };
        self.keep(s);
        self.sorts.insert(w, s as usize);
        s
    }
    /// The 1-bit constant `v`.
    fn bit(&mut self, v: u64) -> P {
        if self.bits[v as usize] == 0 {
            let s = self.sort(1);
            let r = unsafe { Z3_mk_unsigned_int64(self.c, v, s) };
            self.keep(r);
            self.bits[v as usize] = r as usize;
        }
        self.bits[v as usize] as P
    }
    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn t(&mut self, e: E) -> P {
        if let Some(p) = self.bv.get(&e) {
            return *p as P;
        }
        let c = self.c;
        let r = unsafe {
            match node(e) {
                Node::Const(w, v) => {
                    let s = self.sort(w as u32);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Node::Var(w, id) => {
                    let n = CString::new(format!("v{}", id)).unwrap();
                    let s = self.sort(w as u32);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s)
                }
                Node::Bin(op, w, a, b) => {
                    if w == 1 && matches!(op, B::And | B::Or | B::Xor) {
                        let x = self.b(e);
                        self.b2bv(x)
                    } else {
                        let (x, y) = (self.t(a), self.t(b));
                        match op {
                            B::Add => Z3_mk_bvadd(c, x, y),
                            B::Sub => Z3_mk_bvsub(c, x, y),
                            B::Mul => Z3_mk_bvmul(c, x, y),
                            B::UDiv => Z3_mk_bvudiv(c, x, y),
                            B::SDiv => Z3_mk_bvsdiv(c, x, y),
                            B::URem => Z3_mk_bvurem(c, x, y),
                            B::SRem => Z3_mk_bvsrem(c, x, y),
                            B::Shl => Z3_mk_bvshl(c, x, y),
                            B::LShr => Z3_mk_bvlshr(c, x, y),
                            B::AShr => Z3_mk_bvashr(c, x, y),
                            B::And => Z3_mk_bvand(c, x, y),
                            B::Or => Z3_mk_bvor(c, x, y),
                            B::Xor => Z3_mk_bvxor(c, x, y),
                        }
                    }
                }
                Node::Cmp(..) => {
                    let x = self.b(e);
                    self.b2bv(x)
                }
                Node::ZExt(w, a) => {
                    let x = self.t(a);
                    Z3_mk_zero_ext(c, (w - width(a)) as c_uint, x)
                }
                Node::SExt(w, a) => {
                    let x = self.t(a);
                    Z3_mk_sign_ext(c, (w - width(a)) as c_uint, x)
                }
                Node::Extract(lo, w, a) => {
                    let x = self.t(a);
                    Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x)
                }
                Node::Concat(_, h, l) => {
                    let (x, y) = (self.t(h), self.t(l));
                    Z3_mk_concat(c, x, y)
                }
                Node::Ite(_, k, a, b) => {
                    let (k, x, y) = (self.b(k), self.t(a), self.t(b));
                    Z3_mk_ite(c, k, x, y)
                }
                Node::Not(_, a) => {
                    let x = self.t(a);
                    Z3_mk_bvnot(c, x)
                }
            }
        };
        self.keep(r);
        self.bv.insert(e, r as usize);
        r
    }
    fn b2bv(&mut self, x: P) -> P {
        let (one, zero) = (self.bit(1), self.bit(0));
        unsafe { Z3_mk_ite(self.c, x, one, zero) }
    }
    fn b(&mut self, e: E) -> P {
        if let Some(p) = self.bo.get(&e) {
            return *p as P;
        }
        let c = self.c;
        let r = unsafe {
            match node(e) {
                Node::Cmp(op, a, b) => {
                    let (x, y) = (self.t(a), self.t(b));
                    match op {
                        C::Eq => Z3_mk_eq(c, x, y),
                        C::Ult => Z3_mk_bvult(c, x, y),
                        C::Ule => Z3_mk_bvule(c, x, y),
                        C::Slt => Z3_mk_bvslt(c, x, y),
                        C::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                Node::Not(1, a) => {
                    let x = self.b(a);
                    Z3_mk_not(c, x)
                }
                Node::Bin(B::And, 1, a, b) => {
                    let v = [self.b(a), self.b(b)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                Node::Bin(B::Or, 1, a, b) => {
                    let v = [self.b(a), self.b(b)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                Node::Bin(B::Xor, 1, a, b) => {
                    let v = [self.b(a), self.b(b)];
                    Z3_mk_xor(c, v[0], v[1])
                }
                Node::Ite(1, k, a, b) => {
                    let (k, x, y) = (self.b(k), self.b(a), self.b(b));
                    Z3_mk_ite(c, k, x, y)
                }
                _ => {
                    let x = self.t(e);
                    let one = self.bit(1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        self.keep(r);
        self.bo.insert(e, r as usize);
        r
    }

    /// Is `cons && extra` satisfiable?  Only the slice of `cons` that shares variables
    /// (transitively) with `extra` is sent: the rest is satisfied by the caller's model.
    pub fn check(&mut self, cons: &[E], extra: E) -> Sat {
        if let Some(v) = is_const(extra) {
            return if v == 1 {
                Sat::Sat(Rc::new(vec![]))
            } else {
                Sat::Unsat
            };
        }
        let mut vs: std::collections::HashSet<u32> = vars_of(extra).iter().cloned().collect();
        let mut used = vec![false; cons.len()];
        let mut slice = vec![];
        loop {
            let mut ch = false;
            for (i, e) in cons.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let v = vars_of(*e);
                if v.iter().any(|x| vs.contains(x)) {
                    used[i] = true;
                    slice.push(*e);
                    for x in v.iter() {
                        ch |= vs.insert(*x);
                    }
                }
            }
            if !ch {
                break;
            }
        }
        slice.sort();
        slice.dedup();
        slice.push(extra);
        if let Some(r) = self.cache.get(&slice) {
            self.st.cache_hits += 1;
            return match r {
                Some(m) => Sat::Sat(m.clone()),
                None => Sat::Unsat,
            };
        }
        let t0 = Instant::now();
        self.st.queries += 1;
        let asts: Vec<P> = slice.iter().map(|e| self.b(*e)).collect();
        let mut s = self.s;
        let r = unsafe {
            Z3_solver_reset(self.c, s);
            for a in asts.iter() {
                Z3_solver_assert(self.c, s, *a);
            }
            let mut r = Z3_solver_check(self.c, s);
            if r == 0 {
                self.st.hard += 1;
                s = self.hard;
                Z3_solver_reset(self.c, s);
                for a in asts.iter() {
                    Z3_solver_assert(self.c, s, *a);
                }
                r = Z3_solver_check(self.c, s);
            }
            r
        };
        let out = match r {
            1 => {
                self.st.sat += 1;
                let mut mv = vec![];
                unsafe {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut vl: Vec<u32> = vs.into_iter().collect();
                    vl.sort();
                    for id in vl {
                        let (name, w) = var_info(id);
                        let ve = var(&name, w);
                        let a = self.t(ve);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.c, o))
                                .to_string_lossy()
                                .to_string();
                            Z3_dec_ref(self.c, o);
                            mv.push((id, s.parse::<u128>().unwrap_or(0)));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                }
                Sat::Sat(Rc::new(mv))
            }
            -1 => {
                self.st.unsat += 1;
                Sat::Unsat
            }
            _ => {
                self.st.unknown += 1;
                Sat::Unknown
            }
        };
        if let Some((dir, left)) = self.dump.clone() {
            if left > 0 && (self.dump_over == 0 || t0.elapsed().as_micros() as u64 > self.dump_over) {
                let txt = unsafe {
                    CStr::from_ptr(Z3_solver_to_string(self.c, s))
                        .to_string_lossy()
                        .to_string()
                };
                let exp = match r {
                    1 => "sat",
                    -1 => "unsat",
                    _ => "unknown",
                };
                let f = format!("{}/q{}_{}.smt2", dir, std::process::id(), left);
                let _ = std::fs::write(
                    f,
                    format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", exp, txt),
                );
                self.dump = Some((dir, left - 1));
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        match &out {
            Sat::Sat(m) => {
                self.cache.insert(slice, Some(m.clone()));
            }
            Sat::Unsat => {
                self.cache.insert(slice, None);
            }
            Sat::Unknown => {}
        }
        out
    }
}
