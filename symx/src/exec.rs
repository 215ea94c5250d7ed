//! Symbolic interpreter for LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Sat, Solver};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

pub const HEAP: u64 = 0x1000_0000;
pub const STACK: u64 = 0x4000_0000;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Option<Vec<E>>,
    pub ro: bool,
}
impl Obj {
    pub fn new(n: usize) -> Obj {
        Obj { data: vec![0; n], sym: None, ro: false }
    }
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Killed,
    Violation(String, String),
    Unsupported(String),
}
type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Frame {
    pub f: u32,
    pub body: Rc<Body>,
    pub pc: u32,
    pub slots: Vec<Val>,
    sbase: u32,
    ret: Option<u32>,
    normal: Option<u32>,
    varargs: Vec<(u64, Val)>,
}

type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    heap: Vec<Rc<Chunk>>,
    free: Vec<u32>,
    heap_next: u32,
    stack: Vec<Rc<Obj>>,
    globals: FxMap<u32, Rc<Obj>>,
    pub cons: Vec<E>,
    pub model: Model,
    fixed: FxMap<E, u128>,
    fixvars: Model,
    pub inputs: Vec<(Rc<str>, u32)>, // name#k, var id
    pub obs: Vec<(Rc<str>, Rc<Vec<Val>>)>,
    pub depth: u32,
    pub steps: u64,
    env_rand: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hook {
    None,
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    AlignedAlloc,
    RustAlloc,
    RustAllocZ,
    RustRealloc,
    RustDealloc,
    Ovf,
    Sat,
    MinMax,
    Abs,
    Bits,
    Fsh,
    Expect,
    IsConst,
    ObjSize,
    Trap,
    PanicFmt,
    Reduce,
    LoadRel,
    Ident,
    Getrandom,
    Getenv,
    Zero,
    MinusOne,
    Write,
    SymBits,
    SymAssume,
    SymAssert,
    SymFail,
    SymObs,
    SymReach,
    SymMemEq,
    SymConc,
    SymMode,
    SymIsConc,
    RandKeys,
    VaStart,
    VaEnd,
    VaCopy,
    Fabs,
    ClockZero,
    Exit,
    Usub,
    Skip,
}

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub trace: Vec<String>,
    pub inputs: Vec<(String, u128)>,
}
pub struct Sample {
    pub inputs: Vec<(String, u128)>,
    pub obs: Vec<(String, Vec<u8>)>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub forks: u64,
    pub maxdepth: u32,
    pub violations: Vec<Violation>,
    pub vcount: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub reach: BTreeMap<String, u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub asserts: u64,
}

pub struct Machine {
    pub m: Module,
    pub s: Solver,
    pub hooks: Vec<Hook>,
    pristine: FxMap<u32, Rc<Obj>>,
    pub work: Vec<State>,
    pub rep: Report,
    pub executed: BTreeSet<u32>,
    pub sample_every: u64,
    pub max_steps: u64,
    pub verbose: bool,
    pub deadline: Option<Instant>,
}

fn hook_of(n: &str, has_body: bool) -> Hook {
    use Hook::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let s = |p: &str| r.starts_with(p);
        if s("lifetime.") || s("dbg.") || s("assume") || s("experimental.noalias") || s("prefetch") || s("invariant") || s("donothing") || s("sideeffect") || s("x86.sse2.pause") || s("va_end") || s("stackrestore") || s("x86.sse2.mfence") {
            return Nop;
        }
        if s("memcpy") || s("memmove") { return Memcpy; }
        if s("memset") { return Memset; }
        if r.contains(".with.overflow") { return Ovf; }
        if s("uadd.sat") || s("usub.sat") || s("sadd.sat") || s("ssub.sat") { return Sat; }
        if s("umin.") || s("umax.") || s("smin.") || s("smax.") { return MinMax; }
        if s("abs.") { return Abs; }
        if s("ctpop") || s("ctlz") || s("cttz") || s("bswap") || s("bitreverse") { return Bits; }
        if s("fshl") || s("fshr") { return Fsh; }
        if s("expect") { return Expect; }
        if s("is.constant") { return IsConst; }
        if s("objectsize") { return ObjSize; }
        if s("trap") || s("ubsantrap") || s("debugtrap") { return Trap; }
        if s("vector.reduce") { return Reduce; }
        if s("load.relative") { return LoadRel; }
        if s("threadlocal.address") || s("launder") || s("strip.invariant") || s("ssa.copy") || s("ptrmask") { return Ident; }
        if s("va_start") { return VaStart; }
        if s("va_copy") { return VaCopy; }
        if s("fabs") { return Fabs; }
        if s("stacksave") { return Zero; }
        return None;
    }
    match n {
        "memcpy" | "memmove" => return Memcpy,
        "memset" => return Memset,
        "memcmp" => return Memcmp,
        "bcmp" => return Bcmp,
        "strlen" => return Strlen,
        "malloc" => return Malloc,
        "calloc" => return Calloc,
        "realloc" => return Realloc,
        "free" => return Free,
        "posix_memalign" => return PosixMemalign,
        "aligned_alloc" => return AlignedAlloc,
        "__rust_alloc" => return RustAlloc,
        "__rust_alloc_zeroed" => return RustAllocZ,
        "__rust_realloc" => return RustRealloc,
        "__rust_dealloc" => return RustDealloc,
        "abort" => return Trap,
        "exit" | "_exit" => return Exit,
        "rust_begin_unwind" | "rust_panic" | "__rust_start_panic" => return PanicFmt,
        "getrandom" | "syscall" => return Getrandom,
        "getenv" => return Getenv,
        "write" | "writev" => return Write,
        "pthread_key_create" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_key_delete" => return Zero,
        "pthread_getspecific" => return Zero,
        "symx_bits" => return SymBits,
        "symx_assume" => return SymAssume,
        "symx_assert" => return SymAssert,
        "symx_fail" => return SymFail,
        "symx_obs" => return SymObs,
        "symx_reach" => return SymReach,
        "symx_mem_eq" => return SymMemEq,
        "symx_concretize" => return SymConc,
        "symx_mode" => return SymMode,
        "symx_skip" => return Skip,
        "symx_is_concrete" => return SymIsConc,
        _ => {}
    }
    for p in [
        "_ZN4core9panicking9panic_fmt17h",
        "_ZN4core9panicking18panic_nounwind_fmt17h",
        "_ZN4core9panicking14panic_nounwind17h",
        "_ZN4core9panicking19panic_cannot_unwind17h",
        "_ZN3std9panicking11begin_panic17h",
        "_ZN3std9panicking20rust_panic_with_hook17h",
        "_ZN5alloc5alloc18handle_alloc_error17h",
        "_ZN3std7process5abort17h",
    ] {
        if n.starts_with(p) {
            return PanicFmt;
        }
    }
    let _ = has_body;
    if n.starts_with("_ZN3std3sys4unix4rand19hashmap_random_keys17h") {
        return RandKeys;
    }
    // only ever used in error messages; the digits of a symbolic time would be
    // split into one path per text
    if n.starts_with("_ZN57_$LT$core..time..Duration$u20$as$u20$core..fmt..Debug$GT$3fmt17h") {
        return Zero;
    }
    None
}

pub fn demangle(n: &str) -> String {
    // legacy mangling
    let Some(mut r) = n.strip_prefix("_ZN") else { return n.to_string() };
    let mut parts = vec![];
    loop {
        let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
        if d.is_empty() {
            break;
        }
        let l: usize = d.parse().unwrap();
        r = &r[d.len()..];
        if r.len() < l {
            break;
        }
        parts.push(&r[..l]);
        r = &r[l..];
    }
    if parts.last().map_or(false, |p| p.len() == 17 && p.starts_with('h')) {
        parts.pop();
    }
    let s = parts.join("::");
    s.replace("$LT$", "<")
        .replace("$GT$", ">")
        .replace("$u20$", " ")
        .replace("$RF$", "&")
        .replace("$u7b$", "{")
        .replace("$u7d$", "}")
        .replace("$LP$", "(")
        .replace("$RP$", ")")
        .replace("$C$", ",")
        .replace("..", "::")
}

impl Machine {
    pub fn new(m: Module) -> Machine {
        let hooks = m.funcs.iter().map(|f| hook_of(&f.name, f.text.is_some())).collect();
        Machine {
            m,
            s: Solver::new(),
            hooks,
            pristine: Default::default(),
            work: vec![],
            rep: Report::default(),
            executed: BTreeSet::new(),
            sample_every: 50,
            max_steps: 200_000_000,
            verbose: false,
            deadline: None,
        }
    }

    pub fn initial(&mut self, entry: &str) -> Option<State> {
        let f = self.m.func_by_name(entry)?;
        let body = self.m.body(f)?;
        let st = State {
            frames: vec![Frame {
                f,
                slots: vec![Val::C(0); body.nslots as usize],
                body,
                pc: 0,
                sbase: 0,
                ret: None,
                normal: None,
                varargs: vec![],
            }],
            heap: vec![],
            free: vec![],
            heap_next: 0,
            stack: vec![],
            globals: Default::default(),
            cons: vec![],
            model: Default::default(),
            fixed: Default::default(),
            fixvars: Default::default(),
            inputs: vec![],
            obs: vec![],
            depth: 0,
            steps: 0,
            env_rand: 0,
        };
        self.executed.insert(f);
        Some(st)
    }

    // ---------- memory ----------
    fn pristine(&mut self, id: u32) -> R<Rc<Obj>> {
        if let Some(o) = self.pristine.get(&id) {
            return Ok(o.clone());
        }
        let g = &self.m.globals[id as usize];
        let (ty, init, ro) = (g.ty, g.init, g.constant);
        let size = self.m.size(ty) as usize;
        let mut o = Obj::new(size);
        o.ro = ro;
        if let Some((a, e)) = init {
            let mut lx = Lex::new(self.m.src, a, e);
            let v = self.m.constant(&mut lx, ty);
            self.put_const(&mut o.data, 0, ty, &v);
        } else {
            return Err(Stop::Unsupported(format!("external global {}", self.m.globals[id as usize].name)));
        }
        let o = Rc::new(o);
        self.pristine.insert(id, o.clone());
        Ok(o)
    }
    fn put_const(&self, d: &mut [u8], off: usize, t: T, v: &Val) {
        let ti = &self.m.types[t as usize];
        match (&ti.k, v) {
            (TK::Struct(fs, _), Val::A(vs)) => {
                for (i, f) in fs.iter().enumerate() {
                    self.put_const(d, off + ti.offs[i] as usize, *f, &vs[i]);
                }
            }
            (TK::Array(_, e), Val::A(vs)) => {
                let s = self.m.size(*e) as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.put_const(d, off + i * s, *e, x);
                }
            }
            (TK::Vector(_, e), Val::A(vs)) => {
                let s = self.m.size(*e) as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.put_const(d, off + i * s, *e, x);
                }
            }
            (_, Val::C(x)) => {
                let n = (ti.size as usize).min(8);
                d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            (_, Val::W(x)) => {
                let n = (ti.size as usize).min(16);
                d[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
            }
            _ => panic!("put_const"),
        }
    }

    fn obj(&mut self, st: &State, addr: u64) -> R<Rc<Obj>> {
        let id = addr >> 32;
        if id >= STACK && id < FN_BASE {
            let i = (id - STACK) as usize;
            if i < st.stack.len() {
                return Ok(st.stack[i].clone());
            }
        } else if id >= HEAP && id < STACK {
            let i = (id - HEAP) as usize;
            if let Some(c) = st.heap.get(i >> 6) {
                if let Some(o) = &c[i & 63] {
                    return Ok(o.clone());
                }
            }
        } else if id > 0 && (id as usize) < self.m.globals.len() {
            if let Some(o) = st.globals.get(&(id as u32)) {
                return Ok(o.clone());
            }
            return self.pristine(id as u32);
        }
        Err(Stop::Violation("memory".into(), format!("invalid address {:#x}", addr)))
    }
    fn with_mut<X>(&mut self, st: &mut State, addr: u64, n: u64, f: impl FnOnce(&mut Obj, usize) -> X) -> R<X> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        let bad = || Stop::Violation("memory".into(), format!("out-of-bounds write {:#x} len {}", addr, n));
        let o: &mut Rc<Obj> = if id >= STACK && id < FN_BASE {
            let i = (id - STACK) as usize;
            st.stack.get_mut(i).ok_or_else(bad)?
        } else if id >= HEAP && id < STACK {
            let i = (id - HEAP) as usize;
            let c = st.heap.get_mut(i >> 6).ok_or_else(bad)?;
            Rc::make_mut(c)[i & 63].as_mut().ok_or_else(bad)?
        } else if id > 0 && (id as usize) < self.m.globals.len() {
            if !st.globals.contains_key(&(id as u32)) {
                let p = self.pristine(id as u32)?;
                if p.ro {
                    return Err(bad());
                }
                st.globals.insert(id as u32, p);
            }
            st.globals.get_mut(&(id as u32)).unwrap()
        } else {
            return Err(bad());
        };
        if off + n > o.data.len() as u64 {
            return Err(bad());
        }
        Ok(f(Rc::make_mut(o), off as usize))
    }
    fn check_range(o: &Obj, addr: u64, n: u64) -> R<usize> {
        let off = addr & 0xffff_ffff;
        if off + n > o.data.len() as u64 {
            return Err(Stop::Violation("memory".into(), format!("out-of-bounds read {:#x} len {}", addr, n)));
        }
        Ok(off as usize)
    }
    fn obj_ref<'a>(&self, st: &'a State, addr: u64) -> Option<&'a Obj> {
        let id = addr >> 32;
        if id >= STACK && id < FN_BASE {
            return st.stack.get((id - STACK) as usize).map(|o| &**o);
        } else if id >= HEAP && id < STACK {
            let i = (id - HEAP) as usize;
            return st.heap.get(i >> 6).and_then(|c| c[i & 63].as_deref());
        }
        None
    }
    fn read_obj(o: &Obj, off: usize, nbytes: usize, w: u16) -> Val {
        if let Some(s) = &o.sym {
            if s[off..off + nbytes].iter().any(|x| *x != 0) {
                let mut e: Option<E> = None;
                for i in 0..nbytes {
                    let b = if s[off + i] != 0 { s[off + i] } else { konst(8, o.data[off + i] as u128) };
                    e = Some(match e {
                        None => b,
                        Some(l) => concat(b, l),
                    });
                }
                let e = e.unwrap();
                let e = if width(e) > w { extract(e, 0, w) } else { e };
                return mkval(e);
            }
        }
        if nbytes <= 8 {
            let mut b = [0u8; 8];
            b[..nbytes].copy_from_slice(&o.data[off..off + nbytes]);
            let v = u64::from_le_bytes(b);
            Val::C(if w < 64 { v & ((1 << w) - 1) } else { v })
        } else {
            let mut b = [0u8; 16];
            b[..nbytes].copy_from_slice(&o.data[off..off + nbytes]);
            Val::W(Rc::new(u128::from_le_bytes(b) & mask(w)))
        }
    }
    fn read_int(&mut self, st: &State, addr: u64, w: u16) -> R<Val> {
        let n = ((w as usize) + 7) / 8;
        if let Some(o) = self.obj_ref(st, addr) {
            let off = Self::check_range(o, addr, n as u64)?;
            return Ok(Self::read_obj(o, off, n, w));
        }
        let o = self.obj(st, addr)?;
        let off = Self::check_range(&o, addr, n as u64)?;
        Ok(Self::read_obj(&o, off, n, w))
    }
    fn write_int(&mut self, st: &mut State, addr: u64, w: u16, v: &Val) -> R<()> {
        let n = ((w as usize) + 7) / 8;
        self.with_mut(st, addr, n as u64, |o, off| match v {
            Val::C(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n.min(8)]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            Val::W(x) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
            Val::S(e) => {
                let e = zext(*e, (n * 8) as u16);
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len]);
                for i in 0..n {
                    let b = extract(e, (i * 8) as u16, 8);
                    match is_const(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            s[off + i] = 0;
                        }
                        None => s[off + i] = b,
                    }
                }
            }
            Val::A(_) => panic!("write_int agg"),
        })
    }
    pub fn load(&mut self, st: &State, addr: u64, t: T) -> R<Val> {
        match self.m.tk(t) {
            TK::Int(w) => {
                let w = *w;
                self.read_int(st, addr, w)
            }
            TK::Ptr | TK::Double => self.read_int(st, addr, 64),
            TK::Float => self.read_int(st, addr, 32),
            TK::Array(n, e) | TK::Vector(n, e) => {
                let (n, e) = (*n, *e);
                if matches!(self.m.tk(e), TK::Int(1)) {
                    let v = self.read_int(st, addr, n as u16)?;
                    return Ok(split_bits(&v, n as usize, 1));
                }
                let s = self.m.size(e);
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.load(st, addr + i * s, e)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            TK::Struct(fs, _) => {
                let fs = fs.clone();
                let offs = self.m.types[t as usize].offs.clone();
                let mut v = vec![];
                for (i, f) in fs.iter().enumerate() {
                    v.push(self.load(st, addr + offs[i], *f)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            k => Err(Stop::Unsupported(format!("load {:?}", k))),
        }
    }
    pub fn store(&mut self, st: &mut State, addr: u64, t: T, v: &Val) -> R<()> {
        match self.m.tk(t) {
            TK::Int(w) => {
                let w = *w;
                self.write_int(st, addr, w, v)
            }
            TK::Ptr | TK::Double => self.write_int(st, addr, 64, v),
            TK::Float => self.write_int(st, addr, 32, v),
            TK::Array(_, e) | TK::Vector(_, e) => {
                let e = *e;
                let Val::A(vs) = v else { return Err(Stop::Unsupported("store agg".into())) };
                if matches!(self.m.tk(e), TK::Int(1)) {
                    let j = join_bits(vs, 1);
                    return self.write_int(st, addr, vs.len() as u16, &j);
                }
                let s = self.m.size(e);
                for (i, x) in vs.iter().enumerate() {
                    self.store(st, addr + i as u64 * s, e, x)?;
                }
                Ok(())
            }
            TK::Struct(fs, _) => {
                let fs = fs.clone();
                let offs = self.m.types[t as usize].offs.clone();
                let Val::A(vs) = v else { return Err(Stop::Unsupported("store agg".into())) };
                for (i, f) in fs.iter().enumerate() {
                    self.store(st, addr + offs[i], *f, &vs[i])?;
                }
                Ok(())
            }
            k => Err(Stop::Unsupported(format!("store {:?}", k))),
        }
    }
    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 1 << 28 {
            return Err(Stop::Unsupported(format!("huge allocation {}", n)));
        }
        let o = Rc::new(Obj::new(n as usize));
        let i = if let Some(i) = st.free.pop() {
            i
        } else {
            let i = st.heap_next;
            st.heap_next += 1;
            if (i as usize >> 6) >= st.heap.len() {
                st.heap.push(Rc::new(vec![None; 64]));
            }
            i
        };
        Rc::make_mut(&mut st.heap[i as usize >> 6])[i as usize & 63] = Some(o);
        Ok((HEAP + i as u64) << 32)
    }
    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        if addr == 0 {
            return Ok(());
        }
        let id = addr >> 32;
        if id < HEAP || id >= STACK || addr & 0xffff_ffff != 0 {
            return Err(Stop::Violation("memory".into(), format!("invalid free {:#x}", addr)));
        }
        let i = (id - HEAP) as usize;
        let Some(c) = st.heap.get_mut(i >> 6) else {
            return Err(Stop::Violation("memory".into(), format!("invalid free {:#x}", addr)));
        };
        let s = &mut Rc::make_mut(c)[i & 63];
        if s.is_none() {
            return Err(Stop::Violation("memory".into(), format!("double free {:#x}", addr)));
        }
        *s = None;
        st.free.push(i as u32);
        Ok(())
    }
    pub fn read_bytes(&mut self, st: &State, addr: u64, n: u64) -> R<Vec<Val>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, addr)?;
        let off = Self::check_range(&o, addr, n)?;
        Ok((0..n as usize)
            .map(|i| {
                if let Some(s) = &o.sym {
                    if s[off + i] != 0 {
                        return Val::S(s[off + i]);
                    }
                }
                Val::C(o.data[off + i] as u64)
            })
            .collect())
    }
    fn read_str(&mut self, st: &State, addr: u64, n: u64) -> R<String> {
        let b = self.read_bytes(st, addr, n)?;
        let v: Vec<u8> = b.iter().map(|x| if let Val::C(c) = x { *c as u8 } else { b'?' }).collect();
        Ok(String::from_utf8_lossy(&v).to_string())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.obj(st, s)?;
        let so = Self::check_range(&o, s, n)?;
        let n = n as usize;
        self.with_mut(st, d, n as u64, |t, off| {
            t.data[off..off + n].copy_from_slice(&o.data[so..so + n]);
            match (&o.sym, &mut t.sym) {
                (Some(a), Some(b)) => b[off..off + n].copy_from_slice(&a[so..so + n]),
                (Some(a), None) => {
                    if a[so..so + n].iter().any(|x| *x != 0) {
                        let mut v = vec![0; t.data.len()];
                        v[off..off + n].copy_from_slice(&a[so..so + n]);
                        t.sym = Some(v);
                    }
                }
                (None, Some(b)) => b[off..off + n].fill(0),
                (None, None) => {}
            }
        })
    }

    // ---------- symbolic decisions ----------
    fn merge_model(st: &mut State, m: &Vec<(u32, u128)>) {
        for (k, v) in m.iter() {
            st.model.insert(*k, *v);
        }
    }
    fn note_fix(st: &mut State, e: E, v: u128) {
        // learn fixed variables from e == v
        match node(e) {
            Node::Var(_, id) => {
                st.fixvars.insert(id, v);
            }
            Node::ZExt(_, x) | Node::SExt(_, x) => {
                let w = width(x);
                Self::note_fix(st, x, v & mask(w))
            }
            Node::Not(w, x) => Self::note_fix(st, x, !v & mask(w)),
            Node::Cmp(C::Eq, a, b) if v == 1 => {
                if let Some(k) = is_const(b) {
                    Self::note_fix(st, a, k)
                }
            }
            Node::Bin(B::And, 1, a, b) if v == 1 => {
                Self::note_fix(st, a, 1);
                Self::note_fix(st, b, 1);
            }
            Node::Bin(B::Or, 1, a, b) if v == 0 => {
                Self::note_fix(st, a, 0);
                Self::note_fix(st, b, 0);
            }
            Node::Concat(_, h, l) => {
                let lw = width(l);
                Self::note_fix(st, h, v >> lw);
                Self::note_fix(st, l, v & mask(lw));
            }
            _ => {}
        }
    }
    fn known(&self, st: &State, e: E) -> Option<u128> {
        if let Some(v) = is_const(e) {
            return Some(v);
        }
        if let Some(v) = st.fixed.get(&e) {
            return Some(*v);
        }
        if !st.fixvars.is_empty() {
            let vs = vars_of(e);
            if vs.iter().all(|x| st.fixvars.contains_key(x)) {
                return Some(eval(e, &st.fixvars));
            }
        }
        None
    }
    fn assume_true(st: &mut State, e: E) {
        if is_const(e).is_some() {
            return;
        }
        st.cons.push(e);
        st.fixed.insert(e, 1);
        let n = not(e);
        st.fixed.insert(n, 0);
        Self::note_fix(st, e, 1);
    }
    /// Decide a symbolic condition: follow one side, queue the other (same instruction).
    pub fn branch(&mut self, st: &mut State, e: E) -> R<bool> {
        if let Some(v) = self.known(st, e) {
            return Ok(v == 1);
        }
        let cv = eval(e, &st.model) == 1;
        let other = if cv { not(e) } else { e };
        match self.s.check(&st.cons, other) {
            Sat::Unsat => {
                st.fixed.insert(e, cv as u128);
                Ok(cv)
            }
            Sat::Unknown => {
                *self.rep.incomplete.entry("solver unknown".into()).or_default() += 1;
                Err(Stop::Unsupported("solver returned unknown".into()))
            }
            Sat::Sat(m) => {
                let mut o = st.clone();
                Self::merge_model(&mut o, &m);
                Self::assume_true(&mut o, other);
                o.depth += 1;
                self.rep.forks += 1;
                self.work.push(o);
                let mine = if cv { e } else { not(e) };
                Self::assume_true(st, mine);
                st.depth += 1;
                Ok(cv)
            }
        }
    }
    pub fn conc_e(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.known(st, e) {
            return Ok(v);
        }
        let w = width(e);
        let v = eval(e, &st.model);
        let eq = cmp(C::Eq, e, konst(w, v));
        let ne = not(eq);
        match self.s.check(&st.cons, ne) {
            Sat::Unsat => {
                st.fixed.insert(e, v);
                Self::note_fix(st, e, v);
                Ok(v)
            }
            Sat::Unknown => Err(Stop::Unsupported("solver returned unknown".into())),
            Sat::Sat(m) => {
                let mut o = st.clone();
                Self::merge_model(&mut o, &m);
                Self::assume_true(&mut o, ne);
                o.depth += 1;
                self.rep.forks += 1;
                self.work.push(o);
                Self::assume_true(st, eq);
                st.fixed.insert(e, v);
                Self::note_fix(st, e, v);
                st.depth += 1;
                Ok(v)
            }
        }
    }
    pub fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::S(e) => Ok(self.conc_e(st, *e)? as u64),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err(Stop::Unsupported("conc aggregate".into())),
        }
    }
    fn cond(&mut self, st: &mut State, v: &Val) -> R<bool> {
        match v {
            Val::C(x) => Ok(*x & 1 == 1),
            Val::S(e) => self.branch(st, *e),
            _ => Err(Stop::Unsupported("cond".into())),
        }
    }

    // ---------- evaluation helpers ----------
    #[inline]
    fn get(f: &Frame, o: &Op) -> Val {
        match o {
            Op::L(s) => f.slots[*s as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }

    fn set(st: &mut State, d: u32, v: Val) {
        st.frames.last_mut().unwrap().slots[d as usize] = v;
    }
    fn advance(st: &mut State) {
        st.frames.last_mut().unwrap().pc += 1;
    }

    pub fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.body.blk_of[fr.pc as usize];
        let body: &Body = unsafe { &*Rc::as_ptr(&fr.body) };
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = Self::get(fr, o);
                fr.slots[*d as usize] = v;
            } else {
                let mut vs: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
                for (d, inc) in &b.phis {
                    let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                    vs.push((*d, Self::get(fr, o)));
                }
                for (d, v) in vs {
                    fr.slots[d as usize] = v;
                }
            }
        }
        fr.pc = b.start;
        b.cov.set(true);
    }

    fn trace(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| demangle(&self.m.funcs[f.f as usize].name)).collect()
    }

    /// Run a state until it stops.
    pub fn run(&mut self, st: &mut State) -> Stop {
        loop {
            for i in 0..4096 {
                if let Err(s) = self.step(st) {
                    st.steps += i;
                    self.rep.steps += i;
                    return s;
                }
            }
            st.steps += 4096;
            self.rep.steps += 4096;
            if st.steps > self.max_steps {
                return Stop::Violation("nontermination".into(), format!("no end after {} steps", self.max_steps));
            }
            if let Some(d) = self.deadline {
                if Instant::now() > d {
                    return Stop::Unsupported("deadline".into());
                }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        // bodies are kept alive by the module for the whole run
        let body: &Body = unsafe { &*Rc::as_ptr(&fr.body) };
        let ins = &body.code[fr.pc as usize];
        match ins {
            I::Bin(op, w, n, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = if *n == 0 {
                    bin_val(*op, *w, &x, &y)?
                } else {
                    vec2(&x, &y, |p, q| bin_val(*op, *w, p, q))?
                };
                fr.slots[*d as usize] = v;
                fr.pc += 1;
            }
            I::Icmp(p, w, n, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let v = if *n == 0 {
                    icmp_val(*p, *w, &x, &y)?
                } else {
                    vec2(&x, &y, |q, r| icmp_val(*p, *w, q, r))?
                };
                fr.slots[*d as usize] = v;
                fr.pc += 1;
            }
            I::Load(t, d, p) => {
                let a = Self::get(fr, p);
                let a = self.addr_load(st, &a, *t)?;
                let v = match a {
                    Ok(a) => self.load(st, a, *t)?,
                    Err(v) => v,
                };
                Self::set(st, *d, v);
                Self::advance(st);
            }
            I::Store(t, v, p) => {
                let v = Self::get(fr, v);
                let a = Self::get(fr, p);
                let a = self.conc(st, &a)?;
                self.store(st, a, *t, &v)?;
                Self::advance(st);
            }
            I::Gep(d, base, off, dynv) => {
                let b = Self::get(fr, base);
                let mut v = match b {
                    Val::C(x) => Val::C(x.wrapping_add(*off as u64)),
                    Val::S(e) => mkval(bin(B::Add, e, konst(64, *off as u64 as u128))),
                    _ => return Err(Stop::Unsupported("gep base".into())),
                };
                for (o, w, s) in dynv {
                    let i = Self::get(fr, o);
                    v = match (v, i) {
                        (Val::C(x), Val::C(i)) => {
                            let i = sext(i as u128, *w) as i64;
                            Val::C(x.wrapping_add(i.wrapping_mul(*s) as u64))
                        }
                        (x, i) => {
                            let xe = ex(&x, 64);
                            let ie = ex(&i, *w);
                            let ie = if *w < 64 {
                                sext_e(ie, 64)
                            } else if *w > 64 {
                                extract(ie, 0, 64)
                            } else {
                                ie
                            };
                            mkval(bin(B::Add, xe, bin(B::Mul, ie, konst(64, *s as u64 as u128))))
                        }
                    };
                }
                fr.slots[*d as usize] = v;
                fr.pc += 1;
            }
            I::Br(b) => {
                let b = *b;
                self.jump(st, b);
            }
            I::CondBr(c, x, y) => {
                let v = Self::get(fr, c);
                let b = if self.cond(st, &v)? { *x } else { *y };
                self.jump(st, b);
            }
            I::Switch(c, w, def, cases) => {
                let v = Self::get(fr, c);
                let mut to = *def;
                match &v {
                    Val::S(e) => {
                        let k = self.known(st, *e);
                        if let Some(k) = k {
                            for (cv, b) in cases {
                                if *cv == k {
                                    to = *b;
                                    break;
                                }
                            }
                        } else {
                            let mut dests: Vec<(u32, E)> = vec![];
                            for (cv, b) in cases {
                                let q = cmp(C::Eq, *e, konst(*w, *cv));
                                if let Some(x) = dests.iter_mut().find(|x| x.0 == *b) {
                                    x.1 = bin(B::Or, x.1, q);
                                } else {
                                    dests.push((*b, q));
                                }
                            }
                            for (b, q) in dests {
                                if self.branch(st, q)? {
                                    to = b;
                                    break;
                                }
                            }
                        }
                    }
                    Val::C(x) => {
                        for (cv, b) in cases {
                            if *cv == *x as u128 {
                                to = *b;
                                break;
                            }
                        }
                    }
                    Val::W(x) => {
                        for (cv, b) in cases {
                            if *cv == **x {
                                to = *b;
                                break;
                            }
                        }
                    }
                    _ => return Err(Stop::Unsupported("switch".into())),
                }
                self.jump(st, to);
            }
            I::Cast(k, from, to, d, a) => {
                let v = Self::get(fr, a);
                let r = self.cast(*k, *from, *to, &v)?;
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Select(d, c, a, b, t, cn) => {
                let cv = Self::get(fr, c);
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let r = if *cn > 0 {
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) else {
                        return Err(Stop::Unsupported("select vec".into()));
                    };
                    let mut v = vec![];
                    let et = match self.m.tk(*t) {
                        TK::Vector(_, e) => *e,
                        _ => *t,
                    };
                    for i in 0..cs.len() {
                        v.push(self.sel(&cs[i], &xs[i], &ys[i], et)?);
                    }
                    Val::A(Rc::new(v))
                } else {
                    match &cv {
                        Val::C(k) => {
                            if *k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::S(e) => {
                            if let Some(k) = self.known(st, *e) {
                                if k == 1 {
                                    x
                                } else {
                                    y
                                }
                            } else if matches!(self.m.tk(*t), TK::Ptr | TK::Float | TK::Double) && !same(&x, &y) {
                                if self.branch(st, *e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.sel(&cv, &x, &y, *t)?
                            }
                        }
                        _ => return Err(Stop::Unsupported("select".into())),
                    }
                };
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Alloca(d, sz, n) => {
                let n = Self::get(fr, n);
                let n = self.conc(st, &n)?;
                let a = (STACK + st.stack.len() as u64) << 32;
                st.stack.push(Rc::new(Obj::new((*sz * n) as usize)));
                if st.stack.len() > 200_000 {
                    return Err(Stop::Violation("stack".into(), "stack overflow".into()));
                }
                Self::set(st, *d, Val::C(a));
                Self::advance(st);
            }
            I::Call(c) => return self.call(st, c),
            I::Ret(v) => {
                let v = v.as_ref().map(|o| Self::get(fr, o));
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.sbase as usize);
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let (Some(d), Some(v)) = (fr.ret, v) {
                    Self::set(st, d, v);
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => Self::advance(st),
                }
            }
            I::Unreachable => {
                return Err(Stop::Violation("unreachable".into(), "unreachable code reached".into()));
            }
            I::Landing => return Err(Stop::Unsupported("landing pad".into())),
            I::ExtractValue(d, a, ix) => {
                let mut v = Self::get(fr, a);
                for i in ix {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err(Stop::Unsupported("extractvalue".into())),
                    };
                }
                fr.slots[*d as usize] = v;
                fr.pc += 1;
            }
            I::InsertValue(d, a, x, ix) => {
                let v = Self::get(fr, a);
                let x = Self::get(fr, x);
                let r = insv(&v, &x, ix);
                fr.slots[*d as usize] = r;
                fr.pc += 1;
            }
            I::ExtractElement(d, a, i) => {
                let v = Self::get(fr, a);
                let i = Self::get(fr, i);
                let i = self.conc(st, &i)? as usize;
                let Val::A(x) = &v else { return Err(Stop::Unsupported("extractelement".into())) };
                let r = x.get(i).cloned().unwrap_or(Val::C(0));
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::InsertElement(d, a, x, i) => {
                let v = Self::get(fr, a);
                let x = Self::get(fr, x);
                let i = Self::get(fr, i);
                let i = self.conc(st, &i)? as u32;
                let r = insv(&v, &x, &[i]);
                Self::set(st, *d, r);
                Self::advance(st);
            }
            I::Shuffle(d, a, b, mask, n, t) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let (d, n, t) = (*d, *n as i64, *t);
                let z = match self.m.tk(t).clone() {
                    TK::Vector(_, e) => self.m.zero(e),
                    _ => Val::C(0),
                };
                let (Val::A(x), Val::A(y)) = (&x, &y) else { return Err(Stop::Unsupported("shuffle".into())) };
                let v = mask
                    .iter()
                    .map(|i| {
                        if *i < 0 {
                            z.clone()
                        } else if *i < n {
                            x[*i as usize].clone()
                        } else {
                            y.get((*i - n) as usize).cloned().unwrap_or(z.clone())
                        }
                    })
                    .collect();
                Self::set(st, d, Val::A(Rc::new(v)));
                Self::advance(st);
            }
            I::Freeze(d, a) => {
                let v = Self::get(fr, a);
                fr.slots[*d as usize] = v;
                fr.pc += 1;
            }
            I::CmpXchg(d, t, p, c, n) => {
                let (p, c, n) = (Self::get(fr, p), Self::get(fr, c), Self::get(fr, n));
                let w = self.width(*t);
                let p = self.conc(st, &p)?;
                let old = self.load(st, p, *t)?;
                let eq = icmp_val(Pred::Eq, w, &old, &c)?;
                let ok = self.cond(st, &eq)?;
                if ok {
                    self.store(st, p, *t, &n)?;
                }
                Self::set(st, *d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
                Self::advance(st);
            }
            I::AtomicRmw(d, o, t, p, v) => {
                let (p, v) = (Self::get(fr, p), Self::get(fr, v));
                let w = self.width(*t);
                let p = self.conc(st, &p)?;
                let old = self.load(st, p, *t)?;
                let n = match &**o {
                    "xchg" => v,
                    "add" => bin_val(B::Add, w, &old, &v)?,
                    "sub" => bin_val(B::Sub, w, &old, &v)?,
                    "and" => bin_val(B::And, w, &old, &v)?,
                    "or" => bin_val(B::Or, w, &old, &v)?,
                    "xor" => bin_val(B::Xor, w, &old, &v)?,
                    x => return Err(Stop::Unsupported(format!("atomicrmw {}", x))),
                };
                self.store(st, p, *t, &n)?;
                Self::set(st, *d, old);
                Self::advance(st);
            }
            I::Nop => fr.pc += 1,
            I::FBin(o, t, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let dbl = matches!(self.m.tk(*t), TK::Double);
                if !dbl && !matches!(self.m.tk(*t), TK::Float) {
                    return Err(Stop::Unsupported("float vector".into()));
                }
                let (Val::C(x), Val::C(y)) = (x, y) else { return Err(Stop::Unsupported("symbolic float".into())) };
                let r = if dbl {
                    let (x, y) = (f64::from_bits(x), f64::from_bits(y));
                    (match o {
                        FB::Add => x + y,
                        FB::Sub => x - y,
                        FB::Mul => x * y,
                        FB::Div => x / y,
                        FB::Rem => x % y,
                    })
                    .to_bits()
                } else {
                    let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match o {
                        FB::Add => x + y,
                        FB::Sub => x - y,
                        FB::Mul => x * y,
                        FB::Div => x / y,
                        FB::Rem => x % y,
                    })
                    .to_bits() as u64
                };
                Self::set(st, *d, Val::C(r));
                Self::advance(st);
            }
            I::FNeg(t, d, a) => {
                let x = Self::get(fr, a);
                let Val::C(x) = x else { return Err(Stop::Unsupported("symbolic float".into())) };
                let r = if matches!(self.m.tk(*t), TK::Double) { x ^ (1 << 63) } else { x ^ (1 << 31) };
                Self::set(st, *d, Val::C(r));
                Self::advance(st);
            }
            I::Fcmp(p, t, d, a, b) => {
                let (x, y) = (Self::get(fr, a), Self::get(fr, b));
                let (Val::C(x), Val::C(y)) = (x, y) else { return Err(Stop::Unsupported("symbolic float".into())) };
                let (x, y) = if matches!(self.m.tk(*t), TK::Double) {
                    (f64::from_bits(x), f64::from_bits(y))
                } else {
                    (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64)
                };
                let un = x.is_nan() || y.is_nan();
                let r = match &**p {
                    "oeq" => x == y,
                    "ogt" => x > y,
                    "oge" => x >= y,
                    "olt" => x < y,
                    "ole" => x <= y,
                    "one" => !un && x != y,
                    "ord" => !un,
                    "ueq" => un || x == y,
                    "ugt" => un || x > y,
                    "uge" => un || x >= y,
                    "ult" => un || x < y,
                    "ule" => un || x <= y,
                    "une" => un || x != y,
                    "uno" => un,
                    "true" => true,
                    _ => false,
                };
                Self::set(st, *d, Val::C(r as u64));
                Self::advance(st);
            }
        }
        Ok(())
    }

    fn sel(&self, c: &Val, x: &Val, y: &Val, t: T) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k & 1 == 1 { x.clone() } else { y.clone() }),
            Val::S(e) => match (x, y) {
                (Val::A(p), Val::A(q)) => {
                    let mut v = vec![];
                    for i in 0..p.len() {
                        let et = match self.m.tk(t) {
                            TK::Array(_, e) | TK::Vector(_, e) => *e,
                            TK::Struct(fs, _) => fs[i],
                            _ => return Err(Stop::Unsupported("select aggregate".into())),
                        };
                        v.push(self.sel(c, &p[i], &q[i], et)?);
                    }
                    Ok(Val::A(Rc::new(v)))
                }
                _ => {
                    let w = self.width(t);
                    Ok(mkval(ite(*e, ex(x, w), ex(y, w))))
                }
            },
            _ => Err(Stop::Unsupported("sel".into())),
        }
    }
    fn width(&self, t: T) -> u16 {
        match self.m.tk(t) {
            TK::Int(w) => *w,
            TK::Float => 32,
            _ => 64,
        }
    }

    /// Address of a load: concrete, or (small table reads) an if-then-else over the feasible addresses.
    fn addr_load(&mut self, st: &mut State, a: &Val, t: T) -> R<Result<u64, Val>> {
        let e = match a {
            Val::C(x) => return Ok(Ok(*x)),
            Val::S(e) => *e,
            _ => return Err(Stop::Unsupported("address".into())),
        };
        if let Some(v) = self.known(st, e) {
            return Ok(Ok(v as u64));
        }
        if matches!(self.m.tk(t), TK::Int(w) if *w <= 64) {
            // enumerate feasible addresses
            const LIM: usize = 300;
            let w = self.width(t);
            let mut addrs: Vec<u64> = vec![];
            // fast path: address depends on one variable of width <= 8
            let vs = vars_of(e);
            if vs.len() == 1 && var_info(vs[0]).1 <= 8 {
                let (name, vw) = var_info(vs[0]);
                let ve = var(&name, vw);
                let mut m: Model = Default::default();
                let mut groups: Vec<(u64, Vec<u128>)> = vec![];
                for k in 0..(1u128 << vw) {
                    m.insert(vs[0], k);
                    let ad = eval(e, &m) as u64;
                    // feasibility w.r.t. single-variable constraints only (over-approximation is refined below)
                    let ok = st.cons.iter().all(|c| {
                        let cv = vars_of(*c);
                        cv.len() != 1 || cv[0] != vs[0] || eval(*c, &m) == 1
                    });
                    if !ok {
                        continue;
                    }
                    match groups.iter_mut().find(|g| g.0 == ad) {
                        Some(g) => g.1.push(k),
                        None => groups.push((ad, vec![k])),
                    }
                }
                let mut r: Option<Val> = None;
                let mut allok = true;
                for (ad, ks) in &groups {
                    let v = match self.load(st, *ad, t) {
                        Ok(v) => v,
                        Err(_) => {
                            allok = false;
                            break;
                        }
                    };
                    r = Some(match r {
                        None => v,
                        Some(p) => {
                            let mut c = konst(1, 0);
                            for k in ks {
                                c = bin(B::Or, c, cmp(C::Eq, ve, konst(vw, *k)));
                            }
                            mkval(ite(c, ex(&v, w), ex(&p, w)))
                        }
                    });
                }
                if allok {
                    if let Some(v) = r {
                        return Ok(Err(v));
                    }
                }
                // some feasible-looking address is invalid: decide by forking below
            } else {
                let mut cons = st.cons.clone();
                let mut model = st.model.clone();
                let mut ok = true;
                loop {
                    let v = eval(e, &model) as u64;
                    addrs.push(v);
                    if addrs.len() > LIM {
                        ok = false;
                        break;
                    }
                    let ne = not(cmp(C::Eq, e, konst(64, v as u128)));
                    match self.s.check(&cons, ne) {
                        Sat::Unsat => break,
                        Sat::Unknown => return Err(Stop::Unsupported("solver returned unknown".into())),
                        Sat::Sat(m) => {
                            for (k, x) in m.iter() {
                                model.insert(*k, *x);
                            }
                            cons.push(ne);
                        }
                    }
                }
                if ok {
                    let mut r: Option<Val> = None;
                    let mut good = true;
                    for ad in &addrs {
                        let v = match self.load(st, *ad, t) {
                            Ok(v) => v,
                            Err(_) => {
                                good = false;
                                break;
                            }
                        };
                        r = Some(match r {
                            None => v,
                            Some(p) => mkval(ite(cmp(C::Eq, e, konst(64, *ad as u128)), ex(&v, w), ex(&p, w))),
                        });
                    }
                    if good {
                        return Ok(Err(r.unwrap()));
                    }
                }
            }
        }
        Ok(Ok(self.conc_e(st, e)? as u64))
    }

    fn cast(&mut self, k: Cast, from: T, to: T, v: &Val) -> R<Val> {
        if let (TK::Vector(n, fe), TK::Vector(_, te), Cast::Trunc | Cast::ZExt | Cast::SExt) =
            (self.m.tk(from).clone(), self.m.tk(to).clone(), k)
        {
            let Val::A(vs) = v else { return Err(Stop::Unsupported("vcast".into())) };
            let mut r = vec![];
            for i in 0..n as usize {
                r.push(self.cast(k, fe, te, &vs[i])?);
            }
            return Ok(Val::A(Rc::new(r)));
        }
        let (fw, tw) = (self.width(from), self.width(to));
        Ok(match k {
            Cast::Trunc => match v {
                Val::C(x) => Val::C(*x & mask(tw) as u64),
                Val::W(x) => mkc(tw, **x & mask(tw)),
                Val::S(e) => mkval(extract(*e, 0, tw)),
                _ => return Err(Stop::Unsupported("trunc".into())),
            },
            Cast::ZExt => match v {
                Val::C(x) => mkc(tw, *x as u128),
                Val::W(x) => mkc(tw, **x),
                Val::S(e) => mkval(zext(*e, tw)),
                _ => return Err(Stop::Unsupported("zext".into())),
            },
            Cast::SExt => match v {
                Val::C(x) => mkc(tw, sext(*x as u128, fw) as u128 & mask(tw)),
                Val::W(x) => mkc(tw, sext(**x, fw) as u128 & mask(tw)),
                Val::S(e) => mkval(sext_e(*e, tw)),
                _ => return Err(Stop::Unsupported("sext".into())),
            },
            Cast::Bit => {
                let ew = |s: &Self, t: T| -> Option<(usize, u16)> {
                    match s.m.tk(t) {
                        TK::Vector(n, e) => Some((*n as usize, s.width(*e))),
                        _ => None,
                    }
                };
                match (ew(self, from), ew(self, to)) {
                    (None, None) => v.clone(),
                    (Some((_, w)), None) => {
                        let Val::A(vs) = v else { return Err(Stop::Unsupported("bitcast".into())) };
                        join_bits(vs, w)
                    }
                    (None, Some((n, w))) => split_bits(v, n, w),
                    (Some((fnn, fw)), Some((n, w))) => {
                        let Val::A(vs) = v else { return Err(Stop::Unsupported("bitcast".into())) };
                        if fw == w {
                            v.clone()
                        } else if fw > w {
                            let per = (fw / w) as usize;
                            let mut r = vec![];
                            for x in vs.iter() {
                                let Val::A(p) = split_bits(x, per, w) else { unreachable!() };
                                r.extend(p.iter().cloned());
                            }
                            Val::A(Rc::new(r))
                        } else {
                            let per = fnn / n;
                            let r = (0..n).map(|i| join_bits(&vs[i * per..(i + 1) * per], fw)).collect();
                            Val::A(Rc::new(r))
                        }
                    }
                }
            }
            _ => {
                let Val::C(x) = v else { return Err(Stop::Unsupported("symbolic float conversion".into())) };
                let fd = matches!(self.m.tk(from), TK::Double);
                let td = matches!(self.m.tk(to), TK::Double);
                let f = if fd { f64::from_bits(*x) } else { f32::from_bits(*x as u32) as f64 };
                let back = |d: f64| Val::C(if td { d.to_bits() } else { (d as f32).to_bits() as u64 });
                match k {
                    Cast::FpToUi => mkc(tw, f as u128 & mask(tw)),
                    Cast::FpToSi => mkc(tw, (f as i128) as u128 & mask(tw)),
                    Cast::UiToFp => {
                        if td {
                            Val::C((*x as f64).to_bits())
                        } else {
                            Val::C((*x as f32).to_bits() as u64)
                        }
                    }
                    Cast::SiToFp => {
                        let i = sext(*x as u128, fw) as i64;
                        if td {
                            Val::C((i as f64).to_bits())
                        } else {
                            Val::C((i as f32).to_bits() as u64)
                        }
                    }
                    _ => back(f),
                }
            }
        })
    }

    // ---------- calls ----------
    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let fr = st.frames.last().unwrap();
        let fi = match &c.callee {
            Callee::Fn(i) => *i,
            Callee::Dyn(o) => {
                let v = Self::get(fr, o);
                let a = self.conc(st, &v)?;
                let id = a >> 32;
                if id < FN_BASE || a & 0xffff_ffff != 0 || (id - FN_BASE) as usize >= self.m.funcs.len() {
                    return Err(Stop::Violation("memory".into(), format!("call through bad pointer {:#x}", a)));
                }
                (id - FN_BASE) as u32
            }
            Callee::Asm(t) => {
                if t.trim().is_empty() || t.contains("cpuid") || t.contains("rdrand") || t.contains("pause") || t.contains("mfence") {
                    if let Some(d) = c.d {
                        let z = self.m.zero(c.rty);
                        Self::set(st, d, z);
                    }
                    Self::advance(st);
                    return Ok(());
                }
                return Err(Stop::Unsupported(format!("inline asm {}", t)));
            }
        };
        let h = self.hooks[fi as usize];
        if h != Hook::None {
            let fr = st.frames.last().unwrap();
            let args: Vec<Val> = c.args.iter().map(|(_, o, _)| Self::get(fr, o)).collect();
            let r = self.hook(st, h, fi, c, &args)?;
            if let (Some(d), Some(v)) = (c.d, r) {
                Self::set(st, d, v);
            }
            match c.normal {
                Some(b) => self.jump(st, b),
                None => Self::advance(st),
            }
            return Ok(());
        }
        let Some(body) = self.m.body(fi) else {
            return Err(Stop::Unsupported(format!("external function {}", self.m.funcs[fi as usize].name)));
        };
        let fr = st.frames.last().unwrap();
        let mut args: Vec<Val> = c.args.iter().map(|(_, o, _)| Self::get(fr, o)).collect();
        let sbase = st.stack.len() as u32;
        for (i, (_, _, bv)) in c.args.iter().enumerate() {
            if *bv > 0 {
                let src = self.conc(st, &args[i])?;
                let a = (STACK + st.stack.len() as u64) << 32;
                st.stack.push(Rc::new(Obj::new(*bv as usize)));
                self.copy(st, a, src, *bv)?;
                args[i] = Val::C(a);
            }
        }
        let mut slots = vec![Val::C(0); body.nslots as usize];
        let np = body.params.len();
        let mut varargs = vec![];
        for (i, v) in args.into_iter().enumerate() {
            if i < np {
                slots[body.params[i] as usize] = v;
            } else {
                varargs.push((self.m.size(c.args[i].0), v));
            }
        }
        if self.executed.insert(fi) && self.verbose {
            eprintln!("  fn {}", demangle(&self.m.funcs[fi as usize].name));
        }
        body.blocks[0].cov.set(true);
        st.frames.push(Frame { f: fi, body, pc: 0, slots, sbase, ret: c.d, normal: c.normal, varargs });
        if st.frames.len() > 5000 {
            return Err(Stop::Violation("stack".into(), "call depth exceeded (unbounded recursion?)".into()));
        }
        Ok(())
    }

    fn panic_msg(&mut self, st: &State, args: &[Val]) -> String {
        let mut out = String::new();
        // location: last pointer arg
        if let Some(Val::C(loc)) = args.last() {
            let f = |s: &mut Self, a: u64| -> Option<u64> {
                match s.read_int(st, a, 64) {
                    Ok(Val::C(x)) => Some(x),
                    _ => None,
                }
            };
            if let (Some(fp), Some(fl)) = (f(self, *loc), f(self, loc + 8)) {
                if fl < 400 {
                    if let Ok(s) = self.read_str(st, fp, fl) {
                        if let (Ok(Val::C(l)), Ok(Val::C(c))) = (self.read_int(st, loc + 16, 32), self.read_int(st, loc + 20, 32)) {
                            out = format!("{}:{}:{}", s, l, c);
                        }
                    }
                }
            }
            if let Some(Val::C(a)) = args.first() {
                if let (Some(pp), Some(pl)) = (f(self, *a), f(self, a + 8)) {
                    if pl >= 1 && pl < 10 {
                        if let (Some(sp), Some(sl)) = (f(self, pp), f(self, pp + 8)) {
                            if sl < 400 {
                                if let Ok(s) = self.read_str(st, sp, sl) {
                                    out = format!("{}: {}", out, s);
                                }
                            }
                        }
                    }
                }
            }
        }
        out
    }

    fn hook(&mut self, st: &mut State, h: Hook, fi: u32, c: &CallI, a: &[Val]) -> R<Option<Val>> {
        let name = self.m.funcs[fi as usize].name.clone();
        let w = self.width(c.rty);
        Ok(match h {
            Hook::None => unreachable!(),
            Hook::Nop | Hook::VaEnd => None,
            Hook::Memcpy => {
                let (d, s, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                self.copy(st, d, s, n)?;
                Some(Val::C(d))
            }
            Hook::Memset => {
                let (d, n) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                if n > 0 {
                    match &a[1] {
                        Val::C(x) => {
                            let x = *x as u8;
                            self.with_mut(st, d, n, |o, off| {
                                o.data[off..off + n as usize].fill(x);
                                if let Some(s) = &mut o.sym {
                                    s[off..off + n as usize].fill(0);
                                }
                            })?;
                        }
                        v => {
                            let Val::S(e) = v else { return Err(Stop::Unsupported("memset".into())) };
                            let e = extract(*e, 0, 8);
                            for i in 0..n {
                                self.write_int(st, d + i, 8, &mkval(e))?;
                            }
                        }
                    }
                }
                Some(Val::C(d))
            }
            Hook::Memcmp | Hook::Bcmp | Hook::SymMemEq => {
                let (x, y, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let (p, q) = (self.read_bytes(st, x, n)?, self.read_bytes(st, y, n)?);
                if h == Hook::Memcmp {
                    // lexicographic, in chunks
                    let mut r = konst(32, 0);
                    let mut chunks = vec![];
                    let mut i = 0;
                    let n = n as usize;
                    while i < n {
                        let j = (i + 16).min(n);
                        let (mut e, mut f) = (ex(&p[i], 8), ex(&q[i], 8));
                        for k in i + 1..j {
                            e = concat(e, ex(&p[k], 8));
                            f = concat(f, ex(&q[k], 8));
                        }
                        chunks.push((e, f));
                        i = j;
                    }
                    for (e, f) in chunks.into_iter().rev() {
                        let lt = cmp(C::Ult, e, f);
                        let eq = cmp(C::Eq, e, f);
                        r = ite(eq, r, ite(lt, konst(32, u32::MAX as u128), konst(32, 1)));
                    }
                    Some(mkval(r))
                } else {
                    let mut e = konst(1, 1);
                    for i in 0..n as usize {
                        e = bin(B::And, e, cmp(C::Eq, ex(&p[i], 8), ex(&q[i], 8)));
                        if is_const(e) == Some(0) {
                            break;
                        }
                    }
                    if h == Hook::Bcmp {
                        Some(mkval(zext(not(e), 32)))
                    } else {
                        Some(mkval(zext(e, w)))
                    }
                }
            }
            Hook::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.read_int(st, p + n, 8)?;
                    let b = self.conc(st, &b)?;
                    if b == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::C(n))
            }
            Hook::Malloc => {
                let n = self.conc(st, &a[0])?;
                Some(Val::C(self.alloc(st, n)?))
            }
            Hook::RustAlloc | Hook::RustAllocZ => {
                let n = self.conc(st, &a[0])?;
                Some(Val::C(self.alloc(st, n)?))
            }
            Hook::AlignedAlloc => {
                let n = self.conc(st, &a[1])?;
                Some(Val::C(self.alloc(st, n)?))
            }
            Hook::Calloc => {
                let (n, k) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                Some(Val::C(self.alloc(st, n * k)?))
            }
            Hook::Realloc | Hook::RustRealloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, if h == Hook::Realloc { &a[1] } else { &a[3] })?;
                let np = self.alloc(st, n)?;
                if p != 0 {
                    let old = self.obj(st, p)?.data.len() as u64;
                    self.copy(st, np, p, old.min(n))?;
                    self.dealloc(st, p)?;
                }
                Some(Val::C(np))
            }
            Hook::Free | Hook::RustDealloc => {
                let p = self.conc(st, &a[0])?;
                self.dealloc(st, p)?;
                None
            }
            Hook::PosixMemalign => {
                let (pp, n) = (self.conc(st, &a[0])?, self.conc(st, &a[2])?);
                let p = self.alloc(st, n)?;
                self.write_int(st, pp, 64, &Val::C(p))?;
                Some(Val::C(0))
            }
            Hook::Ovf => {
                // {iN, i1}
                let w = self.width(c.args[0].0);
                if matches!(a[0], Val::A(_)) {
                    return Err(Stop::Unsupported(name.to_string()));
                }
                let (x, y) = (ex(&a[0], w), ex(&a[1], w));
                let r = &name[5..];
                let signed = r.starts_with('s');
                let op = if r[1..].starts_with("add") {
                    B::Add
                } else if r[1..].starts_with("sub") {
                    B::Sub
                } else {
                    B::Mul
                };
                let res = bin(op, x, y);
                let o = match (signed, op) {
                    (false, B::Add) => cmp(C::Ult, res, x),
                    (false, B::Sub) => cmp(C::Ult, x, y),
                    (false, _) => {
                        if w <= 64 {
                            let wide = bin(B::Mul, zext(x, 2 * w), zext(y, 2 * w));
                            not(cmp(C::Eq, extract(wide, w, w), konst(w, 0)))
                        } else if let (Some(p), Some(q)) = (is_const(x), is_const(y)) {
                            konst(1, (p.checked_mul(q).map_or(true, |z| z > mask(w))) as u128)
                        } else {
                            return Err(Stop::Unsupported(name.to_string()));
                        }
                    }
                    (true, B::Mul) => {
                        if w <= 64 {
                            let wide = bin(B::Mul, sext_e(x, 2 * w), sext_e(y, 2 * w));
                            not(cmp(C::Eq, wide, sext_e(res, 2 * w)))
                        } else {
                            return Err(Stop::Unsupported(name.to_string()));
                        }
                    }
                    (true, B::Add) => {
                        let s = |e| extract(e, w - 1, 1);
                        bin(B::And, cmp(C::Eq, s(x), s(y)), not(cmp(C::Eq, s(x), s(res))))
                    }
                    (true, _) => {
                        let s = |e| extract(e, w - 1, 1);
                        bin(B::And, not(cmp(C::Eq, s(x), s(y))), not(cmp(C::Eq, s(x), s(res))))
                    }
                };
                Some(Val::A(Rc::new(vec![mkval(res), mkval(o)])))
            }
            Hook::Sat => {
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let ew = match self.m.tk(c.rty).clone() {
                        TK::Vector(_, e) => self.width(e),
                        _ => 64,
                    };
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(sat_val(&name, ew, &x[i], &y[i])?);
                    }
                    return Ok(Some(Val::A(Rc::new(v))));
                }
                Some(sat_val(&name, w, &a[0], &a[1])?)
            }
            Hook::MinMax => {
                if let (Val::A(x), Val::A(y)) = (&a[0], &a[1]) {
                    let ew = match self.m.tk(c.rty).clone() {
                        TK::Vector(_, e) => self.width(e),
                        _ => 64,
                    };
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(mm(&name, ew, &x[i], &y[i]));
                    }
                    return Ok(Some(Val::A(Rc::new(v))));
                }
                Some(mm(&name, w, &a[0], &a[1]))
            }
            Hook::Abs => {
                let x = ex(&a[0], w);
                let neg = cmp(C::Slt, x, konst(w, 0));
                Some(mkval(ite(neg, bin(B::Sub, konst(w, 0), x), x)))
            }
            Hook::Bits => {
                if let Val::A(x) = &a[0] {
                    let ew = match self.m.tk(c.rty).clone() {
                        TK::Vector(_, e) => self.width(e),
                        _ => 64,
                    };
                    let v = x.iter().map(|e| bits_val(&name, ew, e)).collect();
                    return Ok(Some(Val::A(Rc::new(v))));
                }
                Some(bits_val(&name, w, &a[0]))
            }
            Hook::Fsh => {
                let f = |x: &Val, y: &Val, z: &Val, w: u16| -> R<Val> {
                    let (x, y, z) = (ex(x, w), ex(y, w), ex(z, w));
                    let left = name.starts_with("llvm.fshl");
                    if let Some(k) = is_const(z) {
                        let k = (k % w as u128) as u16;
                        if k == 0 {
                            return Ok(mkval(if left { x } else { y }));
                        }
                        return Ok(mkval(if left {
                            concat(extract(x, 0, w - k), extract(y, w - k, k))
                        } else {
                            concat(extract(x, 0, k), extract(y, k, w - k))
                        }));
                    }
                    let wz = konst(w, w as u128);
                    let s = bin(B::URem, z, wz);
                    let inv = bin(B::Sub, wz, s);
                    let zero = cmp(C::Eq, s, konst(w, 0));
                    Ok(mkval(if left {
                        ite(zero, x, bin(B::Or, bin(B::Shl, x, s), bin(B::LShr, y, inv)))
                    } else {
                        ite(zero, y, bin(B::Or, bin(B::Shl, x, inv), bin(B::LShr, y, s)))
                    }))
                };
                if let (Val::A(x), Val::A(y), Val::A(z)) = (&a[0], &a[1], &a[2]) {
                    let ew = match self.m.tk(c.rty).clone() {
                        TK::Vector(_, e) => self.width(e),
                        _ => 64,
                    };
                    let mut v = vec![];
                    for i in 0..x.len() {
                        v.push(f(&x[i], &y[i], &z[i], ew)?);
                    }
                    return Ok(Some(Val::A(Rc::new(v))));
                }
                Some(f(&a[0], &a[1], &a[2], w)?)
            }
            Hook::Expect | Hook::Ident => Some(a[0].clone()),
            Hook::IsConst => Some(Val::C(0)),
            Hook::ObjSize => Some(Val::C(mask(w) as u64)),
            Hook::Trap | Hook::Usub => return Err(Stop::Violation("abort".into(), format!("{} called", name))),
            Hook::PanicFmt => {
                let m = self.panic_msg(st, a);
                return Err(Stop::Violation("panic".into(), m));
            }
            Hook::Reduce => {
                let Val::A(v) = &a[0] else { return Err(Stop::Unsupported(name.to_string())) };
                let n = &name["llvm.vector.reduce.".len()..];
                let mut r = v[0].clone();
                for x in &v[1..] {
                    r = if n.starts_with("add") {
                        bin_val(B::Add, w, &r, x)?
                    } else if n.starts_with("or") {
                        bin_val(B::Or, w, &r, x)?
                    } else if n.starts_with("and") {
                        bin_val(B::And, w, &r, x)?
                    } else if n.starts_with("xor") {
                        bin_val(B::Xor, w, &r, x)?
                    } else if n.starts_with("mul") {
                        bin_val(B::Mul, w, &r, x)?
                    } else {
                        mm(&format!("llvm.{}", n), w, &r, x)
                    };
                }
                Some(r)
            }
            Hook::LoadRel => {
                let (p, o) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let o = if self.width(c.args[1].0) == 32 { o as u32 as i32 as i64 } else { o as i64 };
                let v = self.read_int(st, p.wrapping_add(o as u64), 32)?;
                let v = self.conc(st, &v)?;
                Some(Val::C(p.wrapping_add(v as u32 as i32 as i64 as u64)))
            }
            Hook::Getrandom => {
                // getrandom(buf,len,flags) or syscall(SYS_getrandom=318, buf, len, flags)
                let (b, n) = if &*name == "syscall" {
                    let k = self.conc(st, &a[0])?;
                    if k != 318 {
                        return Err(Stop::Unsupported(format!("syscall {}", k)));
                    }
                    (self.conc(st, &a[1])?, self.conc(st, &a[2])?)
                } else {
                    (self.conc(st, &a[0])?, self.conc(st, &a[1])?)
                };
                for i in 0..n {
                    st.env_rand = st.env_rand.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let v = st.env_rand >> 33;
                    self.write_int(st, b + i, 8, &Val::C(v & 0xff))?;
                }
                Some(Val::C(n))
            }
            Hook::Getenv | Hook::Zero | Hook::ClockZero => Some(Val::C(0)),
            Hook::MinusOne => Some(Val::C(mask(w) as u64)),
            Hook::Write => {
                if &*name == "write" {
                    Some(a[2].clone())
                } else {
                    Some(Val::C(1 << 20))
                }
            }
            Hook::Exit => return Err(Stop::Done),
            Hook::Fabs => match &a[0] {
                Val::C(x) => Some(Val::C(if w == 64 { x & !(1 << 63) } else { x & !(1 << 31) })),
                _ => return Err(Stop::Unsupported("fabs".into())),
            },
            Hook::VaStart => {
                let p = self.conc(st, &a[0])?;
                let va = st.frames.last().unwrap().varargs.clone();
                let area = self.alloc(st, (va.len() * 16 + 16) as u64)?;
                let mut off = 0;
                for (sz, v) in va {
                    let w = match &v {
                        Val::W(_) => 128,
                        Val::S(e) => width(*e),
                        _ => 64,
                    };
                    self.write_int(st, area + off, w, &v)?;
                    off += (sz + 7) / 8 * 8;
                }
                self.write_int(st, p, 32, &Val::C(48))?;
                self.write_int(st, p + 4, 32, &Val::C(176))?;
                self.write_int(st, p + 8, 64, &Val::C(area))?;
                self.write_int(st, p + 16, 64, &Val::C(area))?;
                None
            }
            Hook::VaCopy => {
                let (d, s) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                self.copy(st, d, s, 24)?;
                None
            }
            // ----- harness interface -----
            Hook::SymBits => {
                let (p, n, bits) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                let nm = self.read_str(st, p, n)?;
                let k = st.inputs.iter().filter(|x| x.0.rsplit_once('#').map_or(false, |y| y.0 == nm)).count();
                let full = format!("{}#{}", nm, k);
                let e = var(&full, bits as u16);
                let Node::Var(_, id) = node(e) else { unreachable!() };
                st.inputs.push((full.as_str().into(), id));
                Some(mkval(zext(e, 64)))
            }
            Hook::SymAssume => {
                match &a[0] {
                    Val::C(x) => {
                        if *x & 1 == 0 {
                            return Err(Stop::Killed);
                        }
                    }
                    Val::S(e) => {
                        let e = if width(*e) > 1 { not(cmp(C::Eq, *e, konst(width(*e), 0))) } else { *e };
                        match self.known(st, e) {
                            Some(1) => {}
                            Some(_) => return Err(Stop::Killed),
                            None => {
                                if eval(e, &st.model) == 1 {
                                    Self::assume_true(st, e);
                                } else {
                                    match self.s.check(&st.cons, e) {
                                        Sat::Unsat => return Err(Stop::Killed),
                                        Sat::Unknown => return Err(Stop::Unsupported("solver returned unknown".into())),
                                        Sat::Sat(m) => {
                                            Self::merge_model(st, &m);
                                            Self::assume_true(st, e);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            Hook::SymAssert => {
                self.rep.asserts += 1;
                let msg = {
                    let (p, n) = (self.conc(st, &a[1])?, self.conc(st, &a[2])?);
                    self.read_str(st, p, n)?
                };
                match &a[0] {
                    Val::C(x) => {
                        if *x & 1 == 0 {
                            return Err(Stop::Violation("assert".into(), msg));
                        }
                    }
                    Val::S(e) => {
                        let e = if width(*e) > 1 { not(cmp(C::Eq, *e, konst(width(*e), 0))) } else { *e };
                        let bad = not(e);
                        match self.known(st, e) {
                            Some(1) => {}
                            Some(_) => return Err(Stop::Violation("assert".into(), msg)),
                            None => {
                                match self.s.check(&st.cons, bad) {
                                    Sat::Unsat => {
                                        st.fixed.insert(e, 1);
                                    }
                                    Sat::Unknown => return Err(Stop::Unsupported("solver returned unknown".into())),
                                    Sat::Sat(m) => {
                                        let mut o = st.clone();
                                        Self::merge_model(&mut o, &m);
                                        self.violation(&o, "assert", &msg);
                                        // continue on the passing side, if any
                                        match self.s.check(&st.cons, e) {
                                            Sat::Sat(m) => {
                                                Self::merge_model(st, &m);
                                                Self::assume_true(st, e);
                                            }
                                            _ => return Err(Stop::Killed),
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            Hook::SymFail => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let m = self.read_str(st, p, n)?;
                return Err(Stop::Violation("assert".into(), m));
            }
            Hook::RandKeys => Some(Val::A(Rc::new(vec![Val::C(0x5eed), Val::C(0xf00d)]))),
            Hook::Skip => return Err(Stop::Killed),
            Hook::SymObs => {
                let (tp, tn, p, n) =
                    (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?, self.conc(st, &a[3])?);
                let t = self.read_str(st, tp, tn)?;
                let b = self.read_bytes(st, p, n)?;
                st.obs.push((t.as_str().into(), Rc::new(b)));
                None
            }
            Hook::SymReach => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let m = self.read_str(st, p, n)?;
                *self.rep.reach.entry(m).or_default() += 1;
                None
            }
            Hook::SymConc => Some(Val::C(self.conc(st, &a[0])?)),
            Hook::SymMode => Some(Val::C(1)),
            Hook::SymIsConc => {
                let (p, n) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?);
                let b = self.read_bytes(st, p, n)?;
                Some(Val::C(b.iter().all(|x| match x {
                    Val::S(e) => self.known(st, *e).is_some(),
                    _ => true,
                }) as u64))
            }
        })
    }

    pub fn assignment(&self, st: &State) -> Vec<(String, u128)> {
        st.inputs
            .iter()
            .map(|(n, id)| {
                let w = var_info(*id).1;
                (n.to_string(), st.model.get(id).cloned().unwrap_or(0) & mask(w))
            })
            .collect()
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: &str) {
        let key = format!("{}: {}", kind, msg);
        let c = self.rep.vcount.entry(key).or_default();
        *c += 1;
        if *c <= 6 {
            let v = Violation { kind: kind.into(), msg: msg.into(), trace: self.trace(st), inputs: self.assignment(st) };
            if self.verbose {
                eprintln!("VIOL {} {} {:?}", kind, msg, v.inputs);
                for t in &v.trace {
                    eprintln!("   at {}", t);
                }
            }
            self.rep.violations.push(v);
        }
    }
    pub fn finish(&mut self, st: &State, stop: Stop) {
        self.rep.maxdepth = self.rep.maxdepth.max(st.depth);
        match stop {
            Stop::Done => {
                self.rep.paths += 1;
                if self.rep.paths % self.sample_every == 1 || self.sample_every == 1 {
                    let obs = st
                        .obs
                        .iter()
                        .map(|(t, b)| {
                            (
                                t.to_string(),
                                b.iter()
                                    .map(|x| match x {
                                        Val::C(c) => *c as u8,
                                        Val::S(e) => eval(*e, &st.model) as u8,
                                        _ => 0,
                                    })
                                    .collect(),
                            )
                        })
                        .collect();
                    let s = Sample { inputs: self.assignment(st), obs };
                    self.rep.samples.push(s);
                }
            }
            Stop::Killed => self.rep.killed += 1,
            Stop::Violation(k, m) => {
                self.rep.paths += 1;
                self.violation(st, &k, &m);
            }
            Stop::Unsupported(m) => {
                if self.verbose {
                    eprintln!("UNSUPPORTED {} at {:?}", m, self.trace(st));
                }
                let m = if m == "deadline" { m } else { format!("{} [{}]", m, self.trace(st).into_iter().take(5).collect::<Vec<_>>().join(" < ")) };
                *self.rep.incomplete.entry(m).or_default() += 1;
            }
        }
    }
}

// ---------- value helpers ----------
pub fn mkval(e: E) -> Val {
    match node(e) {
        Node::Const(w, v) => mkc(w, v),
        _ => Val::S(e),
    }
}
fn mkc(w: u16, v: u128) -> Val {
    if w > 64 {
        Val::W(Rc::new(v))
    } else {
        Val::C(v as u64)
    }
}
pub fn ex(v: &Val, w: u16) -> E {
    match v {
        Val::C(x) => konst(w, *x as u128),
        Val::W(x) => konst(w, **x),
        Val::S(e) => *e,
        Val::A(_) => panic!("ex aggregate"),
    }
}
fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::C(x), Val::C(y)) => x == y,
        (Val::S(x), Val::S(y)) => x == y,
        _ => false,
    }
}
fn insv(v: &Val, x: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return x.clone();
    }
    match v {
        Val::A(a) => {
            let mut n = (**a).clone();
            if (ix[0] as usize) < n.len() {
                n[ix[0] as usize] = insv(&a[ix[0] as usize], x, &ix[1..]);
            }
            Val::A(Rc::new(n))
        }
        _ => panic!("insv"),
    }
}
fn vec2(x: &Val, y: &Val, f: impl Fn(&Val, &Val) -> R<Val>) -> R<Val> {
    let (Val::A(x), Val::A(y)) = (x, y) else { return Err(Stop::Unsupported("vec2".into())) };
    let mut v = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        v.push(f(&x[i], &y[i])?);
    }
    Ok(Val::A(Rc::new(v)))
}
#[inline]
fn bin_val(op: B, w: u16, x: &Val, y: &Val) -> R<Val> {
    if let (Val::C(a), Val::C(b)) = (x, y) {
        let (a, b) = (*a, *b);
        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
        let r = match op {
            B::Add => a.wrapping_add(b),
            B::Sub => a.wrapping_sub(b),
            B::Mul => a.wrapping_mul(b),
            B::And => a & b,
            B::Or => a | b,
            B::Xor => a ^ b,
            B::Shl => {
                if b >= w as u64 {
                    0
                } else {
                    a << b
                }
            }
            B::LShr => {
                if b >= w as u64 {
                    0
                } else {
                    a >> b
                }
            }
            _ => match fold_bin(op, w, a as u128, b as u128) {
                Some(v) => v as u64,
                None => return Err(Stop::Violation("arith".into(), "division by zero".into())),
            },
        };
        return Ok(Val::C(r & m));
    }
    if let (Val::W(a), Val::W(b)) = (x, y) {
        return match fold_bin(op, w, **a, **b) {
            Some(v) => Ok(mkc(w, v)),
            None => Err(Stop::Violation("arith".into(), "division by zero".into())),
        };
    }
    if matches!(x, Val::A(_)) || matches!(y, Val::A(_)) {
        return Err(Stop::Unsupported("bin aggregate".into()));
    }
    Ok(mkval(bin(op, ex(x, w), ex(y, w))))
}
fn icmp_val(p: Pred, w: u16, x: &Val, y: &Val) -> R<Val> {
    if let (Val::C(a), Val::C(b)) = (x, y) {
        let (a, b) = (*a, *b);
        let s = |v: u64| -> i64 {
            if w >= 64 {
                v as i64
            } else {
                ((v << (64 - w)) as i64) >> (64 - w)
            }
        };
        let r = match p {
            Pred::Eq => a == b,
            Pred::Ne => a != b,
            Pred::Ugt => a > b,
            Pred::Uge => a >= b,
            Pred::Ult => a < b,
            Pred::Ule => a <= b,
            Pred::Sgt => s(a) > s(b),
            Pred::Sge => s(a) >= s(b),
            Pred::Slt => s(a) < s(b),
            Pred::Sle => s(a) <= s(b),
        };
        return Ok(Val::C(r as u64));
    }
    if matches!(x, Val::A(_)) || matches!(y, Val::A(_)) {
        return Err(Stop::Unsupported("icmp aggregate".into()));
    }
    let (a, b) = (ex(x, w), ex(y, w));
    Ok(mkval(match p {
        Pred::Eq => cmp(C::Eq, a, b),
        Pred::Ne => not(cmp(C::Eq, a, b)),
        Pred::Ugt => cmp(C::Ult, b, a),
        Pred::Uge => cmp(C::Ule, b, a),
        Pred::Ult => cmp(C::Ult, a, b),
        Pred::Ule => cmp(C::Ule, a, b),
        Pred::Sgt => cmp(C::Slt, b, a),
        Pred::Sge => cmp(C::Sle, b, a),
        Pred::Slt => cmp(C::Slt, a, b),
        Pred::Sle => cmp(C::Sle, a, b),
    }))
}
fn mm(name: &str, w: u16, x: &Val, y: &Val) -> Val {
    let (a, b) = (ex(x, w), ex(y, w));
    let r = &name[5..];
    let c = if r.starts_with('u') { cmp(C::Ult, a, b) } else { cmp(C::Slt, a, b) };
    mkval(if r[1..].starts_with("min") { ite(c, a, b) } else { ite(c, b, a) })
}
fn sat_val(name: &str, w: u16, x: &Val, y: &Val) -> R<Val> {
    let (a, b) = (ex(x, w), ex(y, w));
    let r = &name[5..];
    Ok(mkval(if r.starts_with("uadd") {
        let s = bin(B::Add, a, b);
        ite(cmp(C::Ult, s, a), konst(w, u128::MAX), s)
    } else if r.starts_with("usub") {
        ite(cmp(C::Ult, a, b), konst(w, 0), bin(B::Sub, a, b))
    } else {
        let op = if r.starts_with("sadd") { B::Add } else { B::Sub };
        let s = bin(op, a, b);
        let sg = |e| extract(e, w - 1, 1);
        let diff = if op == B::Add { cmp(C::Eq, sg(a), sg(b)) } else { not(cmp(C::Eq, sg(a), sg(b))) };
        let o = bin(B::And, diff, not(cmp(C::Eq, sg(a), sg(s))));
        let maxv = konst(w, mask(w) >> 1);
        let minv = konst(w, 1u128 << (w - 1));
        ite(o, ite(cmp(C::Slt, a, konst(w, 0)), minv, maxv), s)
    }))
}
fn bits_val(name: &str, w: u16, x: &Val) -> Val {
    let r = &name[5..];
    let e = ex(x, w);
    let k = |v: u128| konst(w, v);
    if r.starts_with("bswap") {
        let n = w / 8;
        let mut o = extract(e, 0, 8);
        for i in 1..n {
            o = concat(o, extract(e, i * 8, 8));
        }
        mkval(o)
    } else if r.starts_with("bitreverse") {
        let mut o = extract(e, 0, 1);
        for i in 1..w {
            o = concat(o, extract(e, i, 1));
        }
        mkval(o)
    } else if r.starts_with("ctpop") {
        let mut o = k(0);
        for i in 0..w {
            o = bin(B::Add, o, zext(extract(e, i, 1), w));
        }
        mkval(o)
    } else if r.starts_with("cttz") {
        let mut o = k(w as u128);
        for i in (0..w).rev() {
            o = ite(extract(e, i, 1), k(i as u128), o);
        }
        mkval(o)
    } else {
        let mut o = k(w as u128);
        for i in 0..w {
            o = ite(extract(e, i, 1), k((w - 1 - i) as u128), o);
        }
        mkval(o)
    }
}
fn join_bits(vs: &[Val], w: u16) -> Val {
    if vs.iter().all(|v| matches!(v, Val::C(_))) && vs.len() * w as usize <= 128 {
        let mut r = 0u128;
        for (i, v) in vs.iter().enumerate() {
            if let Val::C(x) = v {
                r |= (*x as u128 & mask(w)) << (i * w as usize);
            }
        }
        return mkc((vs.len() * w as usize) as u16, r);
    }
    let mut e = ex(&vs[0], w);
    for v in &vs[1..] {
        e = concat(ex(v, w), e);
    }
    mkval(e)
}
fn split_bits(v: &Val, n: usize, w: u16) -> Val {
    let r = match v {
        Val::C(x) => (0..n).map(|i| mkc(w, (*x as u128 >> (i * w as usize)) & mask(w))).collect(),
        Val::W(x) => (0..n).map(|i| mkc(w, (**x >> (i * w as usize)) & mask(w))).collect(),
        Val::S(e) => (0..n).map(|i| mkval(extract(*e, (i * w as usize) as u16, w))).collect(),
        Val::A(_) => panic!("split agg"),
    };
    Val::A(Rc::new(r))
}
