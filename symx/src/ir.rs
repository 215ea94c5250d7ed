//! LLVM IR (textual) reader: types, globals and functions; bodies are decoded lazily.
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum TK {
    Void,
    Int(u16),
    Ptr,
    Float,
    Double,
    Array(u64, T),
    Vector(u64, T),
    Struct(Vec<T>, bool),
    Other,
}
#[derive(Clone, Debug)]
pub struct TI {
    pub k: TK,
    pub size: u64,
    pub align: u64,
    pub offs: Vec<u64>,
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    L(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Dyn(Op),
    Asm(Rc<str>),
}
#[derive(Debug)]
pub struct CallI {
    pub d: Option<u32>,
    pub rty: T,
    pub callee: Callee,
    pub args: Vec<(T, Op, u64)>, // byval size (0 = no)
    pub normal: Option<u32>,
}

#[derive(Debug)]
pub enum I {
    Bin(crate::expr::B, u16, u32, u32, Op, Op), // op, width, veclen(0), d, a, b
    FBin(FB, T, u32, Op, Op),
    FNeg(T, u32, Op),
    Icmp(Pred, u16, u32, u32, Op, Op),
    Fcmp(Rc<str>, T, u32, Op, Op),
    Cast(Cast, T, T, u32, Op),
    Load(T, u32, Op),
    Store(T, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u16, i64)>),
    Alloca(u32, u64, Op),
    Call(Box<CallI>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Select(u32, Op, Op, Op, T, u32), // d, c, a, b, ty, cond veclen
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i64>, u32, T),
    Freeze(u32, Op),
    CmpXchg(u32, T, Op, Op, Op),
    AtomicRmw(u32, Rc<str>, T, Op, Op),
    Nop,
    Landing,
}

pub struct Block {
    pub start: u32,
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub cov: std::cell::Cell<bool>,
}
pub struct Body {
    pub code: Vec<I>,
    pub dbg: Vec<u32>,
    pub blk_of: Vec<u32>,
    pub blocks: Vec<Block>,
    pub nslots: u32,
    pub params: Vec<u32>,
}
pub struct Func {
    pub name: Rc<str>,
    pub text: Option<(usize, usize)>, // byte range, starting at "define"
    pub body: Option<Rc<Body>>,
    pub nparams: u32,
    pub vararg: bool,
    pub rty: T,
}
pub struct Global {
    pub name: Rc<str>,
    pub ty: T,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub alias: Option<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    L(String),
    G(String),
    Id(String),
    Int(i128),
    Flt(String),
    Str(Vec<u8>),
    P(char),
    Meta(String),
    Attr,
    Eof,
}

pub const FN_BASE: u64 = 0x7000_0000;

pub struct Module {
    pub src: &'static [u8],
    pub types: Vec<TI>,
    pub tmap: HashMap<TK, T>,
    pub named: HashMap<String, (usize, usize)>,
    named_done: HashMap<String, T>,
    pub globals: Vec<Global>,
    pub funcs: Vec<Func>,
    pub gmap: HashMap<String, u64>, // name -> address
    pub i128_align: u64,
    pub dbg_lines: FxMap<u32, (usize, usize)>,
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub struct Lex {
    s: &'static [u8],
    pub p: usize,
    e: usize,
    peeked: Option<(Tok, usize)>,
}
impl Lex {
    pub fn new(s: &'static [u8], p: usize, e: usize) -> Lex {
        Lex { s, p, e, peeked: None }
    }
    fn unesc(&self, a: usize, b: usize) -> Vec<u8> {
        let mut v = vec![];
        let mut i = a;
        while i < b {
            if self.s[i] == b'\\' {
                if i + 1 < b && self.s[i + 1] == b'\\' {
                    v.push(b'\\');
                    i += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[i + 1..i + 3]).unwrap();
                v.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            } else {
                v.push(self.s[i]);
                i += 1;
            }
        }
        v
    }
    fn skip_ws(&mut self) {
        while self.p < self.e {
            match self.s[self.p] {
                b' ' | b'\t' | b'\n' | b'\r' => self.p += 1,
                b';' => {
                    while self.p < self.e && self.s[self.p] != b'\n' {
                        self.p += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn name(&mut self) -> String {
        if self.p < self.e && self.s[self.p] == b'"' {
            let a = self.p + 1;
            let mut b = a;
            while self.s[b] != b'"' {
                b += 1
            }
            self.p = b + 1;
            String::from_utf8_lossy(&self.unesc(a, b)).to_string()
        } else {
            let a = self.p;
            while self.p < self.e && is_idc(self.s[self.p]) {
                self.p += 1
            }
            String::from_utf8_lossy(&self.s[a..self.p]).to_string()
        }
    }
    fn lex(&mut self) -> Tok {
        self.skip_ws();
        if self.p >= self.e {
            return Tok::Eof;
        }
        let c = self.s[self.p];
        match c {
            b'%' => {
                self.p += 1;
                Tok::L(self.name())
            }
            b'@' => {
                self.p += 1;
                Tok::G(self.name())
            }
            b'!' => {
                self.p += 1;
                let a = self.p;
                while self.p < self.e && (is_idc(self.s[self.p]) || self.s[self.p] == b'\\') {
                    self.p += 1
                }
                Tok::Meta(String::from_utf8_lossy(&self.s[a..self.p]).to_string())
            }
            b'#' => {
                self.p += 1;
                while self.p < self.e && is_idc(self.s[self.p]) {
                    self.p += 1
                }
                Tok::Attr
            }
            b'"' => {
                let a = self.p + 1;
                let mut b = a;
                while self.s[b] != b'"' {
                    b += 1
                }
                self.p = b + 1;
                Tok::Str(self.unesc(a, b))
            }
            b'c' if self.p + 1 < self.e && self.s[self.p + 1] == b'"' => {
                let a = self.p + 2;
                let mut b = a;
                while self.s[b] != b'"' {
                    b += 1
                }
                self.p = b + 1;
                Tok::Str(self.unesc(a, b))
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = self.p;
                self.p += 1;
                while self.p < self.e
                    && (is_idc(self.s[self.p])
                        || (self.s[self.p] == b'+' && matches!(self.s[self.p - 1], b'e' | b'E')))
                {
                    self.p += 1
                }
                let t = std::str::from_utf8(&self.s[a..self.p]).unwrap();
                if let Ok(i) = t.parse::<i128>() {
                    Tok::Int(i)
                } else if let Ok(i) = t.parse::<u128>() {
                    Tok::Int(i as i128)
                } else {
                    Tok::Flt(t.to_string())
                }
            }
            c if is_idc(c) => {
                let a = self.p;
                while self.p < self.e && is_idc(self.s[self.p]) {
                    self.p += 1
                }
                Tok::Id(String::from_utf8_lossy(&self.s[a..self.p]).to_string())
            }
            c => {
                self.p += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn next(&mut self) -> Tok {
        if let Some((t, p)) = self.peeked.take() {
            self.p = p;
            return t;
        }
        self.lex()
    }
    pub fn peek(&mut self) -> &Tok {
        if self.peeked.is_none() {
            let p0 = self.p;
            let t = self.lex();
            let p1 = self.p;
            self.p = p0;
            self.peeked = Some((t, p1));
        }
        &self.peeked.as_ref().unwrap().0
    }
    pub fn eat(&mut self, c: char) -> bool {
        if *self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if matches!(self.peek(), Tok::Id(x) if x == s) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        let t = self.next();
        if t != Tok::P(c) {
            let a = self.p.saturating_sub(200);
            panic!(
                "symx: expected '{}' got {:?} near {}",
                c,
                t,
                String::from_utf8_lossy(&self.s[a..(self.p + 60).min(self.s.len())])
            );
        }
    }
    fn skip_line(&mut self) {
        self.peeked = None;
        while self.p < self.e && self.s[self.p] != b'\n' {
            self.p += 1
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        self.expect('(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

fn is_type_id(s: &str) -> bool {
    matches!(
        s,
        "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "opaque" | "token"
    ) || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
}

impl Module {
    pub fn load(path: &str) -> Module {
        let data = std::fs::read(path).expect("read .ll");
        let src: &'static [u8] = Box::leak(data.into_boxed_slice());
        let mut m = Module {
            src,
            types: vec![],
            tmap: HashMap::new(),
            named: HashMap::new(),
            named_done: HashMap::new(),
            globals: vec![],
            funcs: vec![],
            gmap: HashMap::new(),
            i128_align: 8,
            dbg_lines: Default::default(),
        };
        // global id 0 is reserved (null)
        m.globals.push(Global { name: "".into(), ty: 0, init: None, constant: false, alias: None });
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut flines: Vec<(usize, usize, bool)> = vec![];
        let mut p = 0;
        let n = src.len();
        while p < n {
            let mut e = p;
            while e < n && src[e] != b'\n' {
                e += 1
            }
            let l = &src[p..e];
            if l.starts_with(b"define") {
                // find end "\n}"
                let mut q = e;
                loop {
                    while src[q] != b'\n' {
                        q += 1
                    }
                    if src[q + 1] == b'}' {
                        break;
                    }
                    q += 1;
                }
                flines.push((p, q + 1, true));
                e = q + 2;
            } else if l.starts_with(b"declare") {
                flines.push((p, e, false));
            } else if l.starts_with(b"@") {
                glines.push((p, e));
            } else if l.starts_with(b"%") {
                let mut lx = Lex::new(src, p, e);
                if let Tok::L(name) = lx.next() {
                    lx.expect('=');
                    lx.eat_id("type");
                    m.named.insert(name, (lx.p, e));
                }
            } else if l.starts_with(b"!") {
                let mut i = 1;
                let mut v = 0u32;
                while i < l.len() && l[i].is_ascii_digit() {
                    v = v * 10 + (l[i] - b'0') as u32;
                    i += 1;
                }
                if i > 1 {
                    m.dbg_lines.insert(v, (p, e));
                }
            } else if l.starts_with(b"target datalayout") {
                if l.windows(8).any(|w| w == b"i128:128") {
                    m.i128_align = 16;
                }
            }
            p = e + 1;
        }
        // names first (addresses), then types of globals
        for (a, e) in &glines {
            let mut lx = Lex::new(src, *a, *e);
            if let Tok::G(name) = lx.next() {
                let id = m.globals.len() as u64;
                m.globals.push(Global {
                    name: name.as_str().into(),
                    ty: 0,
                    init: None,
                    constant: false,
                    alias: None,
                });
                m.gmap.insert(name, id << 32);
            }
        }
        for (a, e, def) in &flines {
            let hdr_end = if *def {
                let mut q = *a;
                while src[q] != b'\n' {
                    q += 1
                }
                q
            } else {
                *e
            };
            // name: first '@' outside quotes
            let mut q = *a;
            while q < hdr_end && src[q] != b'@' {
                q += 1
            }
            let mut lx = Lex::new(src, q, hdr_end);
            if let Tok::G(name) = lx.next() {
                let id = m.funcs.len() as u64;
                m.funcs.push(Func {
                    name: name.as_str().into(),
                    text: if *def { Some((*a, *e)) } else { None },
                    body: None,
                    nparams: 0,
                    vararg: false,
                    rty: 0,
                });
                m.gmap.insert(name, (FN_BASE + id) << 32);
            }
        }
        for (i, (a, e)) in glines.iter().enumerate() {
            let mut lx = Lex::new(src, *a, *e);
            lx.next();
            lx.expect('=');
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Id(s) if s == "global" => break,
                    Tok::Id(s) if s == "constant" => {
                        m.globals[i + 1].constant = true;
                        break;
                    }
                    Tok::Id(s) if s == "alias" || s == "ifunc" => {
                        alias = true;
                        break;
                    }
                    Tok::Eof => panic!("bad global {}", m.globals[i + 1].name),
                    _ => {}
                }
            }
            let external = {
                let s = &src[*a..(*e).min(*a + 400)];
                let t = String::from_utf8_lossy(s);
                t.contains("= external ") || t.contains("= extern_weak ")
            };
            let ty = m.ty(&mut lx);
            m.globals[i + 1].ty = ty;
            if alias {
                // a function type's parameter list: skip to the matching ')'
                let save = lx.p;
                if let Tok::P('(') = lx.next() {
                    let mut d = 1;
                    while d > 0 {
                        match lx.next() {
                            Tok::P('(') => d += 1,
                            Tok::P(')') => d -= 1,
                            Tok::Eof => panic!("bad alias {}", m.globals[i + 1].name),
                            _ => {}
                        }
                    }
                } else {
                    lx.p = save;
                }
                lx.expect(',');
                m.globals[i + 1].alias = Some((lx.p, *e));
            } else if !external {
                m.globals[i + 1].init = Some((lx.p, *e));
            }
        }
        // resolve aliases eagerly
        for i in 1..m.globals.len() {
            if let Some((a, e)) = m.globals[i].alias {
                let mut lx = Lex::new(src, a, e);
                let t = m.ty(&mut lx);
                let v = m.constant(&mut lx, t);
                if let Val::C(addr) = v {
                    let name = m.globals[i].name.to_string();
                    m.gmap.insert(name, addr);
                }
            }
        }
        m
    }

    pub fn mk(&mut self, k: TK) -> T {
        if let Some(t) = self.tmap.get(&k) {
            return *t;
        }
        let (size, align, offs) = match &k {
            TK::Void | TK::Other => (0, 1, vec![]),
            TK::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let p = b.next_power_of_two();
                let a = if p >= 16 { self.i128_align } else { p };
                ((b + a - 1) / a * a, a, vec![])
            }
            TK::Ptr | TK::Double => (8, 8, vec![]),
            TK::Float => (4, 4, vec![]),
            TK::Array(n, t) => {
                let i = &self.types[*t as usize];
                (i.size * n, i.align, vec![])
            }
            TK::Vector(n, t) => {
                let bits = match self.types[*t as usize].k {
                    TK::Int(w) => w as u64,
                    TK::Float => 32,
                    _ => 64,
                };
                let s = (bits * n + 7) / 8;
                let s2 = s.next_power_of_two();
                (s2, s2, vec![])
            }
            TK::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                let mut offs = vec![];
                for f in fs {
                    let i = &self.types[*f as usize];
                    let a = if *packed { 1 } else { i.align };
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += i.size;
                    al = al.max(a);
                }
                ((o + al - 1) / al * al, al, offs)
            }
        };
        let id = self.types.len() as T;
        self.types.push(TI { k: k.clone(), size, align, offs });
        self.tmap.insert(k, id);
        id
    }
    pub fn tk(&self, t: T) -> &TK {
        &self.types[t as usize].k
    }
    pub fn size(&self, t: T) -> u64 {
        self.types[t as usize].size
    }

    pub fn ty(&mut self, lx: &mut Lex) -> T {
        let t = self.ty0(lx);
        // function types: ret (args)
        t
    }
    fn ty0(&mut self, lx: &mut Lex) -> T {
        match lx.next() {
            Tok::Id(s) => match s.as_str() {
                "void" => self.mk(TK::Void),
                "ptr" => {
                    if lx.eat_id("addrspace") {
                        lx.skip_parens();
                    }
                    self.mk(TK::Ptr)
                }
                "float" => self.mk(TK::Float),
                "double" => self.mk(TK::Double),
                "half" | "x86_fp80" | "fp128" | "label" | "metadata" | "opaque" | "token" => self.mk(TK::Other),
                _ if s.starts_with('i') => {
                    let w: u16 = s[1..].parse().unwrap_or_else(|_| panic!("type {}", s));
                    self.mk(TK::Int(w))
                }
                _ => panic!("symx: unknown type {}", s),
            },
            Tok::L(n) => {
                if let Some(t) = self.named_done.get(&n) {
                    return *t;
                }
                let (a, e) = match self.named.get(&n) {
                    Some(x) => *x,
                    None => return self.mk(TK::Other),
                };
                let mut l2 = Lex::new(self.src, a, e);
                let t = self.ty0(&mut l2);
                self.named_done.insert(n, t);
                t
            }
            Tok::P('[') => {
                let n = match lx.next() {
                    Tok::Int(i) => i as u64,
                    t => panic!("array len {:?}", t),
                };
                lx.eat_id("x");
                let t = self.ty(lx);
                lx.expect(']');
                self.mk(TK::Array(n, t))
            }
            Tok::P('{') => {
                let fs = self.fields(lx, '}');
                self.mk(TK::Struct(fs, false))
            }
            Tok::P('<') => {
                if lx.eat('{') {
                    let fs = self.fields(lx, '}');
                    lx.expect('>');
                    self.mk(TK::Struct(fs, true))
                } else {
                    let n = match lx.next() {
                        Tok::Int(i) => i as u64,
                        t => panic!("vec len {:?}", t),
                    };
                    lx.eat_id("x");
                    let t = self.ty(lx);
                    lx.expect('>');
                    self.mk(TK::Vector(n, t))
                }
            }
            t => panic!("symx: bad type token {:?} at {}", t, String::from_utf8_lossy(&self.src[lx.p.saturating_sub(120)..(lx.p + 40).min(self.src.len())])),
        }
    }
    fn fields(&mut self, lx: &mut Lex, end: char) -> Vec<T> {
        let mut v = vec![];
        if lx.eat(end) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(',') {
                continue;
            }
            lx.expect(end);
            return v;
        }
    }
    fn peek_type(lx: &mut Lex) -> bool {
        match lx.peek() {
            Tok::Id(s) => is_type_id(s),
            Tok::L(_) => true,
            Tok::P('[') | Tok::P('{') | Tok::P('<') => true,
            _ => false,
        }
    }

    pub fn zero(&mut self, t: T) -> Val {
        match self.tk(t).clone() {
            TK::Int(w) if w > 64 => Val::W(Rc::new(0)),
            TK::Array(n, e) | TK::Vector(n, e) => {
                let z = self.zero(e);
                Val::A(Rc::new(vec![z; n as usize]))
            }
            TK::Struct(fs, _) => {
                let v = fs.iter().map(|f| self.zero(*f)).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::C(0),
        }
    }
    fn int_val(w: u16, i: i128) -> Val {
        if w > 64 {
            Val::W(Rc::new((i as u128) & crate::expr::mask(w)))
        } else {
            Val::C((i as u128 & crate::expr::mask(w)) as u64)
        }
    }
    /// Parse a constant of type t.
    pub fn constant(&mut self, lx: &mut Lex, t: T) -> Val {
        let tok = lx.next();
        match tok {
            Tok::Int(i) => match self.tk(t) {
                TK::Int(w) => Self::int_val(*w, i),
                TK::Double => Val::C((i as f64).to_bits()),
                TK::Float => Val::C((i as f32).to_bits() as u64),
                _ => Val::C(i as u64),
            },
            Tok::Flt(s) => {
                let bits = if let Some(h) = s.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).unwrap_or(0)
                } else {
                    s.parse::<f64>().unwrap_or(0.0).to_bits()
                };
                match self.tk(t) {
                    TK::Float => Val::C((f64::from_bits(bits) as f32).to_bits() as u64),
                    _ => Val::C(bits),
                }
            }
            Tok::G(n) => Val::C(*self.gmap.get(&n).unwrap_or_else(|| panic!("symx: global @{}", n))),
            Tok::Str(b) => Val::A(Rc::new(b.into_iter().map(|c| Val::C(c as u64)).collect())),
            Tok::P('{') => self.agg(lx, '}'),
            Tok::P('[') => self.agg(lx, ']'),
            Tok::P('<') => {
                if lx.eat('{') {
                    let v = self.agg(lx, '}');
                    lx.expect('>');
                    v
                } else {
                    self.agg(lx, '>')
                }
            }
            Tok::Id(s) => match s.as_str() {
                "true" => Val::C(1),
                "false" => Val::C(0),
                "null" => Val::C(0),
                "undef" | "poison" | "zeroinitializer" | "none" => self.zero(t),
                "getelementptr" => {
                    while let Tok::Id(x) = lx.peek() {
                        if is_type_id(x) {
                            break;
                        }
                        let r = x == "inrange";
                        lx.next();
                        if r && *lx.peek() == Tok::P('(') {
                            lx.skip_parens();
                        }
                    }
                    lx.expect('(');
                    let bt = self.ty(lx);
                    lx.expect(',');
                    let pt = self.ty(lx);
                    let base = match self.constant(lx, pt) {
                        Val::C(x) => x,
                        v => panic!("gep base {:?}", v),
                    };
                    let mut off = 0i64;
                    let mut cur = bt;
                    let mut first = true;
                    while lx.eat(',') {
                        lx.eat_id("inrange");
                        let it = self.ty(lx);
                        let iv = match (self.constant(lx, it), self.tk(it)) {
                            (Val::C(x), TK::Int(32)) => x as u32 as i32 as i64,
                            (Val::C(x), _) => x as i64,
                            (v, _) => panic!("gep idx {:?}", v),
                        };
                        if first {
                            off += iv * self.size(bt) as i64;
                            first = false;
                        } else {
                            match self.tk(cur).clone() {
                                TK::Struct(fs, _) => {
                                    off += self.types[cur as usize].offs[iv as usize] as i64;
                                    cur = fs[iv as usize];
                                }
                                TK::Array(_, e) | TK::Vector(_, e) => {
                                    off += iv * self.size(e) as i64;
                                    cur = e;
                                }
                                k => panic!("gep into {:?}", k),
                            }
                        }
                    }
                    lx.expect(')');
                    Val::C(base.wrapping_add(off as u64))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    lx.expect('(');
                    let ft = self.ty(lx);
                    let v = self.constant(lx, ft);
                    lx.eat_id("to");
                    let tt = self.ty(lx);
                    lx.expect(')');
                    let x = match v {
                        Val::C(x) => x as u128,
                        Val::W(x) => *x,
                        v => return v,
                    };
                    let x = if s == "sext" {
                        match self.tk(ft) {
                            TK::Int(w) => crate::expr::sext(x, *w) as u128,
                            _ => x,
                        }
                    } else {
                        x
                    };
                    match self.tk(tt) {
                        TK::Int(w) => Self::int_val(*w, x as i128),
                        _ => Val::C(x as u64),
                    }
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" | "ashr" => {
                    while let Tok::Id(_) = lx.peek() {
                        lx.next();
                    }
                    lx.expect('(');
                    let ta = self.ty(lx);
                    let a = self.constant(lx, ta);
                    lx.expect(',');
                    let tb = self.ty(lx);
                    let b = self.constant(lx, tb);
                    lx.expect(')');
                    let (Val::C(a), Val::C(b)) = (a, b) else { panic!("constexpr {}", s) };
                    let w = match self.tk(ta) {
                        TK::Int(w) => *w,
                        _ => 64,
                    };
                    let op = binop(&s).unwrap();
                    Val::C(crate::expr::fold_bin(op, w, a as u128, b as u128).unwrap() as u64)
                }
                "icmp" => {
                    let Tok::Id(pred) = lx.next() else { panic!("icmp predicate") };
                    lx.expect('(');
                    let ta = self.ty(lx);
                    let a = self.constant(lx, ta);
                    lx.expect(',');
                    let tb = self.ty(lx);
                    let b = self.constant(lx, tb);
                    lx.expect(')');
                    let (Val::C(a), Val::C(b)) = (a, b) else { panic!("constexpr icmp") };
                    let w = match self.tk(ta) {
                        TK::Int(w) => *w,
                        _ => 64,
                    };
                    let sx = |x: u64| crate::expr::sext(x as u128, w) as i128;
                    let r = match pred.as_str() {
                        "eq" => a == b,
                        "ne" => a != b,
                        "ult" => a < b,
                        "ule" => a <= b,
                        "ugt" => a > b,
                        "uge" => a >= b,
                        "slt" => sx(a) < sx(b),
                        "sle" => sx(a) <= sx(b),
                        "sgt" => sx(a) > sx(b),
                        "sge" => sx(a) >= sx(b),
                        p => panic!("constexpr icmp {}", p),
                    };
                    Val::C(r as u64)
                }
                "splat" => {
                    lx.expect('(');
                    let et = self.ty(lx);
                    let v = self.constant(lx, et);
                    lx.expect(')');
                    match self.tk(t) {
                        TK::Vector(n, _) => Val::A(Rc::new(vec![v; *n as usize])),
                        _ => v,
                    }
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => {
                    panic!("symx: constant {}", s)
                }
                _ => panic!("symx: constant token {} near {}", s, String::from_utf8_lossy(&self.src[lx.p.saturating_sub(160)..lx.p])),
            },
            t => panic!(
                "symx: constant token {:?} near {}",
                t,
                String::from_utf8_lossy(&self.src[lx.p.saturating_sub(200)..lx.p])
            ),
        }
    }
    fn agg(&mut self, lx: &mut Lex, end: char) -> Val {
        let mut v = vec![];
        if lx.eat(end) {
            return Val::A(Rc::new(v));
        }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, t));
            if lx.eat(',') {
                continue;
            }
            lx.expect(end);
            return Val::A(Rc::new(v));
        }
    }

    pub fn func_by_name(&self, n: &str) -> Option<u32> {
        self.gmap.get(n).and_then(|a| {
            let id = a >> 32;
            if id >= FN_BASE {
                Some((id - FN_BASE) as u32)
            } else {
                None
            }
        })
    }

    pub fn body(&mut self, fi: u32) -> Option<Rc<Body>> {
        if let Some(b) = &self.funcs[fi as usize].body {
            return Some(b.clone());
        }
        let (a, e) = self.funcs[fi as usize].text?;
        let b = Rc::new(FnParser::parse(self, fi, a, e));
        self.funcs[fi as usize].body = Some(b.clone());
        Some(b)
    }
}

pub fn binop(s: &str) -> Option<crate::expr::B> {
    use crate::expr::B;
    Some(match s {
        "add" => B::Add,
        "sub" => B::Sub,
        "mul" => B::Mul,
        "udiv" => B::UDiv,
        "sdiv" => B::SDiv,
        "urem" => B::URem,
        "srem" => B::SRem,
        "shl" => B::Shl,
        "lshr" => B::LShr,
        "ashr" => B::AShr,
        "and" => B::And,
        "or" => B::Or,
        "xor" => B::Xor,
        _ => return None,
    })
}

struct FnParser<'a> {
    m: &'a mut Module,
    lx: Lex,
    slots: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
    blist: Vec<Option<Block>>,
    code: Vec<I>,
    dbg: Vec<u32>,
    blk_of: Vec<u32>,
}

impl<'a> FnParser<'a> {
    fn slot(&mut self, n: &str) -> u32 {
        if let Some(s) = self.slots.get(n) {
            return *s;
        }
        let s = self.slots.len() as u32;
        self.slots.insert(n.to_string(), s);
        s
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(b) = self.blocks.get(n) {
            return *b;
        }
        let b = self.blist.len() as u32;
        self.blist.push(None);
        self.blocks.insert(n.to_string(), b);
        b
    }
    fn op(&mut self, t: T) -> Op {
        if let Tok::L(n) = self.lx.peek() {
            let n = n.clone();
            self.lx.next();
            return Op::L(self.slot(&n));
        }
        Op::K(self.m.constant(&mut self.lx, t))
    }
    fn top(&mut self) -> (T, Op) {
        let t = self.m.ty(&mut self.lx);
        (t, self.op(t))
    }
    fn label(&mut self) -> u32 {
        // label %x
        self.lx.eat_id("label");
        match self.lx.next() {
            Tok::L(n) => self.blk(&n),
            t => panic!("label {:?}", t),
        }
    }
    /// skip parameter / return attributes; returns byval type size if present
    fn attrs(&mut self) -> u64 {
        let mut byval = 0;
        loop {
            let id = match self.lx.peek() {
                Tok::Id(s) => s.clone(),
                Tok::Attr => {
                    self.lx.next();
                    continue;
                }
                Tok::Str(_) => {
                    self.lx.next();
                    if self.lx.eat('=') {
                        self.lx.next();
                    }
                    continue;
                }
                _ => return byval,
            };
            if is_type_id(&id) {
                return byval;
            }
            match id.as_str() {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint"
                | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "shl" | "asm"
                | "splat" | "none" | "icmp" | "and" | "or" | "lshr" | "ashr" | "blockaddress" => return byval,
                "align" | "cc" => {
                    self.lx.next();
                    if *self.lx.peek() == Tok::P('(') {
                        self.lx.skip_parens();
                    } else {
                        self.lx.next();
                    }
                }
                "byval" => {
                    self.lx.next();
                    self.lx.expect('(');
                    let t = self.m.ty(&mut self.lx);
                    self.lx.expect(')');
                    byval = self.m.size(t).max(1);
                }
                _ => {
                    self.lx.next();
                    if *self.lx.peek() == Tok::P('(') {
                        self.lx.skip_parens();
                    }
                }
            }
        }
    }
    fn emit(&mut self, i: I, b: u32, dbg: u32) {
        self.code.push(i);
        self.dbg.push(dbg);
        self.blk_of.push(b);
    }

    fn parse(m: &'a mut Module, fi: u32, a: usize, e: usize) -> Body {
        let src = m.src;
        let mut p = FnParser {
            lx: Lex::new(src, a, e),
            m,
            slots: HashMap::new(),
            blocks: HashMap::new(),
            blist: vec![],
            code: vec![],
            dbg: vec![],
            blk_of: vec![],
        };
        // header: define [linkage...] [retattrs] ty @name(params)
        p.lx.next();
        p.attrs();
        let rty = p.m.ty(&mut p.lx);
        p.m.funcs[fi as usize].rty = rty;
        match p.lx.next() {
            Tok::G(_) => {}
            t => panic!("symx: define header {:?}", t),
        }
        p.lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.lx.eat(')') {
            loop {
                if *p.lx.peek() == Tok::Id("...".into()) {
                    p.lx.next();
                    p.m.funcs[fi as usize].vararg = true;
                } else {
                    let _t = p.m.ty(&mut p.lx);
                    p.attrs();
                    match p.lx.next() {
                        Tok::L(n) => {
                            if n.bytes().all(|c| c.is_ascii_digit()) {
                                unnamed += 1;
                            }
                            let s = p.slot(&n);
                            params.push(s)
                        }
                        t => panic!("param {:?}", t),
                    }
                }
                if p.lx.eat(',') {
                    continue;
                }
                p.lx.expect(')');
                break;
            }
        }
        p.m.funcs[fi as usize].nparams = params.len() as u32;
        p.lx.skip_line();
        // body
        let mut cur: Option<u32> = None;
        loop {
            // label?
            p.lx.skip_ws();
            if p.lx.p >= p.lx.e {
                break;
            }
            let save = p.lx.p;
            let mut is_label = None;
            {
                let c = src[p.lx.p];
                if c == b'"' || is_idc(c) {
                    let n = p.lx.name();
                    if p.lx.p < p.lx.e && src[p.lx.p] == b':' {
                        p.lx.p += 1;
                        is_label = Some(n);
                    } else {
                        p.lx.p = save;
                    }
                }
            }
            if let Some(n) = is_label {
                let b = p.blk(&n);
                p.blist[b as usize] = Some(Block { start: p.code.len() as u32, phis: vec![], cov: Default::default() });
                cur = Some(b);
                continue;
            }
            if cur.is_none() {
                let b = p.blk(&unnamed.to_string());
                p.blist[b as usize] = Some(Block { start: 0, phis: vec![], cov: Default::default() });
                cur = Some(b);
            }
            p.inst(cur.unwrap());
        }
        let blocks = p.blist.into_iter().map(|b| b.expect("undefined block")).collect();
        Body { nslots: p.slots.len() as u32, code: p.code, dbg: p.dbg, blk_of: p.blk_of, blocks, params }
    }

    fn find_dbg(&self, from: usize) -> u32 {
        // look for "!dbg !N" up to end of line
        let mut q = from;
        let s = self.m.src;
        while q < self.lx.e && s[q] != b'\n' {
            if s[q] == b'!' && s[q..].starts_with(b"!dbg !") {
                let mut v = 0u32;
                let mut i = q + 6;
                while s[i].is_ascii_digit() {
                    v = v * 10 + (s[i] - b'0') as u32;
                    i += 1;
                }
                return v;
            }
            q += 1;
        }
        0
    }

    fn gep_index(&mut self, cur: &mut T, first: bool, off: &mut i64, dynv: &mut Vec<(Op, u16, i64)>) {
        let it = self.m.ty(&mut self.lx);
        let w = match self.m.tk(it) {
            TK::Int(w) => *w,
            k => panic!("gep index type {:?}", k),
        };
        let o = self.op(it);
        let c = match &o {
            Op::K(Val::C(x)) => Some(crate::expr::sext(*x as u128, w) as i64),
            _ => None,
        };
        if first {
            let s = self.m.size(*cur) as i64;
            match c {
                Some(c) => *off += c * s,
                None => dynv.push((o, w, s)),
            }
            return;
        }
        match self.m.tk(*cur).clone() {
            TK::Struct(fs, _) => {
                let i = c.expect("struct gep idx") as usize;
                *off += self.m.types[*cur as usize].offs[i] as i64;
                *cur = fs[i];
            }
            TK::Array(_, e) | TK::Vector(_, e) => {
                let s = self.m.size(e) as i64;
                match c {
                    Some(c) => *off += c * s,
                    None => dynv.push((o, w, s)),
                }
                *cur = e;
            }
            k => panic!("gep into {:?}", k),
        }
    }

    fn vecinfo(&self, t: T) -> (u16, u32) {
        let w = |k: &TK| match k {
            TK::Int(w) => *w,
            TK::Float => 32,
            _ => 64,
        };
        match self.m.tk(t) {
            TK::Vector(n, e) => (w(self.m.tk(*e)), *n as u32),
            k => (w(k), 0),
        }
    }

    fn inst(&mut self, b: u32) {
        let start = self.lx.p;
        let dbg = self.find_dbg(start);
        let mut d: Option<u32> = None;
        if let Tok::L(n) = self.lx.peek() {
            let n = n.clone();
            self.lx.next();
            self.lx.expect('=');
            d = Some(self.slot(&n));
        }
        let op = match self.lx.next() {
            Tok::Id(s) => s,
            t => panic!("symx: inst token {:?}", t),
        };
        let ins = match op.as_str() {
            "ret" => {
                let t = self.m.ty(&mut self.lx);
                if *self.m.tk(t) == TK::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.op(t)))
                }
            }
            "br" => {
                if matches!(self.lx.peek(), Tok::Id(s) if s == "label") {
                    I::Br(self.label())
                } else {
                    let (_, c) = self.top();
                    self.lx.expect(',');
                    let x = self.label();
                    self.lx.expect(',');
                    let y = self.label();
                    I::CondBr(c, x, y)
                }
            }
            "switch" => {
                let (t, c) = self.top();
                let w = self.vecinfo(t).0;
                self.lx.expect(',');
                let def = self.label();
                self.lx.expect('[');
                let mut cases = vec![];
                while !self.lx.eat(']') {
                    let ct = self.m.ty(&mut self.lx);
                    let k = match self.m.constant(&mut self.lx, ct) {
                        Val::C(x) => x as u128,
                        Val::W(x) => *x,
                        v => panic!("switch case {:?}", v),
                    };
                    self.lx.expect(',');
                    cases.push((k, self.label()));
                }
                I::Switch(c, w, def, cases)
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "fence" => I::Nop,
            "landingpad" => {
                self.lx.skip_line();
                loop {
                    let save = self.lx.p;
                    match self.lx.peek() {
                        Tok::Id(s) if matches!(s.as_str(), "cleanup" | "catch" | "filter") => {
                            self.lx.next();
                            self.lx.skip_line();
                        }
                        _ => {
                            self.lx.peeked = None;
                            self.lx.p = save;
                            break;
                        }
                    }
                }
                self.emit(I::Landing, b, dbg);
                return;
            }
            "fneg" => {
                let (t, a) = self.top();
                I::FNeg(t, d.unwrap(), a)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                }
                let (t, a) = self.top();
                self.lx.expect(',');
                let bb = self.op(t);
                let o = match op.as_str() {
                    "fadd" => FB::Add,
                    "fsub" => FB::Sub,
                    "fmul" => FB::Mul,
                    "fdiv" => FB::Div,
                    _ => FB::Rem,
                };
                I::FBin(o, t, d.unwrap(), a, bb)
            }
            "icmp" => {
                self.lx.eat_id("samesign");
                let p = match self.lx.next() {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => panic!("icmp {}", x),
                    },
                    t => panic!("icmp {:?}", t),
                };
                let (t, a) = self.top();
                self.lx.expect(',');
                let bb = self.op(t);
                let (w, n) = self.vecinfo(t);
                I::Icmp(p, w, n, d.unwrap(), a, bb)
            }
            "fcmp" => {
                let mut p = String::new();
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    p = x.clone();
                    self.lx.next();
                }
                let (t, a) = self.top();
                self.lx.expect(',');
                let bb = self.op(t);
                I::Fcmp(p.as_str().into(), t, d.unwrap(), a, bb)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "fptoui" | "fptosi"
            | "uitofp" | "sitofp" | "fptrunc" | "fpext" => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                }
                let (t, a) = self.top();
                self.lx.eat_id("to");
                let tt = self.m.ty(&mut self.lx);
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "fptoui" => Cast::FpToUi,
                    "fptosi" => Cast::FpToSi,
                    "uitofp" => Cast::UiToFp,
                    "sitofp" => Cast::SiToFp,
                    "fptrunc" => Cast::FpTrunc,
                    "fpext" => Cast::FpExt,
                    "ptrtoint" => match self.m.tk(tt) {
                        TK::Int(w) if *w < 64 => Cast::Trunc,
                        TK::Int(w) if *w > 64 => Cast::ZExt,
                        _ => Cast::Bit,
                    },
                    "inttoptr" => match self.m.tk(t) {
                        TK::Int(w) if *w < 64 => Cast::ZExt,
                        TK::Int(w) if *w > 64 => Cast::Trunc,
                        _ => Cast::Bit,
                    },
                    _ => Cast::Bit,
                };
                I::Cast(k, t, tt, d.unwrap(), a)
            }
            "load" => {
                self.lx.eat_id("atomic");
                self.lx.eat_id("volatile");
                let t = self.m.ty(&mut self.lx);
                self.lx.expect(',');
                let (_, p) = self.top();
                I::Load(t, d.unwrap(), p)
            }
            "store" => {
                self.lx.eat_id("atomic");
                self.lx.eat_id("volatile");
                let (t, v) = self.top();
                self.lx.expect(',');
                let (_, p) = self.top();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                    if *self.lx.peek() == Tok::P('(') {
                        self.lx.skip_parens();
                    }
                }
                let bt = self.m.ty(&mut self.lx);
                self.lx.expect(',');
                let (pt, base) = self.top();
                if matches!(self.m.tk(pt), TK::Vector(..)) {
                    panic!("symx: vector gep");
                }
                let mut cur = bt;
                let mut off = 0;
                let mut dv = vec![];
                let mut first = true;
                while self.lx.eat(',') {
                    if matches!(self.lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    self.gep_index(&mut cur, first, &mut off, &mut dv);
                    first = false;
                }
                I::Gep(d.unwrap(), base, off, dv)
            }
            "alloca" => {
                self.lx.eat_id("inalloca");
                let t = self.m.ty(&mut self.lx);
                let mut n = Op::K(Val::C(1));
                if self.lx.eat(',') && Module::peek_type(&mut self.lx) {
                    let (_, o) = self.top();
                    n = o;
                }
                I::Alloca(d.unwrap(), self.m.size(t), n)
            }
            "select" => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                }
                let (ct, c) = self.top();
                self.lx.expect(',');
                let (t, a) = self.top();
                self.lx.expect(',');
                let (_, bb) = self.top();
                let cn = self.vecinfo(ct).1;
                I::Select(d.unwrap(), c, a, bb, t, cn)
            }
            "freeze" => {
                let (_, a) = self.top();
                I::Freeze(d.unwrap(), a)
            }
            "extractvalue" => {
                let (_, a) = self.top();
                let mut ix = vec![];
                while self.lx.eat(',') {
                    match self.lx.peek() {
                        Tok::Int(i) => {
                            ix.push(*i as u32);
                            self.lx.next();
                        }
                        _ => break,
                    }
                }
                I::ExtractValue(d.unwrap(), a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.top();
                self.lx.expect(',');
                let (_, v) = self.top();
                let mut ix = vec![];
                while self.lx.eat(',') {
                    match self.lx.peek() {
                        Tok::Int(i) => {
                            ix.push(*i as u32);
                            self.lx.next();
                        }
                        _ => break,
                    }
                }
                I::InsertValue(d.unwrap(), a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.top();
                self.lx.expect(',');
                let (_, i) = self.top();
                I::ExtractElement(d.unwrap(), a, i)
            }
            "insertelement" => {
                let (_, a) = self.top();
                self.lx.expect(',');
                let (_, v) = self.top();
                self.lx.expect(',');
                let (_, i) = self.top();
                I::InsertElement(d.unwrap(), a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.top();
                self.lx.expect(',');
                let (_, bb) = self.top();
                self.lx.expect(',');
                let mt = self.m.ty(&mut self.lx);
                let mask = match self.m.constant(&mut self.lx, mt) {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => *c as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => vec![],
                };
                let n = self.vecinfo(t).1;
                I::Shuffle(d.unwrap(), a, bb, mask, n, t)
            }
            "cmpxchg" => {
                self.lx.eat_id("weak");
                self.lx.eat_id("volatile");
                let (_, p) = self.top();
                self.lx.expect(',');
                let (t, c) = self.top();
                self.lx.expect(',');
                let (_, n) = self.top();
                I::CmpXchg(d.unwrap(), t, p, c, n)
            }
            "atomicrmw" => {
                self.lx.eat_id("volatile");
                let o = match self.lx.next() {
                    Tok::Id(s) => s,
                    t => panic!("rmw {:?}", t),
                };
                let (_, p) = self.top();
                self.lx.expect(',');
                let (t, v) = self.top();
                I::AtomicRmw(d.unwrap(), o.as_str().into(), t, p, v)
            }
            "phi" => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                }
                let t = self.m.ty(&mut self.lx);
                let mut inc = vec![];
                loop {
                    self.lx.expect('[');
                    let o = self.op(t);
                    self.lx.expect(',');
                    let pb = match self.lx.next() {
                        Tok::L(n) => self.blk(&n),
                        t => panic!("phi {:?}", t),
                    };
                    self.lx.expect(']');
                    inc.push((pb, o));
                    if self.lx.eat(',') {
                        if matches!(self.lx.peek(), Tok::Meta(_)) {
                            break;
                        }
                        continue;
                    }
                    break;
                }
                self.blist[b as usize].as_mut().unwrap().phis.push((d.unwrap(), inc));
                self.lx.skip_line();
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    self.lx.eat_id("call");
                }
                self.attrs();
                let rty = self.m.ty(&mut self.lx);
                // optional explicit function type
                if *self.lx.peek() == Tok::P('(') {
                    self.lx.skip_parens();
                }
                let callee = match self.lx.peek().clone() {
                    Tok::G(n) => {
                        self.lx.next();
                        let a = *self.m.gmap.get(&n).unwrap_or_else(|| panic!("symx: callee @{}", n));
                        if (a >> 32) >= FN_BASE {
                            Callee::Fn(((a >> 32) - FN_BASE) as u32)
                        } else {
                            Callee::Dyn(Op::K(Val::C(a)))
                        }
                    }
                    Tok::L(n) => {
                        self.lx.next();
                        Callee::Dyn(Op::L(self.slot(&n)))
                    }
                    Tok::Id(s) if s == "asm" => {
                        self.lx.next();
                        while let Tok::Id(_) = self.lx.peek() {
                            self.lx.next();
                        }
                        let t = match self.lx.next() {
                            Tok::Str(b) => String::from_utf8_lossy(&b).to_string(),
                            t => panic!("asm {:?}", t),
                        };
                        self.lx.expect(',');
                        self.lx.next();
                        Callee::Asm(t.as_str().into())
                    }
                    _ => {
                        let pt = self.m.mk(TK::Ptr);
                        Callee::Dyn(Op::K(self.m.constant(&mut self.lx, pt)))
                    }
                };
                self.lx.expect('(');
                let mut args = vec![];
                if !self.lx.eat(')') {
                    loop {
                        if matches!(self.lx.peek(), Tok::Id(s) if s == "metadata") {
                            // skip to ',' or ')' at depth 0
                            let mut dep = 0;
                            loop {
                                match self.lx.peek().clone() {
                                    Tok::P('(') | Tok::P('{') => dep += 1,
                                    Tok::P(')') | Tok::P('}') if dep > 0 => dep -= 1,
                                    Tok::P(')') => break,
                                    Tok::P(',') if dep == 0 => break,
                                    _ => {}
                                }
                                self.lx.next();
                            }
                        } else {
                            let t = self.m.ty(&mut self.lx);
                            let bv = self.attrs();
                            let o = self.op(t);
                            args.push((t, o, bv));
                        }
                        if self.lx.eat(',') {
                            continue;
                        }
                        self.lx.expect(')');
                        break;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    loop {
                        if self.lx.eat_id("to") {
                            break;
                        }
                        self.lx.next();
                    }
                    normal = Some(self.label());
                    self.lx.eat_id("unwind");
                    self.label();
                }
                I::Call(Box::new(CallI { d, rty, callee, args, normal }))
            }
            "va_arg" => panic!("symx: va_arg"),
            s if binop(s).is_some() => {
                while let Tok::Id(x) = self.lx.peek() {
                    if is_type_id(x) {
                        break;
                    }
                    self.lx.next();
                }
                let (t, a) = self.top();
                self.lx.expect(',');
                let bb = self.op(t);
                let (w, n) = self.vecinfo(t);
                I::Bin(binop(s).unwrap(), w, n, d.unwrap(), a, bb)
            }
            s => panic!("symx: unknown instruction {}", s),
        };
        self.emit(ins, b, dbg);
        self.lx.skip_line();
    }
}
