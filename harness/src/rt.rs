//! What a harness can say: symbolic inputs, assumptions, assertions,
//! observations.  With feature `sym` these are hooks of the symbolic executor;
//! without it the same harness is an ordinary program that replays one
//! assignment of the inputs against the real crates.
#![allow(dead_code)]

#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn symx_bits(name: *const u8, len: usize, bits: u32) -> u64;
        fn symx_assume(c: u8);
        fn symx_assert(c: u8, msg: *const u8, len: usize);
        fn symx_fail(msg: *const u8, len: usize);
        fn symx_obs(tag: *const u8, taglen: usize, p: *const u8, n: usize);
        fn symx_reach(tag: *const u8, taglen: usize);
        fn symx_concretize(v: u64) -> u64;
    }
    pub fn bits(name: &str, n: u32) -> u64 {
        unsafe { symx_bits(name.as_ptr(), name.len(), n) }
    }
    pub fn assume(c: bool) {
        unsafe { symx_assume(c as u8) }
    }
    pub fn check(c: bool, msg: &str) {
        unsafe { symx_assert(c as u8, msg.as_ptr(), msg.len()) }
    }
    pub fn fail(msg: &str) {
        unsafe { symx_fail(msg.as_ptr(), msg.len()) }
    }
    pub fn obs(tag: &str, b: &[u8]) {
        unsafe { symx_obs(tag.as_ptr(), tag.len(), b.as_ptr(), b.len()) }
    }
    pub fn reach(tag: &str) {
        unsafe { symx_reach(tag.as_ptr(), tag.len()) }
    }
    pub fn concretize(v: u64) -> u64 {
        unsafe { symx_concretize(v) }
    }
}

#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static INPUTS: RefCell<HashMap<String, u64>> = RefCell::new(HashMap::new());
        static COUNT: RefCell<HashMap<String, u64>> = RefCell::new(HashMap::new());
    }
    pub fn set_inputs(m: HashMap<String, u64>) {
        INPUTS.with(|i| *i.borrow_mut() = m);
    }
    pub fn bits(name: &str, n: u32) -> u64 {
        let k = COUNT.with(|c| {
            let mut c = c.borrow_mut();
            let e = c.entry(name.to_string()).or_insert(0);
            *e += 1;
            *e - 1
        });
        let v = INPUTS.with(|i| i.borrow().get(&format!("{name}#{k}")).copied().unwrap_or(0));
        if n >= 64 {
            v
        } else {
            v & ((1u64 << n) - 1)
        }
    }
    pub fn assume(c: bool) {
        if !c {
            println!("ASSUME-FALSE");
            std::process::exit(11);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            println!("FAIL {msg}");
            std::process::exit(10);
        }
    }
    pub fn fail(msg: &str) {
        check(false, msg)
    }
    pub fn obs(tag: &str, b: &[u8]) {
        let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
        println!("OBS {tag} {h}");
    }
    pub fn reach(_tag: &str) {}
    pub fn concretize(v: u64) -> u64 {
        v
    }
}

pub use imp::*;

pub fn byte(name: &str) -> u8 {
    bits(name, 8) as u8
}
pub fn word(name: &str) -> u64 {
    bits(name, 64)
}
/// a symbolic truth value (not split)
pub fn flag(name: &str) -> bool {
    bits(name, 1) == 1
}
/// a value below `n`, split into one path per value
pub fn choose(name: &str, n: u64) -> u64 {
    let w = 64 - (n - 1).leading_zeros();
    if n == 1 {
        return 0;
    }
    let v = bits(name, w);
    assume(v < n);
    concretize(v)
}
pub fn choose_bool(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(byte(name));
    }
    v
}
pub fn obs_u64(tag: &str, v: u64) {
    obs(tag, &v.to_le_bytes())
}
pub fn obs_bool(tag: &str, v: bool) {
    obs(tag, &[v as u8])
}
