//! Symbolic primitives. Under `--features sym` these are undefined externals interpreted by the
//! engine; natively they read a recorded input sequence so that a path can be re-run on real code.
#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        pub fn __sym_new(name: *const u8, len: usize, bits: u32) -> u64;
        pub fn __sym_assume(c: bool);
        pub fn __sym_check(c: bool, msg: *const u8, len: usize);
        pub fn __sym_reach(name: *const u8, len: usize);
        pub fn __sym_observe(v: u64);
        pub fn __sym_concretize(v: u64) -> u64;
        pub fn __sym_note(name: *const u8, len: usize, v: u64);
    }
    pub fn new(n: &'static str, bits: u32) -> u64 { unsafe { __sym_new(n.as_ptr(), n.len(), bits) } }
    pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    pub fn check(c: bool, m: &'static str) { unsafe { __sym_check(c, m.as_ptr(), m.len()) } }
    pub fn reach(m: &'static str) { unsafe { __sym_reach(m.as_ptr(), m.len()) } }
    pub fn observe(v: u64) { unsafe { __sym_observe(v) } }
    pub fn conc(v: u64) -> u64 { unsafe { __sym_concretize(v) } }
    pub fn note(n: &'static str, v: u64) { unsafe { __sym_note(n.as_ptr(), n.len(), v) } }
}
#[cfg(not(feature = "sym"))]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUTS: RefCell<(Vec<u64>, usize)> = const { RefCell::new((Vec::new(), 0)) };
        pub static OBS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    }
    pub fn new(_n: &'static str, bits: u32) -> u64 {
        INPUTS.with(|i| {
            let mut i = i.borrow_mut();
            let k = i.1;
            i.1 += 1;
            let v = i.0.get(k).copied().unwrap_or(0);
            if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
        })
    }
    fn flush() {
        OBS.with(|o| println!("\nOBS {:?}", o.borrow()));
    }
    pub fn assume(c: bool) {
        if !c { flush(); println!("\nASSUME-FAILED"); std::process::exit(3); }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c { println!("\nCHECK-FAILED {}", m); if std::env::var_os("REPLAY_FIRST").is_none() { return } std::process::exit(1); }
    }
    pub fn reach(_m: &'static str) {}
    pub fn observe(v: u64) { OBS.with(|o| o.borrow_mut().push(v)); }
    pub fn conc(v: u64) -> u64 { v }
    pub fn note(_n: &'static str, _v: u64) {}
}
pub use imp::*;

pub fn u8v(n: &'static str) -> u8 { new(n, 8) as u8 }
/// A number in 0..n, made concrete (one path per value).
pub fn choose(n: &'static str, k: usize) -> usize {
    let v = new(n, 8) as usize;
    assume(v < k);
    conc(v as u64) as usize
}
/// A number in 0..n that stays symbolic.
pub fn below(n: &'static str, k: usize) -> usize {
    let v = new(n, 8) as usize;
    assume(v < k);
    v
}
pub fn flag(n: &'static str) -> bool { choose(n, 2) == 1 }
/// Any Unicode scalar value.
pub fn any_char(n: &'static str) -> char {
    let v = new(n, 21) as u32;
    assume(v < 0x110000 && !(v >= 0xd800 && v < 0xe000));
    unsafe { char::from_u32_unchecked(v) }
}
/// Any printable ASCII character (stays symbolic).
pub fn ascii(n: &'static str) -> char {
    let v = new(n, 8) as u8;
    assume((v >= 0x20) & (v < 0x7f));
    v as char
}
/// Observation digest helpers: what gets compared between the symbolic path and the native run.
pub fn observe_str(s: &str) {
    observe(s.len() as u64);
    for b in s.bytes() { observe(b as u64); }
}
