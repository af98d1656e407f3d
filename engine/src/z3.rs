//! Minimal bindings to libz3's C API and translation of expressions into Z3 terms.
use crate::expr::{B, E, Op};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type Ctx = *mut c_void;
type Ast = *mut c_void;
type Ptr = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: Ptr) -> Ctx;
    fn Z3_inc_ref(c: Ctx, a: Ast);
    fn Z3_dec_ref(c: Ctx, a: Ast);
    fn Z3_mk_bv_sort(c: Ctx, n: c_uint) -> Ptr;
    fn Z3_mk_string_symbol(c: Ctx, s: *const c_char) -> Ptr;
    fn Z3_mk_const(c: Ctx, s: Ptr, t: Ptr) -> Ast;
    fn Z3_mk_numeral(c: Ctx, s: *const c_char, t: Ptr) -> Ast;
    fn Z3_mk_unsigned_int64(c: Ctx, v: u64, t: Ptr) -> Ast;
    fn Z3_mk_true(c: Ctx) -> Ast;
    fn Z3_mk_false(c: Ctx) -> Ast;
    fn Z3_mk_eq(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_not(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_ite(c: Ctx, a: Ast, b: Ast, d: Ast) -> Ast;
    fn Z3_mk_and(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_or(c: Ctx, n: c_uint, a: *const Ast) -> Ast;
    fn Z3_mk_xor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvnot(c: Ctx, a: Ast) -> Ast;
    fn Z3_mk_bvand(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvxor(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvadd(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsub(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvmul(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvudiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsdiv(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvurem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsrem(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvshl(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvlshr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvashr(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvult(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvule(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvslt(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_bvsle(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_concat(c: Ctx, a: Ast, b: Ast) -> Ast;
    fn Z3_mk_extract(c: Ctx, hi: c_uint, lo: c_uint, a: Ast) -> Ast;
    fn Z3_mk_zero_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_sign_ext(c: Ctx, n: c_uint, a: Ast) -> Ast;
    fn Z3_mk_simple_solver(c: Ctx) -> Ptr;
    fn Z3_solver_inc_ref(c: Ctx, s: Ptr);
    fn Z3_solver_push(c: Ctx, s: Ptr);
    fn Z3_solver_pop(c: Ctx, s: Ptr, n: c_uint);
    fn Z3_solver_assert(c: Ctx, s: Ptr, a: Ast);
    fn Z3_solver_check(c: Ctx, s: Ptr) -> c_int;
    fn Z3_solver_get_model(c: Ctx, s: Ptr) -> Ptr;
    fn Z3_solver_to_string(c: Ctx, s: Ptr) -> *const c_char;
    fn Z3_model_inc_ref(c: Ctx, m: Ptr);
    fn Z3_model_dec_ref(c: Ctx, m: Ptr);
    fn Z3_model_eval(c: Ctx, m: Ptr, a: Ast, compl: bool, v: *mut Ast) -> bool;
    fn Z3_get_numeral_uint64(c: Ctx, a: Ast, v: *mut u64) -> bool;
    fn Z3_mk_params(c: Ctx) -> Ptr;
    fn Z3_params_inc_ref(c: Ctx, p: Ptr);
    fn Z3_params_set_uint(c: Ctx, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_solver_set_params(c: Ctx, s: Ptr, p: Ptr);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: Ctx, h: Option<extern "C" fn(Ctx, c_int)>);
}

extern "C" fn on_error(_c: Ctx, e: c_int) {
    eprintln!("z3 error code {}", e);
    std::process::exit(3);
}

pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() } }

#[derive(Clone, Debug)]
pub enum R { Sat(Vec<(u32, u64)>), Unsat, Unknown }

pub struct Z3 {
    c: Ctx,
    s: Ptr,
    cache: HashMap<(u128, bool), (Ast, E)>,
    pub queries: u64,
    pub nanos: u64,
    pub dump: Option<(String, u64)>,
    /// development: directory for queries that take long
    pub slow: Option<String>,
}

unsafe impl Send for Z3 {}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: HashMap::new(), queries: 0, nanos: 0, dump: None, slow: std::env::var("SYMEX_SLOW").ok() }
        }
    }

    fn num(&self, v: u128, w: u32) -> Ast {
        unsafe {
            let so = Z3_mk_bv_sort(self.c, w);
            if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, so) } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), so)
            }
        }
    }

    fn keep(&mut self, e: &E, b: bool, a: Ast) -> Ast {
        unsafe { Z3_inc_ref(self.c, a); }
        self.cache.insert((e.h, b), (a, e.clone()));
        a
    }

    /// Boolean view of a width-1 expression.
    fn boolean(&mut self, e: &E) -> Ast {
        debug_assert_eq!(e.w, 1);
        if let Some((a, _)) = self.cache.get(&(e.h, true)) { return *a; }
        let c = self.c;
        let a = unsafe {
            match &e.op {
                Op::Const(k) => if k & 1 == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Op::Not(x) => { let x = self.boolean(x); Z3_mk_not(c, x) }
                Op::Bin(b, x, y) => match b {
                    B::And => { let v = [self.boolean(x), self.boolean(y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    B::Or => { let v = [self.boolean(x), self.boolean(y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    B::Xor => { let (p, q) = (self.boolean(x), self.boolean(y)); Z3_mk_xor(c, p, q) }
                    B::Eq if x.w == 1 => { let (p, q) = (self.boolean(x), self.boolean(y)); Z3_mk_eq(c, p, q) }
                    B::Eq => { let (p, q) = (self.bv(x), self.bv(y)); Z3_mk_eq(c, p, q) }
                    B::Ult => { let (p, q) = (self.bv(x), self.bv(y)); Z3_mk_bvult(c, p, q) }
                    B::Ule => { let (p, q) = (self.bv(x), self.bv(y)); Z3_mk_bvule(c, p, q) }
                    B::Slt => { let (p, q) = (self.bv(x), self.bv(y)); Z3_mk_bvslt(c, p, q) }
                    B::Sle => { let (p, q) = (self.bv(x), self.bv(y)); Z3_mk_bvsle(c, p, q) }
                    _ => { let p = self.bv(e); let one = self.num(1, 1); Z3_mk_eq(c, p, one) }
                },
                Op::Ite(k, x, y) => { let (k, x, y) = (self.boolean(k), self.boolean(x), self.boolean(y)); Z3_mk_ite(c, k, x, y) }
                _ => { let p = self.bv(e); let one = self.num(1, 1); Z3_mk_eq(c, p, one) }
            }
        };
        self.keep(e, true, a)
    }

    fn bv(&mut self, e: &E) -> Ast {
        if let Some((a, _)) = self.cache.get(&(e.h, false)) { return *a; }
        let c = self.c;
        let a = unsafe {
            match &e.op {
                Op::Const(k) => self.num(*k, e.w),
                Op::Var(i) => {
                    let n = CString::new(format!("v{}_{}", i, e.w)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, e.w))
                }
                Op::Not(x) => { let x = self.bv(x); Z3_mk_bvnot(c, x) }
                Op::Bin(b, x, y) => match b {
                    B::Eq | B::Ult | B::Ule | B::Slt | B::Sle => {
                        let k = self.boolean(e);
                        { let (p, q) = (self.bv(&crate::expr::konst(1, 1)), self.bv(&crate::expr::konst(0, 1))); Z3_mk_ite(c, k, p, q) }
                    }
                    _ => {
                        let (p, q) = (self.bv(x), self.bv(y));
                        match b {
                            B::Add => Z3_mk_bvadd(c, p, q),
                            B::Sub => Z3_mk_bvsub(c, p, q),
                            B::Mul => Z3_mk_bvmul(c, p, q),
                            B::UDiv => Z3_mk_bvudiv(c, p, q),
                            B::SDiv => Z3_mk_bvsdiv(c, p, q),
                            B::URem => Z3_mk_bvurem(c, p, q),
                            B::SRem => Z3_mk_bvsrem(c, p, q),
                            B::And => Z3_mk_bvand(c, p, q),
                            B::Or => Z3_mk_bvor(c, p, q),
                            B::Xor => Z3_mk_bvxor(c, p, q),
                            B::Shl => Z3_mk_bvshl(c, p, q),
                            B::LShr => Z3_mk_bvlshr(c, p, q),
                            B::AShr => Z3_mk_bvashr(c, p, q),
                            B::Concat => Z3_mk_concat(c, p, q),
                            _ => unreachable!(),
                        }
                    }
                },
                Op::Ite(k, x, y) => { let (k, x, y) = (self.boolean(k), self.bv(x), self.bv(y)); Z3_mk_ite(c, k, x, y) }
                Op::Extract(x, lo) => { let p = self.bv(x); Z3_mk_extract(c, lo + e.w - 1, *lo, p) }
                Op::ZExt(x) => { let p = self.bv(x); Z3_mk_zero_ext(c, e.w - x.w, p) }
                Op::SExt(x) => { let p = self.bv(x); Z3_mk_sign_ext(c, e.w - x.w, p) }
            }
        };
        self.keep(e, false, a)
    }

    /// Decide the conjunction of `cs`.
    pub fn check(&mut self, cs: &[E]) -> R {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        if self.cache.len() > 400_000 {
            for (_, (a, _)) in self.cache.drain() { unsafe { Z3_dec_ref(self.c, a); } }
        }
        let asts: Vec<Ast> = cs.iter().map(|e| self.boolean(e)).collect();
        unsafe {
            Z3_solver_push(self.c, self.s);
            for a in asts { Z3_solver_assert(self.c, self.s, a); }
            if let Some((dir, every)) = &self.dump {
                if self.queries % every == 0 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::create_dir_all(dir);
                    let f = format!("{}/q{:x}_{}.smt2", dir, self as *const _ as usize, self.queries);
                    let r = Z3_solver_check(self.c, self.s);
                    let _ = std::fs::write(f, format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", match r { 1 => "sat", -1 => "unsat", _ => "unknown" }, s));
                }
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let mut vars: HashMap<u32, E> = HashMap::new();
                    for e in cs { collect(e, &mut vars, &mut Default::default()); }
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut res = vec![];
                    for (i, e) in &vars {
                        let a = self.bv(e);
                        let mut v: Ast = std::ptr::null_mut();
                        Z3_model_eval(self.c, m, a, true, &mut v);
                        let mut x = 0u64;
                        Z3_get_numeral_uint64(self.c, v, &mut x);
                        res.push((*i, x));
                    }
                    Z3_model_dec_ref(self.c, m);
                    R::Sat(res)
                }
                -1 => R::Unsat,
                _ => R::Unknown,
            };
            if let Some(d) = &self.slow {
                if t0.elapsed().as_millis() > 300 {
                    let s = CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned();
                    let _ = std::fs::create_dir_all(d);
                    let _ = std::fs::write(format!("{}/slow{}_{}.smt2", d, t0.elapsed().as_millis(), self.queries), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
                }
            }
            Z3_solver_pop(self.c, self.s, 1);
            self.nanos += t0.elapsed().as_nanos() as u64;
            out
        }
    }
}

pub fn collect(e: &E, out: &mut HashMap<u32, E>, seen: &mut std::collections::HashSet<u128>) {
    if e.vars == 0 || !seen.insert(e.h) { return; }
    match &e.op {
        Op::Var(i) => { out.insert(*i, e.clone()); }
        Op::Const(_) => {}
        Op::Not(a) | Op::Extract(a, _) | Op::ZExt(a) | Op::SExt(a) => collect(a, out, seen),
        Op::Bin(_, a, b) => { collect(a, out, seen); collect(b, out, seen); }
        Op::Ite(a, b, c) => { collect(a, out, seen); collect(b, out, seen); collect(c, out, seen); }
    }
}

