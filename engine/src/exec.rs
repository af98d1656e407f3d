//! Symbolic executor: states, branching, calls, intrinsics and modelled library functions.
use crate::expr::{self, as_const, bin, konst, mask, not, sx, B, E, Model};
use crate::ir::*;
use crate::mem::Obj;
use crate::z3::{Z3, R};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

pub struct Frame {
    pub f: &'static Func,
    pub pc: u32,
    pub regs: Vec<V>,
    pub obj: u32,
    pub ret_dst: u32,
    pub ret_edge: Option<&'static Edge>,
}
impl Clone for Frame {
    fn clone(&self) -> Frame {
        Frame { f: self.f, pc: self.pc, regs: self.regs.clone(), obj: self.obj, ret_dst: self.ret_dst, ret_edge: self.ret_edge }
    }
}

#[derive(Clone)]
pub struct State {
    pub entry: u32,
    pub cur: Frame,
    pub stack: Vec<Arc<Frame>>,
    pub heap: Vec<Option<Arc<Obj>>>,
    pub free: Vec<u32>,
    pub mg: Vec<Arc<Obj>>,
    pub pc: Vec<E>,
    pub known: u128,
    /// values the constraints over this input alone allow (inputs of up to 8 bits)
    pub dom: Vec<[u64; 4]>,
    pub model: Model,
    pub inputs: Vec<(u32, u32)>, // name id, width
    pub obs: Vec<V>,
    pub reach: u128,
    pub icount: u64,
    pub forks: u32,
    pub live: usize,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub entry: u32,
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(String, u64)>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample { pub entry: u32, pub inputs: Vec<(String, u64)>, pub obs: Vec<u64> }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub paths: u64, pub forks: u64, pub instrs: u64, pub assumed: u64, pub checks: u64, pub max_instrs: u64, pub lost: u64, pub pruned: u64 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ext {
    None, Nop, Zero, One, Arg0, Malloc, Calloc, Realloc, Free, PosixMemalign, Memcpy, Memset, Bcmp, Memcmp, Strlen, Write, Errno, Getrandom,
    Panic, Trap, Abort,
    SymNew, SymAssume, SymCheck, SymReach, SymObserve, SymConc, SymNote,
    Ovf(B, bool), Sat(B, bool), MinMax(Pred), Abs, Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fsh(bool), Cmp3(bool), IsConst, ReduceOr, ReduceAnd, ReduceAdd, LoadRel, PtrMask,
}

fn classify(n: &str) -> Ext {
    use Ext::*;
    if let Some(r) = n.strip_prefix("llvm.") {
        let k = r.split('.').collect::<Vec<_>>();
        return match k[0] {
            "lifetime" | "dbg" | "assume" | "experimental" | "prefetch" | "invariant" | "donothing" | "va_start" | "va_end" => Nop,
            "memcpy" | "memmove" => Memcpy,
            "memset" => Memset,
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let b = match &k[0][1..] { "add" => B::Add, "sub" => B::Sub, _ => B::Mul };
                let s = k[0].starts_with('s');
                if k[1] == "sat" { Sat(b, s) } else { Ovf(b, s) }
            }
            "umin" => MinMax(Pred::Ult), "umax" => MinMax(Pred::Ugt), "smin" => MinMax(Pred::Slt), "smax" => MinMax(Pred::Sgt),
            "abs" => Abs, "ctpop" => Ctpop, "ctlz" => Ctlz, "cttz" => Cttz, "bswap" => Bswap, "bitreverse" => Bitrev,
            "fshl" => Fsh(true), "fshr" => Fsh(false), "ucmp" => Cmp3(false), "scmp" => Cmp3(true),
            "expect" | "launder" | "strip" | "ssa" | "threadlocal" | "freeze" => Arg0,
            "is" => IsConst, "objectsize" => None, "trap" | "debugtrap" | "ubsantrap" => Trap,
            "load" => LoadRel, "ptrmask" => PtrMask,
            "vector" => match k[2] { "or" => ReduceOr, "and" => ReduceAnd, "add" => ReduceAdd, _ => None },
            _ => None,
        };
    }
    match n {
        "malloc" => Malloc, "calloc" => Calloc, "realloc" => Realloc, "free" => Free, "posix_memalign" | "aligned_alloc" => PosixMemalign,
        "memcpy" | "memmove" => Memcpy, "memset" => Memset, "bcmp" => Bcmp, "memcmp" => Memcmp, "strlen" => Strlen,
        "write" => Write, "__errno_location" => Errno, "getrandom" => Getrandom,
        "abort" => Abort,
        "__sym_new" => SymNew, "__sym_assume" => SymAssume, "__sym_check" => SymCheck, "__sym_reach" => SymReach,
        "__sym_observe" => SymObserve, "__sym_concretize" => SymConc, "__sym_note" => SymNote,
        "getenv" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_self" | "__cxa_thread_atexit_impl" | "sched_yield" | "pthread_key_create"
        | "pthread_setspecific" | "pthread_getspecific" | "signal" | "sigaction" | "gettid" | "__rust_no_alloc_shim_is_unstable_v2" => Zero,
        "syscall" => Zero,
        _ => {
            if n.contains("panicking") && (n.contains("panic_fmt") || n.contains("panic_nounwind") || n.contains("panic_cannot_unwind") || n.contains("begin_panic")
                || n.contains("panic_with_hook")) || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("_Unwind_") || n.contains("abort_internal")
                || n.contains("__rustc10rust_panic") { return Panic; }
            None
        }
    }
}

/// Immutable program description shared by all workers.
pub struct Prog {
    pub m: &'static Module,
    pub ext: Vec<Ext>,
    pub slot_map: Vec<GSlot>, // slot -> global
    pub heap_base: u32,
    pub consts: Vec<Obj>,
    pub touched: Vec<AtomicBool>,
    pub errno_slot: usize,
}
#[derive(Clone, Copy)]
pub enum GSlot { None, Const(u32), Mut(u32) }

pub fn program(m: &'static Module) -> (Prog, Vec<Arc<Obj>>) {
    // (the harness may define stand-ins for system calls)
    let ext: Vec<Ext> = m.fns.iter().enumerate().map(|(i, f)| if f.name == "write" && m.func(i as u32).is_some() { Ext::None } else { classify(&f.name) }).collect();
    let mut hb = 16u32;
    for g in &m.globals { if g.addr != 0 { hb = hb.max((g.addr >> SLOT_BITS) as u32 + ((g.size + 64 + SLOT - 1) >> SLOT_BITS) as u32); } }
    let mut slot_map = vec![GSlot::None; hb as usize + 1];
    let mut consts = vec![];
    let mut mg = vec![];
    for g in &m.globals {
        if g.addr == 0 { continue; }
        let s = (g.addr >> SLOT_BITS) as usize;
        let e = if g.constant { consts.push(Obj::from(g.init.clone(), true)); GSlot::Const(consts.len() as u32 - 1) }
        else { mg.push(Arc::new(Obj::from(g.init.clone(), false))); GSlot::Mut(mg.len() as u32 - 1) };
        let n = ((g.size + 64 + SLOT - 1) >> SLOT_BITS) as usize;
        for i in 0..n.max(1) { slot_map[s + i] = e; }
    }
    let es = hb as usize;
    mg.push(Arc::new(Obj::new(8)));
    slot_map[es] = GSlot::Mut(mg.len() as u32 - 1);
    let touched = m.fns.iter().map(|_| AtomicBool::new(false)).collect();
    (Prog { m, ext, slot_map, heap_base: hb + 1, consts, touched, errno_slot: es }, mg)
}

pub struct Opts { pub max_instr: u64, pub max_live: usize, pub time_limit: f64, pub samples: usize, pub z3_timeout: u32, pub dump: Option<(String, u64)>, pub cover: bool, pub first: bool }

pub struct Shared {
    pub prog: Prog,
    pub opts: Opts,
    pub queue: Mutex<(Vec<Box<State>>, usize, bool)>, // states, idle workers, done
    pub cv: Condvar,
    pub hungry: AtomicU64,
    pub nworkers: usize,
    pub cache: Vec<Mutex<HashMap<u128, R>>>,
    pub names: Mutex<(Vec<String>, HashMap<String, u32>)>,
    pub reach: Mutex<(Vec<String>, HashMap<String, u32>)>,
    pub reached: Mutex<Vec<Vec<u64>>>, // per entry: counts per reach marker
    pub violations: Mutex<Vec<Violation>>,
    pub vcount: Mutex<HashMap<String, u64>>,
    pub samples: Mutex<Vec<Vec<Sample>>>,
    pub stats: Mutex<Vec<Stats>>,
    pub errors: Mutex<HashMap<String, u64>>,
    pub queries: AtomicU64,
    pub nanos: AtomicU64,
    pub hits: AtomicU64,
    pub unknowns: AtomicU64,
    pub stop: AtomicBool,
    pub t0: std::time::Instant,
    pub cov: Mutex<HashMap<u32, Vec<bool>>>,
}

/// Why a path stopped.
pub enum Stop { Done, Infeasible, Violation(String, String), Error(String), Drop }
type Res<T> = Result<T, Stop>;

pub struct Worker<'a> {
    pub sh: &'a Shared,
    pub z3: Z3,
    pub local: Vec<Box<State>>,
    pub pool: Vec<Vec<V>>,
    pub folds: HashMap<u128, Option<u64>>,
    pub stats: Vec<Stats>,
    pub rng: u64,
    cov: HashMap<u32, Vec<bool>>,
}

#[inline]
fn cmp64(p: Pred, x: u64, y: u64, w: u32) -> bool {
    let sh = 64 - w;
    let (a, b) = ((x << sh) as i64 >> sh, (y << sh) as i64 >> sh);
    match p {
        Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y,
        Pred::Slt => a < b, Pred::Sle => a <= b, Pred::Sgt => a > b, Pred::Sge => a >= b,
    }
}
fn cmp_e(p: Pred, x: &E, y: &E) -> E {
    match p {
        Pred::Eq => bin(B::Eq, x, y), Pred::Ne => not(&bin(B::Eq, x, y)),
        Pred::Ult => bin(B::Ult, x, y), Pred::Ule => bin(B::Ule, x, y), Pred::Ugt => bin(B::Ult, y, x), Pred::Uge => bin(B::Ule, y, x),
        Pred::Slt => bin(B::Slt, x, y), Pred::Sle => bin(B::Sle, x, y), Pred::Sgt => bin(B::Slt, y, x), Pred::Sge => bin(B::Sle, y, x),
    }
}
fn cmp_v(p: Pred, x: &V, y: &V, w: u32) -> V {
    match (x, y) {
        (V::C(a), V::C(b)) if w <= 64 => V::C(cmp64(p, *a, *b, w) as u64),
        _ => V::of(cmp_e(p, &x.e(w), &y.e(w))),
    }
}
#[inline]
fn bin_c(b: B, a: u64, c: u64, w: u32) -> u64 {
    let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    let r = match b {
        B::Add => a.wrapping_add(c),
        B::Sub => a.wrapping_sub(c),
        B::Mul => a.wrapping_mul(c),
        B::And => a & c,
        B::Or => a | c,
        B::Xor => a ^ c,
        B::Shl => if c >= w as u64 { 0 } else { a << c },
        B::LShr => if c >= w as u64 { 0 } else { a >> c },
        _ => expr::fold(b, a as u128, c as u128, w, w) as u64,
    };
    r & m
}
fn bin_v(b: B, x: &V, y: &V, w: u32) -> V {
    match (x, y) {
        (V::C(a), V::C(c)) if w <= 64 => V::C(bin_c(b, *a, *c, w)),
        _ => V::of(bin(b, &x.e(w), &y.e(w))),
    }
}
fn cast_v(k: Cast, x: &V, f: u32, t: u32) -> V {
    match x {
        V::C(c) if t <= 64 => match k {
            Cast::Trunc => V::C(*c & mask(t) as u64),
            Cast::SExt => V::C(sx(*c as u128, f) as u64 & mask(t) as u64),
            _ => V::C(*c),
        },
        _ => {
            let e = x.e(f);
            V::of(match k { Cast::Trunc => expr::extract(&e, 0, t), Cast::ZExt => expr::zext(&e, t), Cast::SExt => expr::sext(&e, t), _ => e })
        }
    }
}
fn ite_v(c: &E, x: &V, y: &V, w: u32) -> V {
    match (x, y) {
        (V::C(a), V::C(b)) if a == b => V::C(*a),
        _ => V::of(expr::ite(c, &x.e(w), &y.e(w))),
    }
}

#[inline(always)]
fn fast_size(t: &Ty) -> usize {
    match t { Ty::Ptr | Ty::Int(64) => 8, Ty::Int(32) => 4, Ty::Int(8) => 1, Ty::Int(w) => (*w as usize + 7) / 8, t => t.size() as usize }
}

impl State {
    pub fn initial(entry: u32, f: &'static Func, args: &[u64], mg: Vec<Arc<Obj>>) -> State {
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { regs[*p as usize] = V::C(args.get(i).copied().unwrap_or(0)); }
        let mut s = State {
            entry, cur: Frame { f, pc: 0, regs, obj: NONE, ret_dst: NONE, ret_edge: None }, stack: vec![], heap: vec![], free: vec![], mg,
            pc: vec![], known: 0, dom: vec![], model: vec![], inputs: vec![], obs: vec![], reach: 0, icount: 0, forks: 0, live: 0,
        };
        if f.frame > 0 { s.cur.obj = s.alloc(f.frame as usize); }
        s
    }
    fn alloc(&mut self, n: usize) -> u32 {
        self.live += n + 64;
        let o = Some(Arc::new(Obj::new(n)));
        match self.free.pop() {
            Some(i) => { self.heap[i as usize] = o; i }
            None => { self.heap.push(o); self.heap.len() as u32 - 1 }
        }
    }
    fn release(&mut self, i: u32) {
        if let Some(o) = self.heap[i as usize].take() { self.live -= o.data.len() + 64; }
        self.free.push(i);
    }
    #[inline]
    fn val(&self, o: &O) -> V {
        match o { O::R(r) => self.cur.regs[*r as usize].clone(), O::C(c) => V::C(*c), O::K(v) => v.clone() }
    }
    #[inline(always)]
    fn set(&mut self, r: u32, v: V) {
        let p = &mut self.cur.regs[r as usize];
        // (the usual case, without running the destructor)
        if let V::C(_) = p { unsafe { std::ptr::write(p, v) } } else { *p = v }
    }
    /// The operand's value if it is a concrete scalar.
    #[inline(always)]
    fn cv(&self, o: &O) -> Option<u64> {
        match o {
            O::R(r) => if let V::C(c) = self.cur.regs[*r as usize] { Some(c) } else { None },
            O::C(c) => Some(*c),
            O::K(_) => None,
        }
    }

    fn goto(&mut self, e: &Edge) {
        match e.moves.len() {
            0 => {}
            1 => { let v = self.val(&e.moves[0].1); self.set(e.moves[0].0, v); }
            _ => {
                let vs: Vec<V> = e.moves.iter().map(|(_, o)| self.val(o)).collect();
                for ((d, _), v) in e.moves.iter().zip(vs) { self.cur.regs[*d as usize] = v; }
            }
        }
        self.cur.pc = e.pc;
    }

    /// The input of up to 8 bits that a small expression depends on.
    fn single(&self, e: &E) -> Option<usize> {
        if !e.vars.is_power_of_two() || e.size > 400 { return None; }
        let i = e.vars.trailing_zeros() as usize;
        if i < self.inputs.len().min(127) && self.inputs[i].1 <= 8 { Some(i) } else { None }
    }

    fn add(&mut self, c: &E) {
        if as_const(c).is_some() { return; }
        if let expr::Op::Bin(B::And, a, b) = &c.op { if c.w == 1 { self.add(a); self.add(b); return; } }
        if self.pc.iter().any(|x| x.h == c.h) { return; }
        if let Some(i) = self.single(c) {
            let mut m = vec![0; i + 1];
            for v in 0..256 { if self.dom[i][v >> 6] >> (v & 63) & 1 == 1 { m[i] = v as u64; if expr::eval(c, &m) & 1 == 0 { self.dom[i][v >> 6] &= !(1 << (v & 63)); } } }
        }
        if let expr::Op::Bin(B::Eq, a, b) = &c.op {
            if let expr::Op::Var(i) = a.op { if as_const(b).is_some() && i < 127 { self.known |= 1 << i; } }
        } else if let expr::Op::Var(i) = c.op { if i < 127 { self.known |= 1 << i; } }
        else if let expr::Op::Not(a) = &c.op { if let expr::Op::Var(i) = a.op { if i < 127 { self.known |= 1 << i; } } }
        self.pc.push(c.clone());
    }
    fn slice(&self, q: &E) -> Vec<E> {
        let mut m = q.vars;
        let mut used = vec![false; self.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, c) in self.pc.iter().enumerate() {
                if !used[i] && c.vars & m != 0 { used[i] = true; out.push(c.clone()); if c.vars & !m != 0 { m |= c.vars; ch = true; } }
            }
            if !ch { break; }
        }
        out
    }
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared, id: usize) -> Worker<'a> {
        let mut z3 = Z3::new(sh.opts.z3_timeout);
        z3.dump = sh.opts.dump.clone();
        let n = sh.stats.lock().unwrap().len();
        Worker { sh, z3, local: vec![], pool: vec![], folds: HashMap::new(), stats: vec![Stats::default(); n], rng: 0x1234567 + id as u64 * 7919, cov: HashMap::new() }
    }

    fn query(&mut self, mut cs: Vec<E>) -> R {
        cs.sort_by_key(|e| e.h);
        cs.dedup_by_key(|e| e.h);
        let mut k: u128 = 0x1234;
        for c in &cs { k = k.rotate_left(5) ^ c.h.wrapping_mul(0x9E3779B97F4A7C15D6E8FEB86659FD93); }
        let sh = &self.sh.cache[(k as usize) % self.sh.cache.len()];
        if let Some(r) = sh.lock().unwrap().get(&k) { self.sh.hits.fetch_add(1, Ordering::Relaxed); return r.clone(); }
        let q0 = self.z3.nanos;
        let r = self.z3.check(&cs);
        self.sh.queries.fetch_add(1, Ordering::Relaxed);
        self.sh.nanos.fetch_add(self.z3.nanos - q0, Ordering::Relaxed);
        if matches!(r, R::Unknown) { self.sh.unknowns.fetch_add(1, Ordering::Relaxed); }
        sh.lock().unwrap().insert(k, r.clone());
        r
    }

    /// A value that is the same for every value its only input can have is that constant.
    fn fold(&mut self, st: &State, v: V) -> V {
        let V::S(e) = &v else { return v };
        if e.vars & !st.known == 0 && e.vars >> 127 == 0 && e.w <= 64 { return V::C(expr::eval(e, &st.model) as u64); }
        let Some(i) = st.single(e) else { return v };
        if e.w > 64 { return v; }
        let d = &st.dom[i];
        let mut k = e.h;
        for x in d { k = k.rotate_left(31) ^ (*x as u128).wrapping_mul(0x9E3779B97F4A7C15D6E8FEB86659FD93); }
        if self.folds.len() > 200_000 { self.folds.clear(); }
        let r = *self.folds.entry(k).or_insert_with(|| {
            let mut m = vec![0; i + 1];
            let mut r = None;
            for x in 0..256 {
                if d[x >> 6] >> (x & 63) & 1 == 0 { continue; }
                m[i] = x as u64;
                let y = expr::eval(e, &m) as u64;
                if *r.get_or_insert(y) != y { return None; }
            }
            r
        });
        match r { Some(c) => V::C(c), None => v }
    }

    /// Is PC ∧ q satisfiable? Returns an updated model.
    fn feasible(&mut self, st: &State, q: &E) -> Res<Option<Model>> {
        if let Some(c) = as_const(q) { return Ok(if c & 1 == 1 { Some(st.model.clone()) } else { None }); }
        let nq = not(q);
        if st.pc.iter().any(|x| x.h == nq.h) { return Ok(None); }
        if q.vars & !st.known == 0 && q.vars >> 127 == 0 {
            return Ok(if expr::eval(q, &st.model) & 1 == 1 { Some(st.model.clone()) } else { None });
        }
        let mut cs = st.slice(q);
        cs.push(q.clone());
        match self.query(cs) {
            R::Sat(v) => {
                let mut m = st.model.clone();
                for (i, x) in v { if m.len() <= i as usize { m.resize(i as usize + 1, 0); } m[i as usize] = x; }
                debug_assert!(expr::eval(q, &m) & 1 == 1);
                Ok(Some(m))
            }
            R::Unsat => Ok(None),
            R::Unknown => { self.stats[st.entry as usize].lost += 1; Ok(None) }
        }
    }

    fn fork(&mut self, st: &State, c: &E, m: Model) -> Box<State> {
        let mut o = Box::new(st.clone());
        o.model = m;
        o.add(c);
        o.forks += 1;
        self.stats[st.entry as usize].forks += 1;
        o
    }
    fn push(&mut self, s: Box<State>) { self.local.push(s); }

    /// Decide a branch; forks the other side (re-executing the current instruction) if feasible.
    fn branch(&mut self, st: &mut State, c: &E) -> Res<bool> {
        if let Some(k) = as_const(c) { return Ok(k & 1 == 1); }
        let v = expr::eval(c, &st.model) & 1 == 1;
        let (mine, other) = if v { (c.clone(), not(c)) } else { (not(c), c.clone()) };
        if st.pc.iter().any(|x| x.h == mine.h) { return Ok(v); }
        if let Some(m) = self.feasible(st, &other)? {
            let s = self.fork(st, &other, m);
            self.push(s);
            st.add(&mine);
        }
        Ok(v)
    }

    /// Give a scalar a single concrete value, forking over its other feasible values.
    fn conc(&mut self, st: &mut State, v: &V, w: u32) -> Res<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::A(_) => Err(Stop::Error("aggregate concretised".into())),
            V::S(e) => {
                if let Some(c) = as_const(e) { return Ok(c as u64); }
                if self.sh.t0.elapsed().as_secs_f64() > self.sh.opts.time_limit { self.sh.stop.store(true, Ordering::Relaxed); return Err(Stop::Drop); }
                let _ = w;
                let k = expr::eval(e, &st.model);
                let eq = bin(B::Eq, e, &konst(k, e.w));
                if as_const(&eq) == Some(1) || st.pc.iter().any(|x| x.h == eq.h) { return Ok(k as u64); }
                let ne = not(&eq);
                if let Some(m) = self.feasible(st, &ne)? {
                    let s = self.fork(st, &ne, m);
                    self.push(s);
                    st.add(&eq);
                }
                Ok(k as u64)
            }
        }
    }

    fn locate(&self, st: &State, a: u64, n: usize) -> Res<(usize, usize)> {
        let slot = (a >> SLOT_BITS) as usize;
        let off = (a & (SLOT - 1)) as usize;
        let hb = self.sh.prog.heap_base as usize;
        let (len, off) = if slot >= hb {
            match st.heap.get(slot - hb) { Some(Some(o)) => (o.data.len(), off), _ => return Err(Stop::Violation("memory".into(), format!("access to unmapped address {:#x}", a))) }
        } else {
            match self.sh.prog.slot_map.get(slot) {
                Some(GSlot::Const(i)) => {
                    let o = &self.sh.prog.consts[*i as usize];
                    if o.data.len() + 64 >= SLOT as usize { return Err(Stop::Error("huge global".into())); }
                    (o.data.len(), off)
                }
                Some(GSlot::Mut(i)) => (st.mg[*i as usize].data.len(), off),
                _ => return Err(Stop::Violation("memory".into(), format!("access to invalid address {:#x}", a))),
            }
        };
        if off + n > len { return Err(Stop::Violation("memory".into(), format!("out-of-bounds access: offset {} size {} of object of {} bytes", off, n, len))); }
        Ok((slot, off))
    }
    fn obj<'b>(&'b self, st: &'b State, slot: usize) -> &'b Obj {
        let hb = self.sh.prog.heap_base as usize;
        if slot >= hb { st.heap[slot - hb].as_ref().unwrap() } else {
            match self.sh.prog.slot_map[slot] { GSlot::Const(i) => &self.sh.prog.consts[i as usize], GSlot::Mut(i) => &st.mg[i as usize], _ => unreachable!() }
        }
    }
    fn obj_mut<'b>(&self, st: &'b mut State, slot: usize) -> Res<&'b mut Obj> {
        let hb = self.sh.prog.heap_base as usize;
        if slot >= hb { Ok(Arc::make_mut(st.heap[slot - hb].as_mut().unwrap())) } else {
            match self.sh.prog.slot_map[slot] {
                GSlot::Mut(i) => Ok(Arc::make_mut(&mut st.mg[i as usize])),
                _ => Err(Stop::Violation("memory".into(), "write to constant memory".into())),
            }
        }
    }
    fn heap_addr(&self, i: u32) -> u64 { ((self.sh.prog.heap_base as u64) + i as u64) << SLOT_BITS }

    fn malloc(&mut self, st: &mut State, n: u64) -> Res<u64> {
        if n + 64 >= SLOT { return Err(Stop::Error(format!("allocation of {} bytes exceeds the engine's object limit", n))); }
        if st.live + n as usize > self.sh.opts.max_live { return Err(Stop::Violation("hang".into(), "allocation limit exceeded on one path".into())); }
        let i = st.alloc(n as usize);
        Ok(self.heap_addr(i))
    }
    fn free(&mut self, st: &mut State, a: u64) -> Res<()> {
        if a == 0 { return Ok(()); }
        let (slot, off) = self.locate(st, a, 0)?;
        let hb = self.sh.prog.heap_base as usize;
        if off != 0 || slot < hb { return Err(Stop::Violation("memory".into(), "bad free".into())); }
        st.release((slot - hb) as u32);
        Ok(())
    }

    fn read_bytes(&self, st: &State, a: u64, n: usize) -> Res<Vec<u8>> {
        let (s, o) = self.locate(st, a, n)?;
        Ok(self.obj(st, s).data[o..o + n].to_vec())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 { return Ok(()); }
        let (ss, so) = self.locate(st, s, n as usize)?;
        let (ds, d0) = self.locate(st, d, n as usize)?;
        let (b, sy) = self.obj(st, ss).slice(so, n as usize);
        self.obj_mut(st, ds)?.paste(d0, &b, &sy);
        Ok(())
    }

    fn model_inputs(&self, st: &State, m: &Model) -> Vec<(String, u64)> {
        let names = self.sh.names.lock().unwrap();
        st.inputs.iter().enumerate().map(|(i, (n, w))| (names.0[*n as usize].clone(), m.get(i).copied().unwrap_or(0) & mask(*w) as u64)).collect()
    }

    fn report(&mut self, st: &State, kind: &str, msg: &str, m: &Model) {
        let key = format!("{}|{}|{}", st.entry, kind, msg);
        {
            let mut c = self.sh.vcount.lock().unwrap();
            let n = c.entry(key).or_insert(0);
            *n += 1;
            // (each of these takes as long as a path may)
            if kind == "hang" && *n > 64 { self.sh.stop.store(true, Ordering::Relaxed); }
            if *n > 8 { return; }
        }
        let mut stack = vec![st.cur.f.name.clone()];
        for f in st.stack.iter().rev().take(12) { stack.push(f.f.name.clone()); }
        let v = Violation { entry: st.entry, kind: kind.into(), msg: msg.into(), inputs: self.model_inputs(st, m), stack };
        self.sh.violations.lock().unwrap().push(v);
        if self.sh.opts.first { self.sh.stop.store(true, Ordering::Relaxed); }
    }

    fn finish(&mut self, st: Box<State>, r: Stop) {
        let e = st.entry as usize;
        self.stats[e].instrs += st.icount;
        if st.icount > self.stats[e].max_instrs { self.stats[e].max_instrs = st.icount; }
        match r {
            Stop::Done => {
                self.stats[e].paths += 1;
                {
                    let mut rr = self.sh.reached.lock().unwrap();
                    for i in 0..127 { if st.reach >> i & 1 == 1 { let v = &mut rr[e]; if v.len() <= i { v.resize(i + 1, 0); } v[i] += 1; } }
                }
                // reservoir sample
                self.rng = self.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let n = self.sh.opts.samples;
                let r = (self.rng >> 33) % self.stats[e].paths.max(1);
                if n > 0 && (r as usize) < n {
                    let s = Sample { entry: st.entry, inputs: self.model_inputs(&st, &st.model), obs: st.obs.iter().map(|v| match v { V::C(c) => *c, V::S(x) => expr::eval(x, &st.model) as u64, _ => 0 }).collect() };
                    let mut sm = self.sh.samples.lock().unwrap();
                    if sm[e].len() < n { sm[e].push(s); } else { let k = r as usize; sm[e][k] = s; }
                }
            }
            Stop::Infeasible => self.stats[e].assumed += 1,
            Stop::Violation(k, m) => { self.stats[e].paths += 1; self.report(&st, &k, &m, &st.model.clone()); }
            Stop::Error(m) => {
                let w = format!("{} [in {}]", m, st.cur.f.name);
                let mut er = self.sh.errors.lock().unwrap();
                *er.entry(w).or_insert(0) += 1;
            }
            Stop::Drop => self.stats[e].pruned += 1,
        }
        let State { cur, .. } = *st;
        self.recycle(cur.regs);
    }

    pub fn work(&mut self) {
        loop {
            let s = match self.local.pop() {
                Some(s) => Some(s),
                None => {
                    let mut g = self.sh.queue.lock().unwrap();
                    g.1 += 1;
                    self.sh.hungry.store(g.1 as u64, Ordering::Relaxed);
                    loop {
                        if g.2 { break None; }
                        if let Some(s) = g.0.pop() { g.1 -= 1; self.sh.hungry.store(g.1 as u64, Ordering::Relaxed); break Some(s); }
                        if g.1 == self.sh.nworkers { g.2 = true; self.sh.cv.notify_all(); break None; }
                        g = self.sh.cv.wait(g).unwrap();
                    }
                }
            };
            let Some(mut s) = s else { break };
            if self.sh.stop.load(Ordering::Relaxed) { self.finish(s, Stop::Drop); continue; }
            let r = match self.run(&mut s) { Ok(()) => Stop::Done, Err(e) => e };
            self.finish(s, r);
        }
        let mut g = self.sh.stats.lock().unwrap();
        for (a, b) in g.iter_mut().zip(&self.stats) {
            a.paths += b.paths; a.forks += b.forks; a.instrs += b.instrs; a.assumed += b.assumed; a.checks += b.checks; a.lost += b.lost; a.pruned += b.pruned;
            a.max_instrs = a.max_instrs.max(b.max_instrs);
        }
        drop(g);
        let mut c = self.sh.cov.lock().unwrap();
        for (k, v) in self.cov.drain() {
            let e = c.entry(k).or_insert_with(|| vec![false; v.len()]);
            for (a, b) in e.iter_mut().zip(v) { *a |= b; }
        }
    }

    fn recycle(&mut self, mut regs: Vec<V>) {
        if self.pool.len() >= 64 { return; }
        for v in regs.iter_mut() { if !matches!(v, V::C(_)) { *v = V::C(0); } }
        self.pool.push(regs);
    }

    fn donate(&mut self) {
        if self.local.len() < 2 { return; }
        let s = self.local.remove(0);
        let mut g = self.sh.queue.lock().unwrap();
        g.0.push(s);
        drop(g);
        self.sh.cv.notify_one();
    }

    fn run(&mut self, st: &mut Box<State>) -> Res<()> {
        let cover = self.sh.opts.cover;
        let mut n: u32 = 0;
        loop {
            let f = st.cur.f;
            let i = &f.code[st.cur.pc as usize];
            st.icount += 1;
            n += 1;
            if cover {
                let pc = st.cur.pc as usize;
                self.cov.entry(f.id).or_insert_with(|| vec![false; f.code.len()])[pc] = true;
            }
            if n & 0xfff == 0 {
                if st.icount > self.sh.opts.max_instr { return Err(Stop::Violation("hang".into(), "instruction limit exceeded on one path".into())); }
                if self.sh.hungry.load(Ordering::Relaxed) > 0 { self.donate(); }
                if n & 0xffff == 0 && self.sh.t0.elapsed().as_secs_f64() > self.sh.opts.time_limit { self.sh.stop.store(true, Ordering::Relaxed); }
                if self.sh.stop.load(Ordering::Relaxed) { return Err(Stop::Drop); }
            }
            match i {
                I::Bin(b, w, d, x, y) => {
                    if let (Some(a), Some(c), true) = (st.cv(x), st.cv(y), *w <= 64) {
                        let v = bin_c(*b, a, c, *w);
                        st.set(*d, V::C(v));
                        st.cur.pc += 1;
                        continue;
                    }
                    let (x, mut y) = (st.val(x), st.val(y));
                    // division circuits are expensive: one path per divisor
                    if matches!(b, B::UDiv | B::URem | B::SDiv | B::SRem) && *w <= 64 { y = V::C(self.conc(st, &y, *w)?); }
                    let v = bin_v(*b, &x, &y, *w);
                    st.set(*d, v);
                }
                I::Cmp(p, w, d, x, y) => {
                    if let (Some(a), Some(c), true) = (st.cv(x), st.cv(y), *w <= 64) {
                        let v = cmp64(*p, a, c, *w) as u64;
                        st.set(*d, V::C(v));
                        st.cur.pc += 1;
                        continue;
                    }
                    let (x, y) = (st.val(x), st.val(y));
                    let v = cmp_v(*p, &x, &y, *w);
                    let v = self.fold(st, v);
                    st.set(*d, v);
                }
                I::Cast(k, fw, tw, d, x) => { let x = st.val(x); let v = cast_v(*k, &x, *fw, *tw); st.set(*d, v); }
                I::Load(t, d, a) => {
                    if let Some(a) = st.cv(a) {
                        let n = fast_size(t);
                        let (s, o) = self.locate(st, a, n)?;
                        let v = match t {
                            Ty::Int(8 | 16 | 32 | 64) | Ty::Ptr => self.obj(st, s).read_int(o, n),
                            _ => self.obj(st, s).read(o, t),
                        };
                        st.set(*d, v);
                        st.cur.pc += 1;
                        continue;
                    }
                    let a = st.val(a);
                    let a = match a { V::C(c) => c, a => { match self.load_sym(st, t, &a)? { Ok(v) => { let v = self.fold(st, v); st.set(*d, v); st.cur.pc += 1; continue; } Err(c) => c } } };
                    let (s, o) = self.locate(st, a, fast_size(t))?;
                    let v = self.obj(st, s).read(o, t);
                    st.set(*d, v);
                }
                I::Store(t, v, a) => {
                    let a = match st.cv(a) { Some(a) => a, None => { let a = st.val(a); self.conc(st, &a, 64)? } };
                    let n = fast_size(t);
                    if n > 0 {
                        let (s, o) = self.locate(st, a, n)?;
                        if let (Some(v), Ty::Int(8 | 16 | 32 | 64) | Ty::Ptr) = (st.cv(v), t) {
                            self.obj_mut(st, s)?.write_int(o, n, &V::C(v));
                            st.cur.pc += 1;
                            continue;
                        }
                        let v = st.val(v);
                        self.obj_mut(st, s)?.write(o, t, &v);
                    }
                }
                I::Gep(d, base, off, idx) => {
                    if let Some(b) = st.cv(base) {
                        let mut r = Some(b.wrapping_add(*off as u64));
                        for (o, sc, w) in idx.iter() {
                            match (r, st.cv(o)) {
                                (Some(b), Some(v)) => { let sh = 64 - *w; r = Some(b.wrapping_add((((v << sh) as i64 >> sh) as u64).wrapping_mul(*sc as u64))); }
                                _ => { r = None; break }
                            }
                        }
                        if let Some(r) = r { st.set(*d, V::C(r)); st.cur.pc += 1; continue; }
                    }
                    let b = st.val(base);
                    let mut r = bin_v(B::Add, &b, &V::C(*off as u64), 64);
                    for (o, sc, w) in idx.iter() {
                        let v = st.val(o);
                        let v = if *w < 64 { cast_v(Cast::SExt, &v, *w, 64) } else { v };
                        let v = bin_v(B::Mul, &v, &V::C(*sc as u64), 64);
                        r = bin_v(B::Add, &r, &v, 64);
                    }
                    st.set(*d, r);
                }
                I::Select(fork, w, d, c, x, y) => {
                    let k = st.val(c);
                    let v = match self.fold(st, k) {
                        V::C(c) => if c & 1 == 1 { st.val(x) } else { st.val(y) },
                        V::S(c) => {
                            let (x, y) = (st.val(x), st.val(y));
                            if *fork { if self.branch(st, &c)? { x } else { y } } else { ite_v(&c, &x, &y, *w) }
                        }
                        _ => return Err(Stop::Error("select".into())),
                    };
                    st.set(*d, v);
                }
                I::Br(e) => { st.goto(e); continue; }
                I::CondBr(c, a, b) => {
                    if let Some(c) = st.cv(c) { st.goto(if c & 1 == 1 { a } else { b }); continue; }
                    let t = match st.val(c) {
                        V::C(c) => c & 1 == 1,
                        V::S(c) => self.branch(st, &c)?,
                        _ => return Err(Stop::Error("br".into())),
                    };
                    st.goto(if t { a } else { b });
                    continue;
                }
                I::Switch(w, v, def, cases, edges) => {
                    match st.val(v) {
                        V::C(c) => {
                            let e = cases.iter().find(|(k, _)| *k == c).map(|(_, i)| &edges[*i as usize]).unwrap_or(def);
                            st.goto(e);
                        }
                        V::S(x) => self.switch(st, &x, *w, def, cases, edges)?,
                        _ => return Err(Stop::Error("switch".into())),
                    }
                    continue;
                }
                I::Call(d, callee, args, rw, edge) => {
                    self.call(st, *d, callee, args, *rw, edge.as_ref())?;
                    continue;
                }
                I::Ret(o) => {
                    let v = o.as_ref().map(|o| st.val(o));
                    if st.cur.obj != NONE { let ob = st.cur.obj; st.release(ob); }
                    match st.stack.pop() {
                        None => return Ok(()),
                        Some(fr) => {
                            let fr = Arc::try_unwrap(fr).unwrap_or_else(|a| (*a).clone());
                            let old = std::mem::replace(&mut st.cur, fr);
                            if old.ret_dst != NONE { if let Some(v) = v { st.set(old.ret_dst, v); } }
                            if let Some(e) = old.ret_edge { st.goto(e); }
                            self.recycle(old.regs);
                        }
                    }
                    continue;
                }
                I::Alloca(d, o) => { let a = self.heap_addr(st.cur.obj) + o; st.set(*d, V::C(a)); }
                I::Extract(d, a, ix) => {
                    let v = match a {
                        O::R(r) => { let mut v = &st.cur.regs[*r as usize]; for i in ix.iter() { if let V::A(x) = v { v = &x[*i as usize]; } } v.clone() }
                        o => { let mut v = st.val(o); for i in ix.iter() { if let V::A(x) = &v { v = x[*i as usize].clone(); } } v }
                    };
                    st.set(*d, v);
                }
                I::Insert(d, a, x, ix) => {
                    let mut v = st.val(a);
                    let x = st.val(x);
                    { let mut p = &mut v; for i in ix.iter() { match p { V::A(y) => p = &mut y[*i as usize], _ => return Err(Stop::Error("insertvalue".into())) } } *p = x; }
                    st.set(*d, v);
                }
                I::Copy(d, o) => { let v = st.val(o); st.set(*d, v); }
                I::VBin(b, n, w, d, x, y) => {
                    let (V::A(x), V::A(y)) = (st.val(x), st.val(y)) else { return Err(Stop::Error("vbin".into())) };
                    let v = V::A((0..*n as usize).map(|i| bin_v(*b, &x[i], &y[i], *w)).collect());
                    st.set(*d, v);
                }
                I::VCmp(p, w, d, x, y) => {
                    let (V::A(x), V::A(y)) = (st.val(x), st.val(y)) else { return Err(Stop::Error("vcmp".into())) };
                    let v = V::A(x.iter().zip(y.iter()).map(|(a, b)| cmp_v(*p, a, b, *w)).collect());
                    st.set(*d, v);
                }
                I::VCast(k, ft, tt, d, x) => { let x = st.val(x); let v = vcast(*k, ft, tt, &x)?; st.set(*d, v); }
                I::VExtract(d, a, ix) => {
                    let ix = st.val(ix);
                    let ix = self.conc(st, &ix, 64)?;
                    let V::A(a) = st.val(a) else { return Err(Stop::Error("extractelement".into())) };
                    st.set(*d, a[ix as usize].clone());
                }
                I::VInsert(d, a, x, ix) => {
                    let ix = st.val(ix);
                    let ix = self.conc(st, &ix, 64)?;
                    let V::A(mut a) = st.val(a) else { return Err(Stop::Error("insertelement".into())) };
                    a[ix as usize] = st.val(x);
                    st.set(*d, V::A(a));
                }
                I::Shuffle(d, a, b, mk) => {
                    let (V::A(a), V::A(b)) = (st.val(a), st.val(b)) else { return Err(Stop::Error("shuffle".into())) };
                    let v = V::A(mk.iter().map(|i| { let i = *i as usize; if i < a.len() { a[i].clone() } else { b[i - a.len()].clone() } }).collect());
                    st.set(*d, v);
                }
                I::AtomicRmw(k, w, d, a, v) => {
                    let a = st.val(a);
                    let a = self.conc(st, &a, 64)?;
                    let n = (*w as usize + 7) / 8;
                    let (s, o) = self.locate(st, a, n)?;
                    let old = self.obj(st, s).read_int(o, n);
                    let v = st.val(v);
                    let mm = |p: Pred| -> V { let c = cmp_v(p, &old, &v, *w); match c { V::C(1) => old.clone(), V::C(_) => v.clone(), V::S(c) => ite_v(&c, &old, &v, *w), x => x } };
                    let nv = match k {
                        Rmw::Xchg => v.clone(), Rmw::Add => bin_v(B::Add, &old, &v, *w), Rmw::Sub => bin_v(B::Sub, &old, &v, *w),
                        Rmw::And => bin_v(B::And, &old, &v, *w), Rmw::Or => bin_v(B::Or, &old, &v, *w), Rmw::Xor => bin_v(B::Xor, &old, &v, *w),
                        Rmw::Max => mm(Pred::Sgt), Rmw::Min => mm(Pred::Slt), Rmw::Umax => mm(Pred::Ugt), Rmw::Umin => mm(Pred::Ult),
                    };
                    self.obj_mut(st, s)?.write_int(o, n, &nv);
                    st.set(*d, old);
                }
                I::CmpXchg(w, d, a, c, nv) => {
                    let a = st.val(a);
                    let a = self.conc(st, &a, 64)?;
                    let n = (*w as usize + 7) / 8;
                    let (s, o) = self.locate(st, a, n)?;
                    let old = self.obj(st, s).read_int(o, n);
                    let (c, nv) = (st.val(c), st.val(nv));
                    let eq = match cmp_v(Pred::Eq, &old, &c, *w) { V::C(x) => x == 1, V::S(e) => self.branch(st, &e)?, _ => false };
                    if eq { self.obj_mut(st, s)?.write_int(o, n, &nv); }
                    st.set(*d, V::A(Box::new([old, V::C(eq as u64)])));
                }
                I::DynAlloca(..) => return Err(Stop::Error("dynamic alloca".into())),
                I::Nop => {}
                I::Unreachable => return Err(Stop::Violation("unreachable".into(), format!("unreachable executed in {}", f.name))),
                I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {}", s))),
            }
            st.cur.pc += 1;
        }
    }

    /// Load through a symbolic address: small tables become ITEs, anything else is concretised.
    fn load_sym(&mut self, st: &mut State, t: &Ty, a: &V) -> Res<Result<V, u64>> {
        let V::S(e) = a else { return Err(Stop::Error("load address".into())) };
        let k = expr::eval(e, &st.model) as u64;
        if matches!(t, Ty::Int(_)) && t.bits() <= 64 && e.vars & !st.known != 0 {
            let slot = k >> SLOT_BITS;
            let ro = self.locate(st, k, fast_size(t)).is_ok() && self.obj(st, slot as usize).ro;
            if ro {
                // whole table: one query shows that the address stays inside, aligned; the value becomes a
                // decision tree over address ranges of equal content
                let n = fast_size(t) as u64;
                let o = self.obj(st, slot as usize);
                let len = o.data.len() as u64;
                let base = slot << SLOT_BITS;
                let first = (k - base) % n;
                if len >= first + n && n.is_power_of_two() {
                    let mut runs: Vec<(u64, u64)> = vec![];
                    let mut off = first;
                    while off + n <= len && runs.len() <= 1024 {
                        let V::C(v) = o.read(off as usize, t) else { runs.resize(2000, (0, 0)); break };
                        if runs.last().map(|r| r.1) != Some(v) { runs.push((off, v)); }
                        off += n;
                    }
                    if runs.len() <= 1024 {
                        let rel = bin(B::Sub, e, &konst((base + first) as u128, 64));
                        let out = bin(B::Or, &not(&bin(B::Ult, &rel, &konst((off - first) as u128, 64))), &not(&bin(B::Eq, &bin(B::And, &rel, &konst((n - 1) as u128, 64)), &konst(0, 64))));
                        if self.feasible(st, &out)?.is_none() {
                            fn tree(rel: &E, first: u64, r: &[(u64, u64)], w: u32) -> V {
                                if r.len() == 1 { return V::C(r[0].1) }
                                let m = r.len() / 2;
                                let (a, b) = (tree(rel, first, &r[..m], w), tree(rel, first, &r[m..], w));
                                ite_v(&bin(B::Ult, rel, &konst((r[m].0 - first) as u128, 64)), &a, &b, w)
                            }
                            return Ok(Ok(tree(&rel, first, &runs, t.bits())));
                        }
                    }
                }
                // otherwise enumerate feasible addresses with the solver, up to a cap
                let mut addrs = vec![k];
                let mut ex = not(&bin(B::Eq, e, &konst(k as u128, 64)));
                let mut complete = false;
                while addrs.len() <= 64 {
                    match self.feasible(st, &ex)? {
                        None => { complete = true; break; }
                        Some(m) => {
                            let k2 = expr::eval(e, &m) as u64;
                            addrs.push(k2);
                            ex = bin(B::And, &ex, &not(&bin(B::Eq, e, &konst(k2 as u128, 64))));
                        }
                    }
                }
                if complete && addrs.iter().all(|a| a >> SLOT_BITS == slot && self.locate(st, *a, fast_size(t)).is_ok()) {
                    let o = self.obj(st, slot as usize);
                    addrs.sort();
                    let mut r: Option<V> = None;
                    for a in addrs.iter().rev() {
                        let v = o.read((*a & (SLOT - 1)) as usize, t);
                        r = Some(match r { None => v, Some(p) => ite_v(&bin(B::Eq, e, &konst(*a as u128, 64)), &v, &p, t.bits()) });
                    }
                    return Ok(Ok(r.unwrap()));
                }
            }
        }
        let c = self.conc(st, a, 64)?;
        Ok(Err(c))
    }

    fn switch(&mut self, st: &mut State, x: &E, w: u32, def: &'static Edge, cases: &'static [(u64, u32)], edges: &'static [Edge]) -> Res<()> {
        let m = expr::eval(x, &st.model) as u64;
        let taken = cases.iter().find(|(k, _)| *k == m).map(|(_, i)| *i as i64).unwrap_or(-1);
        let mut conds: Vec<E> = vec![konst(0, 1); edges.len()];
        for (k, i) in cases {
            let e = bin(B::Eq, x, &konst(*k as u128, w));
            conds[*i as usize] = bin(B::Or, &conds[*i as usize], &e);
        }
        let mut any = konst(0, 1);
        for c in &conds { any = bin(B::Or, &any, c); }
        let none = not(&any);
        let mut forked = false;
        for i in -1..edges.len() as i64 {
            if i == taken { continue; }
            let (c, e) = if i < 0 { (&none, def) } else { (&conds[i as usize], &edges[i as usize]) };
            if i < 0 && matches!(st.cur.f.code.get(e.pc as usize), Some(I::Unreachable)) { continue; }
            if let Some(m) = self.feasible(st, c)? {
                let mut s = self.fork(st, c, m);
                s.goto(e);
                self.push(s);
                forked = true;
            }
        }
        let (c, e) = if taken < 0 { (&none, def) } else { (&conds[taken as usize], &edges[taken as usize]) };
        if forked { st.add(c); }
        st.goto(e);
        Ok(())
    }

    fn call(&mut self, st: &mut Box<State>, dst: u32, callee: &'static Callee, args: &'static [(O, u32)], rw: u32, edge: Option<&'static Edge>) -> Res<()> {
        let id = match callee {
            Callee::Fn(i) => *i,
            Callee::Asm => {
                let v = if rw == 0 { V::C(0) } else { V::A(vec![V::C(0); rw as usize].into()) };
                if dst != NONE { st.set(dst, v); }
                st.cur.pc += 1;
                return Ok(());
            }
            Callee::Ind(o) => {
                let a = st.val(o);
                let a = self.conc(st, &a, 64)?;
                if a < FN_BASE || (a - FN_BASE) / 16 >= self.sh.prog.m.fns.len() as u64 { return Err(Stop::Violation("memory".into(), format!("call through bad function pointer {:#x}", a))); }
                ((a - FN_BASE) / 16) as u32
            }
        };
        let ext = self.sh.prog.ext[id as usize];
        if ext != Ext::None {
            let r = self.external(st, ext, id, args, rw)?;
            if dst != NONE { if let Some(v) = r { st.set(dst, v); } }
            match edge { Some(e) => st.goto(e), None => st.cur.pc += 1 }
            return Ok(());
        }
        let Some(f) = self.sh.prog.m.func(id) else { return Err(Stop::Error(format!("unmodelled external {}", self.sh.prog.m.fns[id as usize].name))) };
        self.sh.prog.touched[id as usize].store(true, Ordering::Relaxed);
        if st.stack.len() > 400 { return Err(Stop::Violation("hang".into(), "call depth limit exceeded".into())); }
        let mut regs = self.pool.pop().unwrap_or_default();
        // (pooled register files hold concrete values only)
        let n = f.nregs as usize;
        if regs.len() >= n { unsafe { regs.set_len(n) } } else { regs.resize(n, V::C(0)) }
        for (p, (o, _)) in f.params.iter().zip(args.iter()) { regs[*p as usize] = st.val(o); }
        if edge.is_none() { st.cur.pc += 1; }
        let mut fr = Frame { f, pc: 0, regs, obj: NONE, ret_dst: dst, ret_edge: edge };
        if f.frame > 0 { fr.obj = st.alloc(f.frame as usize); }
        let old = std::mem::replace(&mut st.cur, fr);
        st.stack.push(Arc::new(old));
        Ok(())
    }

    fn external(&mut self, st: &mut Box<State>, ext: Ext, id: u32, args: &'static [(O, u32)], rw: u32) -> Res<Option<V>> {
        let arg = |st: &State, i: usize| -> V { st.val(&args[i].0) };
        macro_rules! c { ($i:expr) => {{ let v = st.val(&args[$i].0); self.conc(st, &v, args[$i].1)? }} }
        let w = args.get(0).map(|a| a.1).unwrap_or(0);
        Ok(Some(match ext {
            Ext::None => unreachable!(),
            Ext::Nop => return Ok(None),
            Ext::Zero => V::C(0),
            Ext::One => V::C(1),
            Ext::Arg0 => arg(st, 0),
            Ext::IsConst => V::C(0),
            Ext::Malloc => { let n = c!(0); V::C(self.malloc(st, n)?) }
            Ext::Calloc => { let (a, b) = (c!(0), c!(1)); V::C(self.malloc(st, a.saturating_mul(b))?) }
            Ext::PosixMemalign => {
                let (p, n) = (c!(0), c!(2));
                let a = self.malloc(st, n)?;
                let (s, o) = self.locate(st, p, 8)?;
                self.obj_mut(st, s)?.write_int(o, 8, &V::C(a));
                V::C(0)
            }
            Ext::Realloc => {
                let (p, n) = (c!(0), c!(1));
                let a = self.malloc(st, n)?;
                if p != 0 {
                    let (s, _) = self.locate(st, p, 0)?;
                    let l = self.obj(st, s).data.len() as u64;
                    self.copy(st, a, p, l.min(n))?;
                    self.free(st, p)?;
                }
                V::C(a)
            }
            Ext::Free => { let p = c!(0); self.free(st, p)?; return Ok(None); }
            Ext::Memcpy => {
                let (d, s, n) = (c!(0), c!(1), c!(2));
                self.copy(st, d, s, n)?;
                V::C(d)
            }
            Ext::Memset => {
                let (d, n) = (c!(0), c!(2));
                let v = arg(st, 1);
                let v = if args[1].1 > 8 { cast_v(Cast::Trunc, &v, args[1].1, 8) } else { v };
                if n > 0 {
                    let (s, o) = self.locate(st, d, n as usize)?;
                    self.obj_mut(st, s)?.fill(o, n as usize, &v);
                }
                V::C(d)
            }
            Ext::Bcmp | Ext::Memcmp => {
                let (a, b, n) = (c!(0), c!(1), c!(2) as usize);
                if n == 0 { return Ok(Some(V::C(0))); }
                let (sa, oa) = self.locate(st, a, n)?;
                let (sb, ob) = self.locate(st, b, n)?;
                let (x, y) = (self.obj(st, sa), self.obj(st, sb));
                if x.sym.is_empty() && y.sym.is_empty() {
                    let (p, q) = (&x.data[oa..oa + n], &y.data[ob..ob + n]);
                    let r: i32 = match p.cmp(q) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
                    return Ok(Some(V::C(r as u32 as u64)));
                }
                if ext == Ext::Bcmp {
                    let mut eq = konst(1, 1);
                    for i in 0..n { eq = bin(B::And, &eq, &bin(B::Eq, &x.byte(oa + i), &y.byte(ob + i))); }
                    V::of(expr::zext(&not(&eq), 32))
                } else {
                    let mut r = konst(0, 32);
                    for i in (0..n).rev() {
                        let (p, q) = (x.byte(oa + i), y.byte(ob + i));
                        let lt = expr::ite(&bin(B::Ult, &p, &q), &konst(0xffff_ffff, 32), &konst(1, 32));
                        r = expr::ite(&bin(B::Eq, &p, &q), &r, &lt);
                    }
                    V::of(r)
                }
            }
            Ext::Strlen => {
                let a = c!(0);
                let mut n = 0;
                loop {
                    let (s, o) = self.locate(st, a + n, 1)?;
                    let v = self.obj(st, s).read_int(o, 1);
                    if self.conc(st, &v, 8)? == 0 { break; }
                    n += 1;
                }
                V::C(n)
            }
            Ext::Write => arg(st, 2),
            Ext::Errno => V::C((self.sh.prog.errno_slot as u64) << SLOT_BITS),
            Ext::Getrandom => arg(st, 1),
            Ext::Trap | Ext::Abort => return Err(Stop::Violation("panic".into(), format!("abort in {}", st.cur.f.name))),
            Ext::Panic => {
                // the last pointer argument that looks like a core::panic::Location
                let mut loc = String::new();
                for (o, w) in args.iter().rev() {
                    if *w != 64 { continue; }
                    let V::C(a) = st.val(o) else { continue };
                    let Ok(b) = self.read_bytes(st, a, 24) else { continue };
                    let p = u64::from_le_bytes(b[0..8].try_into().unwrap());
                    let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                    let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                    if n > 0 && n < 300 && line < 100_000 { if let Ok(s) = self.read_bytes(st, p, n as usize) {
                        if let Ok(s) = String::from_utf8(s) { if s.contains(".rs") { loc = format!("{}:{}", s, line); break; } }
                    } }
                }
                let n = &self.sh.prog.m.fns[id as usize].name;
                let k = if n.contains("alloc_error") { "allocation failure" } else { "panic" };
                return Err(Stop::Violation("panic".into(), format!("{} at {}", k, if loc.is_empty() { format!("{} <- {}", n, st.cur.f.name) } else { loc })));
            }
            Ext::SymNew => {
                let (p, n, bits) = (c!(0), c!(1), c!(2) as u32);
                let name = String::from_utf8_lossy(&self.read_bytes(st, p, n as usize)?).into_owned();
                let id = intern(&self.sh.names, &name);
                let i = st.inputs.len() as u32;
                if i >= 126 { return Err(Stop::Error("too many symbolic inputs".into())); }
                st.inputs.push((id, bits));
                if st.model.len() <= i as usize { st.model.resize(i as usize + 1, 0); }
                let mut d = [0; 4];
                if bits <= 8 { for v in 0..1usize << bits { d[v >> 6] |= 1 << (v & 63); } }
                st.dom.push(d);
                V::of(expr::zext(&expr::var(i, bits), rw.max(bits)))
            }
            Ext::SymAssume => {
                let v = arg(st, 0);
                let e = bool1(&v, w);
                if let Some(k) = as_const(&e) { if k == 1 { return Ok(None); } return Err(Stop::Infeasible); }
                if expr::eval(&e, &st.model) & 1 == 1 { st.add(&e); return Ok(None); }
                match self.feasible(st, &e)? {
                    Some(m) => { st.model = m; st.add(&e); }
                    None => return Err(Stop::Infeasible),
                }
                return Ok(None);
            }
            Ext::SymCheck => {
                self.stats[st.entry as usize].checks += 1;
                let (p, n) = (c!(1), c!(2));
                let v = arg(st, 0);
                let e = bool1(&v, w);
                if as_const(&e) == Some(1) { return Ok(None); }
                let msg = String::from_utf8_lossy(&self.read_bytes(st, p, n as usize)?).into_owned();
                let ne = not(&e);
                let cur = expr::eval(&e, &st.model) & 1 == 1;
                if !cur {
                    let m = st.model.clone();
                    self.report(st, "check", &msg, &m);
                    match self.feasible(st, &e)? { Some(m) => { st.model = m; st.add(&e); } None => return Err(Stop::Infeasible) }
                } else {
                    if let Some(m) = self.feasible(st, &ne)? { self.report(st, "check", &msg, &m); }
                    st.add(&e);
                }
                return Ok(None);
            }
            Ext::SymReach => {
                let (p, n) = (c!(0), c!(1));
                let name = String::from_utf8_lossy(&self.read_bytes(st, p, n as usize)?).into_owned();
                let id = intern(&self.sh.reach, &name);
                if id < 127 { st.reach |= 1 << id; }
                return Ok(None);
            }
            Ext::SymObserve => { let v = arg(st, 0); st.obs.push(v); return Ok(None); }
            Ext::SymConc => V::C(c!(0)),
            Ext::SymNote => {
                if std::env::var("SYM_NOTE").is_ok() {
                    let (p, n) = (c!(0), c!(1));
                    let name = String::from_utf8_lossy(&self.read_bytes(st, p, n as usize)?).into_owned();
                    let v = arg(st, 2);
                    eprintln!("note {} {:?} model {:?}", name, v, self.model_inputs(st, &st.model));
                }
                return Ok(None);
            }
            Ext::Ovf(b, s) => {
                let (x, y) = (arg(st, 0), arg(st, 1));
                let r = bin_v(b, &x, &y, w);
                let o = overflow(b, s, &x, &y, &r, w);
                V::A(Box::new([r, o]))
            }
            Ext::Sat(b, s) => {
                let (x, y) = (arg(st, 0), arg(st, 1));
                let r = bin_v(b, &x, &y, w);
                let o = overflow(b, s, &x, &y, &r, w);
                let lim = if !s { if b == B::Add { V::wide(mask(w), w) } else { V::wide(0, w) } } else {
                    let min = V::wide(1u128 << (w - 1), w);
                    let max = V::wide(mask(w - 1), w);
                    let neg = cmp_v(Pred::Slt, &x, &V::wide(0, w), w);
                    ite_v(&neg.e(1), &min, &max, w)
                };
                ite_v(&o.e(1), &lim, &r, w)
            }
            Ext::MinMax(p) => {
                let f = |x: &V, y: &V, w: u32| -> V { let c = cmp_v(p, x, y, w); match c { V::C(1) => x.clone(), V::C(_) => y.clone(), c => ite_v(&c.e(1), x, y, w) } };
                match (arg(st, 0), arg(st, 1)) {
                    (V::A(x), V::A(y)) => { let lw = self.vec_lane(id); V::A(x.iter().zip(y.iter()).map(|(a, b)| f(a, b, lw)).collect()) }
                    (x, y) => f(&x, &y, w),
                }
            }
            Ext::Abs => { let x = arg(st, 0); let n = bin_v(B::Sub, &V::wide(0, w), &x, w); let c = cmp_v(Pred::Slt, &x, &V::wide(0, w), w); ite_v(&c.e(1), &n, &x, w) }
            Ext::Ctpop | Ext::Ctlz | Ext::Cttz => {
                let x = arg(st, 0);
                if let V::A(_) = x { return Err(Stop::Error("vector ctpop".into())); }
                let e = x.e(w);
                match as_const(&e) {
                    Some(c) => V::wide(match ext { Ext::Ctpop => c.count_ones() as u128, Ext::Ctlz => (c.leading_zeros() - (128 - w)) as u128, _ => c.trailing_zeros().min(w) as u128 }, w),
                    None => {
                        let mut r = if ext == Ext::Ctpop { konst(0, w) } else { konst(w as u128, w) };
                        for i in 0..w {
                            let i = if ext == Ext::Cttz { w - 1 - i } else { i };
                            let b = expr::extract(&e, i, 1);
                            r = match ext {
                                Ext::Ctpop => bin(B::Add, &r, &expr::zext(&b, w)),
                                Ext::Ctlz => expr::ite(&b, &konst((w - 1 - i) as u128, w), &r),
                                _ => expr::ite(&b, &konst(i as u128, w), &r),
                            };
                        }
                        V::of(r)
                    }
                }
            }
            Ext::Bswap => {
                let e = arg(st, 0).e(w);
                let mut r = expr::extract(&e, 0, 8);
                for i in 1..w / 8 { r = expr::concat(&r, &expr::extract(&e, i * 8, 8)); }
                V::of(r)
            }
            Ext::Bitrev => {
                let e = arg(st, 0).e(w);
                let mut r = expr::extract(&e, 0, 1);
                for i in 1..w { r = expr::concat(&r, &expr::extract(&e, i, 1)); }
                V::of(r)
            }
            Ext::Fsh(left) => {
                let (a, b) = (arg(st, 0).e(w), arg(st, 1).e(w));
                let k = (c!(2) % w as u64) as u32;
                if w > 64 { return Err(Stop::Error("wide funnel shift".into())); }
                let cc = expr::concat(&a, &b);
                V::of(if left { expr::extract(&cc, w - k, w) } else { expr::extract(&cc, k, w) })
            }
            Ext::Cmp3(s) => {
                let (x, y) = (arg(st, 0), arg(st, 1));
                let lt = cmp_v(if s { Pred::Slt } else { Pred::Ult }, &x, &y, w);
                let eq = cmp_v(Pred::Eq, &x, &y, w);
                let r = ite_v(&eq.e(1), &V::wide(0, rw), &V::wide(1, rw), rw);
                ite_v(&lt.e(1), &V::wide(mask(rw), rw), &r, rw)
            }
            Ext::ReduceOr | Ext::ReduceAnd | Ext::ReduceAdd => {
                let V::A(x) = arg(st, 0) else { return Err(Stop::Error("reduce".into())) };
                let b = match ext { Ext::ReduceOr => B::Or, Ext::ReduceAnd => B::And, _ => B::Add };
                let mut r = x[0].clone();
                for y in &x[1..] { r = bin_v(b, &r, y, rw); }
                r
            }
            Ext::LoadRel => {
                let p = c!(0);
                let o = c!(1);
                let (s, off) = self.locate(st, p.wrapping_add(o), 4)?;
                let v = self.obj(st, s).read_int(off, 4);
                let v = self.conc(st, &v, 32)? as u32 as i32;
                V::C(p.wrapping_add(v as i64 as u64))
            }
            Ext::PtrMask => { let (a, b) = (arg(st, 0), arg(st, 1)); bin_v(B::And, &a, &b, 64) }
        }))
    }
    fn vec_lane(&self, id: u32) -> u32 {
        // ...v16i8 suffix
        let n = &self.sh.prog.m.fns[id as usize].name;
        n.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(8)
    }
}

fn intern(t: &Mutex<(Vec<String>, HashMap<String, u32>)>, s: &str) -> u32 {
    let mut g = t.lock().unwrap();
    if let Some(i) = g.1.get(s) { return *i; }
    let i = g.0.len() as u32;
    g.0.push(s.to_string());
    g.1.insert(s.to_string(), i);
    i
}

fn bool1(v: &V, w: u32) -> E {
    let e = v.e(w.max(1));
    if e.w == 1 { e } else { not(&bin(B::Eq, &e, &konst(0, e.w))) }
}

fn overflow(b: B, s: bool, x: &V, y: &V, r: &V, w: u32) -> V {
    match (b, s) {
        (B::Add, false) => cmp_v(Pred::Ult, r, x, w),
        (B::Sub, false) => cmp_v(Pred::Ult, x, y, w),
        (B::Mul, false) => {
            if let (V::C(a), V::C(c)) = (x, y) { return V::C(((*a as u128) * (*c as u128) > mask(w)) as u64); }
            let w2 = (w * 2).min(128);
            let p = bin(B::Mul, &expr::zext(&x.e(w), w2), &expr::zext(&y.e(w), w2));
            V::of(bin(B::Ult, &konst(mask(w), w2), &p))
        }
        _ => {
            let w2 = (w * 2).min(128);
            let (p, q) = (expr::sext(&x.e(w), w2), expr::sext(&y.e(w), w2));
            let f = bin(b, &p, &q);
            V::of(not(&bin(B::Eq, &f, &expr::sext(&r.e(w), w2))))
        }
    }
}

fn vcast(k: Cast, ft: &Ty, tt: &Ty, x: &V) -> Res<V> {
    let err = || Stop::Error(format!("cast {:?} {:?}", ft, tt));
    match (ft, tt) {
        (Ty::Vector(n, a), Ty::Vector(m, b)) if n == m && k != Cast::Bitcast => {
            let V::A(x) = x else { return Err(err()) };
            Ok(V::A(x.iter().map(|v| cast_v(k, v, a.bits(), b.bits())).collect()))
        }
        (_, _) if k == Cast::Bitcast => {
            let flat = match (ft, x) {
                (Ty::Vector(_, a), V::A(xs)) => { let mut r = xs[0].e(a.bits()); for v in &xs[1..] { r = expr::concat(&v.e(a.bits()), &r); } r }
                (t, v) if t.is_scalar() => v.e(t.bits()),
                _ => return Err(err()),
            };
            match tt {
                Ty::Vector(n, b) => { let w = b.bits(); Ok(V::A((0..*n).map(|i| V::of(expr::extract(&flat, i * w, w))).collect())) }
                t if t.is_scalar() => Ok(V::of(flat)),
                _ => Err(err()),
            }
        }
        _ => Err(err()),
    }
}
