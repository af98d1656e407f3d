//! Parser for textual LLVM IR (the subset rustc emits) into a flat, pre-decoded instruction form.
use crate::expr::{self, E};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Array(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vector(u32, Box<Ty>),
    Other,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vector(..) => self.size().next_power_of_two().min(16),
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0;
                for t in f {
                    if !p { let a = t.align(); o = (o + a - 1) / a * a; }
                    o += t.size();
                }
                if !p { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            Ty::Vector(n, t) => match **t {
                Ty::Int(w) => (*n as u64 * w as u64 + 7) / 8,
                _ => *n as u64 * t.size(),
            },
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Array(_, t) | Ty::Vector(_, t) => t,
            _ => panic!("elem of scalar type {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
}

/// Runtime value. Concrete scalars of at most 64 bits are `C`; anything wider or symbolic is `S`.
#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(E),
    A(Box<[V]>),
}
impl V {
    pub fn wide(c: u128, w: u32) -> V {
        if w <= 64 { V::C((c & expr::mask(w)) as u64) } else { V::S(expr::konst(c, w)) }
    }
    pub fn of(e: E) -> V {
        if e.w <= 64 { if let Some(c) = expr::as_const(&e) { return V::C(c as u64); } }
        V::S(e)
    }
    pub fn e(&self, w: u32) -> E {
        match self {
            V::C(c) => expr::konst(*c as u128, w),
            V::S(e) => e.clone(),
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum O { R(u32), C(u64), K(V) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Same, Bitcast }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Max, Min, Umax, Umin }

#[derive(Debug)]
pub struct Edge { pub block: u32, pub pc: u32, pub moves: Box<[(u32, O)]> }

#[derive(Debug)]
pub enum Callee { Fn(u32), Ind(O), Asm }

#[derive(Debug)]
pub enum I {
    Bin(expr::B, u32, u32, O, O),               // op,w,dst
    VBin(expr::B, u32, u32, u32, O, O),         // op,lanes,w,dst
    Cmp(Pred, u32, u32, O, O),
    VCmp(Pred, u32, u32, O, O),
    Cast(Cast, u32, u32, u32, O),               // from,to,dst
    VCast(Cast, Ty, Ty, u32, O),
    Select(bool, u32, u32, O, O, O),            // is_ptr,w,dst
    Load(Ty, u32, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Box<[(O, i64, u32)]>),
    Alloca(u32, u64),                           // dst, frame offset
    DynAlloca(u32, u64, O),
    Br(Edge),
    CondBr(O, Edge, Edge),
    Switch(u32, O, Edge, Box<[(u64, u32)]>, Box<[Edge]>), // w, val, default, (case, edge idx), edges
    Ret(Option<O>),
    Call(u32, Callee, Box<[(O, u32)]>, u32, Option<Edge>), // dst(NONE if void), callee, args(with width), ret width, normal edge
    Extract(u32, O, Box<[u32]>),
    Insert(u32, O, O, Box<[u32]>),
    VExtract(u32, O, O),
    VInsert(u32, O, O, O),
    Shuffle(u32, O, O, Box<[u32]>),
    AtomicRmw(Rmw, u32, u32, O, O),             // w,dst,ptr,val
    CmpXchg(u32, u32, O, O, O),                 // w,dst
    Copy(u32, O),
    Nop,
    Unreachable,
    Unsupported(String),
}
pub const NONE: u32 = u32::MAX;

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub id: u32,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub frame: u64,
    pub code: Vec<I>,
    pub insts: usize,
}

pub struct FnDecl {
    pub name: String,
    pub src: Option<(usize, usize)>, // line range
    pub func: OnceLock<&'static Func>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Vec<u8>,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub sym_addr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
}

pub const SLOT_BITS: u32 = 20;
pub const SLOT: u64 = 1 << SLOT_BITS;
pub const FN_BASE: u64 = 0x7000_0000_0000;

pub struct P<'a> { pub s: &'a [u8], pub p: usize, m: Option<&'a Module> }

impl<'a> P<'a> {
    pub fn new(s: &'a str, m: Option<&'a Module>) -> Self { P { s: s.as_bytes(), p: 0, m } }
    fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') { self.p += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.p += 1; true } else { false } }
    fn expect(&mut self, c: u8) {
        if !self.eat(c) { panic!("expected '{}' at ...{}", c as char, self.rest()); }
    }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..(self.p + 160).min(self.s.len())]).into_owned() }
    fn is_w(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    /// A bare word (identifier / keyword / number).
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && Self::is_w(self.s[self.p]) { self.p += 1; }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let p = self.p; let w = self.word(); let w2 = w; self.p = p; w2 }
    fn eat_word(&mut self, w: &str) -> bool { let p = self.p; if self.word() == w { true } else { self.p = p; false } }
    fn parens(&mut self) {
        // skip balanced parentheses, at '('
        self.ws();
        let mut d = 0;
        while self.p < self.s.len() {
            match self.s[self.p] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.p += 1; return; } }
                b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } }
                _ => {}
            }
            self.p += 1;
        }
    }
    /// Name after % or @ (sigil already consumed).
    fn name(&mut self) -> String {
        if self.p < self.s.len() && self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && Self::is_w(self.s[self.p]) { self.p += 1; }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn num(&mut self) -> i128 {
        let w = self.word();
        w.parse::<i128>().unwrap_or_else(|_| panic!("number expected: {} {}", w, self.rest()))
    }

    fn at_type(&mut self) -> bool {
        match self.peek() {
            b'[' | b'{' | b'<' | b'%' => true,
            c if c.is_ascii_alphabetic() => {
                let w = self.peek_word();
                if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "metadata" || w == "label" || w == "token" || w == "half" || w == "x86_fp80" || w == "fp128" { return true; }
                w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|c| c.is_ascii_digit())
            }
            _ => false,
        }
    }

    pub fn ty(&mut self) -> Ty {
        let t = match self.peek() {
            b'[' => {
                self.p += 1;
                let n = self.num() as u64;
                assert!(self.eat_word("x"));
                let t = self.ty();
                self.expect(b']');
                Ty::Array(n, Box::new(t))
            }
            b'<' => {
                self.p += 1;
                if self.peek() == b'{' {
                    let t = self.struct_body(true);
                    self.expect(b'>');
                    t
                } else {
                    let n = self.num() as u32;
                    assert!(self.eat_word("x"));
                    let t = self.ty();
                    self.expect(b'>');
                    Ty::Vector(n, Box::new(t))
                }
            }
            b'{' => self.struct_body(false),
            b'%' => {
                self.p += 1;
                let n = self.name();
                self.m.and_then(|m| m.types.get(&n).cloned()).unwrap_or(Ty::Other)
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => { if self.peek_word() == "addrspace" { self.word(); self.parens(); } Ty::Ptr }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" => Ty::Other,
                    _ if w.starts_with('i') && w.len() > 1 => match w[1..].parse() { Ok(n) => Ty::Int(n), Err(_) => panic!("type? {} {}", w, self.rest()) },
                    _ => panic!("type? '{}' {}", w, self.rest()),
                }
            }
        };
        t
    }
    fn struct_body(&mut self, packed: bool) -> Ty {
        self.expect(b'{');
        let mut f = vec![];
        if !self.eat(b'}') {
            loop {
                f.push(self.ty());
                if self.eat(b'}') { break; }
                self.expect(b',');
            }
        }
        Ty::Struct(f, packed)
    }

    /// Skip parameter / return attributes up to an operand or type.
    fn attrs(&mut self, stop_at_type: bool) {
        loop {
            let c = self.peek();
            if c == b'"' {
                // string attribute "k"="v"
                self.p += 1;
                while self.s[self.p] != b'"' { self.p += 1; }
                self.p += 1;
                if self.p < self.s.len() && self.s[self.p] == b'=' {
                    self.p += 2;
                    while self.s[self.p] != b'"' { self.p += 1; }
                    self.p += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() { return; }
            if stop_at_type && self.at_type() { return; }
            let w = self.peek_word();
            match w {
                "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "inttoptr" | "ptrtoint"
                | "getelementptr" | "add" | "sub" | "bitcast" | "trunc" | "xor" | "splat" | "c" | "asm" | "blockaddress" | "mul" | "ptrtoaddr" => return,
                "align" => {
                    self.word();
                    if self.peek() == b'(' { self.parens(); } else { self.word(); }
                }
                _ => {
                    self.word();
                    if self.p < self.s.len() && self.s[self.p] == b'(' { self.parens(); }
                }
            }
        }
    }

    /// Constant of type `t` (no register allowed).
    pub fn constant(&mut self, t: &Ty) -> V {
        let c = self.peek();
        match c {
            b'@' => {
                self.p += 1;
                let n = self.name();
                let m = self.m.unwrap();
                match m.sym_addr.get(&n) { Some(a) => V::C(*a), None => panic!("unknown symbol @{}", n) }
            }
            b'[' | b'{' | b'<' => {
                let close = match c { b'[' => b']', b'{' => b'}', _ => b'>' };
                self.p += 1;
                let mut inner = 0;
                if c == b'<' && self.peek() == b'{' { self.p += 1; inner = 1; }
                let mut v = vec![];
                let end = if inner == 1 { b'}' } else { close };
                if !self.eat(end) {
                    loop {
                        let et = self.ty();
                        v.push(self.constant(&et));
                        if self.eat(end) { break; }
                        self.expect(b',');
                    }
                }
                if inner == 1 { self.expect(b'>'); }
                V::A(v.into())
            }
            b'c' if self.s.get(self.p + 1) == Some(&b'"') => {
                self.p += 2;
                let mut v = vec![];
                while self.s[self.p] != b'"' {
                    if self.s[self.p] == b'\\' && self.s[self.p + 1] == b'\\' {
                        v.push(V::C(b'\\' as u64));
                        self.p += 2;
                    } else if self.s[self.p] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                        v.push(V::C(u8::from_str_radix(h, 16).unwrap() as u64));
                        self.p += 3;
                    } else {
                        v.push(V::C(self.s[self.p] as u64));
                        self.p += 1;
                    }
                }
                self.p += 1;
                V::A(v.into())
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => V::C(1),
                    "false" | "null" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" | "none" => zero(t),
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.constant(&et);
                        self.expect(b')');
                        if let Ty::Vector(n, _) = t { V::A(vec![v; *n as usize].into()) } else { v }
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.constant(&et);
                        assert!(self.eat_word("to"));
                        let tt = self.ty();
                        self.expect(b')');
                        match v { V::C(x) => V::wide(x as u128, tt.bits()), o => o }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect(b'(');
                        let et = self.ty();
                        let a = self.constant(&et);
                        self.expect(b',');
                        let et = self.ty();
                        let b = self.constant(&et);
                        self.expect(b')');
                        let (V::C(a), V::C(b)) = (a, b) else { panic!("constexpr") };
                        let r = match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b };
                        V::wide(r as u128, et.bits())
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { self.word(); if self.peek() == b'(' && self.prev_is("inrange") { self.parens(); } }
                        self.expect(b'(');
                        let t = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let V::C(base) = self.constant(&pt) else { panic!() };
                        let mut a = base;
                        let mut cur = t.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            self.eat_word("inrange");
                            let it = self.ty();
                            let V::C(ix) = self.constant(&it) else { panic!() };
                            let ix = expr::sx(ix as u128, it.bits()) as i64;
                            if first { a = a.wrapping_add((ix as u64).wrapping_mul(cur.size())); first = false; }
                            else { a = a.wrapping_add(cur.field_off(ix as usize)); cur = cur.elem(ix as usize).clone(); }
                        }
                        self.expect(b')');
                        V::C(a)
                    }
                    _ => {
                        if let Ok(n) = w.parse::<i128>() { V::wide(n as u128, t.bits()) }
                        else if let Ok(n) = w.parse::<u128>() { V::wide(n, t.bits()) }
                        else if w.starts_with("0x") || w.contains('.') || w.contains('e') {
                            // floating-point literal
                            let f = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap_or(0) } else { w.parse::<f64>().unwrap_or(0.0).to_bits() };
                            if *t == Ty::F32 { V::C((f64::from_bits(f) as f32).to_bits() as u64) } else { V::C(f) }
                        }
                        else { panic!("constant? '{}' {}", w, self.rest()) }
                    }
                }
            }
        }
    }
    fn prev_is(&self, w: &str) -> bool { self.s[..self.p].ends_with(w.as_bytes()) }
}

pub fn zero(t: &Ty) -> V {
    match t {
        Ty::Array(n, e) => V::A(vec![zero(e); *n as usize].into()),
        Ty::Vector(n, e) => V::A(vec![zero(e); *n as usize].into()),
        Ty::Struct(f, _) => V::A(f.iter().map(zero).collect()),
        t => V::wide(0, t.bits()),
    }
}

fn write_const(buf: &mut [u8], off: u64, t: &Ty, v: &V) {
    match (t, v) {
        (Ty::Vector(..), V::A(xs)) | (Ty::Array(..), V::A(xs)) | (Ty::Struct(..), V::A(xs)) => {
            for (i, x) in xs.iter().enumerate() { write_const(buf, off + t.field_off(i), t.elem(i), x); }
        }
        (_, V::C(c)) => {
            let n = ((t.bits() + 7) / 8) as usize;
            buf[off as usize..off as usize + n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        (_, V::S(e)) => {
            let c = expr::as_const(e).unwrap();
            let n = ((t.bits() + 7) / 8) as usize;
            buf[off as usize..off as usize + n].copy_from_slice(&c.to_le_bytes()[..n]);
        }
        _ => panic!("write_const {:?} {:?}", t, v),
    }
}

pub fn load_module(text: &'static str) -> Module {
    let lines: Vec<&'static str> = text.lines().collect();
    let mut m = Module { lines, fns: vec![], fn_by_name: HashMap::new(), globals: vec![], sym_addr: HashMap::new(), types: HashMap::new() };
    let mut gl: Vec<usize> = vec![];
    let mut i = 0;
    // pass 1: symbols
    while i < m.lines.len() {
        let l = m.lines[i];
        let b = l.as_bytes();
        if b.is_empty() { i += 1; continue; }
        match b[0] {
            b'@' => { gl.push(i); }
            b'%' => {
                if let Some(k) = l.find(" = type ") {
                    let n = l[1..k].trim_matches('"').to_string();
                    let rest = &l[k + 8..];
                    if !rest.starts_with("opaque") {
                        let t = P::new(rest, Some(&m)).ty();
                        m.types.insert(n, t);
                    }
                }
            }
            b'd' if l.starts_with("define ") || l.starts_with("declare ") => {
                let at = fn_at(l);
                let mut p = P::new(l, None);
                p.p = at + 1;
                let name = p.name();
                let id = m.fns.len() as u32;
                let mut src = None;
                if l.starts_with("define ") {
                    let st = i;
                    while m.lines[i] != "}" { i += 1; }
                    src = Some((st, i));
                }
                m.sym_addr.insert(name.clone(), FN_BASE + id as u64 * 16);
                m.fn_by_name.insert(name.clone(), id);
                m.fns.push(FnDecl { name, src, func: OnceLock::new() });
            }
            _ => {}
        }
        i += 1;
    }
    // pass 2: global addresses
    let mut slot: u64 = 16;
    struct G { line: usize, init_pos: usize, ty: Ty, ext: bool, constant: bool }
    let mut pend = vec![];
    let mut aliases = vec![];
    for li in gl {
        let l = m.lines[li];
        let mut p = P::new(l, Some(&m));
        p.p = 1;
        let name = p.name();
        p.expect(b'=');
        let (mut ext, mut constant, mut alias) = (false, false, false);
        loop {
            let w = p.word();
            match w {
                "external" | "extern_weak" => ext = true,
                "global" => break,
                "constant" => { constant = true; break; }
                "alias" => { alias = true; break; }
                "ifunc" => panic!("ifunc"),
                "" => { panic!("global? {}", l) }
                _ => { if p.p < p.s.len() && p.s[p.p] == b'(' { p.parens(); } }
            }
        }
        if alias {
            let _ = p.ty();
            if p.peek() == b'(' { p.parens(); } // (a function's)
            p.expect(b',');
            aliases.push((name, li, p.p));
            continue;
        }
        let ty = p.ty();
        let size = ty.size();
        let addr = slot << SLOT_BITS;
        let init_pos = p.p;
        if !ext { slot += (size + 64 + SLOT - 1) >> SLOT_BITS; if size + 64 < SLOT { /* one slot */ } }
        m.sym_addr.insert(name.clone(), if ext { 0 } else { addr });
        pend.push(G { line: li, init_pos, ty, ext, constant });
        m.globals.push(Global { name, addr: if ext { 0 } else { addr }, size, constant, init: vec![] });
    }
    for (name, li, pos) in aliases {
        let l = m.lines[li];
        let mut p = P::new(l, Some(&m));
        p.p = pos;
        let t = p.ty();
        let v = p.constant(&t);
        drop(p);
        if let V::C(a) = v {
            m.sym_addr.insert(name.clone(), a);
            if a >= FN_BASE { m.fn_by_name.insert(name, ((a - FN_BASE) / 16) as u32); }
        }
    }
    // pass 3: initialisers
    let mut inits = vec![];
    for g in pend.iter() {
        let mut buf = vec![0u8; g.ty.size() as usize];
        if !g.ext {
            let l = m.lines[g.line];
            let mut p = P::new(l, Some(&m));
            p.p = g.init_pos;
            let v = p.constant(&g.ty);
            write_const(&mut buf, 0, &g.ty, &v);
        }
        inits.push((buf, g.constant));
    }
    for (g, (b, c)) in m.globals.iter_mut().zip(inits) { g.init = b; g.constant = c; }
    m
}

fn fn_at(l: &str) -> usize {
    // position of '@' of the function name (skip quoted strings)
    let b = l.as_bytes();
    let mut i = 0;
    let mut q = false;
    while i < b.len() {
        match b[i] {
            b'"' => q = !q,
            b'@' if !q => return i,
            _ => {}
        }
        i += 1;
    }
    panic!("no name: {}", l)
}

impl Module {
    pub fn func(&'static self, id: u32) -> Option<&'static Func> {
        let d = &self.fns[id as usize];
        let (a, b) = d.src?;
        Some(d.func.get_or_init(|| Box::leak(Box::new(self.parse_fn(id, a, b)))))
    }

    fn parse_fn(&'static self, id: u32, st: usize, en: usize) -> Func {
        // join continuation lines
        let mut lines: Vec<String> = vec![];
        let mut in_switch = false;
        for l in &self.lines[st + 1..en] {
            let t = l.trim_start();
            if t.is_empty() || t.starts_with(';') || t.starts_with("#dbg") { continue; }
            if in_switch {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if t.starts_with(']') { in_switch = false; }
                continue;
            }
            let indent = l.len() - t.len();
            if indent > 2 {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            if t.starts_with("switch ") && !t.contains(']') { in_switch = true; }
            lines.push(l.to_string());
        }
        let head = self.lines[st];
        let mut fb = FB { m: self, regs: HashMap::new(), nregs: 0, frame: 0 };
        let mut params = vec![];
        let mut nparams = 0usize;
        {
            let mut p = P::new(head, Some(self));
            p.p = fn_at(head) + 1;
            let _ = p.name();
            p.expect(b'(');
            let mut n = 0;
            while !p.eat(b')') {
                if p.peek() == b'.' { p.p += 3; continue; }
                let _t = p.ty();
                p.attrs(false);
                if p.eat(b'%') {
                    let nm = p.name();
                    if nm.bytes().all(|c| c.is_ascii_digit()) { nparams += 1; }
                    params.push(fb.reg(&nm));
                } else {
                    nparams += 1;
                    params.push(fb.reg(&n.to_string()));
                }
                n += 1;
                p.eat(b',');
            }
        }
        // blocks
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        for l in lines {
            if !l.starts_with(' ') {
                let e = label_end(&l);
                blocks.push((l[..e].trim_matches('"').to_string(), vec![]));
            } else {
                if blocks.is_empty() { blocks.push((nparams.to_string(), vec![])); }
                blocks.last_mut().unwrap().1.push(l);
            }
        }
        let bidx: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, (n, _))| (n.clone(), i as u32)).collect();
        // phis: block -> Vec<(dst, ty, Vec<(operand, pred)>)>
        let mut phis: Vec<Vec<(u32, Vec<(O, u32)>)>> = vec![];
        for (_, ls) in &blocks {
            let mut v = vec![];
            for l in ls {
                let mut p = P::new(l, Some(self));
                if p.eat(b'%') {
                    let n = p.name();
                    p.expect(b'=');
                    if p.eat_word("phi") {
                        while !p.at_type() { p.word(); }
                        let t = p.ty();
                        let mut inc = vec![];
                        loop {
                            p.expect(b'[');
                            let o = fb.operand(&mut p, &t);
                            p.expect(b',');
                            p.expect(b'%');
                            let b = p.name();
                            p.expect(b']');
                            if let Some(bi) = bidx.get(&b) { inc.push((o, *bi)); } else { panic!("phi pred {} in {}", b, head) }
                            if !p.eat(b',') { break; }
                            if p.peek() == b'!' { break; }
                        }
                        v.push((fb.reg(&n), inc));
                        continue;
                    }
                }
                break;
            }
            phis.push(v);
        }
        let mut code: Vec<I> = vec![];
        let mut starts = vec![0u32; blocks.len()];
        let mut insts = 0;
        for (bi, (_, ls)) in blocks.iter().enumerate() {
            starts[bi] = code.len() as u32;
            for l in ls.iter().skip(phis[bi].len()) {
                let edge = |name: &str| -> Edge {
                    let t = *bidx.get(name).unwrap_or_else(|| panic!("label {}", name));
                    let mv: Vec<(u32, O)> = phis[t as usize].iter().map(|(d, inc)| {
                        let o = inc.iter().find(|(_, b)| *b == bi as u32).map(|(o, _)| o.clone())
                            .unwrap_or_else(|| panic!("phi edge missing {} in {}", name, head));
                        (*d, o)
                    }).collect();
                    Edge { block: t, pc: 0, moves: mv.into() }
                };
                let mut p = P::new(l, Some(self));
                let ins = fb.inst(&mut p, &edge);
                insts += 1;
                if !matches!(ins, I::Nop) { code.push(ins); }
            }
        }
        for ins in code.iter_mut() {
            let fix = |e: &mut Edge| e.pc = starts[e.block as usize];
            match ins {
                I::Br(e) => fix(e),
                I::CondBr(_, a, b) => { fix(a); fix(b); }
                I::Switch(_, _, d, _, es) => { fix(d); for e in es.iter_mut() { fix(e); } }
                I::Call(_, _, _, _, Some(e)) => fix(e),
                _ => {}
            }
        }
        Func { name: self.fns[id as usize].name.clone(), id, params, nregs: fb.nregs, frame: (fb.frame + 15) / 16 * 16, code, insts }
    }
}

fn label_end(l: &str) -> usize {
    let b = l.as_bytes();
    if b[0] == b'"' { 1 + l[1..].find('"').unwrap() + 1 } else { l.find(':').unwrap() }
}

struct FB<'a> { m: &'a Module, regs: HashMap<String, u32>, nregs: u32, frame: u64 }

impl<'a> FB<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) { return *r; }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn operand(&mut self, p: &mut P, t: &Ty) -> O {
        if p.peek() == b'%' {
            p.p += 1;
            let n = p.name();
            return O::R(self.reg(&n));
        }
        match p.constant(t) { V::C(c) => O::C(c), v => O::K(v) }
    }
    fn tyop(&mut self, p: &mut P) -> (Ty, O) {
        let t = p.ty();
        p.attrs(false);
        let o = self.operand(p, &t);
        (t, o)
    }
    fn label(&mut self, p: &mut P) -> String {
        let w = p.word();
        assert_eq!(w, "label", "{}", p.rest());
        p.expect(b'%');
        p.name()
    }

    fn inst(&mut self, p: &mut P, edge: &dyn Fn(&str) -> Edge) -> I {
        use expr::B;
        let mut dst = NONE;
        if p.peek() == b'%' {
            p.p += 1;
            let n = p.name();
            dst = self.reg(&n);
            p.expect(b'=');
        }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
        let bop = match op {
            "add" => Some(B::Add), "sub" => Some(B::Sub), "mul" => Some(B::Mul), "udiv" => Some(B::UDiv), "sdiv" => Some(B::SDiv),
            "urem" => Some(B::URem), "srem" => Some(B::SRem), "and" => Some(B::And), "or" => Some(B::Or), "xor" => Some(B::Xor),
            "shl" => Some(B::Shl), "lshr" => Some(B::LShr), "ashr" => Some(B::AShr), _ => None,
        };
        if let Some(b) = bop {
            while !p.at_type() { p.word(); }
            let t = p.ty();
            let x = self.operand(p, &t);
            p.expect(b',');
            let y = self.operand(p, &t);
            return match &t {
                Ty::Vector(n, e) => I::VBin(b, *n, e.bits(), dst, x, y),
                t => I::Bin(b, t.bits(), dst, x, y),
            };
        }
        match op {
            "icmp" => {
                let mut w = p.word();
                if w == "samesign" { w = p.word(); }
                let pr = match w {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, w => panic!("pred {}", w),
                };
                let t = p.ty();
                let x = self.operand(p, &t);
                p.expect(b',');
                let y = self.operand(p, &t);
                match &t { Ty::Vector(_, e) => I::VCmp(pr, e.bits(), dst, x, y), t => I::Cmp(pr, t.bits(), dst, x, y) }
            }
            "trunc" | "zext" | "sext" | "bitcast" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "addrspacecast" => {
                while !p.at_type() { p.word(); }
                let (ft, x) = self.tyop(p);
                assert!(p.eat_word("to"), "{}", p.rest());
                let tt = p.ty();
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "bitcast" => Cast::Bitcast, _ => Cast::Same };
                if ft.is_scalar() && tt.is_scalar() {
                    let (fw, tw) = (ft.bits(), tt.bits());
                    let k = match k { Cast::Same | Cast::Bitcast => if fw > tw { Cast::Trunc } else if fw < tw { Cast::ZExt } else { Cast::Same }, k => k };
                    I::Cast(k, fw, tw, dst, x)
                } else { I::VCast(k, ft, tt, dst, x) }
            }
            "select" => {
                while !p.at_type() { p.word(); }
                let (ct, c) = self.tyop(p);
                p.expect(b',');
                let (t, x) = self.tyop(p);
                p.expect(b',');
                let (_, y) = self.tyop(p);
                if ct != Ty::Int(1) { return I::Unsupported("vector select".into()); }
                I::Select(t == Ty::Ptr || !t.is_scalar(), t.bits(), dst, c, x, y)
            }
            "load" => {
                while !p.at_type() { p.word(); }
                let t = p.ty();
                p.expect(b',');
                let (_, a) = self.tyop(p);
                I::Load(t, dst, a)
            }
            "store" => {
                while !p.at_type() { p.word(); }
                let (t, v) = self.tyop(p);
                p.expect(b',');
                let (_, a) = self.tyop(p);
                I::Store(t, v, a)
            }
            "getelementptr" => {
                while !p.at_type() { let w = p.word(); if w == "inrange" { p.parens(); } }
                let t = p.ty();
                p.expect(b',');
                let (_, base) = self.tyop(p);
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(b',') {
                    if p.peek() == b'!' { break; }
                    let (it, o) = self.tyop(p);
                    let w = it.bits();
                    if first {
                        let sc = cur.size() as i64;
                        match o { O::C(c) => off = off.wrapping_add((expr::sx(c as u128, w) as i64).wrapping_mul(sc)), o => idx.push((o, sc, w)) }
                        first = false;
                    } else {
                        match (&cur, &o) {
                            (Ty::Struct(..), O::C(c)) => { off += cur.field_off(*c as usize) as i64; cur = cur.elem(*c as usize).clone(); }
                            (_, O::C(c)) => { let n = cur.elem(0).clone(); off = off.wrapping_add((expr::sx(*c as u128, w) as i64).wrapping_mul(n.size() as i64)); cur = n; }
                            _ => { let n = cur.elem(0).clone(); idx.push((o, n.size() as i64, w)); cur = n; }
                        }
                    }
                }
                I::Gep(dst, base, off, idx.into())
            }
            "alloca" => {
                p.eat_word("inalloca");
                let t = p.ty();
                let mut align = 16;
                let mut cnt = O::C(1);
                while p.eat(b',') {
                    if p.eat_word("align") { align = p.num() as u64; }
                    else if p.at_type() { let (_, o) = self.tyop(p); cnt = o; }
                    else { break; }
                }
                match cnt {
                    O::C(n) => {
                        self.frame = (self.frame + align - 1) / align * align;
                        let o = self.frame;
                        self.frame += t.size() * n;
                        I::Alloca(dst, o)
                    }
                    o => I::DynAlloca(dst, t.size(), o),
                }
            }
            "br" => {
                if p.peek_word() == "label" {
                    let l = self.label(p);
                    return I::Br(edge(&l));
                }
                let (_, c) = self.tyop(p);
                p.expect(b',');
                let a = self.label(p);
                p.expect(b',');
                let b = self.label(p);
                I::CondBr(c, edge(&a), edge(&b))
            }
            "switch" => {
                let (t, v) = self.tyop(p);
                p.expect(b',');
                let d = self.label(p);
                p.expect(b'[');
                let mut cases = vec![];
                let mut names: Vec<String> = vec![];
                while !p.eat(b']') {
                    let ct = p.ty();
                    let V::C(c) = p.constant(&ct) else { return I::Unsupported("wide switch".into()) };
                    p.expect(b',');
                    let l = self.label(p);
                    let k = match names.iter().position(|n| *n == l) { Some(k) => k, None => { names.push(l); names.len() - 1 } };
                    cases.push((c, k as u32));
                }
                I::Switch(t.bits(), v, edge(&d), cases.into(), names.iter().map(|n| edge(n)).collect())
            }
            "ret" => {
                if p.peek_word() == "void" { return I::Ret(None); }
                let (_, o) = self.tyop(p);
                I::Ret(Some(o))
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unsupported("resume".into()),
            "landingpad" => I::Unsupported("landingpad".into()),
            "fence" => I::Nop,
            "freeze" => { let (_, o) = self.tyop(p); I::Copy(dst, o) }
            "extractvalue" => {
                let (_, a) = self.tyop(p);
                let mut ix = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } ix.push(p.num() as u32); }
                I::Extract(dst, a, ix.into())
            }
            "insertvalue" => {
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (_, v) = self.tyop(p);
                let mut ix = vec![];
                while p.eat(b',') { if p.peek() == b'!' { break; } ix.push(p.num() as u32); }
                I::Insert(dst, a, v, ix.into())
            }
            "extractelement" => {
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (_, i) = self.tyop(p);
                I::VExtract(dst, a, i)
            }
            "insertelement" => {
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (_, v) = self.tyop(p);
                p.expect(b',');
                let (_, i) = self.tyop(p);
                I::VInsert(dst, a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (_, b) = self.tyop(p);
                p.expect(b',');
                let mt = p.ty();
                let V::A(mk) = p.constant(&mt) else { panic!() };
                I::Shuffle(dst, a, b, mk.iter().map(|v| if let V::C(c) = v { *c as u32 } else { 0 }).collect())
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let k = match p.word() {
                    "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor,
                    "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::Umax, "umin" => Rmw::Umin, w => return I::Unsupported(format!("atomicrmw {}", w)),
                };
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (t, v) = self.tyop(p);
                I::AtomicRmw(k, t.bits(), dst, a, v)
            }
            "cmpxchg" => {
                while !p.at_type() { p.word(); }
                let (_, a) = self.tyop(p);
                p.expect(b',');
                let (t, c) = self.tyop(p);
                p.expect(b',');
                let (_, n) = self.tyop(p);
                I::CmpXchg(t.bits(), dst, a, c, n)
            }
            "call" | "invoke" => {
                // fast-math flags, cc, ret attrs
                loop {
                    p.attrs(true);
                    if p.at_type() { break; }
                    let w = p.word();
                    if w.is_empty() { panic!("call? {}", p.rest()); }
                }
                let rt = p.ty();
                // optional function type
                if p.peek() == b'(' { p.parens(); }
                let callee = if p.peek_word() == "asm" { Callee::Asm } else if p.peek() == b'%' {
                    p.p += 1;
                    let n = p.name();
                    Callee::Ind(O::R(self.reg(&n)))
                } else if p.peek() == b'@' {
                    p.p += 1;
                    let n = p.name();
                    match self.m.fn_by_name.get(&n) { Some(i) => Callee::Fn(*i), None => panic!("callee @{}", n) }
                } else {
                    match self.operand(p, &Ty::Ptr) { o => Callee::Ind(o) }
                };
                if matches!(callee, Callee::Asm) {
                    let k = if let Ty::Struct(f, _) = &rt { f.len() as u32 } else { 0 };
                    return I::Call(dst, callee, Box::new([]), k, None);
                }
                p.expect(b'(');
                let mut args = vec![];
                while !p.eat(b')') {
                    let t = p.ty();
                    if t == Ty::Other {
                        // metadata operand: skip
                        let mut d = 0;
                        while p.p < p.s.len() {
                            match p.s[p.p] { b'(' => d += 1, b')' => { if d == 0 { break; } d -= 1; } b',' if d == 0 => break, _ => {} }
                            p.p += 1;
                        }
                        p.eat(b',');
                        continue;
                    }
                    p.attrs(false);
                    let o = self.operand(p, &t);
                    args.push((o, t.bits()));
                    p.eat(b',');
                }
                let mut ed = None;
                if op == "invoke" {
                    while p.peek_word() != "to" { if p.peek() == b'#' { p.p += 1; } p.word(); if p.peek() == b'[' { while !p.eat(b']') { p.p += 1; } } }
                    p.word();
                    let l = self.label(p);
                    ed = Some(edge(&l));
                }
                let w = match &rt { Ty::Vector(n, _) => 0x8000_0000 | *n, t => t.bits() };
                I::Call(dst, callee, args.into(), w, ed)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "fcmp" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fneg" | "fpext" | "fptrunc" | "va_arg" | "indirectbr" =>
                I::Unsupported(op.to_string()),
            _ => I::Unsupported(format!("{} {}", op, p.rest())),
        }
    }
}
