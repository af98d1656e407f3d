//! Byte-addressed object memory: concrete bytes plus a sparse overlay of symbolic bytes.
use crate::expr::{self, E};
use crate::ir::{Ty, V};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: BTreeMap<u32, (E, u8)>,
    pub ro: bool,
}

impl Obj {
    pub fn new(n: usize) -> Obj { Obj { data: vec![0; n], sym: BTreeMap::new(), ro: false } }
    pub fn from(data: Vec<u8>, ro: bool) -> Obj { Obj { data, sym: BTreeMap::new(), ro } }

    fn clear(&mut self, off: usize, n: usize) {
        if self.sym.is_empty() { return; }
        if n <= 8 {
            for i in off..off + n { self.sym.remove(&(i as u32)); if self.sym.is_empty() { return; } }
        } else {
            let k: Vec<u32> = self.sym.range(off as u32..(off + n) as u32).map(|(k, _)| *k).collect();
            for k in k { self.sym.remove(&k); }
        }
    }

    /// Read `n` bytes as a little-endian integer of width 8n.
    pub fn read_int(&self, off: usize, n: usize) -> V {
        if !self.sym.is_empty() && self.sym.range(off as u32..(off + n) as u32).next().is_some() {
            return V::of(self.read_sym(off, n));
        }
        if n <= 8 {
            let d = &self.data[off..off + n];
            V::C(match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()),
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u64,
                1 => d[0] as u64,
                _ => { let mut b = [0u8; 8]; b[..n].copy_from_slice(d); u64::from_le_bytes(b) }
            })
        } else {
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[off..off + n]);
            V::wide(u128::from_le_bytes(b), n as u32 * 8)
        }
    }

    pub fn byte(&self, i: usize) -> E {
        match self.sym.get(&(i as u32)) {
            Some((e, k)) => expr::extract(e, *k as u32 * 8, 8),
            None => expr::konst(self.data[i] as u128, 8),
        }
    }

    fn read_sym(&self, off: usize, n: usize) -> E {
        if let Some((e, 0)) = self.sym.get(&(off as u32)) {
            if e.w == n as u32 * 8 {
                let mut ok = true;
                for i in 1..n {
                    match self.sym.get(&((off + i) as u32)) {
                        Some((f, k)) if *k as usize == i && std::sync::Arc::ptr_eq(e, f) => {}
                        _ => { ok = false; break; }
                    }
                }
                if ok { return e.clone(); }
            }
        }
        let mut r = self.byte(off);
        for i in 1..n { r = expr::concat(&self.byte(off + i), &r); }
        r
    }

    pub fn write_int(&mut self, off: usize, n: usize, v: &V) {
        match v {
            V::C(c) => {
                self.clear(off, n);
                let b = c.to_le_bytes();
                if n == 8 { self.data[off..off + 8].copy_from_slice(&b); } else if n == 4 { self.data[off..off + 4].copy_from_slice(&b[..4]); } else if n == 1 { self.data[off] = b[0]; }
                else if n <= 8 { self.data[off..off + n].copy_from_slice(&b[..n]); } else {
                    self.data[off..off + 8].copy_from_slice(&b);
                    for x in &mut self.data[off + 8..off + n] { *x = 0; }
                }
            }
            V::S(e) => {
                if let Some(c) = expr::as_const(e) {
                    self.clear(off, n);
                    self.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]);
                    return;
                }
                let e = if e.w == n as u32 * 8 { e.clone() } else { expr::zext(e, n as u32 * 8) };
                for i in 0..n { self.sym.insert((off + i) as u32, (e.clone(), i as u8)); }
            }
            V::A(_) => panic!("aggregate write_int"),
        }
    }

    pub fn read(&self, off: usize, t: &Ty) -> V {
        match t {
            Ty::Int(w) => {
                let n = (*w as usize + 7) / 8;
                let v = self.read_int(off, n);
                if n as u32 * 8 != *w {
                    match v {
                        V::C(c) => V::C(c & expr::mask(*w) as u64),
                        V::S(e) => V::of(expr::extract(&e, 0, *w)),
                        a => a,
                    }
                } else { v }
            }
            Ty::Ptr | Ty::F64 => self.read_int(off, 8),
            Ty::F32 => self.read_int(off, 4),
            Ty::Array(n, e) => { let s = e.size() as usize; V::A((0..*n as usize).map(|i| self.read(off + i * s, e)).collect()) }
            Ty::Vector(n, e) => { let s = e.size() as usize; V::A((0..*n as usize).map(|i| self.read(off + i * s, e)).collect()) }
            Ty::Struct(f, _) => V::A((0..f.len()).map(|i| self.read(off + t.field_off(i) as usize, &f[i])).collect()),
            _ => panic!("read {:?}", t),
        }
    }

    pub fn write(&mut self, off: usize, t: &Ty, v: &V) {
        match t {
            Ty::Int(w) => self.write_int(off, (*w as usize + 7) / 8, v),
            Ty::Ptr | Ty::F64 => self.write_int(off, 8, v),
            Ty::F32 => self.write_int(off, 4, v),
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => {
                let V::A(xs) = v else { panic!("scalar written as aggregate") };
                for (i, x) in xs.iter().enumerate() { self.write(off + t.field_off(i) as usize, t.elem(i), x); }
            }
            _ => panic!("write {:?}", t),
        }
    }

    /// Copy `n` bytes out (concrete + overlay, offsets relative).
    pub fn slice(&self, off: usize, n: usize) -> (Vec<u8>, Vec<(u32, (E, u8))>) {
        let s = if self.sym.is_empty() { vec![] } else {
            self.sym.range(off as u32..(off + n) as u32).map(|(k, v)| (*k - off as u32, v.clone())).collect()
        };
        (self.data[off..off + n].to_vec(), s)
    }
    pub fn paste(&mut self, off: usize, d: &[u8], s: &[(u32, (E, u8))]) {
        self.clear(off, d.len());
        self.data[off..off + d.len()].copy_from_slice(d);
        for (k, v) in s { self.sym.insert(off as u32 + k, v.clone()); }
    }
    pub fn fill(&mut self, off: usize, n: usize, v: &V) {
        match v {
            V::C(c) => { self.clear(off, n); for x in &mut self.data[off..off + n] { *x = *c as u8; } }
            V::S(e) => for i in off..off + n { self.sym.insert(i as u32, (e.clone(), 0)); },
            _ => panic!(),
        }
    }
}
