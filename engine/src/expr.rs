//! Bit-vector expression DAG with local simplification and concrete evaluation.
//! Width-1 bit-vectors double as booleans.
use std::collections::HashMap;
use std::sync::Arc;

pub type E = Arc<Node>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat,
}

#[derive(Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Not(E),
    Bin(B, E, E),
    Ite(E, E, E),
    Extract(E, u32), // low bit; width from node
    ZExt(E),
    SExt(E),
}

#[derive(Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub h: u128,
    pub vars: u128,
    pub size: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn mix(h: u128, x: u128) -> u128 {
    const K1: u64 = 0x9E3779B97F4A7C15;
    const K2: u64 = 0xD6E8FEB86659FD93;
    let a = (h as u64) ^ (x as u64).wrapping_mul(K1);
    let b = ((h >> 64) as u64) ^ ((x >> 64) as u64).wrapping_mul(K2) ^ (x as u64).rotate_left(29);
    let m1 = (a ^ K2) as u128 * (b.rotate_left(17) ^ K1 | 1) as u128;
    let m2 = (b.wrapping_add(K1)) as u128 * (a.rotate_left(31) | 1) as u128;
    let lo = (m1 as u64) ^ ((m1 >> 64) as u64).rotate_left(23) ^ (m2 as u64).rotate_left(7) ^ a;
    let hi = (m2 as u64).rotate_left(41) ^ ((m2 >> 64) as u64) ^ (m1 as u64).wrapping_mul(K2) ^ b.wrapping_mul(K1);
    ((hi as u128) << 64) | lo as u128
}

fn node(op: Op, w: u32) -> E {
    let (h, vars, size) = match &op {
        Op::Const(c) => (mix(mix(1, w as u128), *c), 0, 1),
        Op::Var(i) => (mix(mix(2, w as u128), *i as u128), 1u128 << (*i).min(127), 1),
        Op::Not(a) => (mix(mix(3, w as u128), a.h), a.vars, a.size.saturating_add(1)),
        Op::Bin(b, x, y) => (
            mix(mix(mix(4, (w as u128) << 8 | *b as u128), x.h), y.h),
            x.vars | y.vars,
            x.size.saturating_add(y.size).saturating_add(1),
        ),
        Op::Ite(c, x, y) => (
            mix(mix(mix(mix(5, w as u128), c.h), x.h), y.h),
            c.vars | x.vars | y.vars,
            c.size.saturating_add(x.size).saturating_add(y.size).saturating_add(1),
        ),
        Op::Extract(a, lo) => (mix(mix(6, (w as u128) << 16 | *lo as u128), a.h), a.vars, a.size.saturating_add(1)),
        Op::ZExt(a) => (mix(mix(7, w as u128), a.h), a.vars, a.size.saturating_add(1)),
        Op::SExt(a) => (mix(mix(8, w as u128), a.h), a.vars, a.size.saturating_add(1)),
    };
    Arc::new(Node { op, w, h, vars, size })
}

pub fn konst(v: u128, w: u32) -> E { node(Op::Const(v & mask(w)), w) }
pub fn var(i: u32, w: u32) -> E { node(Op::Var(i), w) }

pub fn as_const(e: &E) -> Option<u128> { if let Op::Const(c) = e.op { Some(c) } else { None } }
pub fn same(a: &E, b: &E) -> bool { Arc::ptr_eq(a, b) || (a.h == b.h && a.w == b.w) }

/// Concrete semantics of every binary operator (SMT-LIB conventions for division by zero).
pub fn fold(b: B, x: u128, y: u128, w: u32, wy: u32) -> u128 {
    let m = mask(w);
    let r = match b {
        B::Add => x.wrapping_add(y),
        B::Sub => x.wrapping_sub(y),
        B::Mul => x.wrapping_mul(y),
        B::UDiv => if y == 0 { m } else { x / y },
        B::URem => if y == 0 { x } else { x % y },
        B::SDiv => {
            let (a, c) = (sx(x, w), sx(y, w));
            if c == 0 { if a >= 0 { m } else { 1 } } else { a.wrapping_div(c) as u128 }
        }
        B::SRem => {
            let (a, c) = (sx(x, w), sx(y, w));
            if c == 0 { x } else { a.wrapping_rem(c) as u128 }
        }
        B::And => x & y,
        B::Or => x | y,
        B::Xor => x ^ y,
        B::Shl => if y >= w as u128 { 0 } else { x << y },
        B::LShr => if y >= w as u128 { 0 } else { x >> y },
        B::AShr => (sx(x, w) >> (if y >= w as u128 { w - 1 } else { y as u32 })) as u128,
        B::Eq => (x == y) as u128,
        B::Ult => (x < y) as u128,
        B::Ule => (x <= y) as u128,
        B::Slt => (sx(x, w) < sx(y, w)) as u128,
        B::Sle => (sx(x, w) <= sx(y, w)) as u128,
        B::Concat => return (x << wy) | y,
    };
    match b {
        B::Eq | B::Ult | B::Ule | B::Slt | B::Sle => r & 1,
        _ => r & m,
    }
}

fn is_cmp(b: B) -> bool { matches!(b, B::Eq | B::Ult | B::Ule | B::Slt | B::Sle) }

fn const_ite_arms(e: &E) -> Option<(&E, u128, u128)> {
    if let Op::Ite(c, x, y) = &e.op {
        if let (Some(a), Some(b)) = (as_const(x), as_const(y)) {
            return Some((c, a, b));
        }
    }
    None
}

pub fn not(a: &E) -> E {
    match &a.op {
        Op::Const(c) => konst(!c, a.w),
        Op::Not(x) => x.clone(),
        Op::Bin(B::Ult, x, y) => node(Op::Bin(B::Ule, y.clone(), x.clone()), 1),
        Op::Bin(B::Ule, x, y) => node(Op::Bin(B::Ult, y.clone(), x.clone()), 1),
        Op::Bin(B::Slt, x, y) => node(Op::Bin(B::Sle, y.clone(), x.clone()), 1),
        Op::Bin(B::Sle, x, y) => node(Op::Bin(B::Slt, y.clone(), x.clone()), 1),
        _ => node(Op::Not(a.clone()), a.w),
    }
}

pub fn ite(c: &E, x: &E, y: &E) -> E {
    if let Some(k) = as_const(c) { return if k & 1 == 1 { x.clone() } else { y.clone() }; }
    if same(x, y) { return x.clone(); }
    if let Op::Not(c2) = &c.op { return ite(c2, y, x); }
    if x.w == 1 {
        match (as_const(x), as_const(y)) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(B::Or, c, y),
            (Some(0), None) => return bin(B::And, &not(c), y),
            (None, Some(1)) => return bin(B::Or, &not(c), x),
            (None, Some(0)) => return bin(B::And, c, x),
            _ => {}
        }
    }
    node(Op::Ite(c.clone(), x.clone(), y.clone()), x.w)
}

pub fn zext(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    if let Some(c) = as_const(a) { return konst(c, w); }
    if let Op::ZExt(x) = &a.op { return node(Op::ZExt(x.clone()), w); }
    if let Some((c, x, y)) = const_ite_arms(a) { return ite(c, &konst(x, w), &konst(y, w)); }
    node(Op::ZExt(a.clone()), w)
}
pub fn sext(a: &E, w: u32) -> E {
    if a.w == w { return a.clone(); }
    if let Some(c) = as_const(a) { return konst(sx(c, a.w) as u128, w); }
    if let Op::ZExt(x) = &a.op { if x.w < a.w { return node(Op::ZExt(x.clone()), w); } }
    if let Some((c, x, y)) = const_ite_arms(a) {
        return ite(c, &konst(sx(x, a.w) as u128, w), &konst(sx(y, a.w) as u128, w));
    }
    node(Op::SExt(a.clone()), w)
}
pub fn extract(a: &E, lo: u32, w: u32) -> E {
    if lo == 0 && a.w == w { return a.clone(); }
    match &a.op {
        Op::Const(c) => return konst(c >> lo, w),
        Op::Extract(x, l2) => return extract(x, lo + l2, w),
        Op::ZExt(x) => {
            if lo >= x.w { return konst(0, w); }
            if lo + w <= x.w { return extract(x, lo, w); }
            if lo == 0 { return zext(x, w); }
            return zext(&extract(x, lo, x.w - lo), w);
        }
        Op::SExt(x) => {
            if lo + w <= x.w { return extract(x, lo, w); }
        }
        Op::Bin(B::Concat, hi, l) => {
            if lo >= l.w { return extract(hi, lo - l.w, w); }
            if lo + w <= l.w { return extract(l, lo, w); }
        }
        Op::Bin(b @ (B::And | B::Or | B::Xor), x, y) => {
            if x.size + y.size < 64 { return bin(*b, &extract(x, lo, w), &extract(y, lo, w)); }
        }
        Op::Bin(b @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
            if x.size + y.size < 64 { return bin(*b, &extract(x, 0, w), &extract(y, 0, w)); }
        }
        Op::Bin(B::LShr, x, y) => {
            if let Some(k) = as_const(y) {
                let k = k as u32;
                if lo + k + w <= x.w { return extract(x, lo + k, w); }
            }
        }
        Op::Bin(B::Shl, x, y) => {
            if let Some(k) = as_const(y) {
                let k = k as u32;
                if lo >= k { return extract(x, lo - k, w); }
                if lo + w <= k { return konst(0, w); }
            }
        }
        Op::Ite(c, x, y) => {
            if as_const(x).is_some() || as_const(y).is_some() {
                return ite(c, &extract(x, lo, w), &extract(y, lo, w));
            }
        }
        _ => {}
    }
    node(Op::Extract(a.clone(), lo), w)
}

pub fn concat(hi: &E, lo: &E) -> E { bin(B::Concat, hi, lo) }

pub fn bin(b: B, x: &E, y: &E) -> E {
    let w = x.w;
    let rw = if is_cmp(b) { 1 } else if b == B::Concat { w + y.w } else { w };
    if b != B::Concat { debug_assert_eq!(x.w, y.w, "{:?}", b); }
    if let (Some(a), Some(c)) = (as_const(x), as_const(y)) {
        return konst(fold(b, a, c, w, y.w), rw);
    }
    // constants to the right for commutative operators
    if matches!(b, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq) && as_const(x).is_some() {
        return bin(b, y, x);
    }
    if let Some(c) = as_const(y) {
        let m = mask(w);
        match b {
            B::Add if c == 0 => return x.clone(),
            B::Add => if let Op::Bin(B::Add, p, q) = &x.op {
                if let Some(k) = as_const(q) { return bin(B::Add, p, &konst(k.wrapping_add(c), w)); }
            },
            B::Sub => return bin(B::Add, x, &konst(c.wrapping_neg(), w)),
            B::Mul if c == 0 => return y.clone(),
            B::Mul if c == 1 => return x.clone(),
            B::Mul if c.is_power_of_two() => return bin(B::Shl, x, &konst(c.trailing_zeros() as u128, w)),
            B::UDiv if c == 1 => return x.clone(),
            B::UDiv if c.is_power_of_two() => return bin(B::LShr, x, &konst(c.trailing_zeros() as u128, w)),
            B::URem if c == 1 => return konst(0, w),
            B::URem if c.is_power_of_two() => return bin(B::And, x, &konst(c - 1, w)),
            B::And if c == 0 => return y.clone(),
            B::And if c == m => return x.clone(),
            B::And => {
                if let Op::ZExt(z) = &x.op {
                    if c & mask(z.w) == mask(z.w) { return x.clone(); }
                    if z.w <= 128 { return zext(&bin(B::And, z, &konst(c, z.w)), w); }
                }
                if let Op::Bin(B::And, p, q) = &x.op {
                    if let Some(k) = as_const(q) { return bin(B::And, p, &konst(k & c, w)); }
                }
            }
            B::Or if c == 0 => return x.clone(),
            B::Or if c == m => return y.clone(),
            B::Xor if c == 0 => return x.clone(),
            B::Xor if c == m => return not(x),
            B::Xor => if let Op::Bin(B::Xor, p, q) = &x.op {
                if let Some(k) = as_const(q) { return bin(B::Xor, p, &konst(k ^ c, w)); }
            },
            B::Shl | B::LShr | B::AShr if c == 0 => return x.clone(),
            B::Shl | B::LShr if c >= w as u128 => return konst(0, w),
            B::LShr => {
                if let Op::ZExt(z) = &x.op {
                    if c >= z.w as u128 { return konst(0, w); }
                    return zext(&bin(B::LShr, z, &konst(c, z.w)), w);
                }
                return zext(&extract(x, c as u32, w - c as u32), w);
            }
            B::Ult if c == 0 => return konst(0, 1),
            B::Ult if c == 1 => return bin(B::Eq, x, &konst(0, w)),
            B::Ule if c == m => return konst(1, 1),
            B::Ule if c == 0 => return bin(B::Eq, x, &konst(0, w)),
            _ => {}
        }
        if matches!(b, B::Ult | B::Ule | B::Eq) {
            if let Op::ZExt(z) = &x.op {
                if c > mask(z.w) { return konst(if b == B::Eq { 0 } else { 1 }, 1); }
                return bin(b, z, &konst(c, z.w));
            }
        }
        if matches!(b, B::Slt | B::Sle) {
            if let Op::ZExt(z) = &x.op {
                if z.w < w {
                    if sx(c, w) < 0 { return konst(0, 1); }
                    return bin(if b == B::Slt { B::Ult } else { B::Ule }, x, y);
                }
            }
        }
        if b == B::Eq {
            if w == 1 { return if c == 1 { x.clone() } else { not(x) }; }
            match &x.op {
                Op::Bin(B::Add, p, q) => if let Some(k) = as_const(q) { return bin(B::Eq, p, &konst(c.wrapping_sub(k), w)); },
                Op::Bin(B::Xor, p, q) => if let Some(k) = as_const(q) { return bin(B::Eq, p, &konst(c ^ k, w)); },
                Op::Not(p) => return bin(B::Eq, p, &konst(!c, w)),
                Op::Bin(B::Concat, hi, lo) => {
                    return bin(B::And, &bin(B::Eq, hi, &konst(c >> lo.w, hi.w)), &bin(B::Eq, lo, &konst(c, lo.w)));
                }
                Op::Bin(B::Shl, p, q) => if let Some(k) = as_const(q) {
                    let k = k as u32;
                    if c & mask(k) != 0 { return konst(0, 1); }
                    return bin(B::Eq, &extract(p, 0, w - k), &konst(c >> k, w - k));
                },
                Op::SExt(z) => {
                    let t = c & mask(z.w);
                    if sx(t, z.w) as u128 & m != c { return konst(0, 1); }
                    return bin(B::Eq, z, &konst(t, z.w));
                }
                _ => {}
            }
        }
        if b != B::Concat {
            if let Op::Ite(cc, p, q) = &x.op {
                if as_const(p).is_some() || as_const(q).is_some() {
                    return ite(cc, &bin(b, p, y), &bin(b, q, y));
                }
            }
        }
    }
    if let Some(c) = as_const(x) {
        match b {
            B::Concat if c == 0 => return zext(y, rw),
            B::Shl | B::LShr | B::UDiv | B::URem if c == 0 => return x.clone(),
            B::Ult | B::Ule => {
                if b == B::Ule && c == 0 { return konst(1, 1); }
                if b == B::Ult && c == mask(w) { return konst(0, 1); }
                if let Op::ZExt(z) = &y.op {
                    if c > mask(z.w) { return konst(0, 1); }
                    return bin(b, &konst(c, z.w), z);
                }
            }
            B::Slt | B::Sle => {
                if let Op::ZExt(z) = &y.op {
                    if z.w < w {
                        if sx(c, w) < 0 { return konst(1, 1); }
                        return bin(if b == B::Slt { B::Ult } else { B::Ule }, x, y);
                    }
                }
            }
            _ => {}
        }
        if b != B::Concat {
            if let Op::Ite(cc, p, q) = &y.op {
                if as_const(p).is_some() || as_const(q).is_some() {
                    return ite(cc, &bin(b, x, p), &bin(b, x, q));
                }
            }
        }
    }
    if same(x, y) {
        match b {
            B::Sub | B::Xor => return konst(0, w),
            B::And | B::Or => return x.clone(),
            B::Eq | B::Ule | B::Sle => return konst(1, 1),
            B::Ult | B::Slt => return konst(0, 1),
            _ => {}
        }
    }
    match b {
        B::Eq | B::Ult | B::Ule => {
            if let (Op::ZExt(p), Op::ZExt(q)) = (&x.op, &y.op) {
                if p.w == q.w { return bin(b, p, q); }
            }
            if w == 1 && b == B::Eq { return not(&bin(B::Xor, x, y)); }
        }
        B::Slt | B::Sle => {
            if let (Op::ZExt(p), Op::ZExt(q)) = (&x.op, &y.op) {
                if p.w < w && q.w < w { return bin(if b == B::Slt { B::Ult } else { B::Ule }, x, y); }
            }
        }
        B::Or if w == 1 => {
            if let Op::Not(n) = &x.op { if same(n, y) { return konst(1, 1); } }
            if let Op::Not(n) = &y.op { if same(n, x) { return konst(1, 1); } }
        }
        B::And if w == 1 => {
            if let Op::Not(n) = &x.op { if same(n, y) { return konst(0, 1); } }
            if let Op::Not(n) = &y.op { if same(n, x) { return konst(0, 1); } }
        }
        B::Or => {
            // zext(lo) | (zext(hi) << k)  ==> concat
            for (p, q) in [(x, y), (y, x)] {
                if let (Op::ZExt(l), Op::Bin(B::Shl, h, k)) = (&p.op, &q.op) {
                    if let Some(k) = as_const(k) {
                        if k as u32 == l.w {
                            return concat(&extract(h, 0, w - l.w), l);
                        }
                    }
                }
            }
        }
        B::And | B::Xor => {
            if let (Op::ZExt(p), Op::ZExt(q)) = (&x.op, &y.op) {
                if p.w == q.w { return zext(&bin(b, p, q), w); }
            }
        }
        B::Concat => {
            // adjacent extracts of the same value
            if let Op::Extract(s, l2) = &y.op {
                if let Op::Extract(s1, l1) = &x.op {
                    if same(s, s1) && *l1 == l2 + y.w { return extract(s, *l2, rw); }
                }
            }
            if let Op::ZExt(z) = &x.op { return zext(&concat(z, y), rw); }
            if let Op::Bin(B::Concat, p, q) = &x.op {
                if let (Op::Extract(s1, l1), Op::Extract(s2, l2)) = (&q.op, &y.op) {
                    if same(s1, s2) && *l1 == l2 + y.w { return concat(p, &extract(s1, *l2, q.w + y.w)); }
                }
            }
        }
        _ => {}
    }
    node(Op::Bin(b, x.clone(), y.clone()), rw)
}

pub type Model = Vec<u64>;

pub fn eval(e: &E, m: &Model) -> u128 {
    if e.size < 200 { eval_r(e, m) } else {
        let mut memo = HashMap::new();
        eval_m(e, m, &mut memo)
    }
}
fn eval_r(e: &E, m: &Model) -> u128 {
    match &e.op {
        Op::Const(c) => *c,
        Op::Var(i) => m.get(*i as usize).copied().unwrap_or(0) as u128 & mask(e.w),
        Op::Not(a) => !eval_r(a, m) & mask(e.w),
        Op::Bin(b, x, y) => fold(*b, eval_r(x, m), eval_r(y, m), x.w, y.w),
        Op::Ite(c, x, y) => if eval_r(c, m) & 1 == 1 { eval_r(x, m) } else { eval_r(y, m) },
        Op::Extract(a, lo) => (eval_r(a, m) >> lo) & mask(e.w),
        Op::ZExt(a) => eval_r(a, m),
        Op::SExt(a) => sx(eval_r(a, m), a.w) as u128 & mask(e.w),
    }
}
fn eval_m(e: &E, m: &Model, memo: &mut HashMap<*const Node, u128>) -> u128 {
    if e.size < 8 { return eval_r(e, m); }
    if let Some(v) = memo.get(&Arc::as_ptr(e)) { return *v; }
    let v = match &e.op {
        Op::Const(c) => *c,
        Op::Var(i) => m.get(*i as usize).copied().unwrap_or(0) as u128 & mask(e.w),
        Op::Not(a) => !eval_m(a, m, memo) & mask(e.w),
        Op::Bin(b, x, y) => fold(*b, eval_m(x, m, memo), eval_m(y, m, memo), x.w, y.w),
        Op::Ite(c, x, y) => if eval_m(c, m, memo) & 1 == 1 { eval_m(x, m, memo) } else { eval_m(y, m, memo) },
        Op::Extract(a, lo) => (eval_m(a, m, memo) >> lo) & mask(e.w),
        Op::ZExt(a) => eval_m(a, m, memo),
        Op::SExt(a) => sx(eval_m(a, m, memo), a.w) as u128 & mask(e.w),
    };
    memo.insert(Arc::as_ptr(e), v);
    v
}
