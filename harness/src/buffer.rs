//! C01 (undo/redo) and C02 (edits and queries) of `Buffer`.
use crate::{sym::*, util::*};
use liner::*;

/// Reference: one record per outermost edit or non-empty group.
struct Ref { cur: Vec<char>, done: Vec<(Vec<char>, Vec<char>)>, undone: Vec<(Vec<char>, Vec<char>)>, depth: usize, open: Vec<char>, touched: bool, recorded: bool }
impl Ref {
    fn new(c: Vec<char>) -> Ref { Ref { cur: c, done: vec![], undone: vec![], depth: 0, open: vec![], touched: false, recorded: false } }
    fn edit(&mut self, new: Vec<char>) {
        let old = std::mem::replace(&mut self.cur, new);
        self.undone.clear();
        self.recorded = true;
        if self.depth > 0 { self.touched = true } else { self.done.push((old, self.cur.clone())) }
    }
    fn start(&mut self) { if self.depth == 0 { self.open = self.cur.clone(); self.touched = false } self.depth += 1; self.recorded = true }
    fn end(&mut self) { self.depth -= 1; if self.depth == 0 && self.touched { self.done.push((self.open.clone(), self.cur.clone())) } }
    fn undo(&mut self) -> bool { match self.done.pop() { Some(u) => { self.cur = u.0.clone(); self.undone.push(u); true } None => false } }
    fn redo(&mut self) -> bool { match self.undone.pop() { Some(u) => { self.cur = u.1.clone(); self.done.push(u); true } None => false } }
}

fn splice(v: &[char], s: usize, e: usize, t: &[char]) -> Vec<char> {
    let mut r = v[..s].to_vec();
    r.extend_from_slice(t);
    r.extend_from_slice(&v[e..]);
    r
}

/// One arbitrary operation on both sides.
fn step(b: &mut Buffer, r: &mut Ref, edits: bool, small: bool) {
    let n = r.cur.len();
    let closed = r.depth == 0;
    let kinds = if edits { 5 } else { 10 };
    match choose("op", kinds) {
        0 => {
            let p = if small { choose("end", 2) * n } else { choose("pos", n + 1) };
            let t = any_chars(if small { 1 } else { choose("n", 3) });
            b.insert(p, &t);
            r.edit(splice(&r.cur, p, p, &t));
        }
        1 => {
            let s = if small { 0 } else { choose("start", n + 1) };
            let e = if small { (s + 1).min(n) } else { s + choose("rm", n - s + 1) };
            let k = b.remove(s, e);
            check(k == e - s, "C01 remove returns the number of characters removed");
            r.edit(splice(&r.cur, s, e, &[]));
        }
        2 if !small => {
            let s = choose("start", n + 1);
            b.truncate(s);
            r.edit(splice(&r.cur, s, n, &[]));
        }
        3 if !small => {
            let t = any_chars(choose("n", 3));
            b.copy_buffer(&buf(&t));
            // recorded as one removal and one insertion
            r.edit(vec![]);
            r.edit(t);
        }
        4 if !small => {
            let x = any_chars(choose("n", 3));
            let t = splice(&r.cur, n, n, &x);
            b.insert_from_buffer(&buf(&t));
            r.edit(t);
        }
        5 => { b.start_undo_group(); r.start() }
        6 if r.depth > 0 => { b.end_undo_group(); r.end() }
        7 if closed => {
            let had = !r.done.is_empty();
            let rec = r.recorded;
            r.undo();
            let d = b.undo();
            check(d || !had, "C01 undo reports success when there is something to undo");
            check(!d || rec, "C01 undo reports failure when nothing was ever recorded");
        }
        8 if closed => {
            let had = r.redo();
            let d = b.redo();
            check(d || !had, "C01 redo reports success when there is something to redo");
        }
        9 if closed => {
            while r.undo() {}
            b.revert();
        }
        _ => assume(false),
    }
    check(is(b, &r.cur), "C01 content after every operation equals the reference");
}

fn settle(b: &mut Buffer, r: &mut Ref, init: &[char]) {
    if r.depth > 0 && flag("revert open") {
        b.revert();
        check(is(b, init), "C01 revert restores the initial text");
        return;
    }
    while r.depth > 0 { b.end_undo_group(); r.end() }
    obs(&chars(b));
    reach("settle");
    // undo everything, one unit at a time, then redo everything
    while r.undo() {
        check(b.undo(), "C01 undo reports success");
        check(is(b, &r.cur), "C01 undo restores the text before the newest edit or group");
    }
    b.undo();
    check(is(b, &r.cur), "C01 undo past the first edit changes nothing");
    while r.redo() {
        check(b.redo(), "C01 redo reports success");
        check(is(b, &r.cur), "C01 redo restores the text after the undone edit or group");
    }
    b.redo();
    check(is(b, &r.cur), "C01 redo past the newest edit changes nothing");
    let orig = r.done.first().map(|u| u.0.clone()).unwrap_or(r.cur.clone());
    b.revert();
    check(is(b, &orig), "C01 revert restores the initial text");
    reach("end");
    obs(&chars(b));
}

/// `k` arbitrary operations on a buffer of up to `n` arbitrary characters.
#[no_mangle]
pub extern "C" fn c01_ops(n: u64, k: u64) {
    let init = any_chars(choose("len", n as usize + 1));
    let mut b = buf(&init);
    let mut r = Ref::new(init.clone());
    for _ in 0..k { step(&mut b, &mut r, false, false) }
    settle(&mut b, &mut r, &init);
}

/// `k` operations of reduced shape (single characters at either end, groups, undo, redo, revert).
#[no_mangle]
pub extern "C" fn c01_deep(k: u64) {
    let init = any_chars(1);
    let mut b = buf(&init);
    let mut r = Ref::new(init.clone());
    for _ in 0..k { step(&mut b, &mut r, false, true) }
    settle(&mut b, &mut r, &init);
}

/// Many edits of one kind: all of them can be undone and redone, one by one.
#[no_mangle]
pub extern "C" fn c01_long(n: u64) {
    let n = n as usize;
    let c = any_char("c");
    let mut b = Buffer::from("init");
    let kind = choose("kind", 4);
    // the texts after each edit
    let mut h = vec![chars(&b)];
    for i in 0..n {
        let len = b.num_chars();
        match kind {
            0 => b.insert(len, &[c]),
            1 => b.insert(0, &[c, 'x']),
            2 => if i % 2 == 0 { b.insert(i % 5, &[c]) } else { b.remove(i % 3, i % 3 + 1); },
            _ => { b.start_undo_group(); b.insert(len, &[c]); b.insert(0, &['y']); b.end_undo_group() }
        }
        h.push(chars(&b));
    }
    for i in (0..n).rev() {
        check(b.undo(), "C01 every edit can be undone");
        check(is(&b, &h[i]), "C01 undo restores the text before the edit");
    }
    check(!b.undo(), "C01 nothing is left to undo");
    for i in 0..n {
        check(b.redo(), "C01 every undone edit can be redone");
        check(is(&b, &h[i + 1]), "C01 redo restores the text after the edit");
    }
    check(b.revert() && is(&b, &h[0]), "C01 revert restores the initial text");
    reach("end");
}

/// Edits on a buffer of exactly `n` (possibly long) characters: exact splice semantics, and undo.
#[no_mangle]
pub extern "C" fn c02_edit(n: u64, m: u64) {
    let v = any_chars(n as usize);
    let n = n as usize;
    let m = m as usize;
    let mut b = buf(&v);
    let exp;
    match choose("op", 5) {
        0 => {
            let p = choose("pos", n + 1);
            let t = any_chars(m);
            b.insert(p, &t);
            exp = splice(&v, p, p, &t);
        }
        1 => {
            let s = choose("start", n + 1);
            let e = s + choose("rm", n - s + 1);
            let k = b.remove(s, e);
            check(k == e - s, "C02 remove returns the number of characters removed");
            exp = splice(&v, s, e, &[]);
        }
        2 => {
            let s = choose("start", n + 1);
            b.truncate(s);
            exp = v[..s].to_vec();
        }
        3 => {
            let t = any_chars(m);
            b.copy_buffer(&buf(&t));
            exp = t;
        }
        _ => {
            let t = any_chars(m);
            let o = splice(&v, n, n, &t);
            b.insert_from_buffer(&buf(&o));
            exp = o;
        }
    }
    check(is(&b, &exp), "C02 an edit changes exactly the addressed characters");
    let mut two = 1;
    while b.undo() { two += 1; if two > 4 { break } }
    check(is(&b, &v), "C02 undoing the edit restores every character");
    while b.redo() { two += 1; if two > 9 { break } }
    check(is(&b, &exp), "C02 redoing the edit restores the edited text");
    reach("end");
    obs(&chars(&b));
}

/// Queries on a buffer of up to `n` arbitrary Unicode characters.
#[no_mangle]
pub extern "C" fn c02_query(n: u64) {
    let n = choose("len", n as usize + 1);
    let v = any_chars(n);
    let b = buf(&v);
    let s: String = v.iter().collect();
    check(b.num_chars() == n, "C02 num_chars counts characters");
    check(b.is_empty() == (n == 0), "C02 is_empty");
    check(b.num_bytes() == s.len(), "C02 num_bytes is the UTF-8 length");
    check(b.as_bytes() == s.as_bytes(), "C02 as_bytes is the UTF-8 encoding");
    check(b.to_string() == s, "C02 Display prints the text");
    check(String::from(b.clone()) == s, "C02 conversion to String keeps the text");
    check(Buffer::from(s.as_str()) == b, "C02 conversion from str round-trips");
    check(Buffer::from(s.clone()) == b, "C02 conversion from String round-trips");
    let mut out = vec![];
    b.print(&mut out).unwrap();
    check(out == s.as_bytes(), "C02 print writes the text");
    let p = choose("pos", n + 1);
    check(b.char_after(p) == v.get(p).copied(), "C02 char_after");
    check(b.char_before(p) == if p == 0 { None } else { Some(v[p - 1]) }, "C02 char_before");
    check(b.char_after(n).is_none() && b.char_before(0).is_none(), "C02 no character outside the text");
    let e = p + choose("n", n - p + 1);
    check(same(&b.range_chars(p, e), &v[p..e]), "C02 range_chars is the addressed slice");
    check(b.range(p, e) == v[p..e].iter().collect::<String>(), "C02 range is the addressed slice");
    let mut out = vec![];
    let k = b.print_rest(&mut out, p).unwrap();
    let rest: String = v[p..].iter().collect();
    check(out == rest.as_bytes() && k == rest.len(), "C02 print_rest prints everything after the position");
    reach("end");
    observe_str(&s);
}

/// starts_with / contains / equality between two buffers of up to `n` and `m` arbitrary characters.
#[no_mangle]
pub extern "C" fn c02_match(n: u64, m: u64) {
    let v = any_chars(choose("len", n as usize + 1));
    let w = any_chars(choose("len2", m as usize + 1));
    let (b, p) = (buf(&v), buf(&w));
    let pre = w.len() <= v.len() && same(&v[..w.len()], &w);
    check(b.starts_with(&p) == (pre && !w.is_empty() && v.len() != w.len()), "C02 starts_with is proper non-empty prefix");
    let mut c = false;
    if !w.is_empty() && w.len() <= v.len() { for i in 0..=v.len() - w.len() { c |= same(&v[i..i + w.len()], &w); } }
    let got = b.contains(&p);
    check(got == c, "C02 contains is non-empty substring");
    check((b == p) == same(&v, &w), "C02 equality compares the text");
    if got { reach("contains") } else { reach("absent") }
    observe(got as u64);
}

/// Line splitting and display widths (printable ASCII and newlines).
#[no_mangle]
pub extern "C" fn c02_lines(n: u64) {
    let n = choose("len", n as usize + 1);
    let v: Vec<char> = (0..n).map(|_| if flag("nl") { '\n' } else { ascii("c") }).collect();
    let b = buf(&v);
    let mut ls: Vec<Vec<char>> = vec![vec![]];
    for &c in &v { if c == '\n' { ls.push(vec![]) } else { ls.last_mut().unwrap().push(c) } }
    let got = b.lines();
    check(got.len() == ls.len(), "C02 lines splits at newlines");
    for (g, l) in got.iter().zip(&ls) { check(same(&g.chars().collect::<Vec<_>>(), l), "C02 lines keeps each line's text"); }
    let w = b.width();
    check(w.len() == ls.len() && w.iter().zip(&ls).all(|(a, l)| *a == l.len()), "C02 width is the number of columns of each line");
    let s = choose("start", n + 1);
    let e = s + choose("n", n - s + 1);
    let mut rs = vec![0];
    for &c in &v[s..e] { if c == '\n' { rs.push(0) } else { *rs.last_mut().unwrap() += 1 } }
    check(b.range_width(s, e) == rs, "C02 range_width is the number of columns of each line of the range");
    reach("end");
    observe(w.len() as u64);
}

/// last_arg: the last maximal run of non-space characters.
#[no_mangle]
pub extern "C" fn c02_words(n: u64) {
    let n = choose("len", n as usize + 1);
    let v: Vec<char> = (0..n).map(|_| any_char("c")).collect();
    let b = buf(&v);
    let got = b.last_arg().map(|s| s.to_vec());
    let mut e = n;
    while e > 0 && v[e - 1] == ' ' { e -= 1 }
    let mut s = e;
    while s > 0 && v[s - 1] != ' ' { s -= 1 }
    let exp = if e == 0 { None } else { Some(v[s..e].to_vec()) };
    match (&got, &exp) {
        (None, None) => reach("none"),
        (Some(g), Some(x)) => { check(same(g, x), "C02 last_arg is the last space-separated word"); reach("some") }
        _ => check(false, "C02 last_arg exists exactly when there is a non-space character"),
    }
    observe(s as u64);
}
