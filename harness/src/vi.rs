//! C06, C07, C08: Vi motions, operators, undo and repeat.
use crate::{env::*, keys::*, sym::*, util::*};
use liner::*;

fn class(c: char, big: bool) -> u8 {
    if c.is_whitespace() { 0 } else if big || c.is_alphanumeric() || c == '_' { 1 } else { 2 }
}
#[derive(Clone, Copy, PartialEq)]
pub struct Find { pub c: char, pub right: bool, pub until: bool }
#[derive(Clone, Copy)]
pub enum Mo { H, L, Start, End, W(bool), B(bool), E(bool), Ge(bool), F(Find), Rep(bool) }

/// Where motion `m` with count `k` leads from `c`: (target, inclusive), None if it cannot be made.
/// The target of a forward motion may be the end of the line.
pub fn target(t: &[char], c: usize, m: Mo, k: usize, last: Option<Find>) -> Option<(usize, bool)> {
    let n = t.len();
    let mut p = c;
    match m {
        Mo::H => Some((p.saturating_sub(k), false)),
        Mo::L => Some((p.saturating_add(k).min(n), false)),
        Mo::Start => Some((0, false)),
        Mo::End => Some((n, false)),
        Mo::W(big) => {
            for _ in 0..k {
                if p >= n { break }
                let cl = class(t[p], big);
                while cl != 0 && p < n && class(t[p], big) == cl { p += 1 }
                while p < n && class(t[p], big) == 0 { p += 1 }
            }
            Some((p, false))
        }
        Mo::B(big) => {
            for _ in 0..k {
                if p == 0 { break }
                p -= 1;
                while p > 0 && class(t[p], big) == 0 { p -= 1 }
                while p > 0 && class(t[p], big) != 0 && class(t[p - 1], big) == class(t[p], big) { p -= 1 }
            }
            Some((p, false))
        }
        Mo::E(big) => {
            for _ in 0..k {
                if p + 1 >= n { p = n; break }
                p += 1;
                while p < n && class(t[p], big) == 0 { p += 1 }
                while p + 1 < n && class(t[p + 1], big) == class(t[p], big) { p += 1 }
            }
            // past the last word: the last character
            Some((p, true))
        }
        Mo::Ge(big) => {
            if p == 0 { return None }
            for _ in 0..k {
                if p == 0 { break }
                let cl = if p < n { class(t[p], big) } else { 0 };
                while cl != 0 && p > 0 && class(t[p], big) == cl { p -= 1 }
                if cl != 0 && class(t[p], big) == cl { break }
                if cl == 0 || class(t[p], big) == 0 { while p > 0 && class(t[p], big) == 0 { p -= 1 } }
            }
            Some((p, true))
        }
        Mo::F(f) => find(t, p, f, k),
        Mo::Rep(back) => match last {
            None => None,
            Some(f) => find(t, p, Find { right: f.right != back, ..f }, k),
        },
    }
}
fn find(t: &[char], p: usize, f: Find, k: usize) -> Option<(usize, bool)> {
    let mut left = k;
    if f.right {
        for i in p + 1..t.len() {
            if t[i] == f.c { left -= 1; if left == 0 { return Some((if f.until { i - 1 } else { i }, true)) } }
        }
    } else {
        for i in (0..p).rev() {
            if t[i] == f.c { left -= 1; if left == 0 { return Some((if f.until { i + 1 } else { i }, false)) } }
        }
    }
    None
}

/// A motion and the keys that type it.
pub(crate) fn motion(set: usize) -> (Mo, Vec<Key>) {
    let ch = |c| vec![Key::Char(c)];
    let i = match set { 0 => choose("motion", 24), 1 => choose("motion", 13), _ => 13 + choose("motion", 11) };
    match i {
        0 => (Mo::H, ch('h')),
        1 => (Mo::L, ch('l')),
        2 => (Mo::Start, ch('0')),
        3 => (Mo::End, ch('$')),
        4 => (Mo::W(false), ch('w')),
        5 => (Mo::W(true), ch('W')),
        6 => (Mo::B(false), ch('b')),
        7 => (Mo::B(true), ch('B')),
        8 => (Mo::E(false), ch('e')),
        9 => (Mo::E(true), ch('E')),
        10 => (Mo::Ge(false), vec![Key::Char('g'), Key::Char('e')]),
        11 => (Mo::Ge(true), vec![Key::Char('g'), Key::Char('E')]),
        12 => (Mo::Start, ch('^')),
        13..=16 => {
            let c = ascii("fc");
            let (k, right, until) = [('f', true, false), ('t', true, true), ('F', false, false), ('T', false, true)][i - 13];
            (Mo::F(Find { c, right, until }), vec![Key::Char(k), Key::Char(c)])
        }
        17 => (Mo::Rep(false), ch(';')),
        18 => (Mo::Rep(true), ch(',')),
        19 => (Mo::H, vec![Key::Left]),
        20 => (Mo::H, vec![Key::Backspace]),
        21 => (Mo::L, vec![Key::Right]),
        22 => (Mo::Start, vec![Key::Home]),
        _ => (Mo::End, vec![Key::End]),
    }
}
pub(crate) fn is_start(m: &Mo, keys: &[Key]) -> bool { matches!(m, Mo::Start) && keys[0] == Key::Char('0') }

/// A count and the keys that type it; 1 without keys.
fn count(kinds: usize) -> (usize, Vec<Key>) {
    match choose("count", kinds) {
        0 => (1, vec![]),
        1 => (2, vec![Key::Char('2')]),
        2 => (3, vec![Key::Char('3')]),
        3 => (10, vec![Key::Char('1'), Key::Char('0')]),
        _ => (usize::MAX, "9999999999".chars().map(Key::Char).collect()),
    }
}

pub(crate) struct Sess<'a> { pub ed: Editor<&'a mut Ctx>, pub m: Normal }
impl<'a> Sess<'a> {
    pub fn new(c: &'a mut Ctx, t: &[char], p: usize) -> Self {
        let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, c, string(t)).unwrap();
        let m = normal(&mut ed);
        ed.move_cursor_to(p).unwrap();
        Sess { ed, m }
    }
    pub fn key(&mut self, k: Key) {
        let r = self.m.handle_key(k, &mut self.ed, &mut NoComp).unwrap();
        check(!r, "vi key does not end the line");
    }
    pub fn keys(&mut self, k: &[Key]) { for k in k { self.key(*k) } }
    pub fn text(&self) -> Vec<char> { chars(self.ed.current_buffer()) }
    pub fn is(&self, t: &[char], c: usize) -> bool { is(self.ed.current_buffer(), t) & (self.ed.cursor() == c) }
}
pub const VI_SET: [char; 10] = ['a', '_', '\u{e9}', '\u{4e16}', ' ', '\u{3000}', '.', '\u{20ac}', '\t', '\n'];
fn text(n: usize, kind: u64) -> Vec<char> {
    let n = choose("len", n + 1);
    match kind { 0 => ascii_chars(n), 1 => from_set(n, &VI_SET), 2 => from_set(n, &['a', 'b', ' ', '.']), _ => any_chars(n) }
}
pub(crate) fn clamp(n: usize, p: usize) -> usize { if n > 0 { p.min(n - 1) } else { 0 } }

/// k counted motions in a row on a text of at most n characters, cursor anywhere.
#[no_mangle]
pub extern "C" fn c06_motion(n: u64, k: u64, kind: u64, set: u64, counts: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, kind);
    let n = t.len();
    let mut p = choose("at", n.max(1));
    let mut s = Sess::new(&mut c, &t, p);
    let mut last = None;
    for _ in 0..k {
        let (cnt, ck) = count(counts as usize);
        let (m, mk) = motion(set as usize);
        if is_start(&m, &mk) && !ck.is_empty() { return }
        s.keys(&ck);
        s.keys(&mk);
        match target(&t, p, m, cnt, last) {
            Some((q, _)) => { p = clamp(n, q); reach("moved"); }
            None => reach("stays"),
        }
        if let Mo::F(f) = m { last = Some(f) }
        check(is(s.ed.current_buffer(), &t), "C06 a motion does not change the text");
        check(s.ed.cursor() == p, "C06 the motion's target");
    }
    observe(s.ed.cursor() as u64);
}
/// A count gives the same result as repeating the motion.
#[no_mangle]
pub extern "C" fn c06_count(n: u64, kind: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t = text(n as usize, kind);
    let p = choose("at", t.len().max(1));
    let (mut a, mut b) = (Sess::new(&mut c, &t, p), Sess::new(&mut c2, &t, p));
    let (m, mk) = motion(1);
    if is_start(&m, &mk) { return }
    let (cnt, ck) = count(3);
    a.keys(&ck);
    a.keys(&mk);
    for _ in 0..cnt { b.keys(&mk) }
    check(a.ed.cursor() == b.ed.cursor(), "C06 a count repeats the motion");
    reach("end");
    observe(a.ed.cursor() as u64);
}

pub(crate) fn cut(t: &[char], a: usize, b: usize) -> Vec<char> {
    let mut v = t[..a].to_vec();
    v.extend_from_slice(&t[b..]);
    v
}
pub(crate) fn put(t: &[char], a: usize, c: &[char]) -> Vec<char> {
    let mut v = t[..a].to_vec();
    v.extend_from_slice(c);
    v.extend_from_slice(&t[a..]);
    v
}
/// After a command: text and cursor, and whether the editor inserts or waits for a command, and no
/// count is left over.
pub(crate) fn after(s: &mut Sess, want: &[char], p: usize, inserting: bool) {
    check(is(s.ed.current_buffer(), want), "C07 text after the command");
    check(s.ed.cursor() == if inserting { p } else { clamp(want.len(), p) }, "C07 cursor after the command");
    observe(s.ed.cursor() as u64);
    obs(&s.text());
    s.key(Key::Char('Z'));
    if inserting {
        let w = put(want, p, &['Z']);
        check(s.is(&w, p + 1), "C07 the command leaves the editor inserting");
        s.key(Key::Esc);
        check(s.is(&w, p), "C07 a change inserts the text once");
    } else {
        check(s.is(want, clamp(want.len(), p)), "C07 the command leaves the editor in normal mode");
        s.keys(&[Key::Char('0'), Key::Char('x')]);
        let w = if want.is_empty() { vec![] } else { want[1..].to_vec() };
        check(s.is(&w, 0), "C07 no count is left over");
    }
}
/// An operator with a motion, counts before both.
#[no_mangle]
pub extern "C" fn c07_op(n: u64, kind: u64, set: u64, counts: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, kind);
    let p = choose("at", t.len().max(1));
    let mut s = Sess::new(&mut c, &t, p);
    let mut last = None;
    if set == 2 && flag("searched") {
        // an earlier character search for ; and , to repeat
        let f = Find { c: ascii("fc"), right: flag("r"), until: flag("u") };
        s.keys(&[Key::Char(match (f.right, f.until) { (true, false) => 'f', (true, true) => 't', (false, false) => 'F', _ => 'T' }), Key::Char(f.c)]);
        s.ed.move_cursor_to(p).unwrap();
        last = Some(f);
    }
    let (k1, ck1) = count(counts as usize);
    let change = flag("change");
    let (k2, ck2) = count(counts as usize);
    let (m, mk) = motion(set as usize);
    if is_start(&m, &mk) && !ck2.is_empty() { return }
    s.keys(&ck1);
    s.key(Key::Char(if change { 'c' } else { 'd' }));
    s.keys(&ck2);
    s.keys(&mk);
    match target(&t, p, m, k1.saturating_mul(k2), last) {
        None => { reach("fails"); after(&mut s, &t, p, false) }
        Some((q, inc)) => {
            reach("done");
            let (a, b) = (p.min(q), p.max(q) + inc as usize);
            after(&mut s, &cut(&t, a, b.min(t.len())), a, change)
        }
    }
}
fn toggle(c: char) -> Vec<char> {
    if c.is_lowercase() { c.to_uppercase().collect() } else if c.is_uppercase() { c.to_lowercase().collect() } else { vec![c] }
}
/// The commands without a motion, and commands that cannot complete.
#[no_mangle]
pub extern "C" fn c07_cmd(n: u64, kind: u64, counts: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, kind);
    let n = t.len();
    let p = choose("at", n.max(1));
    let mut s = Sess::new(&mut c, &t, p);
    let (k, ck) = count(counts as usize);
    s.keys(&ck);
    let e = p.saturating_add(k).min(n);
    let ch = Key::Char;
    match choose("cmd", 15) {
        0 => { s.key(ch('x')); after(&mut s, &cut(&t, p, e), p, false) }
        1 => { s.key(Key::Delete); after(&mut s, &cut(&t, p, e), p, false) }
        2 => { s.key(ch('s')); after(&mut s, &cut(&t, p, e), p, true) }
        3 => { s.key(ch('D')); after(&mut s, &t[..p], p, false) }
        4 => { s.key(ch('C')); after(&mut s, &t[..p], p, true) }
        5 => { s.keys(&[ch('d'), ch('d')]); after(&mut s, &[], 0, false) }
        6 => { s.keys(&[ch('c'), ch('c')]); after(&mut s, &[], 0, true) }
        7 => {
            let r = ascii("rc");
            s.keys(&[ch('r'), ch(r)]);
            if k > n - p || n == 0 { reach("r fails"); after(&mut s, &t, p, false) } else {
                let mut w = t.clone();
                for x in &mut w[p..e] { *x = r }
                after(&mut s, &w, e - 1, false)
            }
        }
        8 => {
            s.key(ch('~'));
            let mut w = t[..p].to_vec();
            for x in &t[p..e] { w.extend(toggle(*x)) }
            let q = w.len();
            w.extend_from_slice(&t[e..]);
            after(&mut s, &w, q, false)
        }
        9 => { s.keys(&[ch('d'), Key::Esc]); after(&mut s, &t, p, false) }
        10 => { s.keys(&[ch('c'), Key::Esc]); after(&mut s, &t, p, false) }
        11 => { s.keys(&[ch(['d', 'c'][choose("op", 2)]), ch(['f', 'F', 't', 'T', 'g'][choose("pend", 5)]), Key::Esc]); after(&mut s, &t, p, false) }
        12 => { s.keys(&[ch('r'), Key::Esc]); after(&mut s, &t, p, false) }
        13 => { s.keys(&[ch('d'), ch('c')]); after(&mut s, &t, p, false) }
        _ => { s.keys(&[ch('c'), ch('d')]); after(&mut s, &t, p, false) }
    }
    reach("end");
}
/// i a A I with a count and typed text; movement and deletion while inserting.
#[no_mangle]
pub extern "C" fn c07_insert(n: u64, kind: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, kind);
    let n = t.len();
    let p = choose("at", n.max(1));
    let mut s = Sess::new(&mut c, &t, p);
    let (k_ins, p) = [('i', p), ('a', (p + 1).min(n)), ('A', n), ('I', 0)][choose("ins", 4)];
    s.key(Key::Char(k_ins));
    let mut m = crate::emacs::Model::new(&t, p);
    for _ in 0..k {
        let key = match choose("key", 7) { 0 => Key::Char(ascii("kc")), 1 => Key::Left, 2 => Key::Right, 3 => Key::Home, 4 => Key::End, 5 => Key::Backspace, _ => Key::Delete };
        s.key(key);
        m.key(key, &|_| vec![]);
        check(s.is(&m.t, m.c), "C07 keys while inserting");
    }
    s.key(Key::Esc);
    check(s.is(&m.t, clamp(m.t.len(), m.c.saturating_sub(1))), "C07 leaving insert mode moves the cursor left");
    reach("end");
    obs(&s.text());
}

/// A complete change command with its typed text; `n` typed characters at most.
/// Returns the keys and, if it is an insertion by i/a/A/I, its count and typed text.
struct Change { cmd: Vec<Key>, typed: Vec<Key>, motion: Option<(Mo, usize)>, replace: Option<usize> }
impl Change {
    /// Types the change; false if it fails (then its text is not typed).
    fn run(&self, s: &mut Sess) -> bool {
        let (t, p) = (s.text(), s.ed.cursor());
        s.keys(&self.cmd);
        if let Some((m, k)) = self.motion {
            if target(&t, p, m, k, None).is_none() { return false }
        }
        if let Some(k) = self.replace { if k > t.len() - p { return false } }
        s.keys(&self.typed);
        true
    }
}
fn change(n: usize, counts: usize) -> Change {
    let (k, mut v) = count(counts);
    let (mut motion, mut replace) = (None, None);
    let ch = Key::Char;
    let i = choose("change", 14);
    match i {
        0 => v.push(ch('x')),
        1 => v.push(ch('D')),
        2 => { replace = Some(k); v.extend([ch('r'), ch(ascii("rc"))]) }
        3 => v.push(ch('~')),
        4 => v.extend([ch('d'), ch('d')]),
        5 | 6 => {
            v.push(ch(if i == 5 { 'd' } else { 'c' }));
            let at = |right, until| Find { c: ascii("fc"), right, until };
            let (m, mk) = match choose("m", if counts > 1 { 12 } else { 11 }) {
                0 => (Mo::W(false), vec![ch('w')]),
                1 => (Mo::B(false), vec![ch('b')]),
                2 => (Mo::E(false), vec![ch('e')]),
                3 => (Mo::L, vec![ch('l')]),
                4 => (Mo::H, vec![ch('h')]),
                5 => { let f = at(true, false); (Mo::F(f), vec![ch('f'), ch(f.c)]) }
                6 => (Mo::End, vec![ch('$')]),
                7 => (Mo::Start, vec![ch(if k > 1 { '^' } else { '0' })]),
                8 => (Mo::Ge(false), vec![ch('g'), ch('e')]),
                9 => (Mo::End, vec![Key::End]),
                10 => { let f = at(false, true); (Mo::F(f), vec![ch('T'), ch(f.c)]) }
                _ => (Mo::L, vec![ch('2'), ch('l')]),
            };
            v.extend(&mk);
            motion = Some((m, if mk[0] == ch('2') { 2 * k } else { k }));
        }
        7 => v.push(ch('s')),
        8 => v.push(ch('C')),
        9 => v.extend([ch('c'), ch('c')]),
        10 => v.push(ch('i')),
        11 => v.push(ch('a')),
        12 => v.push(ch('A')),
        _ => v.push(ch('I')),
    }
    let mut typed = vec![];
    if i >= 6 {
        let n = choose("tl", n + 1);
        for _ in 0..n { typed.push(if choose("tk", 2) == 0 { ch(ascii("tc")) } else { Key::Backspace }) }
        typed.push(Key::Esc);
    }
    Change { cmd: v, typed, motion, replace }
}
/// Dot has the effect of typing the last change again.
#[no_mangle]
pub extern "C" fn c08_dot(n: u64, kind: u64, typed: u64, counts: u64, changes: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t = text(n as usize, kind);
    let p = choose("at", t.len().max(1));
    let (mut a, mut b) = (Sess::new(&mut c, &t, p), Sess::new(&mut c2, &t, p));
    let mut last = None;
    for _ in 0..changes {
        let x = change(typed as usize, counts as usize);
        // a command that fails is not a change
        let ok = x.run(&mut a);
        x.run(&mut b);
        if ok { last = Some(x) }
        let m = [None, Some('0'), Some('$'), Some('h')][choose("mv", 4)];
        if let Some(m) = m { a.key(Key::Char(m)); b.key(Key::Char(m)) }
    }
    let x = match last { Some(x) => x, None => return };
    if a.ed.current_buffer().is_empty() { reach("empty") }
    a.key(Key::Char('.'));
    // a change that fails the second time must not run its typed text as commands
    let r = {
        x.run(&mut b);
        a.is(&b.text(), b.ed.cursor())
    };
    check(r, "C08 dot equals typing the change again");
    // and both are in the same mode
    a.key(Key::Char('Z'));
    b.key(Key::Char('Z'));
    check(a.is(&b.text(), b.ed.cursor()), "C08 dot leaves the mode the change leaves");
    reach("end");
    obs(&a.text());
}
/// Dot with a count has the effect of typing the last change with that count.
#[no_mangle]
pub extern "C" fn c08_dot_count(n: u64, kind: u64, typed: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t = text(n as usize, kind);
    let p = choose("at", t.len().max(1));
    let (mut a, mut b) = (Sess::new(&mut c, &t, p), Sess::new(&mut c2, &t, p));
    let mut x = change(typed as usize, 1);
    if !x.run(&mut a) { return }
    x.run(&mut b);
    a.key(Key::Char('0'));
    b.key(Key::Char('0'));
    a.keys(&[Key::Char('2'), Key::Char('.')]);
    x.cmd.insert(0, Key::Char('2'));
    x.motion = x.motion.map(|f| (f.0, 2));
    x.replace = x.replace.map(|_| 2);
    let ok = x.run(&mut b);
    check(a.is(&b.text(), b.ed.cursor()), "C08 dot with a count equals typing the change with that count");
    // ... and that count is the one a further dot uses
    a.key(Key::Char('0'));
    b.key(Key::Char('0'));
    a.key(Key::Char('.'));
    if ok { x.run(&mut b); } else { return }
    check(a.is(&b.text(), b.ed.cursor()), "C08 a further dot uses the count of the last one");
    reach("end");
    obs(&a.text());
}
/// u takes back whole changes.
#[no_mangle]
pub extern "C" fn c08_undo(n: u64, kind: u64, typed: u64, counts: u64, changes: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, kind);
    let p = choose("at", t.len().max(1));
    let mut s = Sess::new(&mut c, &t, p);
    // per change: the text before it, and whether it changed anything
    let mut stack: Vec<(Vec<char>, bool)> = vec![];
    for i in 0..changes {
        let before = s.text();
        if i > 0 && flag("dot") { s.key(Key::Char('.')) } else { change(typed as usize, counts as usize).run(&mut s); }
        let ch = !is(s.ed.current_buffer(), &before);
        stack.push((before, ch));
        if flag("mv") { s.key(Key::Char('0')) }
    }
    for _ in 0..changes {
        let cur = s.text();
        s.key(Key::Char('u'));
        let mut want = None;
        while let Some((before, ch)) = stack.pop() {
            if ch { want = Some(before); break }
            // a command that changed nothing may or may not have been recorded
            if is(s.ed.current_buffer(), &cur) { break }
        }
        check(is(s.ed.current_buffer(), &want.unwrap_or(cur)), "C08 u restores the text before the last change");
        check(s.ed.cursor() == clamp(s.ed.current_buffer().num_chars(), s.ed.cursor()), "C08 cursor on a character after u");
    }
    reach("end");
    obs(&s.text());
}
/// A counted insertion inserts the typed text that many times; u and dot treat it as one change.
#[no_mangle]
pub extern "C" fn c08_insert(n: u64, typed: u64) {
    set_width(80);
    let mut c = ctx();
    let t = text(n as usize, 0);
    let n = t.len();
    let p = choose("at", n.max(1));
    let mut s = Sess::new(&mut c, &t, p);
    let (k, ck) = count(3);
    let (kc, q) = [('i', p), ('a', (p + 1).min(n)), ('A', n), ('I', 0)][choose("ins", 4)];
    let x = ascii_chars(choose("tl", typed as usize + 1));
    s.keys(&ck);
    s.key(Key::Char(kc));
    for c in &x { s.key(Key::Char(*c)) }
    s.key(Key::Esc);
    let w = put(&t, q, &x.repeat(k));
    let wc = (q + x.len() * k).saturating_sub(1);
    check(s.is(&w, clamp(w.len(), wc)), "C08 a counted insertion inserts the text that many times");
    match choose("then", 3) {
        0 => {
            s.key(Key::Char('u'));
            check(is(s.ed.current_buffer(), &t), "C08 u takes back the whole insertion");
        }
        i => {
            // dot, with its own count or the old one
            let k2 = if i == 1 { k } else { 3 };
            if i == 2 { s.key(Key::Char('3')) }
            s.key(Key::Char('.'));
            let wc = clamp(w.len(), wc);
            let q = match kc { 'i' => wc, 'a' => (wc + 1).min(w.len()), 'A' => w.len(), _ => 0 };
            let w2 = put(&w, q, &x.repeat(k2));
            check(s.is(&w2, clamp(w2.len(), (q + x.len() * k2).saturating_sub(1))), "C08 dot repeats the insertion with its count");
            s.key(Key::Char('u'));
            check(is(s.ed.current_buffer(), &w) || x.is_empty(), "C08 u takes back the repetition");
        }
    }
    reach("end");
    obs(&s.text());
}

/// An insertion with a movement in it: what follows the movement is a change of its own, as if
/// started by `i`.
#[no_mangle]
pub extern "C" fn c08_move(n: u64, k: u64, m: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t = text(n as usize, 0);
    let p = choose("at", t.len().max(1));
    let (mut a, mut b) = (Sess::new(&mut c, &t, p), Sess::new(&mut c2, &t, p));
    let mut keys = vec![Key::Char(['i', 'a', 'A', 'I'][choose("ins", 4)])];
    // (the movement ends a count's insertion)
    if flag("count") { a.key(Key::Char('2')) }
    for _ in 0..choose("typed", 3) { keys.push(Key::Char(ascii("kc"))) }
    for _ in 0..=choose("moves", m as usize) { keys.push([Key::Left, Key::Right, Key::Home, Key::End, Key::Up, Key::Down][choose("mv", 6)]) }
    a.keys(&keys);
    b.keys(&keys);
    let before = a.text();
    let mut change = vec![];
    let mut changed = false;
    for _ in 0..k {
        let key = match choose("key", 3) { 0 => Key::Char(ascii("kc")), 1 => Key::Backspace, _ => Key::Delete };
        let l = a.ed.current_buffer().num_chars();
        a.key(key);
        if a.ed.current_buffer().num_chars() != l { changed = true }
        change.push(key);
    }
    a.key(Key::Esc);
    b.keys(&change);
    b.key(Key::Esc);
    check(a.is(&b.text(), b.ed.cursor()), "C08 an insertion with a movement in it is not repeated");
    if !changed { return }
    reach("changed");
    if flag("dot") {
        a.key(Key::Char('.'));
        b.key(Key::Char('i'));
        b.keys(&change);
        b.key(Key::Esc);
        check(a.is(&b.text(), b.ed.cursor()), "C08 dot repeats what was typed after the movement");
        reach("dot");
    } else {
        a.key(Key::Char('u'));
        check(is(a.ed.current_buffer(), &before), "C08 u takes back what was typed after the movement");
        a.key(Key::Char('u'));
        check(is(a.ed.current_buffer(), &t), "C08 a further u takes back what was typed before the movement");
    }
    reach("end");
    obs(&a.text());
}
/// An insertion that goes on in another entry: each text has its own changes.
#[no_mangle]
pub extern "C" fn c08_up(m: u64, k: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let d = choose("draft", 2);
    let mut e = vec!['a'];
    e.extend((0..choose("m", m as usize + 1)).map(|_| ascii("e")));
    if e.len() == d { return }
    for c in [&mut c, &mut c2] { c.history.buffers.push_back(buf(&e)); }
    let (mut a, mut b) = (Sess::new(&mut c, &[], 0), Sess::new(&mut c2, &[], 0));
    let mut keys = vec![Key::Char('i')];
    for _ in 0..d { keys.push(Key::Char('a')) }
    keys.push(Key::Up);
    a.keys(&keys);
    b.keys(&keys);
    check(is(a.ed.current_buffer(), &e), "C08 Up recalls an entry while inserting");
    let mut change = vec![];
    let mut changed = false;
    for _ in 0..k {
        let key = match choose("key", 4) { 0 => Key::Char(ascii("kc")), 1 => Key::Backspace, 2 => Key::Delete, _ => Key::Char('z') };
        let l = a.ed.current_buffer().num_chars();
        a.key(key);
        if a.ed.current_buffer().num_chars() != l { changed = true }
        change.push(key);
    }
    a.key(Key::Esc);
    b.keys(&change);
    b.key(Key::Esc);
    if !changed { return }
    reach("changed");
    match choose("then", 3) {
        0 => {
            a.key(Key::Char('u'));
            check(is(a.ed.current_buffer(), &e), "C08 u takes back what was typed in the entry");
        }
        1 => {
            a.key(Key::Char('.'));
            b.key(Key::Char('i'));
            b.keys(&change);
            b.key(Key::Esc);
            check(a.is(&b.text(), b.ed.cursor()), "C08 dot repeats what was typed in the entry");
        }
        _ => {
            a.key(Key::Char('j'));
            check(is(a.ed.current_buffer(), &vec!['a'; d]), "C08 the draft is as it was");
            a.key(Key::Char('u'));
            check(a.ed.current_buffer().is_empty(), "C08 u takes back what was typed in the draft");
            a.key(Key::Char('k'));
            reach("back");
        }
    }
    reach("end");
    obs(&a.text());
}
/// After two changes dot repeats the second one only.
#[no_mangle]
pub extern "C" fn c08_two(counts: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t: Vec<char> = "ab cd.e fg hi jk lm".chars().collect();
    let p = 7;
    let (mut a, mut b) = (Sess::new(&mut c, &t, p), Sess::new(&mut c2, &t, p));
    const X: [&str; 28] = ["x", "~", "rq", "s!\u{1b}", "iy\u{1b}", "ayz\u{1b}", "Az\u{1b}", "Iz\u{1b}", "dw", "db", "de", "d0", "d$", "dfh", "dTb", "D", "dd", "cwn\u{1b}", "cb\u{1b}", "Cn\u{1b}", "ccn\u{1b}", "c$o\u{1b}", "\u{7f}", "2x", "3rw", "d2w", "2iu\u{1b}", "dge"];
    let mut x = "";
    for _ in 0..2 {
        let was = a.text();
        x = X[choose("change", X.len() - (counts == 0) as usize * 5)];
        for k in x.chars() { let k = if k == '\u{1b}' { Key::Esc } else if k == '\u{7f}' { Key::Delete } else { Key::Char(k) }; a.key(k); b.key(k); }
        // (a command that fails is no change)
        if is(a.ed.current_buffer(), &was) { return }
        let m = [None, Some('h'), Some('0'), Some('w')][choose("mv", 4)];
        if let Some(m) = m { a.key(Key::Char(m)); b.key(Key::Char(m)) }
    }
    a.key(Key::Char('.'));
    for k in x.chars() { let k = if k == '\u{1b}' { Key::Esc } else if k == '\u{7f}' { Key::Delete } else { Key::Char(k) }; b.key(k); }
    check(a.is(&b.text(), b.ed.cursor()), "C08 dot repeats the last of several changes");
    reach("end");
    obs(&a.text());
}
