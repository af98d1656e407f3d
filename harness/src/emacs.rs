//! C05: Emacs commands against a reference model.
use crate::{env::*, keys::*, sym::*, util::*};
use liner::*;

/// Words of a line by the specification: maximal runs of characters other than unescaped spaces.
/// A space is escaped when the character before it is a backslash.
pub fn ref_words(t: &[char]) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = None;
    for i in 0..t.len() {
        let sep = t[i] == ' ' && !(i > 0 && t[i - 1] == '\\');
        match (start, sep) {
            (None, false) => start = Some(i),
            (Some(s), true) => { v.push((s, i)); start = None }
            _ => {}
        }
    }
    if let Some(s) = start { v.push((s, t.len())) }
    v
}

#[derive(Clone)]
pub struct Model {
    pub t: Vec<char>,
    pub c: usize,
    pub undo: Vec<Vec<char>>,
}
impl Model {
    pub fn new(t: &[char], c: usize) -> Model { Model { t: t.to_vec(), c, undo: vec![] } }
    fn save(&mut self) { let t = self.t.clone(); self.undo.push(t); }
    pub fn insert(&mut self, s: &[char]) {
        self.save();
        let tail = self.t.split_off(self.c);
        self.t.extend_from_slice(s);
        self.t.extend_from_slice(&tail);
        self.c += s.len();
    }
    pub fn delete(&mut self, a: usize, b: usize) {
        self.save();
        let tail = self.t.split_off(b);
        self.t.truncate(a);
        self.t.extend_from_slice(&tail);
        self.c = a;
    }
    /// Applies an Emacs editing key (no history).
    pub fn key(&mut self, k: Key, words: &dyn Fn(&[char]) -> Vec<(usize, usize)>) {
        let n = self.t.len();
        match k {
            Key::Char(c) => self.insert(&[c]),
            Key::Left | Key::Ctrl('b') => self.c = self.c.saturating_sub(1),
            Key::Right | Key::Ctrl('f') => self.c = (self.c + 1).min(n),
            Key::Home | Key::Ctrl('a') => self.c = 0,
            Key::End | Key::Ctrl('e') => self.c = n,
            Key::Backspace | Key::Ctrl('h') => if self.c > 0 { self.delete(self.c - 1, self.c) },
            Key::Delete | Key::Ctrl('d') => if self.c < n { self.delete(self.c, self.c + 1) },
            Key::Ctrl('u') => self.delete(0, self.c),
            Key::Ctrl('k') => self.delete(self.c, n),
            Key::Ctrl('w') | Key::Alt('\x7f') => {
                // the word the cursor is in or after, up to the cursor
                if let Some(&(s, _)) = words(&self.t).iter().rev().find(|w| w.0 < self.c) { self.delete(s, self.c) }
            }
            Key::Alt('b') => if let Some(&(s, _)) = words(&self.t).iter().rev().find(|w| w.0 < self.c) { self.c = s },
            Key::Alt('f') => if let Some(&(_, e)) = words(&self.t).iter().find(|w| w.1 > self.c) { self.c = e },
            Key::Ctrl('x') => if let Some(t) = self.undo.pop() { self.t = t; self.c = self.t.len() },
            Key::Alt('r') => if !self.undo.is_empty() { self.t = self.undo[0].clone(); self.undo.clear(); self.c = self.t.len() },
            _ => {}
        }
    }
}

pub fn edit_key() -> Key {
    match choose("key", 25) {
        0 => Key::Char(ascii("kc")),
        1 => Key::Left, 2 => Key::Ctrl('b'), 3 => Key::Right, 4 => Key::Ctrl('f'),
        5 => Key::Home, 6 => Key::Ctrl('a'), 7 => Key::End, 8 => Key::Ctrl('e'),
        9 => Key::Backspace, 10 => Key::Ctrl('h'), 11 => Key::Delete, 12 => Key::Ctrl('d'),
        13 => Key::Ctrl('u'), 14 => Key::Ctrl('k'), 15 => Key::Ctrl('w'), 16 => Key::Alt('\x7f'),
        17 => Key::Alt('b'), 18 => Key::Alt('f'), 19 => Key::Ctrl('x'), 20 => Key::Alt('r'),
        21 => Key::Ctrl('l'), 22 => Key::Null, 23 => Key::Esc,
        _ => Key::F(5),
    }
}
/// The commands that differ from one another (aliases left out).
pub fn core_key() -> Key {
    match choose("key", 14) {
        0 => Key::Char(ascii("kc")),
        1 => Key::Left, 2 => Key::Right, 3 => Key::Home, 4 => Key::End,
        5 => Key::Backspace, 6 => Key::Delete, 7 => Key::Ctrl('u'), 8 => Key::Ctrl('k'), 9 => Key::Ctrl('w'),
        10 => Key::Alt('b'), 11 => Key::Alt('f'), 12 => Key::Ctrl('x'),
        _ => Key::Alt('r'),
    }
}

pub fn compare(ed: &Editor<&mut Ctx>, m: &Model) {
    check(is(ed.current_buffer(), &m.t), "C05 text after the command");
    check(ed.cursor() == m.c, "C05 cursor after the command");
}
fn run<D: Fn(&[char]) -> Vec<(usize, usize)>>(mut ed: Editor<&mut Ctx>, t: &[char], k: u64, key: fn() -> Key, words: D) {
    let p = choose("at", t.len() + 1);
    ed.move_cursor_to(p).unwrap();
    let mut m = Model::new(t, p);
    let mut km = Emacs::new();
    for _ in 0..k {
        let key = key();
        if key == Key::Ctrl('d') && m.t.is_empty() { break }
        let r = km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        check(!r, "C05 the command does not end the line");
        m.key(key, &words);
        compare(&ed, &m);
    }
    reach("end");
    observe(ed.cursor() as u64);
    obs(&chars(ed.current_buffer()));
}
/// Text of up to n printable ASCII characters, cursor anywhere, k arbitrary editing keys.
#[no_mangle]
pub extern "C" fn c05_keys(n: u64, k: u64, all: u64) {
    set_width(80);
    let mut c = ctx();
    let t = ascii_chars(choose("len", n as usize + 1));
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    run(ed, &t, k, if all == 1 { edit_key } else { core_key }, ref_words);
}
/// One key on a line of exactly n characters of the kinds word character, space, backslash,
/// newline, wide.
#[no_mangle]
pub extern "C" fn c05_word(n: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let t: Vec<char> = (0..n).map(|i| if i % 2 == 0 { ascii("c") } else { *[ascii("c"), '\u{4e16}', '\n'].get(choose("wc", 3)).unwrap() }).collect();
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    fn word_key() -> Key { [Key::Ctrl('w'), Key::Alt('b'), Key::Alt('f'), Key::Alt('\x7f'), Key::Left, Key::Backspace, Key::Delete][choose("key", 7)] }
    run(ed, &t, k, word_key, ref_words);
}
/// A word divider of the user's: arbitrary separated words on the initial line.
#[no_mangle]
pub extern "C" fn c05_divider(n: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    // characters that start or continue a word, by an arbitrary relation
    let sep = ascii("sep");
    c.word_divider_fn = Box::new(move |b| div(&chars(b), sep));
    let t = ascii_chars(choose("len", n as usize + 1));
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    run(ed, &t, k, core_key, move |t| div(t, sep));
}
fn div(t: &[char], sep: char) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < t.len() {
        if t[i] == sep { i += 1; continue }
        let s = i;
        while i < t.len() && t[i] != sep { i += 1 }
        v.push((s, i));
    }
    v
}

pub fn last_word(t: &[char]) -> Option<Vec<char>> {
    let mut e = t.len();
    while e > 0 && t[e - 1] == ' ' { e -= 1 }
    let mut s = e;
    while s > 0 && t[s - 1] != ' ' { s -= 1 }
    if s < e { Some(t[s..e].to_vec()) } else { None }
}
/// Last-argument recall, interleaved with other keys.
#[no_mangle]
pub extern "C" fn c05_lastarg(h: u64, n: u64, d: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, choose("h", h as usize + 1), n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let p = choose("at", t.len() + 1);
    ed.move_cursor_to(p).unwrap();
    let mut m = Model::new(&t, p);
    let mut last: Option<(usize, usize)> = None;
    let mut km = Emacs::new();
    for _ in 0..k {
        let key = [Key::Alt('.'), Key::Char('x'), Key::Left, Key::Backspace, Key::Alt('b'), Key::Ctrl('x')][choose("key", 6)];
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        if key == Key::Alt('.') {
            let next = match last { None => hist.len().checked_sub(1), Some((0, _)) => None, Some((i, _)) => Some(i - 1) };
            if let Some(i) = next {
                if let Some((_, l)) = last { if l > 0 { m.delete(m.c - l, m.c) } }
                let w = last_word(&hist[i]).unwrap_or_default();
                if !w.is_empty() { m.insert(&w) }
                last = Some((i, w.len()));
                reach("recalled");
            }
        } else {
            last = None;
            m.key(key, &ref_words);
        }
        compare(&ed, &m);
    }
    reach("end");
    obs(&chars(ed.current_buffer()));
}
/// Last-argument recall while a history entry is shown starts at that entry.
#[no_mangle]
pub extern "C" fn c05_lastarg_recalled(h: u64, n: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut km = Emacs::new();
    let u = 1 + choose("up", h as usize);
    for _ in 0..u { km.handle_key(Key::Up, &mut ed, &mut NoComp).unwrap(); }
    let at = hist.len() - u;
    let mut m = Model::new(&hist[at], hist[at].len());
    compare(&ed, &m);
    let r = 1 + choose("rep", h as usize);
    let mut prev = 0;
    for j in 0..r {
        km.handle_key(Key::Alt('.'), &mut ed, &mut NoComp).unwrap();
        if j > at { break }
        if j > 0 && prev > 0 { m.delete(m.c - prev, m.c) }
        let w = last_word(&hist[at - j]).unwrap_or_default();
        if !w.is_empty() { m.insert(&w) }
        prev = w.len();
        compare(&ed, &m);
    }
    reach("end");
    obs(&chars(ed.current_buffer()));
}
