//! The default terminal: standard input and output, with libc's side of it played by the harness.
use crate::env::*;
use crate::sym::*;
use liner::*;
use std::ffi::c_void;
use std::io;

pub struct Line {
    /// what a read returns
    input: Vec<Vec<u8>>,
    pos: usize,
    out: Vec<u8>,
    attr: [u8; 60],
    /// what had been written, and whether the terminal was raw, when input was waited for
    waits: Vec<(usize, bool)>,
    no_tty: bool,
    bad: usize,
    /// the write that fails, and how many were made
    bad_write: usize,
    writes: usize,
    /// how much a write takes
    chunk: usize,
}
static mut LINE: Option<Line> = None;
#[allow(static_mut_refs)]
pub fn line() -> Option<&'static mut Line> { unsafe { LINE.as_mut() } }
const ATTR: [u32; 4] = [0o2400, 0o5, 0o277, 0o105073];
impl Line {
    fn new(input: Vec<Vec<u8>>) -> Line {
        let mut attr = [0; 60];
        for i in 0..4 { attr[4 * i..4 * i + 4].copy_from_slice(&ATTR[i].to_le_bytes()); }
        attr[17] = 3;
        Line { input, pos: 0, out: vec![], attr, waits: vec![], no_tty: false, bad: usize::MAX, bad_write: usize::MAX, writes: 0, chunk: usize::MAX }
    }
    fn flags(&self, i: usize) -> u32 { u32::from_le_bytes([self.attr[4 * i], self.attr[4 * i + 1], self.attr[4 * i + 2], self.attr[4 * i + 3]]) }
    fn raw(&self) -> bool { self.flags(3) & 0o113 == 0 && self.flags(1) & 1 == 0 && self.flags(0) & 0o400 == 0 }
    pub fn read(&mut self) -> Result<&[u8], ()> {
        self.waits.push((self.out.len(), self.raw()));
        self.pos += 1;
        if self.pos - 1 == self.bad { return Err(()) }
        Ok(self.input.get(self.pos - 1).map_or(&[], |v| &v[..]))
    }
    pub fn write(&mut self, b: &[u8]) -> Option<usize> {
        self.writes += 1;
        if self.writes - 1 == self.bad_write { return None }
        let k = b.len().min(self.chunk);
        self.out.extend_from_slice(&b[..k]);
        Some(k)
    }
    fn as_before(&self) -> bool {
        let mut ok = true;
        for i in 0..4 { ok &= self.flags(i) == ATTR[i] }
        ok
    }
}
#[no_mangle]
pub unsafe extern "C" fn tcgetattr(n: i32, t: *mut u8) -> i32 {
    match line() {
        Some(l) if n <= 2 && !l.no_tty => { std::ptr::copy_nonoverlapping(l.attr.as_ptr(), t, 60); 0 }
        _ => crate::fs::fails(25)
    }
}
#[no_mangle]
pub unsafe extern "C" fn tcsetattr(n: i32, _how: i32, t: *const u8) -> i32 {
    match line() {
        Some(l) if n <= 2 && !l.no_tty => { std::ptr::copy_nonoverlapping(t, l.attr.as_mut_ptr(), 60); 0 }
        _ => crate::fs::fails(25)
    }
}
#[no_mangle]
pub unsafe extern "C" fn cfmakeraw(t: *mut u32) {
    *t &= !0o2753;
    *t.add(1) &= !1;
    *t.add(2) = (*t.add(2) & !0o460) | 0o60;
    *t.add(3) &= !0o100113;
}
/// A terminal that gets the keys themselves.
struct Rec { keys: Vec<Key>, pos: usize, out: Vec<u8>, waits: Vec<usize>, bad: usize }
impl io::Write for Rec {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Tty for Rec {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        self.waits.push(self.out.len());
        self.pos += 1;
        if self.pos - 1 == self.bad { return Some(Err(io::ErrorKind::Other.into())) }
        self.keys.get(self.pos - 1).copied().map(Ok)
    }
    fn width(&self) -> io::Result<usize> { Ok(if unsafe { WIDTH } == 0 { 80 } else { unsafe { WIDTH as usize } }) }
}
/// Keys, and what a terminal sends for each.
fn typed(n: u64) -> (Vec<Key>, Vec<Vec<u8>>) {
    let (mut keys, mut input) = (vec![], vec![]);
    for _ in 0..n {
        let (k, i) = match choose("key", 7) {
            0 => { let c = ascii("c"); (Key::Char(c), vec![c as u8]) }
            1 => (Key::Left, b"\x1b[D".to_vec()),
            2 => (Key::Backspace, vec![0x7f]),
            3 => (Key::Ctrl('a'), vec![1]),
            4 => (Key::Char('é'), "é".as_bytes().to_vec()),
            5 => (Key::Alt('b'), b"\x1bb".to_vec()),
            _ => (Key::Char('\n'), vec![b'\r']),
        };
        keys.push(k);
        input.push(i);
    }
    (keys, input)
}
/// Reading a line from the default terminal.
#[no_mangle]
pub extern "C" fn c27_tty(n: u64, w: u64, vi: u64) {
    set_width(w as u16);
    let (keys, input) = typed(n);
    let bad = choose("bad", n as usize + 1).wrapping_sub(1);
    let mut l = Line::new(input);
    l.bad = bad;
    if flag("short") { l.chunk = 3 }
    unsafe { LINE = Some(l) }
    let a = read(vi, 1).pop().unwrap();
    let l = done();
    let mut c = Context::with_terminal(Rec { keys, pos: 0, out: vec![], waits: vec![], bad });
    if vi == 1 { c.key_bindings = KeyBindings::Vi }
    let b = c.read_line(Prompt::from("$ "), None, &mut NoComp);
    check(a.is_ok() == b.is_ok(), "C27 the same outcome");
    if let (Ok(a), Ok(b)) = (&a, &b) { reach("line"); check(crate::util::same_str(a, b), "C27 the same line") }
    if let (Err(a), Err(b)) = (&a, &b) { check((a.kind() == io::ErrorKind::UnexpectedEof) == (b.kind() == io::ErrorKind::UnexpectedEof), "C27 a failure is not the end of the input") }
    check(l.out.len() == c.terminal.out.len() && crate::util::same_bytes(&l.out, &c.terminal.out), "C27 the same output");
    check(l.as_before(), "C27 the terminal is as it was");
    for w in &l.waits { check(w.1, "C27 the terminal is raw while keys are read") }
    for w in &c.terminal.waits {
        let mut ok = false;
        for x in &l.waits { ok |= x.0 == *w }
        check(ok, "C27 everything is written before a key is waited for");
    }
    reach("end");
    observe(l.out.len() as u64);
}
/// Reads lines from the default terminal.
fn read(vi: u64, n: usize) -> Vec<io::Result<String>> {
    match Context::new() {
        Ok(mut c) => {
            if vi == 1 { c.key_bindings = KeyBindings::Vi }
            (0..n).map(|_| c.read_line(Prompt::from("$ "), None, &mut NoComp)).collect()
        }
        Err(e) => vec![Err(e)],
    }
}
#[allow(static_mut_refs)]
fn done() -> Line { unsafe { LINE.take().unwrap() } }
/// Output that fails, and standard output that is no terminal.
#[no_mangle]
pub extern "C" fn c27_fail(n: u64, k: u64, vi: u64) {
    set_width(80);
    let (_, input) = typed(n);
    let mut l = Line::new(input);
    match choose("fail", k as usize + 1) {
        0 => l.no_tty = true,
        i => l.bad_write = i - 1,
    }
    unsafe { LINE = Some(l) }
    let a = read(vi, 1).pop().unwrap();
    let l = done();
    check(l.as_before(), "C27 the terminal is as it was");
    if l.no_tty {
        reach("no terminal");
        check(a.is_err() && l.out.is_empty() && l.waits.is_empty(), "C27 what is no terminal is refused");
    } else if l.writes > l.bad_write {
        reach("failed");
        check(a.is_err(), "C27 output that fails is reported");
    } else { check(a.is_ok(), "C27 nothing else fails"); }
    reach("end");
}
/// One line after the other, keys typed ahead.
#[no_mangle]
pub extern "C" fn c27_lines(n: u64, m: u64) {
    set_width(80);
    let (keys, input) = typed(n);
    let mut l = Line::new(input);
    // (what is typed ahead comes in one piece)
    if flag("ahead") { l.input = vec![l.input.concat()] }
    unsafe { LINE = Some(l) }
    let a = read(0, m as usize);
    let l = done();
    let mut c = Context::with_terminal(Rec { keys, pos: 0, out: vec![], waits: vec![], bad: usize::MAX });
    for i in 0..m as usize {
        let b = c.read_line(Prompt::from("$ "), None, &mut NoComp);
        match (&a[i], b) {
            (Ok(a), Ok(b)) => check(crate::util::same_str(a, &b), "C27 the same lines"),
            (a, b) => check(a.is_err() && b.is_err(), "C27 the same outcomes"),
        }
    }
    check(crate::util::same_bytes(&l.out, &c.terminal.out), "C27 the same output");
    check(l.as_before(), "C27 the terminal is as it was");
    reach("end");
}
/// A long line, and lines longer than any buffer.
#[no_mangle]
pub extern "C" fn c27_long(n: u64, w: u64) {
    set_width(w as u16);
    let t = crate::util::long_text(n as usize);
    let (keys, input) = typed(1);
    let mut l = Line::new(input);
    l.chunk = [usize::MAX, 7, 1000][choose("chunk", 3)];
    unsafe { LINE = Some(l) }
    let text: String = t.iter().collect();
    let a = Context::new().unwrap().read_line_with_init_buffer(Prompt::from("$ "), &mut NoComp, None, &text[..]);
    let l = done();
    let mut c = Context::with_terminal(Rec { keys, pos: 0, out: vec![], waits: vec![], bad: usize::MAX });
    let b = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut NoComp, None, &text[..]);
    check(crate::util::same_str(&a.unwrap(), &b.unwrap()), "C27 the same line");
    check(crate::util::same_bytes(&l.out, &c.terminal.out), "C27 the same output");
    reach("end");
}
