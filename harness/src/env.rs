//! Environment stand-ins shared by the symbolic and the native build: terminal size, terminal I/O.
use liner::*;
use std::io;

pub static mut WIDTH: u16 = 80;
pub fn set_width(w: u16) { unsafe { WIDTH = w } }

/// Replaces libc's `ioctl`: the only request the library makes is TIOCGWINSZ.
#[no_mangle]
pub unsafe extern "C" fn ioctl(_fd: i32, _req: u64, arg: *mut u16) -> i32 {
    *arg = 24;
    *arg.add(1) = WIDTH;
    *arg.add(2) = 0;
    *arg.add(3) = 0;
    0
}

/// Terminal: keys come from a queue, output goes to a byte vector (or nowhere). Writes and flushes
/// can be made to fail.
pub struct Term {
    pub keys: Vec<Key>,
    pub pos: usize,
    pub out: Vec<u8>,
    pub keep: bool,
    /// operations so far, the range of operations that fail, how many did
    pub ops: usize,
    pub fail: (usize, usize),
    pub failed: usize,
    pub kind: io::ErrorKind,
    /// the key that cannot be read
    pub bad_key: usize,
    /// 0: that of standard output
    pub width: usize,
}
impl Term {
    pub fn new() -> Term { Term { keys: vec![], pos: 0, out: vec![], keep: false, ops: 0, fail: (usize::MAX, usize::MAX), failed: 0, kind: io::ErrorKind::BrokenPipe, bad_key: usize::MAX, width: 0 } }
    pub fn recording() -> Term { let mut t = Term::new(); t.keep = true; t }
    fn op(&mut self) -> io::Result<()> {
        let i = self.ops;
        self.ops += 1;
        if i < self.fail.0 || i >= self.fail.1 { return Ok(()) }
        self.failed += 1;
        Err(self.kind.into())
    }
}
impl io::Write for Term {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.op()?;
        if self.keep { self.out.extend_from_slice(b); }
        Ok(b.len())
    }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> {
        self.op()?;
        if self.keep { self.out.extend_from_slice(b); }
        Ok(())
    }
    fn flush(&mut self) -> io::Result<()> { self.op() }
}
impl Tty for Term {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        let k = self.keys.get(self.pos).copied();
        self.pos += 1;
        if self.pos - 1 == self.bad_key { return Some(Err(self.kind.into())) }
        k.map(Ok)
    }
    fn width(&self) -> io::Result<usize> { Ok(if self.width > 0 { self.width } else { (unsafe { WIDTH }) as usize }) }
}

pub type Ctx = Context<Term>;
pub fn ctx() -> Ctx { Context::with_terminal(Term::new()) }

pub struct NoComp;
impl Completer for NoComp {
    fn completions(&mut self, _s: &str) -> Vec<String> { Vec::new() }
}
