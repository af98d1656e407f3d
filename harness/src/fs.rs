//! A file system under /vfs, standing in for libc's. Everything else goes to the kernel (native
//! replay) or fails (symbolic run). Operations can be made to fail.
use std::ffi::c_void;

/// (a link leads to another node, or with DANGLING nowhere)
pub struct Node { pub path: Vec<u8>, pub dir: bool, pub data: Vec<u8>, pub there: bool, pub link: Option<usize> }
pub const DANGLING: usize = usize::MAX;
#[derive(Clone, Copy)]
struct Fd { node: usize, pos: usize, append: bool, open: bool }
pub struct Fs {
    pub nodes: Vec<Node>,
    fds: Vec<Fd>,
    /// operations so far, and the range of operations that fail
    pub ops: usize,
    pub fail_from: usize,
    pub fail_to: usize,
    pub failed: usize,
    /// longest prefix a single read returns / write accepts
    pub chunk: usize,
    /// what relative paths are relative to (none: they are not ours)
    pub cwd: &'static [u8],
    list: Vec<usize>,
    list_pos: usize,
    dirent: [u8; 280],
}
static mut FS: Option<Fs> = None;
/// Start with an empty file system.
pub fn reset() -> &'static mut Fs {
    unsafe {
        FS = Some(Fs { nodes: vec![], fds: vec![], ops: 0, fail_from: usize::MAX, fail_to: usize::MAX, failed: 0, chunk: usize::MAX, cwd: b"", list: vec![], list_pos: 0, dirent: [0; 280] });
        fs()
    }
}
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs { unsafe { FS.as_mut().unwrap() } }
#[allow(static_mut_refs)]
fn active() -> bool { unsafe { FS.is_some() } }
impl Fs {
    pub fn file(&mut self, path: &str, data: &[u8]) -> usize {
        self.nodes.push(Node { path: path.as_bytes().to_vec(), dir: false, data: data.to_vec(), there: true, link: None });
        self.nodes.len() - 1
    }
    pub fn dir(&mut self, path: &[u8]) -> usize {
        self.nodes.push(Node { path: path.to_vec(), dir: true, data: vec![], there: true, link: None });
        self.nodes.len() - 1
    }
    pub fn link(&mut self, path: &[u8], to: usize) -> usize {
        self.nodes.push(Node { path: path.to_vec(), dir: false, data: vec![], there: true, link: Some(to) });
        self.nodes.len() - 1
    }
    pub fn data(&self, n: usize) -> &[u8] { &self.nodes[n].data }
    /// Does this operation fail?
    fn fail(&mut self) -> bool {
        let i = self.ops;
        self.ops += 1;
        let f = i >= self.fail_from && i < self.fail_to;
        if f { self.failed += 1; }
        f
    }
    fn exact(&self, p: &[u8]) -> Option<usize> {
        for i in 0..self.nodes.len() {
            let n = &self.nodes[i];
            if !n.there || n.path.len() != p.len() { continue }
            let mut d = 0;
            for k in 0..p.len() { d |= p[k] ^ n.path[k]; }
            if d == 0 { return Some(i) }
        }
        None
    }
    /// Where a link leads (links lead to nodes that are not links).
    fn follow(&self, n: usize) -> Option<usize> {
        match self.nodes[n].link { None => Some(n), Some(DANGLING) => None, Some(t) => Some(t) }
    }
    /// The node a path leads to; every directory on the way must exist.
    pub fn find(&self, p: &[u8]) -> Option<usize> { self.look(p).and_then(|n| self.follow(n)) }
    /// The same, but not following a link at the end.
    fn look(&self, p: &[u8]) -> Option<usize> {
        if let Some(i) = self.exact(p) { return Some(i) }
        let mut full: Vec<u8> = vec![];
        if p.first() != Some(&b'/') { full.extend_from_slice(self.cwd); full.push(b'/'); }
        full.extend_from_slice(p);
        let mut at: Vec<u8> = vec![];
        let mut i = 0;
        while i < full.len() {
            if full[i] == b'/' { i += 1; continue }
            let mut j = i;
            while j < full.len() && full[j] != b'/' { j += 1; }
            let c = &full[i..j];
            // what comes before this component has to be a directory
            if !at.is_empty() {
                let n = self.follow(self.exact(&at)?)?;
                if !self.nodes[n].dir { return None }
                at = self.nodes[n].path.clone();
            }
            if c.len() == 2 && c[0] == b'.' && c[1] == b'.' { while let Some(x) = at.pop() { if x == b'/' { break } } }
            else if !(c.len() == 1 && c[0] == b'.') { at.push(b'/'); at.extend_from_slice(c); }
            i = j;
        }
        let n = self.exact(&at)?;
        if full[full.len() - 1] == b'/' { self.follow(n).filter(|n| self.nodes[*n].dir) } else { Some(n) }
    }
}
const ENOENT: i32 = 2;
const EIO: i32 = 5;
const EBADF: i32 = 9;
const ENOTDIR: i32 = 20;
const EISDIR: i32 = 21;
extern "C" { fn __errno_location() -> *mut i32; }
fn err(e: i32) -> i64 { unsafe { *__errno_location() = e; } -1 }
pub fn fails(e: i32) -> i32 { err(e) as i32 }
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 { n += 1; }
    std::slice::from_raw_parts(p, n)
}
fn ours(p: &[u8]) -> bool { active() && (!fs().cwd.is_empty() && !p.is_empty() && p[0] != b'/' || p.len() >= 4 && p[0] == b'/' && p[1] == b'v' && p[2] == b'f' && p[3] == b's' && (p.len() == 4 || p[4] == b'/')) }
const FD0: i32 = 1000;

#[cfg(not(feature = "sym"))]
unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, lateout("rcx") _, lateout("r11") _);
    if r < 0 && r > -4096 { err(-r as i32) } else { r }
}
#[cfg(feature = "sym")]
unsafe fn raw(n: i64, _a: i64, _b: i64, c: i64, _d: i64, _e: i64) -> i64 { if n == 1 { c } else { err(ENOENT) } }

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    let path = cstr(p);
    if !ours(path) { return raw(2, p as i64, flags as i64, mode as i64, 0, 0) as i32 }
    let f = fs();
    if f.fail() { return err(EIO) as i32 }
    let n = match f.find(path) {
        Some(n) => n,
        None if flags & 0o100 != 0 => {
            f.nodes.push(Node { path: path.to_vec(), dir: false, data: vec![], there: true, link: None });
            f.nodes.len() - 1
        }
        None => return err(ENOENT) as i32,
    };
    if f.nodes[n].dir && flags & 3 != 0 { return err(EISDIR) as i32 }
    if flags & 0o1000 != 0 { f.nodes[n].data.clear(); }
    f.fds.push(Fd { node: n, pos: 0, append: flags & 0o2000 != 0, open: true });
    FD0 + f.fds.len() as i32 - 1
}
fn fd(n: i32) -> Option<usize> {
    if n < FD0 || !active() { return None }
    let i = (n - FD0) as usize;
    if i < fs().fds.len() && fs().fds[i].open { Some(i) } else { None }
}
#[no_mangle]
pub unsafe extern "C" fn read(n: i32, b: *mut u8, len: usize) -> isize {
    if n == 0 {
        if let Some(l) = crate::tty::line() {
            return match l.read() { Ok(v) => { let k = v.len().min(len); std::ptr::copy_nonoverlapping(v.as_ptr(), b, k); k as isize } Err(()) => err(EIO) as isize };
        }
    }
    let Some(i) = fd(n) else { return raw(0, n as i64, b as i64, len as i64, 0, 0) as isize };
    let f = fs();
    if f.fail() { return err(EIO) as isize }
    let d = f.fds[i];
    let data = &f.nodes[d.node].data;
    let k = len.min(data.len().saturating_sub(d.pos)).min(f.chunk);
    for j in 0..k { *b.add(j) = data[d.pos + j]; }
    f.fds[i].pos += k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(n: i32, b: *const u8, len: usize) -> isize {
    if n == 1 {
        if let Some(l) = crate::tty::line() { return match l.write(std::slice::from_raw_parts(b, len)) { Some(k) => k as isize, None => err(EIO) as isize } }
    }
    let Some(i) = fd(n) else { return raw(1, n as i64, b as i64, len as i64, 0, 0) as isize };
    let f = fs();
    if f.fail() { return err(EIO) as isize }
    let d = f.fds[i];
    let k = len.min(f.chunk);
    let data = &mut f.nodes[d.node].data;
    let pos = if d.append { data.len() } else { d.pos };
    for j in 0..k {
        let c = *b.add(j);
        if pos + j < data.len() { data[pos + j] = c } else { data.push(c) }
    }
    f.fds[i].pos = pos + k;
    k as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(n: i32) -> i32 {
    match fd(n) { None => raw(3, n as i64, 0, 0, 0, 0) as i32, Some(i) => { fs().fds[i].open = false; 0 } }
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(n: i32, off: i64, whence: i32) -> i64 {
    let Some(i) = fd(n) else { return raw(8, n as i64, off, whence as i64, 0, 0) };
    let f = fs();
    let base = match whence { 0 => 0, 1 => f.fds[i].pos as i64, _ => f.nodes[f.fds[i].node].data.len() as i64 };
    f.fds[i].pos = (base + off) as usize;
    base + off
}
unsafe fn fill(st: *mut u8, n: usize) {
    let f = fs();
    for i in 0..256 { *st.add(i) = 0; }
    *(st as *mut u32) = 0x17ff;
    *(st.add(28) as *mut u16) = if f.nodes[n].dir { 0o40755 } else if f.nodes[n].link.is_some() { 0o120777 } else { 0o100644 };
    *(st.add(40) as *mut u64) = f.nodes[n].data.len() as u64;
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, p: *const u8, flags: i32, mask: u32, st: *mut u8) -> i32 {
    if p.is_null() { return err(14) as i32 } // std's probe
    let path = cstr(p);
    if path.is_empty() {
        if let Some(i) = fd(dir) {
            if fs().fail() { return err(EIO) as i32 }
            fill(st, fs().fds[i].node);
            return 0;
        }
    }
    if !ours(path) { return raw(332, dir as i64, p as i64, flags as i64, mask as i64, st as i64) as i32 }
    if fs().fail() { return err(EIO) as i32 }
    let n = if flags & 0x100 != 0 { fs().look(path) } else { fs().find(path) };
    match n { Some(n) => { fill(st, n); 0 } None => err(ENOENT) as i32 }
}
/// Only one directory stream at a time.
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const u8) -> *mut c_void {
    let path = cstr(p);
    if !ours(path) { err(ENOENT); return std::ptr::null_mut() }
    let f = fs();
    if f.fail() { err(EIO); return std::ptr::null_mut() }
    match f.find(path) {
        None => { err(ENOENT); std::ptr::null_mut() }
        Some(n) if !f.nodes[n].dir => { err(ENOTDIR); std::ptr::null_mut() }
        Some(n) => {
            let l = f.nodes[n].path.len();
            f.list = (0..f.nodes.len()).filter(|i| {
                // (lengths are concrete, so is where the last slash is)
                let q = &f.nodes[*i];
                *i != n && q.there && q.path.len() > l + 1 && q.path[..l] == f.nodes[n].path[..] && q.path[l] == b'/' && !q.path[l + 1..].contains(&b'/')
            }).collect();
            f.list_pos = 0;
            8 as *mut c_void
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(_d: *mut c_void) -> *mut u8 {
    let f = fs();
    if f.fail() { err(EIO); return std::ptr::null_mut() }
    if f.list_pos >= f.list.len() { return std::ptr::null_mut() }
    let n = f.list[f.list_pos];
    f.list_pos += 1;
    let path = &f.nodes[n].path;
    // the last component (names contain no slash)
    let mut s = path.len();
    while s > 0 && path[s - 1] != b'/' { s -= 1; }
    for i in 0..280 { f.dirent[i] = 0; }
    f.dirent[0] = 1 + n as u8;
    f.dirent[16] = 24;
    f.dirent[18] = if f.nodes[n].dir { 4 } else if f.nodes[n].link.is_some() { 10 } else { 8 };
    for i in s..path.len() { f.dirent[19 + i - s] = path[i]; }
    f.dirent.as_mut_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn closedir(_d: *mut c_void) -> i32 { let _ = EBADF; 0 }
#[no_mangle]
pub unsafe extern "C" fn dirfd(_d: *mut c_void) -> i32 { FD0 + 500 }
#[cfg(feature = "sym")]
#[no_mangle]
pub unsafe extern "C" fn memchr(p: *const u8, c: i32, n: usize) -> *const u8 {
    for i in 0..n { if *p.add(i) == c as u8 { return p.add(i) } }
    std::ptr::null()
}
/// (std checks in debug builds that a descriptor it closes is open)
#[cfg(not(feature = "sym"))]
#[no_mangle]
pub unsafe extern "C" fn fcntl(n: i32, cmd: i32, arg: i64) -> i32 {
    if n >= FD0 && active() { 0 } else { raw(72, n as i64, cmd as i64, arg, 0, 0) as i32 }
}

// What the crate does not use today, but another way of writing the same code may.
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(n: i32, len: i64) -> i32 {
    let Some(i) = fd(n) else { return raw(77, n as i64, len, 0, 0, 0) as i32 };
    let f = fs();
    if f.fail() { return err(EIO) as i32 }
    let k = f.fds[i].node;
    f.nodes[k].data.resize(len as usize, 0);
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(n: i32) -> i32 {
    if fd(n).is_none() { return raw(74, n as i64, 0, 0, 0, 0) as i32 }
    if fs().fail() { err(EIO) as i32 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(n: i32) -> i32 {
    if fd(n).is_none() { return raw(75, n as i64, 0, 0, 0, 0) as i32 }
    if fs().fail() { err(EIO) as i32 } else { 0 }
}
#[no_mangle]
pub unsafe extern "C" fn flock(n: i32, op: i32) -> i32 {
    if fd(n).is_none() { return raw(73, n as i64, op as i64, 0, 0, 0) as i32 }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(n: i32, mode: u32) -> i32 {
    if fd(n).is_none() { return raw(91, n as i64, mode as i64, 0, 0, 0) as i32 }
    0
}
#[no_mangle]
pub unsafe extern "C" fn pread64(n: i32, b: *mut u8, len: usize, off: i64) -> isize {
    let Some(i) = fd(n) else { return raw(17, n as i64, b as i64, len as i64, off, 0) as isize };
    let at = fs().fds[i].pos;
    fs().fds[i].pos = off as usize;
    let k = read(n, b, len);
    fs().fds[i].pos = at;
    k
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(n: i32, b: *const u8, len: usize, off: i64) -> isize {
    let Some(i) = fd(n) else { return raw(18, n as i64, b as i64, len as i64, off, 0) as isize };
    let at = fs().fds[i].pos;
    fs().fds[i].pos = off as usize;
    let k = write(n, b, len);
    fs().fds[i].pos = at;
    k
}
#[repr(C)]
pub struct Iovec { base: *mut u8, len: usize }
#[no_mangle]
pub unsafe extern "C" fn writev(n: i32, v: *const Iovec, count: i32) -> isize {
    if cfg!(not(feature = "sym")) && fd(n).is_none() { return raw(20, n as i64, v as i64, count as i64, 0, 0) as isize }
    let mut done = 0;
    for i in 0..count as usize {
        let x = &*v.add(i);
        if x.len == 0 { continue }
        let k = write(n, x.base, x.len);
        if k < 0 { return if done > 0 { done } else { -1 } }
        done += k;
        if (k as usize) < x.len { break }
    }
    done
}
#[no_mangle]
pub unsafe extern "C" fn readv(n: i32, v: *const Iovec, count: i32) -> isize {
    if cfg!(not(feature = "sym")) && fd(n).is_none() { return raw(19, n as i64, v as i64, count as i64, 0, 0) as isize }
    for i in 0..count as usize {
        let x = &*v.add(i);
        if x.len > 0 { return read(n, x.base, x.len) }
    }
    0
}
/// (the new name's node keeps its number, and takes the old name's text)
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    let (p, q) = (cstr(a), cstr(b));
    if !ours(p) || !ours(q) { return raw(82, a as i64, b as i64, 0, 0, 0) as i32 }
    let f = fs();
    if f.fail() { return err(EIO) as i32 }
    let Some(i) = f.look(p) else { return err(ENOENT) as i32 };
    match f.look(q) {
        Some(j) if j == i => {}
        Some(j) => {
            if f.nodes[j].dir { return err(EISDIR) as i32 }
            f.nodes[j].data = f.nodes[i].data.clone();
            f.nodes[j].link = f.nodes[i].link;
            f.nodes[i].there = false;
        }
        None => f.nodes[i].path = q.to_vec(),
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const u8) -> i32 {
    let p = cstr(a);
    if !ours(p) { return raw(87, a as i64, 0, 0, 0, 0) as i32 }
    let f = fs();
    if f.fail() { return err(EIO) as i32 }
    match f.look(p) { None => err(ENOENT) as i32, Some(i) if f.nodes[i].dir => err(EISDIR) as i32, Some(i) => { f.nodes[i].there = false; 0 } }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const u8, mode: u32) -> i32 {
    let p = cstr(a);
    if !ours(p) { return raw(83, a as i64, mode as i64, 0, 0, 0) as i32 }
    let f = fs();
    if f.fail() { return err(EIO) as i32 }
    if f.look(p).is_some() { return err(17) as i32 }
    f.dir(p);
    0
}
#[no_mangle]
pub unsafe extern "C" fn readlink(a: *const u8, b: *mut u8, len: usize) -> isize {
    let p = cstr(a);
    if !ours(p) { return raw(89, a as i64, b as i64, len as i64, 0, 0) as isize }
    let f = fs();
    if f.fail() { return err(EIO) as isize }
    let Some(i) = f.look(p) else { return err(ENOENT) as isize };
    let to: &[u8] = match f.nodes[i].link { None => return err(22) as isize, Some(DANGLING) => b"/vfs/nowhere", Some(t) => &f.nodes[t].path };
    let k = to.len().min(len);
    for j in 0..k { *b.add(j) = to[j]; }
    k as isize
}
/// Symbolic runs only: the rest of a process's surroundings.
#[cfg(feature = "sym")]
mod outside {
    use super::*;
    extern "C" { fn malloc(n: usize) -> *mut u8; }
    #[no_mangle]
    pub unsafe extern "C" fn getcwd(b: *mut u8, len: usize) -> *mut u8 {
        let w: &[u8] = if active() && !fs().cwd.is_empty() { fs().cwd } else { b"/" };
        if w.len() >= len { err(34); return std::ptr::null_mut() }
        for j in 0..w.len() { *b.add(j) = w[j]; }
        *b.add(w.len()) = 0;
        b
    }
    #[no_mangle]
    pub unsafe extern "C" fn realpath(a: *const u8, _b: *mut u8) -> *mut u8 {
        let p = cstr(a);
        if !ours(p) || fs().fail() { err(ENOENT); return std::ptr::null_mut() }
        match fs().find(p) {
            None => { err(ENOENT); std::ptr::null_mut() }
            Some(n) => {
                let q = &fs().nodes[n].path;
                let r = malloc(q.len() + 1);
                for j in 0..q.len() { *r.add(j) = q[j]; }
                *r.add(q.len()) = 0;
                r
            }
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn access(a: *const u8, _mode: i32) -> i32 {
        let p = cstr(a);
        if ours(p) && fs().find(p).is_some() { 0 } else { err(ENOENT) as i32 }
    }
    #[no_mangle]
    pub unsafe extern "C" fn isatty(_n: i32) -> i32 { 1 }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut i64) -> i32 { *t = 1_000_000; *t.add(1) = 0; 0 }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(_t: *const i64, _r: *mut i64) -> i32 { 0 }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> i32 { 77 }
    #[no_mangle]
    pub unsafe extern "C" fn fstat64(n: i32, _st: *mut u8) -> i32 { let _ = n; err(38) as i32 }
}
