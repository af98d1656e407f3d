//! C17: file name completion on a directory tree with arbitrary names; list completion.
use crate::{fs::*, keys::*, sym::*, util::*};
use liner::*;

fn lower(c: char) -> char { if c.is_ascii_uppercase() { (c as u8 + 32) as char } else { c } }
fn prefix(p: &[char], t: &[char], sensitive: bool) -> bool {
    if p.len() > t.len() { return false }
    let mut d = 0;
    for i in 0..p.len() { d |= if sensitive { p[i] as u32 ^ t[i] as u32 } else { lower(p[i]) as u32 ^ lower(t[i]) as u32 }; }
    d == 0
}
/// What was typed, without quotes and escapes.
fn plain(t: &[char]) -> Vec<char> {
    if t.len() > 0 && (t[0] == '"' || t[0] == '\'') {
        let e = if t.len() > 1 && t[t.len() - 1] == t[0] { t.len() - 1 } else { t.len() };
        return t[1..e].to_vec();
    }
    let mut v = vec![];
    for i in 0..t.len() { if !(t[i] == '\\' && i + 1 < t.len() && t[i + 1] == ' ') { v.push(t[i]) } }
    v
}
fn escaped(t: &[char]) -> Vec<char> {
    let mut v = vec![];
    for c in t { if *c == ' ' { v.push('\\') } v.push(*c) }
    v
}
struct Entry { dir: Vec<u8>, name: Vec<char>, is_dir: bool }
fn check_names(typed: &[char], wd: Option<&'static str>, tree: &[Entry], sensitive: bool) {
    let mut h = match wd {
        // (the case matters unless told otherwise)
        Some(w) if sensitive => FilenameCompleter::new(Some(w)),
        Some(w) => FilenameCompleter::with_case_sensitivity(Some(w), false),
        None => FilenameCompleter::with_case_sensitivity(None::<&str>, sensitive),
    };
    let got = h.completions(&string(typed));
    let p = plain(typed);
    let (mut dir, mut name) = match p.iter().rposition(|c| *c == '/') { Some(i) => (p[..i + 1].to_vec(), p[i + 1..].to_vec()), None => (vec![], p.clone()) };
    if name.len() == 2 && name[0] == '.' && name[1] == '.' { dir = p.clone(); dir.push('/'); name.clear(); reach("parent"); }
    // the directory this addresses
    let mut path: Vec<u8> = vec![];
    if dir.first() != Some(&'/') { path.extend_from_slice(wd.unwrap_or("/vfs/w").as_bytes()); path.push(b'/'); }
    path.extend(string(&dir).bytes());
    let mut want: Vec<Vec<char>> = vec![];
    if let Some(n) = fs().find(&path) {
        if !fs().nodes[n].dir { check(got.is_empty(), "C17 a file has no entries"); return }
        for e in tree {
            if e.dir != fs().nodes[n].path { continue }
            if !prefix(&name, &e.name, sensitive) { reach("other"); continue }
            let mut w = dir.clone();
            w.extend_from_slice(&e.name);
            if e.is_dir { w.push('/') }
            want.push(escaped(&w));
            reach("offered");
        }
    } else { reach("nowhere") }
    check(got.len() == want.len(), "C17 as many candidates as matching entries");
    for w in &want {
        let mut ok = false;
        for g in &got { ok |= same(&g.chars().collect::<Vec<char>>(), w); }
        check(ok, "C17 every matching entry is offered, completing what was typed");
    }
    reach("end");
    observe(got.len() as u64);
    for g in &got { observe_str(g) }
}
/// A name: no slash, no NUL, not "." or "..", no backslash (which would need an escape of its own).
fn name(n: usize) -> Vec<char> {
    let v = ascii_chars(n);
    for c in &v { assume((*c != '/') & (*c != '\\')); }
    if n == 1 { assume(v[0] != '.') }
    if n == 2 { assume((v[0] != '.') | (v[1] != '.')) }
    v
}
const FILE: usize = 3;
/// /vfs/w holds k entries with arbitrary names of up to m characters and the directory d, which holds one.
fn tree(k: u64, m: u64) -> Vec<Entry> {
    let f = reset();
    f.cwd = b"/vfs/w";
    f.dir(b"/vfs");
    f.dir(b"/vfs/w");
    f.dir(b"/vfs/w/d");
    f.file("/vfs/f", b"");
    let mut t = vec![
        Entry { dir: b"/vfs".to_vec(), name: vec!['w'], is_dir: true },
        Entry { dir: b"/vfs".to_vec(), name: vec!['f'], is_dir: false },
        Entry { dir: b"/vfs/w".to_vec(), name: vec!['d'], is_dir: true },
    ];
    for i in 0..k {
        let n = name(1 + choose("nlen", m as usize));
        // a file, a directory, a link to a directory, to a file or to nothing
        let kind = choose("kind", 5);
        let is_dir = kind == 1 || kind == 2;
        let dir: &[u8] = if i == 0 && flag("deep") { b"/vfs/w/d" } else { b"/vfs/w" };
        for e in &t { if e.dir == dir { assume(!same(&e.name, &n)) } }
        let mut p = dir.to_vec();
        p.push(b'/');
        p.extend(string(&n).bytes());
        match kind {
            0 => { f.nodes.push(Node { path: p, dir: false, data: vec![], there: true, link: None }); }
            1 => { f.dir(&p); }
            2 => { let d = f.find(b"/vfs/w/d").unwrap(); f.link(&p, d); reach("link") }
            3 => { f.link(&p, FILE); }
            _ => { f.link(&p, DANGLING); }
        }
        t.push(Entry { dir: dir.to_vec(), name: n, is_dir });
    }
    t
}
const LEAD: [&str; 10] = ["", "d/", "./", "../", "/vfs/w/", "d/../", "..", "\"", "'d/", "d//"];
/// Typed: a lead and up to n arbitrary characters.
#[no_mangle]
pub extern "C" fn c17_names(k: u64, m: u64, n: u64, wd: u64, sensitive: u64) {
    let tree = tree(k, m);
    let mut t: Vec<char> = LEAD[choose("lead", LEAD.len())].chars().collect();
    t.extend(ascii_chars(choose("len", n as usize + 1)));
    check_names(&t, [None, Some("/vfs/w"), Some("/vfs/w/d")][wd as usize], &tree, sensitive == 1);
}
/// Typed: up to n characters of the kinds that matter.
#[no_mangle]
pub extern "C" fn c17_typed(n: u64, wd: u64) {
    let mut tree = tree(0, 0);
    for e in ["a b", "ab", ".a", "..a", "\u{e9}a", "Ab"] {
        let mut p = b"/vfs/w/".to_vec();
        p.extend(e.bytes());
        fs().nodes.push(Node { path: p, dir: false, data: vec![], there: true, link: None });
        tree.push(Entry { dir: b"/vfs/w".to_vec(), name: e.chars().collect(), is_dir: false });
    }
    let t = from_set(choose("len", n as usize + 1), &['a', 'd', '.', '/', ' ', '\\', '"', '\'', '\u{e9}']);
    check_names(&t, [None, Some("/vfs/w"), Some("/vfs/w/d")][wd as usize], &tree, flag("sensitive"));
}
/// Failing directory reads lose candidates, not the session.
#[no_mangle]
pub extern "C" fn c17_fail(n: u64) {
    let _ = tree(0, 0);
    let f = fs();
    f.dir(b"/vfs/w/ab");
    f.file("/vfs/w/a", b"");
    f.file("/vfs/w/d/a", b"");
    f.fail_from = choose("from", 8);
    f.fail_to = f.fail_from + 1 + choose("for", 8);
    let t = from_set(choose("len", n as usize + 1), &['a', 'd', '.', '/']);
    let mut h = FilenameCompleter::new(Some("/vfs/w"));
    let got = h.completions(&string(&t));
    for g in &got { check(g.starts_with(&string(&t)) || t.contains(&'.'), "C17 what is offered completes what was typed"); }
    if fs().failed > 0 { reach("failed") }
    reach("end");
    observe(got.len() as u64);
}
/// A list completer offers exactly its words starting with the text.
#[no_mangle]
pub extern "C" fn c17_basic(k: u64, m: u64, n: u64) {
    let mut l = vec![];
    for _ in 0..choose("k", k as usize + 1) { l.push(any_chars(choose("m", m as usize + 1))) }
    let t = any_chars(choose("len", n as usize + 1));
    let mut h = BasicCompleter::new(l.iter().map(|c| string(c)).collect());
    let got = h.completions(&string(&t));
    let mut want = vec![];
    for c in &l { if prefix(&t, c, true) { want.push(c.clone()) } }
    check(got.len() == want.len(), "C17 a list completer offers its words starting with the text");
    for i in 0..want.len() { check(same(&got[i].chars().collect::<Vec<char>>(), &want[i]), "C17 a list completer offers its words starting with the text"); }
    reach("end");
    if want.len() > 0 { reach("offered") }
    observe(got.len() as u64);
}
