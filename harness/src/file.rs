//! C14, C15: the history file.
use crate::{fs::*, keys::*, session::*, sym::*, util::*};
use liner::*;

pub const F: &str = "/vfs/history";
fn line(n: usize) -> Vec<char> { ascii_chars(n) }
pub fn join(m: &[Vec<char>]) -> Vec<u8> {
    let mut v = vec![];
    for e in m { v.extend(string(e).into_bytes()); v.push(b'\n'); }
    v
}
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// Only the newest copy of each entry.
pub fn newest(m: &[Vec<char>]) -> Vec<Vec<char>> {
    let mut v: Vec<Vec<char>> = vec![];
    for i in 0..m.len() { if !m[i + 1..].iter().any(|x| same(x, &m[i])) { v.push(m[i].clone()) } }
    v
}
pub fn last(m: &[Vec<char>], n: usize) -> Vec<Vec<char>> { m[m.len().saturating_sub(n)..].to_vec() }
/// What is there after loading file entries `f` on top of `old`.
pub fn loaded(old: &[Vec<char>], f: &[Vec<char>], max: usize, dups: bool) -> Vec<Vec<char>> {
    let mut v = old.to_vec();
    v.extend(f.iter().filter(|e| e.first() != Some(&'#')).cloned());
    let v = last(&v, max);
    if dups { v } else { newest(&v) }
}

/// Commit h entries of at most n characters, load them into a history of g entries.
#[no_mangle]
pub extern "C" fn c14_roundtrip(h: u64, n: u64, g: u64) {
    let f = reset();
    let mut a = History::new();
    let mut m = vec![];
    for _ in 0..h {
        let t = line(choose("len", n as usize + 1));
        a.buffers.push_back(buf(&t));
        m.push(t);
    }
    let max = 1 + choose("max", h as usize + 1);
    a.set_max_file_size(max);
    // an older, longer file is replaced
    let old = choose("old", 3);
    if old > 0 { f.file(F, if old == 1 { b"" } else { b"older\nentries\nof\nsome\nlength\n" }); }
    let named = flag("named");
    if named {
        a.set_file_name_and_load_history(F).unwrap();
        // (loading replaced the entries)
        a.buffers.clear();
        for t in &m { a.buffers.push_back(buf(t)); }
        check(a.file_name() == Some(F), "C14 the file name is remembered");
        a.commit_to_file();
    } else {
        check(a.commit_to_file_path(F).is_ok(), "C14 committing succeeds");
    }
    let kept = last(&m, max);
    check(eq(fs().data(0), &join(&kept)), "C14 the file holds the newest entries in order");
    let mut b = History::new();
    let mut g0 = vec![];
    for _ in 0..g {
        let t = line(choose("glen", n as usize + 1));
        b.buffers.push_back(buf(&t));
        g0.push(t);
    }
    let (dups, append) = (flag("dups"), flag("append"));
    b.load_duplicates = dups;
    let bmax = 1 + choose("bmax", 3);
    let bmax = if bmax == 3 { 1000 } else { bmax };
    b.set_max_file_size(bmax);
    let r = b.load_history_file(F, append);
    check(r.ok() == Some(fs().data(0).len() as u64), "C14 loading returns the size of the file");
    let w = loaded(if append { &g0 } else { &[] }, &kept, bmax, dups);
    check(intact(&b, &w), "C14 loading gives the entries of the file");
    check(eq(fs().data(0), &join(&kept)), "C14 loading leaves the file alone");
    reach("end");
    observe(b.len() as u64);
}
/// Load a file of n arbitrary bytes.
#[no_mangle]
pub extern "C" fn c14_load(n: u64, kind: u64) {
    let f = reset();
    let len = choose("len", n as usize + 1);
    let mut d: Vec<u8> = vec![];
    for _ in 0..len {
        let b = if kind == 0 { let b = u8v("b"); assume(b < 0x80); assume(b != b'\r'); b } else { [b'a', b'#', b'\n', 0xc3, 0xa9][choose("b", 5)] };
        d.push(b);
    }
    f.file(F, &d);
    // the lines that are text and no comments
    let mut w: Vec<Vec<char>> = vec![];
    let mut cur: Vec<u8> = vec![];
    for i in 0..=d.len() {
        if i == d.len() && cur.is_empty() { break }
        if i == d.len() || d[i] == b'\n' {
            match String::from_utf8(std::mem::take(&mut cur)) {
                Ok(s) => if !s.starts_with('#') { w.push(s.chars().collect()) } else { reach("comment") },
                Err(_) => reach("garbage"),
            }
        } else { cur.push(d[i]) }
    }
    let mut b = History::new();
    // (on, unless told otherwise)
    let dups = match choose("dups", 3) { 2 => true, d => { b.load_duplicates = d == 1; d == 1 } };
    let bmax = [1000, 1, 2][choose("bmax", 3)];
    b.set_max_file_size(bmax);
    // (what was there before is replaced, or kept)
    let old: Vec<Vec<char>> = [vec![], vec![vec!['o']], vec![vec!['a'], vec!['o']]][choose("old", 3)].clone();
    for e in &old { b.buffers.push_back(buf(e)) }
    let how = choose("how", 3);
    let w = if how == 2 && d.is_empty() { old.clone() } else { loaded(if how == 2 { &old } else { &[] }, &w, bmax, dups) };
    let r = match how { 0 => b.load_history_file(F, false), 1 => b.set_file_name_and_load_history(F), _ => b.load_history_file(F, true) };
    check(r.ok() == Some(d.len() as u64), "C14 loading returns the size of the file");
    check(intact(&b, &w), "C14 loading gives the lines of the file that are no comments");
    if how == 1 {
        check(b.file_size == d.len() as u64, "C14 the file size is remembered");
        // nothing has changed, so reloading changes nothing
        check(b.load_history(false).is_ok(), "C14 reloading succeeds");
        check(intact(&b, &w), "C14 reloading an unchanged file changes nothing");
    }
    check(eq(fs().data(0), &d), "C14 loading leaves the file alone");
    reach("end");
    observe(b.len() as u64);
}

// ---------------------------------------------------------------- C15

fn not_comment(m: &[Vec<char>]) -> Vec<Vec<char>> { m.iter().filter(|e| e.first() != Some(&'#')).cloned().collect() }
/// The lines of the file.
pub fn lines() -> Vec<Vec<char>> {
    let d = fs().data(0);
    let mut v = vec![];
    let mut cur = vec![];
    for b in d { if *b == b'\n' { v.push(std::mem::take(&mut cur)) } else { cur.push(*b as char) } }
    v
}
pub fn same_all(a: &[Vec<char>], b: &[Vec<char>]) -> bool {
    if a.len() != b.len() { return false }
    let mut r = true;
    for i in 0..a.len() { r &= same(&a[i], &b[i]); }
    r
}
fn subset(a: &[Vec<char>], b: &[Vec<char>]) -> bool { a.iter().all(|x| b.iter().any(|y| same(x, y))) }
struct Ses { h: History, mem: Vec<Vec<char>>, seen: usize, len: usize }
fn session(share: bool, dups: bool, max: usize) -> Ses {
    let mut h = History::new();
    h.inc_append = true;
    h.share = share;
    h.load_duplicates = dups;
    h.set_max_file_size(max);
    h.set_file_name_and_load_history(F).unwrap();
    let mem = loaded(&[], &lines(), max, dups);
    Ses { h, mem, seen: lines().len(), len: fs().data(0).len() }
}
fn memory(h: &History) -> Vec<Vec<char>> { h.buffers.iter().map(chars).collect() }
/// Two sessions push and reload; fewer than 30 writes.
#[no_mangle]
pub extern "C" fn c15_append(share: u64, n: u64, k: u64) {
    let f = reset();
    let start = choose("start", 3);
    f.file(F, [&b""[..], b"old\n", b"# x\nold\nold\n"][start]);
    let mut all = lines();
    let (dups, keep) = (flag("dups"), flag("keep"));
    let max = [1000, 1, 2][choose("max", 3)];
    let mut s = [session(share == 1, dups, max), session(share == 1, dups, max)];
    for _ in 0..k {
        let op = choose("op", if share == 1 { 4 } else { 2 });
        let x = &mut s[op & 1];
        if op < 2 {
            let t = line(choose("len", n as usize + 1));
            x.h.append_duplicate_entries = keep;
            check(x.h.push(buf(&t)).is_ok(), "C15 push succeeds");
            if keep || !x.mem.last().map_or(false, |l| same(l, &t)) {
                x.mem.push(t.clone());
                if x.seen == all.len() { x.seen += 1 }
                all.push(t);
                reach("pushed");
            } else { reach("again") }
        } else {
            check(x.h.load_history(false).is_ok(), "C15 reload succeeds");
            if x.seen != all.len() {
                x.mem = loaded(&[], &all, max, dups);
                x.seen = all.len();
                reach("reloaded");
            }
        }
        check(same_all(&lines(), &all), "C15 the file has every pushed entry in order");
        for x in &s { check(intact(&x.h, &x.mem), "C15 memory has the session's entries and those loaded"); }
    }
    // commit has nothing to do
    if flag("commit") { s[0].h.commit_to_file(); check(same_all(&lines(), &all), "C15 committing keeps the appended entries"); }
    reach("end");
}
/// As above around the write that compacts the file.
#[no_mangle]
pub extern "C" fn c15_compact(share: u64, n: u64, k: u64, before: u64) {
    let f = reset();
    f.file(F, b"old\nb\n");
    let max = [1000, 3, 2][choose("max", 3)];
    let mut s = [session(share == 1, false, max), session(share == 1, false, max)];
    let mut all = lines();
    for i in 0..before {
        // the entries before are the same two over and over
        let t = [vec!['a'], vec!['b']][(i & 1) as usize].clone();
        s[0].h.push(buf(&t)).unwrap();
        all.push(t);
    }
    let mut writes = before;
    for _ in 0..k {
        let op = choose("op", if share == 1 { 4 } else { 2 });
        let x = &mut s[op & 1];
        if op < 2 {
            let t = line(choose("len", n as usize + 1));
            x.h.append_duplicate_entries = true;
            let old = lines();
            check(x.h.push(buf(&t)).is_ok(), "C15 push succeeds");
            all.push(t.clone());
            if op == 0 { writes += 1 }
            let now = lines();
            if op == 0 && writes == 30 {
                let want = loaded(&[], &[&old[..], &[t.clone()]].concat(), max, false);
                check(same_all(&not_comment(&now), &want), "C15 compaction keeps the newest copy of the newest entries");
                reach("compacted");
            } else {
                check(same_all(&now, &[&old[..], &[t.clone()]].concat()), "C15 the file has every pushed entry in order");
            }
            let m = memory(&x.h);
            // (a shared history reads back what it wrote, and comments do not come back)
            check(m.last().map_or(false, |l| same(l, &t)) || writes == 30 && op == 0 && share == 1 && t.first() == Some(&'#'), "C15 the pushed entry is the newest in memory");
        } else {
            let len = x.h.file_size == fs().data(0).len() as u64;
            let before = memory(&x.h);
            check(x.h.load_history(false).is_ok(), "C15 reload succeeds");
            if len { check(intact(&x.h, &before), "C15 nothing to reload"); }
            else { check(intact(&x.h, &loaded(&[], &lines(), max, false)), "C15 entries of the other session appear after a reload"); reach("reloaded") }
        }
        if max == 1000 { check(subset(&not_comment(&all), &lines()), "C15 no pushed entry is lost"); }
    }
    reach("end");
}
/// Failing file operations.
#[no_mangle]
pub extern "C" fn c15_fail(share: u64, n: u64, k: u64, before: u64) {
    let f = reset();
    f.file(F, b"old\nb\n");
    let mut s = session(share == 1, flag("dups"), [1000, 2][choose("max", 2)]);
    for i in 0..before { s.h.push(buf(&[['a', 'b'][(i & 1) as usize]])).unwrap(); }
    let mut grown = fs().data(0).to_vec();
    fs().ops = 0;
    fs().fail_from = choose("fail", 8);
    fs().fail_to = if flag("ever") { usize::MAX } else { fs().fail_from + 1 };
    for _ in 0..k {
        let was = memory(&s.h);
        match choose("op", 3) {
            0 => {
                let t = line(choose("len", n as usize + 1));
                let r = s.h.push(buf(&t));
                check(r.is_ok(), "C15 push keeps the entry in memory whatever happens to the file");
                let m = memory(&s.h);
                // (nothing is lost, but what a shared history reads back has no comments and no duplicates)
                if m.len() != was.len() || !same_all(&m, &was) {
                    check(subset(&not_comment(&[t.clone()]), &m), "C15 a pushed entry is in memory");
                }
                if before < 28 {
                    let mut w = was;
                    if !w.last().map_or(false, |l| same(l, &t)) { w.push(t) }
                    check(same_all(&m, &w), "C15 a failing file operation loses nothing in memory");
                    let d = fs().data(0);
                    check(d.len() >= grown.len() && eq(&d[..grown.len()], &grown), "C15 appending keeps what the file has");
                    grown = d.to_vec();
                }
            }
            1 => {
                match s.h.load_history(false) {
                    Err(_) => { check(same_all(&memory(&s.h), &was), "C15 a failing load loses nothing in memory"); reach("load failed") }
                    Ok(_) => {}
                }
            }
            _ => {
                s.h.commit_to_file();
                check(same_all(&memory(&s.h), &was), "C15 committing an appended history changes nothing");
            }
        }
    }
    if fs().failed > 0 { reach("failed") }
    reach("end");
}
/// The editor reloads a shared history while another session appends to or rewrites the file.
#[no_mangle]
pub extern "C" fn c15_editor(n: u64, d: u64, k: u64, vi: u64) {
    use crate::env::*;
    set_width(80);
    let f = reset();
    f.file(F, b"ab\nb\na\n");
    let a = session(true, true, 1000);
    let mut b = session(true, true, 1000);
    let mut c = ctx();
    c.history = a.h;
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    let mut snap = None;
    let mut clean = true;
    let mut read = fs().nodes[0].data.clone();
    for i in 0..k {
        match choose("other", 4) {
            0 => {}
            1 => { b.h.push(buf(&line(choose("len", n as usize + 1)))).unwrap(); }
            2 => fs().nodes[0].data.clear(),
            _ => fs().nodes[0].data = b"abc\n".to_vec(),
        }
        let key = [Key::Up, Key::Down, Key::Alt('<'), Key::Char('\n'), Key::Char('\\'), Key::Ctrl('r'), Key::Ctrl('f'), Key::Char('a'), Key::Alt('.')][choose("key", 9)];
        let draft = ed.current_history_location().is_none();
        let fresh = key == Key::Up && draft;
        let now = lines();
        let r = km.key(key, &mut ed, &mut NoComp).unwrap();
        if let Some(i) = ed.current_history_location() { check(i < ed.context().history().len(), "C15 the entry shown exists"); reach("entry") }
        // (another size is what tells that the file has changed)
        let data = &fs().nodes[0].data;
        if fresh && data.len() == read.len() && *data != read { clean = false }
        if fresh && clean {
            read = data.clone();
            // what the file has now is what is browsed
            check(intact(ed.context().history(), &not_comment(&now)), "C15 browsing starts with the file's current entries");
            reach("fresh");
        }
        // the entries do not change while they are browsed
        let at = ed.current_history_location().is_some();
        clean &= match key { Key::Up => at, Key::Down | Key::Char('a') => true, _ => false };
        match &snap {
            None if i == 0 && fresh && at => snap = Some(not_comment(&now)),
            Some(s) if at && [Key::Up, Key::Down, Key::Alt('<'), Key::Char('a')].contains(&key) => check(intact(ed.context().history(), s), "C15 the entries stay while they are browsed"),
            _ => snap = None,
        }
        if r { reach("done"); break }
    }
    reach("end");
    let s: String = ed.into();
    observe_str(&s);
}
