//! C13: the in-memory history.
use crate::{keys::*, session::*, sym::*, util::*};
use liner::*;

/// Text over printable ASCII, tab and newline.
fn text(n: usize) -> Vec<char> { (0..n).map(|_| key_ascii()).collect() }
fn holds(h: &History, m: &[Vec<char>]) -> bool { h.len() == m.len() && h.is_empty() == m.is_empty() && intact(h, m) }

/// k operations on a history that starts with h entries of at most n characters.
#[no_mangle]
pub extern "C" fn c13_ops(h: u64, n: u64, k: u64) {
    let mut hi = History::new();
    let dup = flag("dup");
    if dup { hi.append_duplicate_entries = true } // (off, unless told otherwise)
    let mut m: Vec<Vec<char>> = vec![];
    for _ in 0..h {
        let t = text(choose("hlen", n as usize + 1));
        hi.buffers.push_back(buf(&t));
        m.push(t);
    }
    let mut max = 1000;
    for _ in 0..k {
        match choose("op", 4) {
            0 | 1 => {
                let t = text(choose("len", n as usize + 1));
                let r = hi.push(buf(&t));
                check(r.is_ok(), "C13 push succeeds");
                let again = match m.last() { Some(l) => !dup && same(l, &t), None => false };
                if again { reach("again") } else {
                    m.push(t);
                    if m.len() > max { m.drain(..m.len() - max); reach("dropped") } else { reach("pushed") }
                    check(hi.len() <= max, "C13 never more than the maximum after a push");
                }
            }
            2 => {
                let t = text(choose("len", n as usize + 1));
                hi.remove_duplicates(&string(&t));
                let l = m.len();
                m.retain(|e| !same(e, &t));
                if m.len() < l { reach("removed") }
            }
            _ => { max = choose("max", 4); hi.set_max_buffers_size(max); }
        }
        check(holds(&hi, &m), "C13 the history holds the right entries in order");
    }
    // reading access
    if !m.is_empty() {
        let i = choose("i", m.len());
        check(is(&hi[i], &m[i]), "C13 indexing");
        let mut c = 0;
        for (b, e) in (&hi).into_iter().zip(&m) { check(is(b, e), "C13 iteration"); c += 1; }
        check(c == m.len(), "C13 iteration");
    }
    if flag("clear") { hi.clear_history(); check(holds(&hi, &[]), "C13 clearing"); }
    reach("end");
    observe(hi.len() as u64);
}
/// Lookups on h entries of at most n characters, search text of at most d.
#[no_mangle]
pub extern "C" fn c13_lookup(h: u64, n: u64, d: u64) {
    let mut hi = History::new();
    let mut m: Vec<Vec<char>> = vec![];
    for _ in 0..h {
        let t = text(choose("hlen", n as usize + 1));
        hi.buffers.push_back(buf(&t));
        m.push(t);
    }
    let t = text(choose("len", d as usize + 1));
    let b = buf(&t);
    match choose("which", 3) {
        0 => {
            let pos = choose("pos", h as usize + 3);
            let pos = if pos == h as usize + 2 { None } else { Some(pos) };
            let r = hi.get_newest_match(pos, &b);
            let w = (0..pos.unwrap_or(m.len()).min(m.len())).rev().find(|i| longer(&m[*i], &t));
            check(r == w, "C13 the newest match is the newest longer entry starting with the text");
            reach(if w.is_some() { "found" } else { "none" });
        }
        1 => {
            let r = hi.search_index(&b);
            let w: Vec<usize> = (0..m.len()).filter(|i| has(&m[*i], &t)).collect();
            check(r == w, "C13 searching finds exactly the entries containing the text");
        }
        _ => {
            let r = hi.get_history_subset(&b);
            let mut w: Vec<usize> = (0..m.len()).filter(|i| has(&m[*i], &t) && !longer(&m[*i], &t) && m[*i].len() != t.len()).collect();
            w.extend((0..m.len()).filter(|i| longer(&m[*i], &t)));
            check(r == w, "C13 the subset is the entries containing the text, those starting with it last");
        }
    }
    reach("end");
}
