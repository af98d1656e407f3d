//! C18: words and cursor positions.
use crate::{sym::*, util::*};
use liner::*;

fn words(t: &[char]) -> Vec<(usize, usize)> {
    // a character is a separator iff it is a space not preceded by a backslash
    let sep = |i: usize| t[i] == ' ' && !(i > 0 && t[i - 1] == '\\');
    let mut v = vec![];
    let mut s = None;
    for i in 0..t.len() {
        match (sep(i), s) {
            (false, None) => s = Some(i),
            (true, Some(b)) => { v.push((b, i)); s = None }
            _ => {}
        }
    }
    if let Some(b) = s { v.push((b, t.len())) }
    v
}
/// The default divider on any text of n characters (kind 0 any Unicode, 1 space, backslash, letter).
#[no_mangle]
pub extern "C" fn c18_words(n: u64, kind: u64) {
    let t = if kind == 0 { any_chars(n as usize) } else if kind == 2 { ascii_chars(n as usize) } else { from_set(n as usize, &[' ', '\\', 'a', '\n']) };
    let r = get_buffer_words(&buf(&t));
    check(r == words(&t), "C18 words are the maximal runs between unescaped spaces");
    reach(if r.is_empty() { "none" } else { "some" });
    observe(r.len() as u64);
}
/// Any w separated ranges within n positions, any cursor.
#[no_mangle]
pub extern "C" fn c18_position(w: u64, n: u64) {
    let cursor = below("cursor", n as usize + 1);
    let mut v: Vec<(usize, usize)> = vec![];
    for i in 0..w as usize {
        let (a, b) = (below("from", n as usize + 1), below("to", n as usize + 1));
        assume(a < b);
        if i > 0 { assume(a > v[i - 1].1); }
        v.push((a, b));
    }
    let p = CursorPosition::get(cursor, v.iter().copied());
    use CursorPosition::*;
    let l = v.len();
    match p {
        InWord(i) => { check(i < l && v[i].0 < cursor && cursor < v[i].1, "C18 inside the word"); reach("in") }
        OnWordLeftEdge(i) => { check(i < l && v[i].0 == cursor, "C18 on the left edge"); reach("left") }
        OnWordRightEdge(i) => { check(i < l && v[i].1 == cursor, "C18 on the right edge"); reach("right") }
        InSpace(a, b) => {
            reach("space");
            let k = v.iter().filter(|x| x.1 < cursor).count();
            check(v.iter().all(|x| x.1 < cursor || x.0 > cursor), "C18 in no word");
            check(a == k.checked_sub(1), "C18 nearest word to the left");
            check(b == if k < l { Some(k) } else { None }, "C18 nearest word to the right");
        }
    }
}
/// Adjacent words (as a custom divider may return): the position is still one the words allow.
#[no_mangle]
pub extern "C" fn c18_adjacent(w: u64, n: u64) {
    let cursor = below("cursor", n as usize + 1);
    let mut v: Vec<(usize, usize)> = vec![];
    for i in 0..w as usize {
        let (a, b) = (below("from", n as usize + 1), below("to", n as usize + 1));
        assume(a < b);
        if i > 0 { assume(a >= v[i - 1].1); }
        v.push((a, b));
    }
    use CursorPosition::*;
    let l = v.len();
    let ok = match CursorPosition::get(cursor, v.iter().copied()) {
        InWord(i) => i < l && v[i].0 < cursor && cursor < v[i].1,
        OnWordLeftEdge(i) => i < l && v[i].0 == cursor,
        OnWordRightEdge(i) => i < l && v[i].1 == cursor,
        InSpace(..) => v.iter().all(|x| x.1 < cursor || x.0 > cursor),
    };
    check(ok, "C18 the position is true of the words");
    reach("end");
}
/// The editor's own words and position, for the line being edited and its cursor.
#[no_mangle]
pub extern "C" fn c18_editor(n: u64) {
    let mut c = crate::env::ctx();
    let t = from_set(choose("len", n as usize + 1), &[' ', '\\', 'a']);
    let mut ed = Editor::new_with_init_buffer(Prompt::from(""), None, &mut c, crate::keys::string(&t)).unwrap();
    let cur = choose("cursor", t.len() + 1);
    ed.move_cursor_to(cur).unwrap();
    let (w, p) = ed.get_words_and_cursor_position();
    let w: Vec<_> = w.collect();
    check(w == words(&t), "C18 the editor's words are those of the line");
    check(p == CursorPosition::get(cur, words(&t)), "C18 the editor's position is that of the cursor");
    reach("end");
}
