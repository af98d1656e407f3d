//! C25: editing through the methods of `Editor`. C26: highlighting.
use crate::{emacs::*, env::*, keys::*, screen::*, session::intact, sym::*, util::*};
use liner::*;

/// Any number: small ones one by one, all others at once.
fn any_count() -> usize {
    let v = new("count", 64);
    for i in 0..5 { if v == i { return i as usize } }
    assume(v >= 5);
    v as usize
}
/// An editor whose line is a new one, or a history entry that was recalled.
fn line_of<'a>(c: &'a mut Ctx, t: &[char], recalled: bool) -> Editor<&'a mut Ctx> {
    if recalled { c.history.buffers.push_back(buf(t)) }
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, c, if recalled { String::new() } else { string(t) }).unwrap();
    if recalled { ed.move_up().unwrap() }
    ed
}
/// k calls on a line of up to n arbitrary ASCII characters (texts of 4 or fewer).
#[no_mangle]
pub extern "C" fn c25_calls(n: u64, k: u64, eol: u64) {
    set_width(80);
    let mut c = ctx();
    c.history.buffers.push_back(buf(&['o', 'l', 'd']));
    let t = ascii_chars(choose("len", n as usize + 1));
    let recalled = flag("recalled");
    let hist: Vec<Vec<char>> = if recalled { vec![vec!['o', 'l', 'd'], t.clone()] } else { vec![vec!['o', 'l', 'd']] };
    let mut ed = line_of(&mut c, &t, recalled);
    let mut m = Model::new(&t, t.len());
    check(is(ed.current_buffer(), &m.t) & (ed.cursor() == m.c), "C25 the line being edited");
    if eol == 1 { ed.no_eol = true }
    for _ in 0..k {
        let l = m.t.len();
        match choose("call", 18) {
            0 => { let x = ascii("kc"); ed.insert_after_cursor(x).unwrap(); m.insert(&[x]) }
            1 => { let s = ascii_chars(choose("slen", 3)); ed.insert_str_after_cursor(&string(&s)).unwrap(); m.insert(&s) }
            2 => { ed.delete_before_cursor().unwrap(); m.key(Key::Backspace, &ref_words) }
            3 => { ed.delete_after_cursor().unwrap(); m.key(Key::Delete, &ref_words) }
            4 => { ed.delete_all_before_cursor().unwrap(); m.key(Key::Ctrl('u'), &ref_words) }
            5 => { ed.delete_all_after_cursor().unwrap(); m.key(Key::Ctrl('k'), &ref_words) }
            6 => {
                let p = choose("pos", l + 1);
                ed.delete_until(p).unwrap();
                m.delete(p.min(m.c), p.max(m.c));
            }
            7 => {
                let p = choose("pos", l + 1);
                ed.delete_until_inclusive(p).unwrap();
                m.delete(p.min(m.c), (p.max(m.c) + 1).min(l));
            }
            8 => { let v = any_count(); ed.move_cursor_left(v).unwrap(); m.c -= v.min(m.c) }
            9 => { let v = any_count(); ed.move_cursor_right(v).unwrap(); m.c += v.min(l - m.c) }
            10 => { let v = any_count(); ed.move_cursor_to(v).unwrap(); m.c = v.min(l) }
            11 => { ed.move_cursor_to_start_of_line().unwrap(); m.c = 0 }
            12 => { ed.move_cursor_to_end_of_line().unwrap(); m.c = l }
            13 => {
                let over = flag("over spaces");
                ed.delete_word_before_cursor(over).unwrap();
                let w = ref_words(&m.t).into_iter().rev().find(|w| w.0 < m.c);
                match w { Some((s, e)) if over || m.c <= e => m.delete(s, m.c), _ => {} }
            }
            14 => {
                let some = !m.undo.is_empty();
                check(ed.undo().unwrap() || !some, "C25 undo says whether it did something");
                m.key(Key::Ctrl('x'), &ref_words);
            }
            15 => {
                // straight into the text; the cursor follows when it is drawn
                let s = choose("cut", l + 1);
                ed.current_buffer_mut().truncate(s);
                ed.display().unwrap();
                let at = m.c.min(s);
                m.delete(s, l);
                m.c = at;
            }
            16 => { ed.clear().unwrap(); }
            _ => { ed.set_prompt(Prompt::from("new\n> ")); ed.display().unwrap(); ed.skip_completions_hint(); }
        }
        if eol == 1 { if m.c > 0 && m.c == m.t.len() { m.c -= 1 } }
        check(is(ed.current_buffer(), &m.t), "C25 the text after the call");
        check(ed.cursor() == m.c, "C25 the cursor after the call");
        check(ed.cursor_is_at_end_of_line() == (m.c + eol as usize >= m.t.len()), "C25 whether the cursor is at the end");
        check(ed.current_history_location() == if recalled { Some(1) } else { None }, "C25 the same line is being edited");
    }
    check(intact(ed.context().history(), &hist), "C25 the stored history is unchanged");
    match choose("end", 3) {
        0 => {
            let s = ed.take_exec_buffer();
            check(same(&s.chars().collect::<Vec<char>>(), &m.t), "C25 the text taken is the line");
            check(intact(ed.context().history(), &hist), "C25 the stored history is unchanged");
            check(ed.current_buffer().is_empty() && ed.cursor() == 0, "C25 nothing is left of the line");
            ed.insert_after_cursor('x').unwrap();
            check(is(ed.current_buffer(), &['x']), "C25 editing goes on after the text was taken");
            check(intact(ed.context().history(), &hist), "C25 the stored history is unchanged");
            reach("taken");
        }
        1 => {
            let s: String = ed.into();
            check(same(&s.chars().collect::<Vec<char>>(), &m.t), "C25 the editor turns into its line");
            reach("into");
        }
        _ => obs(&chars(ed.current_buffer())),
    }
    reach("end");
}

// ---------------------------------------------------------------- C26

/// Colours are escape sequences; what the editor gives to the function comes back red.
fn red() -> Option<ColorClosure> { Some(Box::new(|s: &str| format!("\x1b[31m{}\x1b[39m", s))) }
/// The colours on the screen: typed text is red, the rest of a suggestion is coloured differently,
/// the prompt and everything after is not coloured.
fn coloured(s: &Screen, f: u8, prompt: usize, t: &[char], shown: &[char]) {
    let (mut r, mut c) = (TOP, prompt);
    if c >= s.w { r += c / s.w; c %= s.w }
    let mut bad = 0u32;
    for i in 0..prompt { bad |= s.colour(TOP + i / s.w, i % s.w) as u32 }
    for (i, x) in shown.iter().enumerate() {
        if *x == '\n' { r += 1; c = prompt; if c >= s.w { r += c / s.w; c %= s.w } continue }
        let k = width(*x);
        if k == 0 { continue }
        if c + k > s.w { r += 1; c = 0 }
        let col = s.colour(r, c);
        if i < t.len() { bad |= col as u32 ^ f as u32 } else if col == 0 || col == 31 { bad |= 1 }
        c += k;
    }
    check(bad == 0, "C26 typed text goes through the function, a suggestion is coloured apart, the prompt is not coloured");
    check(s.now() == (0, 0), "C26 the colour ends with the line");
}
/// A line of up to n characters, h history entries of up to m; k keys.
#[no_mangle]
pub extern "C" fn c26_colour(n: u64, h: u64, m: u64, k: u64, w: u64) {
    let mut c = term_ctx(w as usize);
    let mut hist = vec![];
    for _ in 0..h { let e = some_text(choose("hlen", m as usize + 1), 1); c.history.buffers.push_back(buf(&e)); hist.push(e); }
    let t = some_text(choose("len", n as usize + 1), 1);
    let with = flag("function");
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), if with { red() } else { None }, &mut c, string(&t)).unwrap();
    let mut s = Screen::new(w as usize);
    let mut km = Emacs::new();
    for i in 0..=k {
        let mut done = false;
        if i > 0 {
            let key = match choose("key", 8) {
                0 => Key::Char(ascii("kc")), 1 => Key::Left, 2 => Key::Backspace, 3 => Key::Up, 4 => Key::Down, 5 => Key::Char('\u{4e16}'), 6 => Key::Char('\n'), _ => Key::Ctrl('x'),
            };
            done = km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        }
        s.feed(&ed.context().terminal.out);
        let l = chars(ed.current_buffer());
        let mut shown = l.clone();
        if ed.current_history_location().is_none() && !done {
            if let Some(e) = hist.iter().rev().find(|e| crate::session::longer(e, &l)) { shown = e.clone(); reach("suggestion") }
        }
        coloured(&s, if with { 31 } else { 0 }, 2, &l, &shown);
        if done { reach("entered"); break }
    }
    reach("end");
}
/// The same during a search, and after it.
#[no_mangle]
pub extern "C" fn c26_search(n: u64, h: u64, k: u64) {
    let mut c = term_ctx(80);
    for _ in 0..h { let e = some_text(choose("hlen", n as usize + 1), 0); c.history.buffers.push_back(buf(&e)); }
    let with = flag("function");
    let t = ascii_chars(choose("len", n as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), if with { red() } else { None }, &mut c, string(&t)).unwrap();
    let mut s = Screen::new(80);
    let mut km = Emacs::new();
    for i in 0..k {
        let key = match if i == 0 { choose("start", 2) } else { choose("key", 6) } {
            0 => Key::Ctrl('r'), 1 => Key::Ctrl('s'), 2 => Key::Char(ascii("kc")), 3 => Key::Ctrl('f'), 4 => Key::Ctrl('l'), _ => Key::Left,
        };
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        s.feed(&ed.context().terminal.out);
        check(s.now() == (0, 0), "C26 the colour ends with the line");
        if ed.is_currently_showing_autosuggestion() { reach("found") } else { reach("nothing") }
    }
    // what follows the search is as usual again
    km.handle_key(Key::Ctrl('f'), &mut ed, &mut NoComp).unwrap();
    km.handle_key(Key::End, &mut ed, &mut NoComp).unwrap();
    ed.move_to_end_of_history().unwrap();
    ed.display().unwrap();
    s.feed(&ed.context().terminal.out);
    check(s.now() == (0, 0), "C26 the colour ends with the line");
    reach("end");
    let l: String = ed.into();
    observe_str(&l);
}

/// Any characters go in as they are.
#[no_mangle]
pub extern "C" fn c25_insert(n: u64, k: u64, m: u64) {
    set_width(80);
    let mut c = ctx();
    let any = |_| match choose("kind", 4) { 0 => { let b = new("b", 8) as u8; assume(b < 0x80); b as char } 1 => '\u{301}', 2 => '\u{4e16}', _ => '\u{85}' };
    let t: Vec<char> = (0..choose("len", n as usize + 1)).map(any).collect();
    let mut ed = line_of(&mut c, &t, false);
    let mut m_ = Model::new(&t, t.len());
    for _ in 0..k {
        let p = choose("at", m_.t.len() + 1);
        ed.move_cursor_to(p).unwrap();
        m_.c = p;
        let s: Vec<char> = (0..choose("slen", m as usize + 1)).map(any).collect();
        match choose("how", 2) {
            0 => ed.insert_str_after_cursor(&string(&s)).unwrap(),
            _ => for x in &s { ed.insert_after_cursor(*x).unwrap() },
        }
        m_.insert(&s);
        check(is(ed.current_buffer(), &m_.t), "C25 the text after the call");
        check(ed.cursor() == m_.c, "C25 the cursor after the call");
    }
    reach("end");
    let l: String = ed.into();
    check(same(&l.chars().collect::<Vec<char>>(), &m_.t), "C25 the editor turns into its line");
    observe_str(&l);
}

/// Undo and redo go through the edits made one by one, the cursor at the end.
#[no_mangle]
pub extern "C" fn c25_redo(n: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let t = ascii_chars(choose("len", n as usize + 1));
    let mut ed = line_of(&mut c, &t, false);
    let mut was = vec![t.clone()];
    for _ in 0..k {
        let l = ed.current_buffer().num_chars();
        let p = choose("at", l + 1);
        ed.move_cursor_to(p).unwrap();
        match choose("edit", 4) {
            0 => ed.insert_after_cursor(ascii("kc")).unwrap(),
            1 => ed.delete_after_cursor().unwrap(),
            2 => ed.delete_before_cursor().unwrap(),
            _ => ed.insert_str_after_cursor("ab").unwrap(),
        }
        if ed.current_buffer().num_chars() != l { was.push(chars(ed.current_buffer())) }
    }
    // (a new editor's text is an edit, too)
    let mut i = was.len() - 1;
    for _ in 0..choose("undos", i + 1) {
        check(ed.undo().unwrap(), "C25 undo says whether it did something");
        i -= 1;
        check(is(ed.current_buffer(), &was[i]) && ed.cursor() == was[i].len(), "C25 undo takes back the last edit");
    }
    while i + 1 < was.len() {
        let p = choose("from", was[i].len() + 1);
        ed.move_cursor_to(p).unwrap();
        check(ed.redo().unwrap(), "C25 redo says whether it did something");
        i += 1;
        check(is(ed.current_buffer(), &was[i]) && ed.cursor() == was[i].len(), "C25 redo makes the edit again");
        reach("redo");
    }
    let at = ed.cursor();
    check(!ed.redo().unwrap(), "C25 redo says whether it did something");
    check(is(ed.current_buffer(), &was[i]) && ed.cursor() == at, "C25 redo without anything to redo changes nothing");
    if flag("revert") {
        ed.revert().unwrap();
        check(ed.current_buffer().is_empty() || is(ed.current_buffer(), &t), "C25 revert brings back the first text");
        reach("revert");
    }
    reach("end");
    let l: String = ed.into();
    observe_str(&l);
}
