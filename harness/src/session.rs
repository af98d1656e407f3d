//! C09 - C12, C21: reading a line, browsing, searching, suggestions.
use crate::{env::*, keys::*, sym::*, util::*};
use liner::*;

pub fn has(t: &[char], p: &[char]) -> bool {
    if p.is_empty() || t.len() < p.len() { return false }
    let mut r = false;
    for i in 0..=t.len() - p.len() { r |= same(&t[i..i + p.len()], p); }
    r
}
pub fn longer(t: &[char], p: &[char]) -> bool { !p.is_empty() && t.len() > p.len() && same(&t[..p.len()], p) }
fn entry_is(c: &History, i: usize, t: &[char]) -> bool { is(&c.buffers[i], t) }
/// The stored history is what it was.
pub fn intact(h: &History, m: &[Vec<char>]) -> bool {
    if h.buffers.len() != m.len() { return false }
    let mut r = true;
    for i in 0..m.len() { r &= entry_is(h, i, &m[i]); }
    r
}
pub fn text<C: EditorContext>(ed: &Editor<C>) -> Vec<char> { chars(ed.current_buffer()) }

/// Feeds keys to one of the two key maps.
pub enum Km { E(Emacs), V(Normal) }
impl Km {
    pub fn new(vi: u64, ed: &mut Editor<&mut Ctx>) -> Km {
        match vi {
            0 => Km::E(Emacs::new()),
            1 => { let mut m = Vi::new(); m.init(ed).unwrap(); Km::V(Normal(m)) }
            _ => Km::V(normal(ed)),
        }
    }
    pub fn key<C: Completer>(&mut self, k: Key, ed: &mut Editor<&mut Ctx>, h: &mut C) -> std::io::Result<bool> {
        match self { Km::E(m) => m.handle_key(k, ed, h), Km::V(m) => m.handle_key(k, ed, h) }
    }
}

// ---------------------------------------------------------------- C09

/// Sees every key before and after it is handled, and decides what reading must do.
struct Watch {
    before: Vec<char>,
    cursor: usize,
    showing: bool,
    key: Option<Key>,
    searching: bool,
    list: bool,
    after: Vec<char>,
    cands: Vec<String>,
    was: (bool, bool), // searching, list before the key
    returns: bool,     // Enter must return
}
impl Completer for Watch {
    fn completions(&mut self, _s: &str) -> Vec<String> { self.cands.clone() }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        match e.kind {
            EventKind::BeforeKey(k) => {
                // the previous key did not end the line, so it was none of these
                check(!self.returns, "C09 Enter returns the line");
                self.before = text(e.editor);
                self.cursor = e.editor.cursor();
                self.showing = e.editor.is_currently_showing_autosuggestion();
                self.was = (self.searching, self.list);
                self.key = Some(k);
                self.returns = k == Key::Ctrl('c') || k == Key::Ctrl('d') && self.before.is_empty();
                let end = e.editor.cursor_is_at_end_of_line();
                match k {
                    Key::Ctrl('r') | Key::Ctrl('s') => self.searching = true,
                    Key::Char('\n') => {
                        if !self.searching && !self.list { self.returns = self.cursor == 0 || self.before[self.cursor - 1] != '\\'; }
                        self.searching = false;
                        self.list = false;
                    }
                    Key::Ctrl('f') if self.showing => self.searching = false,
                    Key::Right if self.showing && end => self.searching = false,
                    Key::Ctrl('l') => { self.searching = false; self.list = false }
                    Key::Char('\t') => {}
                    _ => self.list = false,
                }
            }
            EventKind::AfterKey(_) => {
                self.after = text(e.editor);
                if self.key == Some(Key::Char('\t')) && !self.list { self.list = self.cands.len() > 1 && same(&self.after, &self.before) }
                if self.key == Some(Key::Char('\n')) && self.was == (false, false) && !self.returns {
                    // continuation line
                    let mut w = self.before[..self.cursor].to_vec();
                    w.push('\n');
                    w.extend_from_slice(&self.before[self.cursor..]);
                    check(same(&self.after, &w), "C09 Enter after a backslash inserts a line break");
                    check(e.editor.cursor() == self.cursor + 1, "C09 the cursor follows the line break");
                    reach("continued");
                }
                if self.key == Some(Key::Char('\n')) && self.was == (false, true) { check(same(&self.after, &self.before), "C09 Enter dismisses the list and changes nothing"); reach("dismissed"); }
            }
            _ => {}
        }
    }
}
fn read_key() -> Key {
    match choose("key", 15) {
        0 => Key::Char(ascii("kc")), 1 => Key::Char('\n'), 2 => Key::Ctrl('c'), 3 => Key::Ctrl('d'),
        4 => Key::Char('\t'), 5 => Key::Ctrl('r'), 6 => Key::Ctrl('s'), 7 => Key::Ctrl('f'), 8 => Key::Right,
        9 => Key::Left, 10 => Key::Backspace, 11 => Key::Up, 12 => Key::Down, 13 => Key::Esc, _ => Key::Ctrl('l'),
    }
}
/// read_line over k arbitrary keys: h history entries of at most n characters, an initial text of
/// at most d, candidates for Tab.
#[no_mangle]
pub extern "C" fn c09_read(h: u64, n: u64, d: u64, k: u64, vi: u64, cands: u64) {
    set_width(80);
    let mut c = ctx();
    c.key_bindings = if vi == 1 { KeyBindings::Vi } else { KeyBindings::Emacs };
    let hist = history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    for _ in 0..k { let k = read_key(); c.terminal.keys.push(k); }
    let cands = (0..cands).map(|i| format!("a{}", i)).collect();
    let mut w = Watch { before: t.clone(), cursor: 0, showing: false, key: None, searching: false, list: false, after: t.clone(), cands, was: (false, false), returns: false };
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut w, None, string(&t));
    let used = c.terminal.pos;
    check(used >= 1, "C09 reads keys");
    match r {
        Ok(s) => {
            let s: Vec<char> = s.chars().collect();
            if used > k as usize {
                // out of keys
                check(!w.returns, "C09 the line ends at Enter");
                check(same(&s, &w.after), "C09 out of keys returns the current text");
                reach("exhausted");
            } else {
                check(w.key == Some(Key::Char('\n')), "C09 only Enter returns a line");
                if w.was.0 {
                    check(!w.was.1, "C09 Enter dismisses the list first");
                    if w.showing {
                        let mut ok = false;
                        for e in &hist { ok |= same(e, &s) && has(e, &w.before); }
                        check(ok, "C09 Enter in a search returns an entry with the pattern");
                        reach("search");
                    } else {
                        check(same(&s, &w.before), "C09 Enter in a search without a match returns the pattern");
                    }
                    check(s.last() != Some(&'\\'), "C09 a backslash continues");
                } else {
                    check(w.returns, "C09 Enter returns only when it ends the line");
                    check(same(&s, &w.before), "C09 Enter returns the text before it");
                    reach("entered");
                }
                // (line breaks come only from continuations and history)
            }
        }
        Err(e) => {
            let k = w.key.unwrap();
            if e.kind() == std::io::ErrorKind::Interrupted { check(k == Key::Ctrl('c'), "C09 interrupted only by Ctrl-C"); reach("ctrl-c") }
            else if e.kind() == std::io::ErrorKind::UnexpectedEof { check(k == Key::Ctrl('d') && w.before.is_empty(), "C09 end of file only by Ctrl-D on an empty line"); reach("ctrl-d") }
            else { check(false, "C09 no other error") }
        }
    }
    observe(used as u64);
}

// ---------------------------------------------------------------- C10

fn browse_key(vi: u64) -> Key {
    if vi >= 1 {
        match choose("key", 17) {
            0 => Key::Char(ascii("kc")), 1 => Key::Up, 2 => Key::Down, 3 => Key::Char('j'), 4 => Key::Char('k'), 5 => Key::Esc, 6 => Key::Char('i'),
            7 => Key::Char('x'), 8 => Key::Char('u'), 9 => Key::Char('.'), 10 => Key::Ctrl('r'), 11 => Key::Ctrl('f'), 12 => Key::Char('C'), 13 => Key::Backspace,
            14 => Key::Char('~'), 15 => Key::Char('A'), _ => Key::Right,
        }
    } else {
        match choose("key", 17) {
            0 => Key::Char(ascii("kc")), 1 => Key::Up, 2 => Key::Down, 3 => Key::Alt('<'), 4 => Key::Alt('>'), 5 => Key::Ctrl('r'), 6 => Key::Ctrl('s'),
            7 => Key::Ctrl('f'), 8 => Key::Ctrl('x'), 9 => Key::Alt('r'), 10 => Key::Backspace, 11 => Key::Ctrl('u'), 12 => Key::Char('\t'), 13 => Key::Alt('.'),
            14 => Key::Ctrl('w'), 15 => Key::Left, _ => Key::Right,
        }
    }
}
#[no_mangle]
pub extern "C" fn c10_keys(h: u64, n: u64, d: u64, k: u64, vi: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    let mut draft = t.clone();
    let mut searching = false;
    let mut comp = ListComp(vec!["ab".into()]);
    for _ in 0..k {
        let key = browse_key(vi);
        let loc = ed.current_history_location();
        let showing = ed.is_currently_showing_autosuggestion();
        let end = ed.cursor_is_at_end_of_line();
        match key {
            Key::Ctrl('r') | Key::Ctrl('s') => searching = true,
            Key::Ctrl('f') if showing => searching = false,
            Key::Right if showing && end => searching = false,
            Key::Alt(_) if key != Key::Alt('.') => searching = false,
            _ => {}
        }
        km.key(key, &mut ed, &mut comp).unwrap();
        check(intact(ed.context().history(), &hist), "C10 keys do not change the stored history");
        match (loc, ed.current_history_location()) {
            (Some(_), None) => {
                check(is(ed.current_buffer(), &draft), "C10 coming back to the draft finds it unchanged");
                reach("back");
            }
            (_, None) => draft = text(&ed),
            (a, Some(i)) if a != Some(i) => { check(is(ed.current_buffer(), &hist[i]), "C10 a recalled entry is shown as stored"); reach("recalled"); }
            _ => {}
        }
    }
    // whatever happened, the draft is still there
    if !searching {
        if vi > 0 {
            // (leaving insert mode or a pending command does not edit)
            if let (Some(_), false) = (ed.current_history_location(), false) {
                km.key(Key::Esc, &mut ed, &mut comp).unwrap();
                km.key(Key::Esc, &mut ed, &mut comp).unwrap();
            }
        }
        if ed.current_history_location().is_some() {
            if vi == 0 && flag("alt") { km.key(Key::Alt('>'), &mut ed, &mut comp).unwrap(); }
            else { for _ in 0..h { if ed.current_history_location().is_some() { km.key(Key::Down, &mut ed, &mut comp).unwrap(); } } }
            check(ed.current_history_location().is_none(), "C10 moving down leaves the history");
            check(is(ed.current_buffer(), &draft), "C10 the draft is still there at the end");
            reach("returned");
        }
    }
    check(intact(ed.context().history(), &hist), "C10 keys do not change the stored history");
    reach("end");
    obs(&text(&ed));
}
/// Undo and revert on a recalled entry stop at the entry.
#[no_mangle]
pub extern "C" fn c10_undo(h: u64, n: u64, vi: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let mut ed = Editor::new(Prompt::from("$ "), None, &mut c).unwrap();
    let mut km = Km::new(2 * vi, &mut ed);
    let edit = if vi == 1 { vec![Key::Char('i'), Key::Char('Q'), Key::Esc] } else { vec![Key::Char('Q')] };
    // visit entries, editing some of them on the way
    let visits = 1 + choose("visits", h as usize);
    let mut e = 0;
    for v in 0..visits {
        km.key(Key::Up, &mut ed, &mut NoComp).unwrap();
        e = choose("edits", 3);
        for _ in 0..e { for k in &edit { km.key(*k, &mut ed, &mut NoComp).unwrap(); } }
        let _ = v;
    }
    let at = ed.current_history_location().unwrap();
    let u = choose("undo", 5);
    if u == 4 && vi == 0 {
        km.key(Key::Alt('r'), &mut ed, &mut NoComp).unwrap();
        check(is(ed.current_buffer(), &hist[at]), "C10 revert brings back the entry as recalled");
    } else {
        for _ in 0..u { km.key(if vi == 1 { Key::Char('u') } else { Key::Ctrl('x') }, &mut ed, &mut NoComp).unwrap(); }
        if u >= e { check(is(ed.current_buffer(), &hist[at]), "C10 undo goes back to the entry as recalled and no further"); reach("undone") }
    }
    check(intact(ed.context().history(), &hist), "C10 keys do not change the stored history");
    reach("end");
    obs(&text(&ed));
}

// ---------------------------------------------------------------- C11

/// The entries navigation visits, in the order up visits them.
pub fn order(hist: &[Vec<char>], draft: &[char]) -> Vec<usize> {
    if draft.is_empty() { return (0..hist.len()).rev().collect() }
    let mut v: Vec<usize> = (0..hist.len()).rev().filter(|i| longer(&hist[*i], draft)).collect();
    v.extend((0..hist.len()).rev().filter(|i| { let e = &hist[*i]; has(e, draft) && !longer(e, draft) && e.len() != draft.len() }));
    v
}
#[no_mangle]
pub extern "C" fn c11_nav(h: u64, n: u64, d: u64, k: u64, mode: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let mut draft = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&draft)).unwrap();
    // mode 0, 1: Emacs without and with other keys in between; 2: Vi normal mode; 3: Vi insert mode
    let mut km = Km::new(match mode { 2 => 2, 3 => 1, _ => 0 }, &mut ed);
    let (mut pos, mut ord): (Option<usize>, Vec<usize>) = (None, vec![]);
    let mut extra = vec![]; // typed at the end of the entry shown
    for _ in 0..k {
        let key = match mode {
            0 => [Key::Up, Key::Down][choose("key", 2)],
            1 => [Key::Up, Key::Down, Key::Ctrl('p'), Key::Ctrl('n'), Key::Char('x'), Key::Ctrl('l'), Key::Right, Key::Alt('>'), Key::Alt('<')][choose("key", 9)],
            2 => [Key::Char('k'), Key::Char('j'), Key::Up, Key::Down][choose("key", 4)],
            _ => [Key::Up, Key::Down, Key::Char('x')][choose("key", 3)],
        };
        // Right at the end of the draft may accept a suggestion; with text typed it is no navigation
        if key == Key::Right && pos.is_none() { return }
        if key == Key::Alt('<') && !draft.is_empty() { return }
        km.key(key, &mut ed, &mut NoComp).unwrap();
        match key {
            Key::Up | Key::Ctrl('p') | Key::Char('k') => {
                extra.clear();
                if pos.is_none() { ord = order(&hist, &draft) }
                pos = match pos { None if ord.is_empty() => None, None => Some(0), Some(i) => Some((i + 1).min(ord.len() - 1)) };
            }
            Key::Down | Key::Ctrl('n') | Key::Char('j') => { extra.clear(); pos = match pos { None | Some(0) => None, Some(i) => Some(i - 1) } }
            Key::Char(c) => if pos.is_none() { draft.push(c) } else { extra.push(c) },
            Key::Alt('>') => { extra.clear(); pos = None }
            Key::Alt('<') => { extra.clear(); ord = order(&hist, &draft); pos = ord.len().checked_sub(1) }
            _ => {}
        }
        let want = match pos { None => draft.clone(), Some(i) => { let mut t = hist[ord[i]].clone(); t.extend(&extra); t } };
        check(ed.current_history_location() == pos.map(|i| ord[i]), "C11 navigation visits the matching entries in order");
        check(is(ed.current_buffer(), &want), "C11 the entry visited is shown");
        let end = if mode == 2 { want.len().saturating_sub(1) } else { want.len() };
        check(ed.cursor() == end, "C11 the cursor is at the end");
        reach(if pos.is_some() { "entry" } else { "draft" });
    }
    reach("end");
    observe(ed.cursor() as u64);
}

// ---------------------------------------------------------------- C12

#[no_mangle]
pub extern "C" fn c12_search(h: u64, n: u64, d: u64, k: u64, vi: u64) {
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let pat = ascii_chars(choose("len", d as usize + 1));
    searching(c, hist, pat, k, vi, || ascii("kc"));
}
/// Entries and patterns of few different characters.
#[no_mangle]
pub extern "C" fn c12_narrow(h: u64, n: u64, k: u64) {
    let mut c = ctx();
    let mut hist = vec![];
    for _ in 0..h {
        let mut e = vec!['a'];
        e.extend(from_set(choose("hlen", n as usize + 1), &['a', 'b']));
        c.history.buffers.push_back(buf(&e));
        hist.push(e);
    }
    searching(c, hist, vec!['a'], k, 0, || 'b');
}
fn searching(mut c: Ctx, hist: Vec<Vec<char>>, mut pat: Vec<char>, k: u64, vi: u64, typed: fn() -> char) {
    set_width(80);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&pat)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    let forward = flag("forward");
    km.key(if forward { Key::Ctrl('s') } else { Key::Ctrl('r') }, &mut ed, &mut NoComp).unwrap();
    let matches = |p: &[char]| -> Vec<usize> { (0..hist.len()).filter(|i| has(&hist[*i], p)).collect() };
    let start = |m: &[usize]| if forward { m.first().copied() } else { m.last().copied() };
    let mut m = matches(&pat);
    let mut cand = start(&m);
    let mut exact = true;
    check(ed.is_currently_showing_autosuggestion() == cand.is_some(), "C12 a candidate is shown iff an entry contains the pattern");
    for _ in 0..k {
        let key = [Key::Ctrl('r'), Key::Ctrl('s'), Key::Up, Key::Down, Key::Backspace, Key::Char(typed())][choose("key", 6)];
        km.key(key, &mut ed, &mut NoComp).unwrap();
        match key {
            Key::Ctrl('r') | Key::Up | Key::Ctrl('s') | Key::Down => if let Some(c) = cand {
                let i = m.iter().position(|x| *x == c).unwrap();
                let l = m.len();
                cand = Some(m[if key == Key::Ctrl('s') || key == Key::Down { (i + 1) % l } else { (i + l - 1) % l }]);
                reach("next");
            },
            _ => {
                if let Key::Char(c) = key { pat.push(c) } else { if pat.is_empty() { continue } pat.pop(); }
                m = matches(&pat);
                cand = match cand {
                    _ if m.is_empty() => None,
                    None => start(&m),
                    Some(c) if m.contains(&c) => { reach("kept"); Some(c) }
                    // the next match in the direction the search was started in
                    Some(c) if forward => { reach("next"); m.iter().copied().find(|x| *x > c).or(start(&m)) }
                    Some(c) => match m.iter().rev().copied().find(|x| *x < c) {
                        Some(x) => Some(x),
                        // (nothing older left: any match will do)
                        None => { exact = false; None }
                    },
                };
                if !exact { break }
            }
        }
        check(ed.is_currently_showing_autosuggestion() == cand.is_some(), "C12 a candidate is shown iff an entry contains the pattern");
        check(is(ed.current_buffer(), &pat), "C12 the pattern is what was typed");
    }
    check(ed.is_currently_showing_autosuggestion() == !m.is_empty(), "C12 a candidate is shown iff an entry contains the pattern");
    let how = choose("accept", 3);
    if how > 0 && m.is_empty() { return }
    let done = km.key([Key::Char('\n'), Key::Ctrl('f'), Key::Right][how], &mut ed, &mut NoComp).unwrap();
    let got = text(&ed);
    if exact {
        let want = match cand { Some(i) => &hist[i], None => &pat };
        if how == 0 && want.last() == Some(&'\\') { return }
        check(same(&got, want), "C12 accepting makes the candidate the line");
        reach("exact");
    } else {
        if how == 0 && !done { return }
        let mut ok = false;
        for i in &m { ok |= same(&got, &hist[*i]); }
        check(ok, "C12 the candidate contains the pattern");
        reach("inexact");
    }
    check(done == (how == 0), "C12 Enter returns the candidate, other keys edit it");
    if !done {
        check(ed.cursor() == got.len(), "C12 the cursor is at the end of the accepted line");
        check(ed.current_history_location().is_none(), "C12 the accepted line is the line being edited");
        km.key(Key::Char('x'), &mut ed, &mut NoComp).unwrap();
        let mut w = got.clone();
        w.push('x');
        check(is(ed.current_buffer(), &w), "C12 the accepted line can be edited");
    }
    check(intact(ed.context().history(), &hist), "C12 searching does not change the stored history");
    reach("end");
    obs(&got);
}

// ---------------------------------------------------------------- C21

/// The suggestion after browsing, editing recalled entries and searching, back at the line.
#[no_mangle]
pub extern "C" fn c21_browse(h: u64, n: u64, d: u64, k: u64, vi: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    let mut searching = false;
    for _ in 0..k {
        let key = [Key::Char(ascii("kc")), Key::Backspace, Key::Up, Key::Down, Key::Ctrl('r'), Key::Ctrl('f'), Key::Ctrl('l'), if vi == 0 { Key::Alt('<') } else { Key::Esc }, if vi == 0 { Key::Alt('>') } else { Key::Char('~') }][choose("key", 9)];
        let showing = ed.is_currently_showing_autosuggestion();
        match key {
            Key::Ctrl('r') => searching = true,
            Key::Ctrl('f') if showing => searching = false,
            // (in Vi mode Ctrl-L may complete a pending command instead)
            Key::Alt(_) | Key::Ctrl('l') if vi == 0 => searching = false,
            _ => {}
        }
        km.key(key, &mut ed, &mut NoComp).unwrap();
        if searching || ed.current_history_location().is_some() { continue }
        let l = text(&ed);
        let sug = (0..hist.len()).rev().any(|i| longer(&hist[i], &l));
        check(ed.is_currently_showing_autosuggestion() == sug, "C21 a suggestion is shown iff a longer entry starts with the line");
        reach(if sug { "suggested" } else { "none" });
    }
    check(intact(ed.context().history(), &hist), "C21 the stored history is unchanged");
    reach("end");
    obs(&text(&ed));
}
#[no_mangle]
pub extern "C" fn c21_suggest(h: u64, n: u64, d: u64, k: u64, vi: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(if vi == 2 { 1 } else { vi }, &mut ed);
    let mut m = crate::emacs::Model::new(&t, t.len());
    for _ in 0..k {
        let key = [Key::Char(ascii("kc")), Key::Backspace, Key::Left, Key::Home, Key::End][choose("key", 5)];
        km.key(key, &mut ed, &mut NoComp).unwrap();
        m.key(key, &|_| vec![]);
    }
    let sug = (0..hist.len()).rev().find(|i| longer(&hist[*i], &m.t));
    let mut end = m.c == m.t.len();
    if vi == 2 {
        km.key(Key::Esc, &mut ed, &mut NoComp).unwrap();
        m.c = m.c.saturating_sub(1);
        end = m.c + 1 >= m.t.len();
    }
    check(is(ed.current_buffer(), &m.t) & (ed.cursor() == m.c), "C21 a suggestion is not part of the line");
    check(ed.is_currently_showing_autosuggestion() == sug.is_some(), "C21 a suggestion is shown iff a longer entry starts with the line");
    if sug.is_some() { reach("suggested") }
    let key = [Key::Ctrl('f'), Key::Right, Key::Char('\n'), Key::Left][choose("accept", 4)];
    let done = km.key(key, &mut ed, &mut NoComp).unwrap();
    match (key, sug) {
        (Key::Ctrl('f'), Some(i)) | (Key::Right, Some(i)) if key == Key::Ctrl('f') || end => {
            check(is(ed.current_buffer(), &hist[i]), "C21 accepting makes the line the suggestion");
            check(ed.cursor() == hist[i].len() - (vi == 2) as usize, "C21 accepting moves to the end of the line");
            reach("accepted");
        }
        (Key::Char(_), _) => if done { check(is(ed.current_buffer(), &m.t), "C21 Enter returns the line without the suggestion"); reach("entered") },
        _ => check(is(ed.current_buffer(), &m.t), "C21 a suggestion is not part of the line"),
    }
    check(intact(ed.context().history(), &hist), "C21 the stored history is unchanged");
    reach("end");
    obs(&text(&ed));
}
