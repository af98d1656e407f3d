//! C16: completion in the editor. C24: what completers get to see.
use crate::{emacs::*, env::*, keys::*, session::*, sym::*, util::*};
use liner::*;

/// Offers fixed candidates and remembers what it was asked for.
struct Cands { list: Vec<Vec<char>>, asked: Vec<Vec<char>> }
impl Completer for Cands {
    fn completions(&mut self, s: &str) -> Vec<String> {
        self.asked.push(s.chars().collect());
        self.list.iter().map(|c| string(c)).collect()
    }
}
fn less(a: &[char], b: &[char]) -> bool {
    for i in 0..a.len().min(b.len()) { if a[i] != b[i] { return a[i] < b[i] } }
    a.len() < b.len()
}
/// Sorted, without repetitions.
fn order(l: &[Vec<char>]) -> Vec<Vec<char>> {
    let mut v: Vec<Vec<char>> = vec![];
    for c in l {
        if v.iter().any(|x| same(x, c)) { continue }
        let i = v.iter().position(|x| less(c, x)).unwrap_or(v.len());
        v.insert(i, c.clone());
    }
    v
}
fn common(l: &[Vec<char>]) -> usize {
    let mut n = 0;
    while l.iter().all(|c| c.len() > n && c[n] == l[0][n]) { n += 1 }
    n
}
/// Where the word that ends at the cursor starts (the cursor itself if there is none).
fn word_start(w: &[(usize, usize)], c: usize) -> usize {
    w.iter().find(|w| w.0 < c && c <= w.1).map_or(c, |w| w.0)
}
fn splice(t: &[char], a: usize, b: usize, s: &[char]) -> Vec<char> {
    let mut w = t[..a].to_vec();
    w.extend_from_slice(s);
    w.extend_from_slice(&t[b..]);
    w
}

/// A line of at most n characters, cursor anywhere; k candidates of at most m characters; t times
/// Tab, with other keys in between.
fn run(t: Vec<char>, list: Vec<Vec<char>>, tabs: u64, vi: u64, words: fn(&[char]) -> Vec<(usize, usize)>) {
    set_width(80);
    let mut c = ctx();
    if words as usize != ref_words as usize { c.word_divider_fn = Box::new(move |b: &Buffer| words(&chars(b))); }
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    let n = t.len();
    let p = choose("at", n + 1);
    ed.move_cursor_to(p).unwrap();
    let mut text = t;
    let mut at = ed.cursor();
    let mut h = Cands { list: list.clone(), asked: vec![] };
    let l = order(&list);
    // the list being shown, and which of its candidates is in the line
    let mut shown: Option<Option<usize>> = None;
    for i in 0..tabs {
        if i > 0 && flag("key") {
            // another key ends the cycle
            let key = [Key::Left, Key::Char('x'), Key::Char('\n')][choose("which", 3)];
            if key == Key::Char('\n') && shown.is_none() { return }
            if key == Key::Char('x') && vi == 2 { return }
            km.key(key, &mut ed, &mut h).unwrap();
            match key {
                Key::Left => at = at.saturating_sub(1),
                Key::Char('x') => { text.insert(at, 'x'); at += 1 }
                _ => reach("dismissed"),
            }
            shown = None;
            check(is(ed.current_buffer(), &text) & (ed.cursor() == at), "C16 another key keeps the candidate and ends the cycle");
        }
        let asked = h.asked.len();
        let r = km.key(Key::Char('\t'), &mut ed, &mut h).unwrap();
        check(!r, "C16 completing does not end the line");
        if let Some(cur) = shown {
            let (from, next) = match cur {
                Some(x) => (at - l[x].len(), (x + 1) % l.len()),
                None => (word_start(&words(&text), at), 0),
            };
            text = splice(&text, from, at, &l[next]);
            at = from + l[next].len();
            shown = Some(Some(next));
            check(h.asked.len() == asked, "C16 cycling goes through the candidates already offered");
            reach("cycle");
        } else {
            let s = word_start(&words(&text), at);
            check(h.asked.len() == asked + 1, "C16 the completer is asked once");
            check(same(&h.asked[asked], &text[s..at]), "C16 candidates are requested for the word before the cursor");
            if l.len() == 1 {
                text = splice(&text, s, at, &l[0]);
                at = s + l[0].len();
                reach("single");
            } else if l.len() > 1 {
                let p = common(&l);
                if p > at - s && same(&l[0][..at - s], &text[s..at]) {
                    text = splice(&text, s, at, &l[0][..p]);
                    at = s + p;
                    reach("prefix");
                } else { shown = Some(None); reach("list"); }
            } else { reach("none") }
        }
        check(is(ed.current_buffer(), &text), "C16 only the word before the cursor is completed");
        // (Vi's normal mode keeps the cursor on a character)
        if vi == 2 && at == text.len() && at > 0 { if shown == Some(None) || shown == None { at -= 1 } else { break } }
        check(ed.cursor() == at, "C16 the cursor is after the completed word");
    }
    reach("end");
    obs(&chars(ed.current_buffer()));
}
fn cands(k: u64, m: u64) -> Vec<Vec<char>> { (0..choose("k", k as usize + 1)).map(|_| ascii_chars(choose("m", m as usize + 1))).collect() }
#[no_mangle]
pub extern "C" fn c16_complete(n: u64, k: u64, m: u64, tabs: u64, vi: u64) {
    let t = ascii_chars(choose("len", n as usize + 1));
    run(t, cands(k, m), tabs, vi, ref_words);
}
/// Words and candidates with characters of several bytes.
#[no_mangle]
pub extern "C" fn c16_wide(n: u64, k: u64, m: u64, tabs: u64) {
    let set = [['\u{df}', '\u{4e16}', '\u{1f600}'][choose("wide", 3)], 'a'];
    let t = from_set(choose("len", n as usize + 1), &set);
    let l = (0..k).map(|_| from_set(choose("m", m as usize + 1), &set)).collect();
    run(t, l, tabs, 0, ref_words);
}
/// Words that overlap the cursor in every way; line breaks; a divider of one's own.
fn every_two(t: &[char]) -> Vec<(usize, usize)> { (0..t.len() / 2).map(|i| (2 * i, 2 * i + 2)).collect() }
#[no_mangle]
pub extern "C" fn c16_words(n: u64, own: u64) {
    let t = from_set(choose("len", n as usize + 1), &['a', ' ', '\\', '\n', '\u{4e16}']);
    let l = vec![vec!['\u{df}', ' ', 'x']];
    run(t, l, 2, 0, if own == 1 { every_two } else { ref_words });
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Copy, PartialEq)]
enum Seen { Before(Key), After(Key), Complete, Asked }
/// A change the completer makes in an event.
#[derive(Clone, Copy)]
enum Change { Type(char), Start, Clear, Erase }
struct Recorder { seen: Vec<(Seen, Vec<char>, usize)>, at: usize, change: Change, cand: Vec<char> }
impl Completer for Recorder {
    fn completions(&mut self, s: &str) -> Vec<String> {
        self.seen.push((Seen::Asked, s.chars().collect(), 0));
        vec![string(&self.cand)]
    }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        let k = match e.kind { EventKind::BeforeKey(k) => Seen::Before(k), EventKind::AfterKey(k) => Seen::After(k), EventKind::BeforeComplete => Seen::Complete };
        let i = self.seen.len();
        self.seen.push((k, chars(e.editor.current_buffer()), e.editor.cursor()));
        if i == self.at {
            match self.change {
                Change::Type(c) => e.editor.insert_after_cursor(c).unwrap(),
                Change::Start => e.editor.move_cursor_to_start_of_line().unwrap(),
                Change::Clear => e.editor.delete_all_before_cursor().unwrap(),
                Change::Erase => e.editor.delete_before_cursor().unwrap(),
            }
        }
    }
}
fn event_key() -> Key {
    match choose("key", 16) {
        0 => Key::Char(ascii("kc")), 1 => Key::Char('\n'), 2 => Key::Ctrl('h'), 3 => Key::Backspace, 4 => Key::Char('\t'), 5 => Key::Ctrl('c'), 6 => Key::Ctrl('d'),
        7 => Key::Left, 8 => Key::Home, 9 => Key::Ctrl('u'), 10 => Key::Esc, 11 => Key::Alt('b'), 12 => Key::Null, 13 => Key::F(5), 14 => Key::Delete, _ => Key::Ctrl('x'),
    }
}
struct Expect { seen: Vec<(Seen, Vec<char>, usize)>, at: usize, change: Change, m: Model }
impl Expect {
    /// The completer sees an event, and changes something if it is the chosen one.
    fn event(&mut self, s: Seen) {
        let i = self.seen.len();
        self.seen.push((s, self.m.t.clone(), self.m.c));
        if i == self.at {
            self.m.key(match self.change { Change::Type(c) => Key::Char(c), Change::Start => Key::Home, Change::Clear => Key::Ctrl('u'), Change::Erase => Key::Backspace }, &ref_words);
            reach("changed");
        }
    }
}
/// read_line with Emacs keys on a line of at most n characters, k keys; the completer edits the
/// line in one of the events.
#[no_mangle]
pub extern "C" fn c24_events(n: u64, k: u64, e: u64) {
    set_width(80);
    let mut c = ctx();
    let t = ascii_chars(choose("len", n as usize + 1));
    for _ in 0..k { let key = event_key(); c.terminal.keys.push(key); }
    let keys = c.terminal.keys.clone();
    let cand = vec!['z', 'z'];
    let at = choose("event", e as usize + 1);
    let at = if at == e as usize { 1000 } else { at };
    let change = if at == 1000 { Change::Start } else { [Change::Type('y'), Change::Start, Change::Clear, Change::Erase][choose("change", 4)] };
    let mut r = Recorder { seen: vec![], at, change, cand: cand.clone() };
    let got = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut r, None, string(&t));
    // what has to happen
    let mut x = Expect { seen: vec![], at, change, m: Model::new(&t, t.len()) };
    let mut end: Option<Result<(), std::io::ErrorKind>> = None;
    for key in keys {
        x.event(Seen::Before(key));
        let after = if key == Key::Ctrl('h') { Key::Backspace } else { key };
        match key {
            Key::Ctrl('c') => { end = Some(Err(std::io::ErrorKind::Interrupted)); break }
            Key::Ctrl('d') if x.m.t.is_empty() => { end = Some(Err(std::io::ErrorKind::UnexpectedEof)); break }
            Key::Char('\n') => if x.m.c > 0 && x.m.t[x.m.c - 1] == '\\' { x.m.insert(&['\n']) } else { x.m.c = x.m.t.len(); end = Some(Ok(())) },
            Key::Char('\t') => {
                x.event(Seen::Complete);
                let s = word_start(&ref_words(&x.m.t), x.m.c);
                let w = x.m.t[s..x.m.c].to_vec();
                x.seen.push((Seen::Asked, w, 0));
                let at = x.m.c;
                if s < at { x.m.delete(s, at); }
                x.m.insert(&cand);
                reach("completed");
            }
            _ => x.m.key(key, &ref_words),
        }
        x.event(Seen::After(after));
        if end.is_some() { break }
    }
    check(r.seen.len() == x.seen.len(), "C24 one event before and after each key, and one before each completion");
    for i in 0..x.seen.len() {
        check(r.seen[i].0 == x.seen[i].0, "C24 the event carries the key");
        check(same(&r.seen[i].1, &x.seen[i].1) & (r.seen[i].2 == x.seen[i].2), "C24 the event sees the editor before or after the key");
    }
    match (end, got) {
        (Some(Err(k)), Err(e)) => check(e.kind() == k, "C24 reading ends as it should"),
        (Some(Err(_)), Ok(_)) | (_, Err(_)) => check(false, "C24 reading ends as it should"),
        (_, Ok(s)) => check(same(&s.chars().collect::<Vec<char>>(), &x.m.t), "C24 the line has the changes the completer made"),
    }
    reach("end");
    observe(r.seen.len() as u64);
}
/// Vi keys: events alternate, and each key starts from what the one before it left.
#[no_mangle]
pub extern "C" fn c24_vi(n: u64, k: u64, esc: u64) {
    set_width(80);
    let mut c = ctx();
    c.key_bindings = KeyBindings::Vi;
    let t = ascii_chars(choose("len", n as usize + 1));
    if esc == 1 { c.terminal.keys.push(Key::Esc) }
    for _ in 0..k { let key = event_key(); c.terminal.keys.push(key); }
    let keys = c.terminal.keys.clone();
    let mut r = Recorder { seen: vec![], at: 1000, change: Change::Start, cand: vec!['z'] };
    let got = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut r, None, string(&t));
    let mut i = 0;
    let mut last = t.clone();
    let mut over = false;
    for (j, key) in keys.iter().enumerate() {
        if i == r.seen.len() { check(over, "C24 every key is seen before it is handled"); break }
        check(!over, "C24 no event after the last key");
        check(r.seen[i].0 == Seen::Before(*key) && same(&r.seen[i].1, &last), "C24 the event before a key sees what the last key left");
        let empty = r.seen[i].1.is_empty();
        i += 1;
        if *key == Key::Ctrl('c') || *key == Key::Ctrl('d') && empty { over = true; continue }
        if *key == Key::Char('\t') {
            check(r.seen.len() > i + 1 && r.seen[i].0 == Seen::Complete && r.seen[i + 1].0 == Seen::Asked && same(&r.seen[i].1, &last), "C24 one event before a completion");
            i += 2;
        }
        check(r.seen.len() > i, "C24 every key is seen after it is handled");
        check(r.seen[i].0 == Seen::After(if *key == Key::Ctrl('h') { Key::Backspace } else { *key }), "C24 the event after a key carries it");
        last = r.seen[i].1.clone();
        i += 1;
        if *key == Key::Char('\n') && i == r.seen.len() && c.terminal.pos == j + 1 { over = true }
    }
    check(i == r.seen.len(), "C24 no further events");
    if let Ok(s) = got { check(same(&s.chars().collect::<Vec<char>>(), &last), "C24 the line is what the last event saw"); }
    reach("end");
    observe(r.seen.len() as u64);
}
