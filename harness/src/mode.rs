//! C22: the Vi indicator in the prompt.
use crate::{env::*, keys::*, sym::*, util::*};
use liner::*;

/// What the screen was last told: the output after the last "clear below".
fn drawn(out: &[u8]) -> &[u8] {
    let mut i = out.len();
    while i >= 3 {
        if out[i - 3] == 0x1b && out[i - 2] == b'[' && out[i - 1] == b'J' { return &out[i..] }
        i -= 1;
    }
    check(false, "C22 the prompt has been drawn");
    out
}
fn begins(o: &[u8], s: &str) -> bool { o.len() >= s.len() && o[..s.len()] == *s.as_bytes() }
/// Hands the editor a fresh prompt now and then.
struct Prompts { at: usize, n: usize }
impl Completer for Prompts {
    fn completions(&mut self, _s: &str) -> Vec<String> { vec![] }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        if let EventKind::BeforeKey(_) = e.kind {
            if self.n == self.at { e.editor.set_prompt(status()); }
            self.n += 1;
        }
    }
}
fn status() -> Prompt { Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "(cmd)", "(ins)")) } }
fn any_key() -> Key {
    match choose("key", 16) {
        0 => Key::Char(ascii("kc")),
        1 => Key::Esc, 2 => Key::Ctrl('['), 3 => Key::Left, 4 => Key::Right, 5 => Key::Up, 6 => Key::Down, 7 => Key::Home, 8 => Key::End,
        9 => Key::Backspace, 10 => Key::Delete, 11 => Key::Ctrl('r'), 12 => Key::Char('\t'), 13 => Key::Char('\n'), 14 => Key::Ctrl('l'), _ => Key::Ctrl('f'),
    }
}
/// After k arbitrary keys on h history entries and a line of n characters, the indicator says
/// whether a printable key will be inserted.
#[no_mangle]
pub extern "C" fn c22_mode(n: u64, h: u64, k: u64, esc: u64) {
    set_width(80);
    let mut c = Context::with_terminal(Term::recording());
    for i in 0..h { c.history.buffers.push_back(buf(&[['a', 'b'][i as usize % 2], 'c'])); }
    let t = from_set(n as usize, &['a', ' ']);
    let mut ed = Editor::new_with_init_buffer(status(), None, &mut c, string(&t)).unwrap();
    let mut m = Vi::new();
    let mut p = Prompts { at: choose("set", k as usize + 1), n: 0 };
    m.init(&mut ed).unwrap();
    if esc == 1 { p.n = 100; m.handle_key(Key::Esc, &mut ed, &mut p).unwrap(); p.n = 0 }
    for _ in 0..k {
        let key = any_key();
        let r = m.handle_key(key, &mut ed, &mut p);
        if r.is_err() || r.unwrap() { reach("done"); return }
    }
    let d = drawn(&ed.context().terminal.out);
    let (ins, cmd) = (begins(d, "(ins)"), begins(d, "(cmd)"));
    check(ins != cmd, "C22 the prompt says which mode it is");
    let (was, at) = (chars(ed.current_buffer()), ed.cursor());
    // (Z is no command)
    m.handle_key(Key::Char('Z'), &mut ed, &mut p).unwrap();
    let now = chars(ed.current_buffer());
    let mut w = was.clone();
    w.insert(at, 'Z');
    check(ins == (same(&now, &w) && ed.cursor() == at + 1), "C22 the prompt says insert exactly when a key is inserted");
    let d = drawn(&ed.context().terminal.out);
    check(begins(d, if ins { "(ins)" } else { "(cmd)" }), "C22 the indicator stays");
    reach(if ins { "insert" } else { "command" });
    observe(ins as u64);
    obs(&now);
}
/// A prompt without status is drawn as it is, in either key map and mode.
#[no_mangle]
pub extern "C" fn c22_plain(n: u64, k: u64, vi: u64) {
    set_width(80);
    let mut c = Context::with_terminal(Term::recording());
    let p: Vec<char> = (0..choose("plen", n as usize + 1)).map(|_| ascii("p")).collect();
    let ps = string(&p);
    let mut ed = Editor::new_with_init_buffer(Prompt::from(ps.clone()), None, &mut c, "ab").unwrap();
    let mut m = crate::session::Km::new(vi, &mut ed);
    for _ in 0..k {
        let key = match choose("key", 8) { 0 => Key::Char(ascii("kc")), 1 => Key::Esc, 2 => Key::Left, 3 => Key::Backspace, 4 => Key::Home, 5 => Key::Right, 6 => Key::Ctrl('l'), _ => Key::Null };
        m.key(key, &mut ed, &mut NoComp).unwrap();
        let d = drawn(&ed.context().terminal.out);
        let mut x = 0;
        check(d.len() >= p.len(), "C22 the prompt is drawn");
        for i in 0..p.len() { x |= d[i] ^ p[i] as u8; }
        check(x == 0, "C22 a prompt without status is drawn unchanged");
        let t = string(&chars(ed.current_buffer()));
        let t = t.as_bytes();
        check(d.len() >= p.len() + t.len(), "C22 the line follows the prompt");
        let mut x = 0;
        for i in 0..t.len() { x |= d[p.len() + i] ^ t[i]; }
        check(x == 0, "C22 the line follows the prompt");
    }
    reach("end");
    observe(ed.cursor() as u64);
}
