//! C03 / C04: no key sequence crashes the editor; the cursor stays in bounds.
use crate::{env::*, sym::*, util::*};
use liner::*;

/// Any ASCII character including control characters.
pub fn byte_char(n: &'static str) -> char {
    let v = new(n, 8) as u8;
    // (control characters have no width: one path for each kind)
    if flag("control") { assume((v < 0x20) | (v == 0x7f)) } else { assume((v >= 0x20) & (v < 0x7f)) }
    v as char
}
/// Any key: every variant the key maps look at, with any ASCII character or a wide, zero-width or
/// case-expanding one.
pub fn any_key() -> Key {
    match choose("key", 18) {
        0 => Key::Char(byte_char("kc")),
        1 => Key::Ctrl(byte_char("kc")),
        2 => Key::Alt(byte_char("kc")),
        15 => Key::Char('\u{4e16}'),
        16 => Key::Char('\u{301}'),
        17 => Key::Char('\u{df}'),
        3 => Key::Backspace,
        4 => Key::Left,
        5 => Key::Right,
        6 => Key::Up,
        7 => Key::Down,
        8 => Key::Home,
        9 => Key::End,
        10 => Key::Delete,
        11 => Key::Null,
        12 => Key::Esc,
        13 => Key::F(1),
        _ => Key::BackTab,
    }
}
/// Any key, with character payloads printable ASCII, tab or newline.
pub fn ascii_key() -> Key {
    match any_key_kind() {
        K::C => Key::Char(key_ascii()),
        K::Ctrl => Key::Ctrl(ascii("kc")),
        K::Alt => Key::Alt(ascii("kc")),
        K::Plain(k) => k,
    }
}
enum K { C, Ctrl, Alt, Plain(Key) }
fn any_key_kind() -> K {
    match choose("key", 12) {
        0 => K::C,
        1 => K::Ctrl,
        2 => K::Alt,
        3 => K::Plain(Key::Backspace),
        4 => K::Plain(Key::Left),
        5 => K::Plain(Key::Right),
        6 => K::Plain(Key::Up),
        7 => K::Plain(Key::Down),
        8 => K::Plain(Key::Home),
        9 => K::Plain(Key::End),
        10 => K::Plain(Key::Delete),
        _ => K::Plain(Key::Esc),
    }
}
pub fn key_ascii() -> char {
    let v = new("kc", 8) as u8;
    assume((v >= 0x20) & (v < 0x7f) | (v == b'\n') | (v == b'\t'));
    v as char
}

/// Text whose characters come from the classes that matter for layout and word logic.
pub const CLASSES: [char; 8] = ['a', ' ', '\n', '\\', '.', '\u{4e16}', '\u{301}', '\u{df}'];
pub fn class_text(n: usize) -> Vec<char> { from_set(n, &CLASSES) }

pub fn prompt(i: usize) -> String {
    match i {
        0 => "$ ".into(),
        1 => "".into(),
        2 => "one\ntwo> ".into(),
        3 => "\x1b[32mab\x1b[0m\u{4e16} ".into(),
        4 => "p".repeat(7),
        _ => "\n".into(),
    }
}

pub struct ListComp(pub Vec<String>);
impl Completer for ListComp {
    fn completions(&mut self, _s: &str) -> Vec<String> { self.0.clone() }
}

pub fn string(c: &[char]) -> String { c.iter().collect() }

fn end_of_line_ok<C: EditorContext>(ed: &Editor<C>) -> bool { ed.cursor() <= ed.current_buffer().num_chars() }

fn drive<M: KeyMap, C: Completer>(mut m: M, ed: Editor<&mut Ctx>, comp: &mut C, k: u64, vi: bool, key: fn() -> Key) { 
    let mut ed = ed;
    m.init(&mut ed).unwrap();
    let mut stopped = false;
    for _ in 0..k {
        let key = key();
        let r = m.handle_key(key, &mut ed, comp);
        check(end_of_line_ok(&ed), if vi { "C04 cursor within the line" } else { "C03 cursor within the line" });
        if r.is_err() || r.unwrap() { stopped = true; break }
    }
    if vi && !stopped {
        // whatever was pending, Esc brings Vi back to waiting for a normal-mode command
        let r = m.handle_key(Key::Esc, &mut ed, comp);
        check(r.is_ok(), "C04 Esc is accepted");
        let n = ed.current_buffer().num_chars();
        check(ed.cursor() < n || n == 0 && ed.cursor() == 0, "C04 cursor on a character in normal mode");
        reach("normal");
    }
    reach("end");
    let c = ed.cursor();
    let s: String = ed.into();
    observe(c as u64);
    observe_str(&s);
}

/// Up to `n` characters of mixed classes, `k` arbitrary keys, given width and prompt.
#[no_mangle]
pub extern "C" fn c03_text(n: u64, k: u64, width: u64, pr: u64) {
    set_width(width as u16);
    let mut c = ctx();
    let t = class_text(choose("len", n as usize + 1));
    let ed = Editor::new_with_init_buffer(Prompt::from(prompt(pr as usize)), None, &mut c, string(&t)).unwrap();
    drive(Emacs::new(), ed, &mut NoComp, k, false, any_key);
}
#[no_mangle]
pub extern "C" fn c04_text(n: u64, k: u64, width: u64, pr: u64, esc: u64) {
    set_width(width as u16);
    let mut c = ctx();
    let t = class_text(choose("len", n as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt { prompt: prompt(pr as usize), vi_status: Some(ViStatus::default()) }, None, &mut c, string(&t)).unwrap();
    if esc == 1 { drive(normal(&mut ed), ed, &mut NoComp, k, true, any_key) } else { drive(Vi::new(), ed, &mut NoComp, k, true, any_key) }
}
/// A Vi key map that has left its initial insert mode.
pub struct Normal(pub Vi);
impl Default for Normal { fn default() -> Self { Normal(Vi::new()) } }
impl KeyMap for Normal {
    fn handle_key_core<C: EditorContext>(&mut self, key: Key, ed: &mut Editor<C>) -> std::io::Result<()> { self.0.handle_key_core(key, ed) }
}
pub fn normal(ed: &mut Editor<&mut Ctx>) -> Normal {
    let mut m = Vi::new();
    m.init(ed).unwrap();
    m.handle_key(Key::Esc, ed, &mut NoComp).unwrap();
    Normal(m)
}

/// History of `h` entries of up to `n` printable ASCII characters (empty entries included).
pub fn history(c: &mut Ctx, h: usize, n: usize) -> Vec<Vec<char>> {
    let mut v = vec![];
    for _ in 0..h {
        let e = ascii_chars(choose("hlen", n + 1));
        c.history.buffers.push_back(buf(&e));
        v.push(e);
    }
    v
}
#[no_mangle]
pub extern "C" fn c03_hist(h: u64, n: u64, d: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    drive(Emacs::new(), ed, &mut NoComp, k, false, ascii_key);
}
#[no_mangle]
pub extern "C" fn c04_hist(h: u64, n: u64, d: u64, k: u64, esc: u64) {
    set_width(80);
    let mut c = ctx();
    history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    if esc == 1 { drive(normal(&mut ed), ed, &mut NoComp, k, true, ascii_key) } else { drive(Vi::new(), ed, &mut NoComp, k, true, ascii_key) }
}
/// Keys that move through history and start and end searches.
fn nav_key() -> Key {
    match choose("key", 13) {
        0 => Key::Char(ascii("kc")),
        1 => Key::Up, 2 => Key::Down, 3 => Key::Alt('<'), 4 => Key::Alt('>'), 5 => Key::Ctrl('r'), 6 => Key::Ctrl('s'), 7 => Key::Ctrl('f'),
        8 => Key::Backspace, 9 => Key::Ctrl('x'), 10 => Key::Ctrl('l'), 11 => Key::Alt('.'), _ => Key::Char('\n'),
    }
}
fn nav_vi_key() -> Key {
    match choose("key", 13) {
        0 => Key::Char(['a', 'd', 'w', '0'][choose("kc", 4)]),
        1 => Key::Up, 2 => Key::Down, 3 => Key::Esc, 4 => Key::Char('k'), 5 => Key::Char('j'), 6 => Key::Ctrl('r'), 7 => Key::Ctrl('f'),
        8 => Key::Char('x'), 9 => Key::Char('u'), 10 => Key::Char('A'), 11 => Key::Char('.'), _ => Key::Char('\n'),
    }
}
#[no_mangle]
pub extern "C" fn c03_nav(h: u64, n: u64, d: u64, k: u64, vi: u64) {
    set_width(80);
    let mut c = ctx();
    history(&mut c, h as usize, n as usize);
    let t = ascii_chars(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    match vi {
        0 => drive(Emacs::new(), ed, &mut NoComp, k, false, nav_key),
        1 => drive(Vi::new(), ed, &mut NoComp, k, true, nav_vi_key),
        _ => drive(normal(&mut ed), ed, &mut NoComp, k, true, nav_vi_key),
    }
}
/// History of entries from the layout classes, on a narrow terminal.
fn wide_history(c: &mut Ctx, h: u64, n: u64) {
    for _ in 0..h { let e = class_text(choose("hlen", n as usize + 1)); c.history.buffers.push_back(buf(&e)); }
}
/// Keys that move through, search and show history, on characters of different widths.
fn wide_key() -> Key {
    match choose("key", 16) {
        0 => Key::Char(CLASSES[choose("s", CLASSES.len())]),
        1 => Key::Up, 2 => Key::Down, 3 => Key::Left, 4 => Key::Right, 5 => Key::Ctrl('r'), 6 => Key::Ctrl('s'), 7 => Key::Backspace, 8 => Key::Delete,
        9 => Key::Home, 10 => Key::End, 11 => Key::Alt('.'), 12 => Key::Ctrl('f'), 13 => Key::Ctrl('w'), 14 => Key::Alt('f'), _ => Key::Ctrl('l'),
    }
}
#[no_mangle]
pub extern "C" fn c03_wide(h: u64, n: u64, d: u64, k: u64, width: u64) {
    set_width(width as u16);
    let mut c = ctx();
    wide_history(&mut c, h, n);
    let t = class_text(choose("len", d as usize + 1));
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    drive(Emacs::new(), ed, &mut NoComp, k, false, wide_key);
}
fn wide_vi_key() -> Key {
    match choose("key", 14) {
        0 => Key::Char(['a', 'x', '\u{4e16}', '\u{301}', '~'][choose("s", 5)]),
        1 => Key::Up, 2 => Key::Down, 3 => Key::Left, 4 => Key::Right, 5 => Key::Ctrl('r'), 6 => Key::Backspace, 7 => Key::Delete,
        8 => Key::Char('d'), 9 => Key::Char('w'), 10 => Key::Char('u'), 11 => Key::Char('.'), 12 => Key::Esc, _ => Key::Ctrl('f'),
    }
}
#[no_mangle]
pub extern "C" fn c04_wide(h: u64, n: u64, d: u64, k: u64, width: u64, esc: u64) {
    set_width(width as u16);
    let mut c = ctx();
    wide_history(&mut c, h, n);
    let t = class_text(choose("len", d as usize + 1));
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    if esc == 1 { drive(normal(&mut ed), ed, &mut NoComp, k, true, wide_vi_key) } else { drive(Vi::new(), ed, &mut NoComp, k, true, wide_vi_key) }
}
/// Completion candidates `nc` of up to `n` characters, keys biased to completion.
fn comp_key() -> Key {
    match choose("key", 9) {
        0 => Key::Char('\t'), 1 => Key::Char('\t'), 2 => Key::Char(ascii("kc")), 3 => Key::Backspace, 4 => Key::Left, 5 => Key::Char('\n'), 6 => Key::Ctrl('r'), 7 => Key::Up, _ => Key::Home,
    }
}
#[no_mangle]
pub extern "C" fn c03_comp(nc: u64, n: u64, k: u64, width: u64) {
    set_width(width as u16);
    let mut c = ctx();
    let cs = (0..choose("nc", nc as usize + 1)).map(|_| string(&from_set(choose("cl", n as usize + 1), &['a', ' ', '\u{4e16}']))).collect();
    let t = from_set(choose("len", 3), &['a', ' ', '\u{4e16}']);
    let ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    drive(Emacs::new(), ed, &mut ListComp(cs), k, false, comp_key);
}
