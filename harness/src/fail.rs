//! C23: a terminal that fails.
use crate::{env::*, keys::*, session::*, sym::*, util::*};
use liner::*;
use std::io::ErrorKind;

fn key(vi: u64) -> Key {
    match choose("key", 23) {
        0 => Key::Char(if vi == 2 { ascii("kc") } else { 'a' }),
        1 => Key::Char('\n'), 2 => Key::Char('\t'), 3 => Key::Ctrl('r'), 4 => Key::Ctrl('s'), 5 => Key::Ctrl('f'), 6 => Key::Right,
        7 => Key::Left, 8 => Key::Up, 9 => Key::Down, 10 => Key::Backspace, 11 => Key::Ctrl('l'), 12 => Key::Ctrl('w'), 13 => Key::Ctrl('x'),
        14 => Key::Alt('.'), 15 => Key::Alt('<'), 16 => Key::Esc, 17 => Key::Ctrl('c'), 18 => Key::Ctrl('d'), 19 => Key::Alt('b'), 20 => Key::Ctrl('k'), 21 => Key::Alt('r'),
        _ => Key::Delete,
    }
}
fn kind() -> ErrorKind { [ErrorKind::BrokenPipe, ErrorKind::Interrupted][choose("kind", 2)] }
fn two() -> ListComp { ListComp(vec!["ab".into(), "b".into()]) }
fn plan(c: &mut Ctx, ops: usize) {
    c.terminal.fail.0 = choose("fail", ops);
    c.terminal.fail.1 = if flag("once") { c.terminal.fail.0 + 1 } else { usize::MAX };
    c.terminal.kind = kind();
}
/// Key by key: every failure is that key's result; what follows a failure still works.
#[no_mangle]
pub extern "C" fn c23_keys(h: u64, k: u64, vi: u64, ops: u64) {
    set_width(3);
    let mut c = ctx();
    let hist = history(&mut c, h as usize, 1);
    let t = from_set(choose("len", 3), &['a', 'b']);
    let mut ed = Editor::new_with_init_buffer(Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::default()) }, None, &mut c, string(&t)).unwrap();
    let mut km = Km::new(vi, &mut ed);
    ed.context_mut().terminal.ops = 0;
    plan(ed.context_mut(), ops as usize);
    let mut comp = two();
    for _ in 0..k {
        let key = key(vi);
        let before = ed.context().terminal.failed;
        let empty = ed.current_buffer().is_empty();
        let r = km.key(key, &mut ed, &mut comp);
        let failed = ed.context().terminal.failed > before;
        let kind = ed.context().terminal.kind;
        match r {
            Ok(done) => {
                check(!failed, "C23 a terminal failure is reported");
                if done { reach("done"); break }
            }
            Err(e) => if failed {
                check(e.kind() == kind, "C23 the error is the terminal's");
                reach("failed");
            } else {
                check(key == Key::Ctrl('c') && e.kind() == ErrorKind::Interrupted || key == Key::Ctrl('d') && empty && e.kind() == ErrorKind::UnexpectedEof, "C23 no failure, no error");
                break;
            },
        }
        check(ed.cursor() <= ed.current_buffer().num_chars(), "C23 the cursor stays within the line");
        check(intact(ed.context().history(), &hist), "C23 the stored history is unchanged");
    }
    reach("end");
    observe(ed.cursor() as u64);
    obs(&chars(ed.current_buffer()));
}
/// read_line: the first failure, of the terminal or of reading a key, is what it returns.
#[no_mangle]
pub extern "C" fn c23_read(h: u64, k: u64, vi: u64, ops: u64) {
    set_width(2);
    let mut c = ctx();
    c.key_bindings = if vi > 0 { KeyBindings::Vi } else { KeyBindings::Emacs };
    let hist = history(&mut c, h as usize, 1);
    let t = from_set(choose("len", 2), &['a']);
    plan(&mut c, ops as usize);
    if flag("bad") { c.terminal.bad_key = choose("which", k as usize + 1); }
    for _ in 0..k { let key = key(vi); c.terminal.keys.push(key); }
    let mut comp = two();
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut comp, None, string(&t));
    let t = &c.terminal;
    let bad = t.pos > 0 && t.pos - 1 == t.bad_key;
    match r {
        Ok(_) => { check(t.failed == 0 && !bad, "C23 a failure is reported"); reach("read"); }
        Err(e) => if t.failed > 0 || bad {
            check(e.kind() == t.kind, "C23 the error is the terminal's");
            reach(if bad { "bad key" } else { "failed" });
        } else {
            let key = t.keys[t.pos - 1];
            check(key == Key::Ctrl('c') && e.kind() == ErrorKind::Interrupted || key == Key::Ctrl('d') && e.kind() == ErrorKind::UnexpectedEof, "C23 no failure, no error");
        },
    }
    check(t.failed <= 1, "C23 nothing is written after a failure");
    check(intact(&c.history, &hist), "C23 the stored history is unchanged");
    reach("end");
    observe(c.terminal.pos as u64);
}
