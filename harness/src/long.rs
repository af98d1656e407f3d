//! Long lines, histories, files and sessions: the same properties past every size the other entries
//! reach. Structure and sizes are fixed; what is at the interesting places is arbitrary.
use crate::{emacs::*, env::*, file::*, fs::*, keys::*, screen::*, session::*, sym::*, util::*, vi};
use liner::*;

fn splice(v: &[char], s: usize, e: usize, t: &[char]) -> Vec<char> { [&v[..s], t, &v[e..]].concat() }
fn editor<'a>(c: &'a mut Ctx, t: &[char]) -> Editor<&'a mut Ctx> { Editor::new_with_init_buffer(Prompt::from("$ "), None, c, string(t)).unwrap() }

// ---------------------------------------------------------------- C02
#[no_mangle]
pub extern "C" fn c02_long(n: u64) {
    let n = n as usize;
    let v = long_text(n);
    let mut b = buf(&v);
    let (s, e) = (place(n), place(n));
    if s > e { return }
    let t: Vec<char> = (0..[0, 1, n][choose("m", 3)]).map(|i| (b'0' + (i % 10) as u8) as char).collect();
    check(b.remove(s, e) == e - s, "C02 remove returns the number of characters removed");
    let w = splice(&v, s, e, &[]);
    check(is(&b, &w), "C02 an edit changes exactly the addressed characters");
    b.insert(s, &t);
    let w2 = splice(&w, s, s, &t);
    check(is(&b, &w2), "C02 an edit changes exactly the addressed characters");
    let st: String = w2.iter().collect();
    check((b.num_chars() == w2.len()) & (b.num_bytes() == st.len()), "C02 num_chars counts characters");
    let mut out = vec![];
    b.print(&mut out).unwrap();
    check(out == st.as_bytes(), "C02 print writes the text");
    check(b.range_chars(s, w2.len()) == w2[s..].to_vec(), "C02 range_chars is the addressed slice");
    let p = buf(&w2[..w2.len() - w2.len() / 3]);
    check(b.starts_with(&p) == (w2.len() / 3 > 0 && p.num_chars() > 0), "C02 starts_with is proper non-empty prefix");
    check(b.contains(&buf(&w2[w2.len() / 3..])) == !w2.is_empty(), "C02 contains is non-empty substring");
    let lines: Vec<Vec<char>> = w2.split(|c| *c == '\n').map(|l| l.to_vec()).collect();
    let got = b.lines();
    check(got.len() == lines.len(), "C02 lines splits at newlines");
    for (g, l) in got.iter().zip(&lines) { check(same(&g.chars().collect::<Vec<_>>(), l), "C02 lines keeps each line's text"); }
    check(same(b.last_arg().unwrap_or(&[]), &last_word(&w2).unwrap_or_default()), "C02 last_arg is the last space-separated word");
    while b.undo() {}
    check(is(&b, &v), "C02 undoing the edit restores every character");
    while b.redo() {}
    check(is(&b, &w2), "C02 redoing the edit restores the edited text");
    reach("end");
}

// ---------------------------------------------------------------- C03, C04
#[no_mangle]
pub extern "C" fn c03_long(n: u64, h: u64) {
    set_width([7, 80][choose("w", 2)]);
    let mut c = ctx();
    let t = long_text(n as usize);
    for i in 0..h { c.history.buffers.push_back(buf(&t[..(n as usize * i as usize / h as usize)])); }
    let mut ed = editor(&mut c, &t[..(n as usize * 2 / 3)]);
    let p = place(ed.current_buffer().num_chars());
    ed.move_cursor_to(p).unwrap();
    let mut km = Emacs::new();
    for _ in 0..2 {
        let key = [Key::Up, Key::Down, Key::Alt('<'), Key::Alt('>'), Key::Alt('.'), Key::Ctrl('r'), Key::Ctrl('s'), Key::Ctrl('w'), Key::Alt('b'), Key::Alt('f'), Key::Ctrl('k'), Key::Ctrl('u'), Key::Ctrl('x'), Key::Alt('r'), Key::Right, Key::Char('x'), Key::Delete, Key::Ctrl('l')][choose("key", 18)];
        let r = km.handle_key(key, &mut ed, &mut NoComp);
        check(r.is_ok(), "C03 the key is handled");
        check(ed.cursor() <= ed.current_buffer().num_chars(), "C03 cursor within the line");
    }
    reach("end");
    observe(ed.cursor() as u64);
}
/// Counts of up to `digits` digits before an operator and before its motion.
#[no_mangle]
pub extern "C" fn c04_count(n: u64, digits: u64) {
    set_width(80);
    let mut c = ctx();
    let t: Vec<char> = (0..n).map(|i| ['a', ' '][i as usize % 2]).collect();
    let mut s = vi::Sess::new(&mut c, &t, choose("at", n.max(1) as usize));
    let count = || -> Vec<Key> {
        let d = [0, 1, 2, digits as usize / 2, digits as usize][choose("digits", 5)];
        let c = [b'1', b'4', b'9'][if d > 0 { choose("digit", 3) } else { 0 }];
        (0..d).map(|_| Key::Char(c as char)).collect()
    };
    let c1 = count();
    s.keys(&c1);
    let op = choose("op", 8);
    match op {
        0..=2 => {
            s.key(Key::Char(['d', 'c', 'd'][op]));
            let c2 = count();
            s.keys(&c2);
            let m = [&['w'][..], &['l'], &['h'], &['b'], &['e'], &['g', 'e'], &['$'], &['f', 'a'], &['T', ' '], &['d'], &[';']][choose("m", 11)];
            for k in m { s.key(Key::Char(*k)) }
        }
        3 => s.keys(&[Key::Char('r'), Key::Char('x')]),
        4 => s.key(Key::Char('~')),
        5 => s.key(Key::Char('x')),
        6 => s.key(Key::Char(['w', 'l', 'h', 'b', 'e', 'j', 'k', '.', 'u'][choose("m", 9)])),
        // (an insertion that many times is not tried)
        _ => s.keys(&[Key::Char('f'), Key::Char('a')]),
    }
    check(s.ed.cursor() <= s.ed.current_buffer().num_chars(), "C04 cursor within the line");
    s.key(Key::Esc);
    s.key(Key::Esc);
    let n = s.ed.current_buffer().num_chars();
    check(s.ed.cursor() < n || n == 0 && s.ed.cursor() == 0, "C04 cursor on a character in normal mode");
    reach("end");
    observe(s.ed.cursor() as u64);
}
#[no_mangle]
pub extern "C" fn c04_long(n: u64, h: u64) {
    set_width([7, 80][choose("w", 2)]);
    let mut c = ctx();
    let t = long_text(n as usize);
    for i in 0..h { c.history.buffers.push_back(buf(&t[..(n as usize * i as usize / h as usize)])); }
    let init = &t[..(n as usize * 2 / 3)];
    let p = place(init.len().saturating_sub(1));
    let mut s = vi::Sess::new(&mut c, init, p);
    for _ in 0..2 {
        let key = ['w', 'b', 'e', 'W', 'B', '$', '0', 'k', 'j', 'x', 'D', '.', 'u', '~', 'A', ';', '9'][choose("key", 17)];
        s.key(Key::Char(key));
        let n = s.ed.current_buffer().num_chars();
        check(s.ed.cursor() <= n, "C04 cursor within the line");
    }
    s.key(Key::Esc);
    let n = s.ed.current_buffer().num_chars();
    check(s.ed.cursor() < n || n == 0 && s.ed.cursor() == 0, "C04 cursor on a character in normal mode");
    reach("end");
    observe(s.ed.cursor() as u64);
}

// ---------------------------------------------------------------- C05
#[no_mangle]
pub extern "C" fn c05_long(n: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let mut ed = editor(&mut c, &t);
    let p = place(t.len());
    ed.move_cursor_to(p).unwrap();
    let mut m = Model::new(&t, p);
    let mut km = Emacs::new();
    for _ in 0..k {
        let key = core_key();
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        m.key(key, &ref_words);
        compare(&ed, &m);
    }
    reach("end");
    observe(ed.cursor() as u64);
}
/// One command many times, then as many undos and one revert.
#[no_mangle]
pub extern "C" fn c05_many(n: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let mut ed = editor(&mut c, &t);
    let p = place(t.len());
    ed.move_cursor_to(p).unwrap();
    let mut m = Model::new(&t, p);
    let mut km = Emacs::new();
    let key = [Key::Char('x'), Key::Left, Key::Right, Key::Backspace, Key::Delete, Key::Ctrl('w'), Key::Alt('b'), Key::Alt('f')][choose("key", 8)];
    for _ in 0..n {
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        m.key(key, &ref_words);
        compare(&ed, &m);
    }
    let r = flag("revert");
    for _ in 0..if r { 1 } else { n } {
        let key = if r { Key::Alt('r') } else { Key::Ctrl('x') };
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        m.key(key, &ref_words);
        compare(&ed, &m);
    }
    reach("end");
    observe(ed.cursor() as u64);
}
fn numbered(h: u64) -> Vec<Vec<char>> { (0..h).map(|i| format!("cmd{} arg{}", i % 7, i).chars().collect()).collect() }
/// Last-argument recall through a long history.
#[no_mangle]
pub extern "C" fn c05_lastarg_long(h: u64) {
    set_width(80);
    let mut c = ctx();
    let mut hist = numbered(h);
    hist[h as usize / 2] = vec!['x', ' ', ascii("c"), ascii("c")];
    for e in &hist { c.history.buffers.push_back(buf(e)); }
    let mut ed = editor(&mut c, &['e', ' ']);
    let mut km = Emacs::new();
    for i in 0..h as usize + 2 {
        km.handle_key(Key::Alt('.'), &mut ed, &mut NoComp).unwrap();
        let mut w = vec!['e', ' '];
        w.extend(last_word(&hist[hist.len() - 1 - i.min(hist.len() - 1)]).unwrap_or_default());
        check(is(ed.current_buffer(), &w) & (ed.cursor() == w.len()), "C05 last-argument recall steps back one entry each time");
    }
    reach("end");
    obs(&text(&ed));
}

// ---------------------------------------------------------------- C06 - C08
fn big_count() -> (usize, Vec<Key>) {
    let s = ["1", "2", "17", "100", "256", "1000", "99999999999999999999"][choose("count", 7)];
    (s.parse().unwrap_or(usize::MAX), s.chars().map(Key::Char).collect())
}
fn long_motion() -> (vi::Mo, Vec<Key>) {
    if flag("find") {
        let c = ['b', '.', 'Q'][choose("fc", 3)];
        let (k, right, until) = [('f', true, false), ('t', true, true), ('F', false, false), ('T', false, true)][choose("f", 4)];
        (vi::Mo::F(vi::Find { c, right, until }), vec![Key::Char(k), Key::Char(c)])
    } else { vi::motion(1) }
}
#[no_mangle]
pub extern "C" fn c06_long(n: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let mut p = place(t.len() - 1);
    let mut s = vi::Sess::new(&mut c, &t, p);
    let (cnt, ck) = big_count();
    let (m, mk) = long_motion();
    if vi::is_start(&m, &mk) { return }
    s.keys(&ck);
    s.keys(&mk);
    if let Some((q, _)) = vi::target(&t, p, m, cnt, None) { p = vi::clamp(t.len(), q); reach("moved") } else { reach("stays") }
    check(is(s.ed.current_buffer(), &t), "C06 a motion does not change the text");
    check(s.ed.cursor() == p, "C06 the motion's target");
    observe(s.ed.cursor() as u64);
}
#[no_mangle]
pub extern "C" fn c07_long(n: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let p = place(t.len() - 1);
    let mut s = vi::Sess::new(&mut c, &t, p);
    let (k, ck) = big_count();
    let (k2, ck2) = [(1, ""), (3, "3"), (10, "10"), (10000000000, "10000000000")][choose("count2", 4)];
    let change = flag("change");
    let (m, mk) = long_motion();
    if vi::is_start(&m, &mk) { return }
    s.keys(&ck);
    s.key(Key::Char(if change { 'c' } else { 'd' }));
    for d in ck2.chars() { s.key(Key::Char(d)) }
    s.keys(&mk);
    match vi::target(&t, p, m, k.saturating_mul(k2), None) {
        None => { reach("fails"); vi::after(&mut s, &t, p, false) }
        Some((q, inc)) => {
            reach("done");
            let (a, b) = (p.min(q), p.max(q) + inc as usize);
            vi::after(&mut s, &vi::cut(&t, a, b.min(t.len())), a, change)
        }
    }
}
/// Insertions of long texts with large counts, undone and repeated.
#[no_mangle]
pub extern "C" fn c08_long(n: u64, m: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let n = t.len();
    let p = place(n - 1);
    let mut s = vi::Sess::new(&mut c, &t, p);
    let (k, ck) = [(1, ""), (2, "2"), (12, "12")][choose("count", 3)];
    let (kc, q) = [('i', p), ('a', p + 1), ('A', n), ('I', 0)][choose("ins", 4)];
    let mut x: Vec<char> = (0..m).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    for d in ck.chars() { s.key(Key::Char(d)) }
    s.key(Key::Char(kc));
    for c in &x { s.key(Key::Char(*c)) }
    s.key(Key::Esc);
    let w = vi::put(&t, q, &x.repeat(k));
    check(s.is(&w, q + x.len() * k - 1), "C08 a counted insertion inserts the text that many times");
    if flag("dot") {
        s.key(Key::Char('0'));
        s.key(Key::Char('.'));
        let w2 = vi::put(&w, match kc { 'a' => 1, 'A' => w.len(), _ => 0 }, &x.repeat(k));
        check(is(s.ed.current_buffer(), &w2), "C08 dot repeats the insertion with its count");
        s.key(Key::Char('u'));
        check(is(s.ed.current_buffer(), &w), "C08 u takes back the repetition");
    }
    s.key(Key::Char('u'));
    check(is(s.ed.current_buffer(), &t), "C08 u takes back the whole insertion");
    reach("end");
}
/// Many changes of different kinds, each undone by one u; the last repeated many times.
#[no_mangle]
pub extern "C" fn c08_many(n: u64, k: u64) {
    set_width(80);
    let (mut c, mut c2) = (ctx(), ctx());
    let t = long_text(n as usize);
    let (mut a, mut b) = (vi::Sess::new(&mut c, &t, 0), vi::Sess::new(&mut c2, &t, 0));
    let set = choose("set", 3);
    let cmd = |i: usize| -> Vec<Key> {
        let s = [["x", "ihey\x1b", "rQ", "A z\x1b", "cwnew\x1b"], ["~", "~", "l3x", "2aab\x1b", "D"], ["dw", "sxy\x1b", "$i.\x1b", "0", "I,\x1b"]][set][i % 5];
        s.chars().map(|c| if c == '\x1b' { Key::Esc } else { Key::Char(c) }).collect()
    };
    let mut before = vec![];
    for i in 0..k as usize {
        let w = a.text();
        for key in cmd(i) { a.key(key); b.key(key) }
        if !is(a.ed.current_buffer(), &w) { before.push(w) }
    }
    if flag("dot") {
        let i = k as usize - 1;
        if cmd(i) == vec![Key::Char('0')] { return }
        for _ in 0..k { a.key(Key::Char('.')); for key in cmd(i) { b.key(key) } }
        check(a.is(&b.text(), b.ed.cursor()), "C08 dot equals typing the change again");
    } else {
        while let Some(w) = before.pop() {
            a.key(Key::Char('u'));
            check(is(a.ed.current_buffer(), &w), "C08 u restores the text before the last change");
        }
        let w = a.text();
        a.key(Key::Char('u'));
        check(is(a.ed.current_buffer(), &w), "C08 u without a change left does nothing");
    }
    reach("end");
    observe(a.ed.cursor() as u64);
}

// ---------------------------------------------------------------- C09
/// Lines continued many times, or ended in the middle of a long line.
#[no_mangle]
pub extern "C" fn c09_long(n: u64, k: u64) {
    set_width(80);
    let mut c = ctx();
    let vi = flag("vi");
    c.key_bindings = if vi { KeyBindings::Vi } else { KeyBindings::Emacs };
    let t = long_text(n as usize);
    let mut want = t.clone();
    for _ in 0..k {
        c.terminal.keys.extend([Key::Char('a'), Key::Char('\\'), Key::Char('\n')]);
        want.extend(['a', '\\', '\n']);
    }
    let x = ascii("kc");
    c.terminal.keys.push(Key::Char(x));
    want.push(x);
    if flag("home") { c.terminal.keys.push(Key::Home); } else { assume(x != '\\') }
    c.terminal.keys.extend([Key::Char('\n'), Key::Char('b')]);
    let used = c.terminal.keys.len() - 1;
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut NoComp, None, string(&t));
    match r { Ok(s) => check(same(&s.chars().collect::<Vec<_>>(), &want), "C09 Enter returns the text before it"), Err(_) => check(false, "C09 no other error") }
    check(c.terminal.pos == used, "C09 Enter ends the line");
    reach("end");
}

// ---------------------------------------------------------------- C10, C11, C12, C21
/// h entries: those at i % 3 == 0 start with "ab", at i % 3 == 1 contain it.
fn entries(c: &mut Ctx, h: u64) -> Vec<Vec<char>> {
    let mut v: Vec<Vec<char>> = (0..h).map(|i| match i % 3 { 0 => format!("ab{}", i), 1 => format!("x{} ab", i), _ => format!("y{}", i) }.chars().collect()).collect();
    v[h as usize / 3].push(ascii("c"));
    for e in &v { c.history.buffers.push_back(buf(e)); }
    v
}
#[no_mangle]
pub extern "C" fn c10_long(h: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = entries(&mut c, h);
    let draft: Vec<char> = [&[][..], &['a', 'b'], &['y']][choose("draft", 3)].to_vec();
    let mut ed = editor(&mut c, &draft);
    let vi = choose("vi", 2) as u64;
    let mut km = Km::new(vi, &mut ed);
    let x = ascii("kc");
    let edit = choose("edit", 4);
    for i in 0..h + 2 {
        let was = ed.current_history_location();
        km.key(Key::Up, &mut ed, &mut NoComp).unwrap();
        if let Some(l) = ed.current_history_location() { if was != Some(l) { check(is(ed.current_buffer(), &hist[l]), "C10 a recalled entry is shown as stored") } }
        match edit {
            0 => {}
            1 => { km.key(Key::Char(x), &mut ed, &mut NoComp).unwrap(); }
            2 => { km.key(Key::Backspace, &mut ed, &mut NoComp).unwrap(); km.key(Key::Backspace, &mut ed, &mut NoComp).unwrap(); }
            _ => if i % 5 == 0 { km.key(Key::Char(x), &mut ed, &mut NoComp).unwrap(); km.key(Key::Left, &mut ed, &mut NoComp).unwrap(); km.key(Key::Delete, &mut ed, &mut NoComp).unwrap(); }
        }
    }
    check(intact(ed.context().history(), &hist), "C10 keys do not change the stored history");
    for _ in 0..h + 2 { if ed.current_history_location().is_some() { km.key(Key::Down, &mut ed, &mut NoComp).unwrap(); } }
    check(ed.current_history_location().is_none(), "C10 moving down leaves the history");
    check(is(ed.current_buffer(), &draft), "C10 the draft is still there at the end");
    check(intact(ed.context().history(), &hist), "C10 keys do not change the stored history");
    reach("end");
}
#[no_mangle]
pub extern "C" fn c11_long(h: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = entries(&mut c, h);
    let draft: Vec<char> = [&[][..], &['a', 'b'], &['y'], &['q', 'q']][choose("draft", 4)].to_vec();
    let mut ed = editor(&mut c, &draft);
    let vi = choose("vi", 3) as u64;
    let mut km = Km::new(vi, &mut ed);
    let ord = order(&hist, &draft);
    let show = |ed: &Editor<&mut Ctx>, pos: Option<usize>| {
        check(ed.current_history_location() == pos.map(|i| ord[i]), "C11 navigation visits the matching entries in order");
        check(is(ed.current_buffer(), match pos { None => &draft, Some(i) => &hist[ord[i]] }), "C11 the entry visited is shown");
    };
    for i in 0..ord.len() + 2 {
        km.key(if vi == 2 { Key::Char('k') } else { Key::Up }, &mut ed, &mut NoComp).unwrap();
        show(&ed, if ord.is_empty() { None } else { Some(i.min(ord.len() - 1)) });
    }
    for j in 1..ord.len() + 2 {
        km.key(if vi == 2 { Key::Char('j') } else { Key::Down }, &mut ed, &mut NoComp).unwrap();
        show(&ed, ord.len().checked_sub(1 + j));
    }
    reach("end");
}
#[no_mangle]
pub extern "C" fn c12_long(h: u64) {
    set_width(80);
    let mut c = ctx();
    let hist = entries(&mut c, h);
    let pat: Vec<char> = [&['a', 'b'][..], &['y'], &['1']][choose("pat", 3)].to_vec();
    let mut ed = editor(&mut c, &pat);
    let mut km = Km::new(choose("vi", 2) as u64, &mut ed);
    let forward = flag("forward");
    km.key(if forward { Key::Ctrl('s') } else { Key::Ctrl('r') }, &mut ed, &mut NoComp).unwrap();
    let m: Vec<usize> = (0..hist.len()).filter(|i| has(&hist[*i], &pat)).collect();
    let steps = [1, m.len() - 1, m.len() + 1, 2 * m.len() + 1][choose("steps", 4)];
    for _ in 0..steps { km.key(if forward { Key::Ctrl('s') } else { Key::Ctrl('r') }, &mut ed, &mut NoComp).unwrap(); }
    let back = choose("back", 3);
    for _ in 0..back { km.key(if forward { Key::Up } else { Key::Down }, &mut ed, &mut NoComp).unwrap(); }
    let l = m.len();
    let at = if forward { (steps + 2 * l - back) % l } else { (3 * l - 1 + back - steps % l) % l };
    km.key(Key::Ctrl('f'), &mut ed, &mut NoComp).unwrap();
    check(is(ed.current_buffer(), &hist[m[at]]), "C12 accepting makes the candidate the line");
    check(intact(ed.context().history(), &hist), "C12 searching does not change the stored history");
    reach("end");
}
#[no_mangle]
pub extern "C" fn c21_long(h: u64, n: u64) {
    set_width(80);
    let mut c = ctx();
    // one entry of n characters at either end or in the middle, starting with the line
    let x = ascii("c");
    let long: Vec<char> = ['q', x].into_iter().chain((0..n).map(|i| (b'a' + (i % 26) as u8) as char)).collect();
    let at = [0, h as usize / 2, h as usize - 1][choose("which", 3)];
    let mut hist = vec![];
    for i in 0..h as usize {
        let e: Vec<char> = if i == at { long.clone() } else { format!("e{}", i).chars().collect() };
        c.history.set_max_buffers_size(h as usize);
        check(c.history.push(buf(&e)).is_ok(), "C21 pushed");
        hist.push(e);
    }
    let mut ed = editor(&mut c, &[]);
    let mut km = Km::new(choose("vi", 2) as u64, &mut ed);
    let typed = [1, 2, n as usize / 2, n as usize + 1, n as usize + 2][choose("typed", 5)];
    for k in &long[..typed] { km.key(Key::Char(*k), &mut ed, &mut NoComp).unwrap(); }
    let some = typed < long.len();
    check(ed.is_currently_showing_autosuggestion() == some, "C21 a suggestion is shown iff a longer entry starts with the line");
    let key = [Key::Ctrl('f'), Key::Right, Key::Char('\n')][choose("accept", 3)];
    if key == Key::Char('\n') && long[typed - 1] == '\\' { return }
    km.key(key, &mut ed, &mut NoComp).unwrap();
    let w = if some && key != Key::Char('\n') { &long[..] } else { &long[..typed] };
    check(is(ed.current_buffer(), w), if key == Key::Char('\n') { "C21 Enter returns the line without the suggestion" } else { "C21 accepting makes the line the suggestion" });
    check(intact(ed.context().history(), &hist), "C21 the stored history is unchanged");
    reach("end");
}

// ---------------------------------------------------------------- C13
/// More entries than the maximum, the default one included.
#[no_mangle]
pub extern "C" fn c13_long(n: u64, max: u64) {
    let mut h = History::new();
    let max = if max == 0 { 1000 } else { h.set_max_buffers_size(max as usize); max as usize };
    let mut m: Vec<Vec<char>> = numbered(n);
    m[n as usize - 2] = vec!['Q', ascii("c")];
    for e in &m { check(h.push(buf(e)).is_ok(), "C13 push succeeds"); }
    let all = m.clone();
    let keep = m.len().saturating_sub(max);
    m.drain(..keep);
    check(h.len() == m.len(), "C13 never more than the maximum after a push");
    check(intact(&h, &m), "C13 the history holds the right entries in order");
    // the oldest and newest entry can be found by what they start with
    let want: Vec<usize> = (0..m.len()).filter(|i| has(&m[*i], &['c', 'm', 'd', '3'])).collect();
    check(h.search_index(&buf(&['c', 'm', 'd', '3'])) == want, "C13 searching finds exactly the entries containing the text");
    check(h.get_history_subset(&buf(&['c', 'm', 'd', '3'])) == want, "C13 the subset is the entries containing the text, those starting with it last");
    check(h.get_newest_match(None, &buf(&['Q'])) == Some(m.len() - 2), "C13 the newest match is the newest longer entry starting with the text");
    check(h.get_newest_match(Some(want[want.len() - 1]), &buf(&['c', 'm', 'd', '3'])) == want.len().checked_sub(2).map(|i| want[i]), "C13 the newest match is the newest longer entry starting with the text");
    let gone = m[0].clone();
    h.remove_duplicates(&string(&gone));
    m.remove(0);
    check(intact(&h, &m), "C13 the history holds the right entries in order");
    let more = m.len() + 3;
    h.set_max_buffers_size(more);
    for e in &all[..5] { check(h.push(buf(e)).is_ok(), "C13 push succeeds"); m.push(e.clone()) }
    m.drain(..m.len().saturating_sub(more));
    check(intact(&h, &m), "C13 the history holds the right entries in order");
    reach("end");
}

// ---------------------------------------------------------------- C14, C15
#[no_mangle]
pub extern "C" fn c14_long(n: u64, len: u64, max: u64) {
    let f = reset();
    f.file(F, b"older\n");
    let mut a = History::new();
    let mut m: Vec<Vec<char>> = (0..n).map(|i| {
        let mut e: Vec<char> = format!("e{} ", i).chars().collect();
        for j in 0..(i * len / n) { e.push([' ', 'b', '\u{e9}', '\u{4e16}'][((i + j) % 4) as usize]) }
        e
    }).collect();
    m[n as usize / 2].push(any_char("c"));
    let l = m[n as usize / 2].len() - 1;
    assume(m[n as usize / 2][l] != '\n' && m[n as usize / 2][l] != '\r');
    for e in &m { a.buffers.push_back(buf(e)) }
    let max = if max == 0 { 1000 } else { a.set_max_file_size(max as usize); max as usize };
    check(a.commit_to_file_path(F).is_ok(), "C14 committing succeeds");
    let m = last(&m, max);
    check(eq(fs().data(0), &join(&m)), "C14 the file holds the newest entries in order");
    let mut b = History::new();
    b.set_max_file_size(max);
    let r = b.set_file_name_and_load_history(F);
    check(r.ok() == Some(fs().data(0).len() as u64), "C14 loading returns the size of the file");
    check(intact(&b, &m), "C14 loading gives the entries of the file");
    reach("end");
}
/// Many pushes by two sessions, with everything compaction does on the way.
#[no_mangle]
pub extern "C" fn c15_long(k: u64, max: u64, mem: u64) {
    let f = reset();
    f.file(F, b"old\n");
    let share = flag("share");
    let dups = flag("dups");
    let mut s: Vec<History> = vec![];
    for _ in 0..2 {
        let mut h = History::new();
        h.inc_append = true;
        h.share = share;
        h.load_duplicates = dups;
        if max > 0 { h.set_max_file_size(max as usize) }
        if mem > 0 { h.set_max_buffers_size(mem as usize) }
        h.set_file_name_and_load_history(F).unwrap();
        s.push(h);
    }
    let max = if max == 0 { 1000 } else { max as usize };
    let mem = if mem == 0 { 1000 } else { mem as usize };
    let mut all = vec![vec!['o', 'l', 'd']];
    let mut mine = vec![all.clone(), all.clone()];
    let every = 1 + choose("every", 3);
    let x = ascii("c");
    assume(x != '#');
    for i in 0..k as usize {
        let w = if i % every == every - 1 { 0 } else { 1 };
        let e: Vec<char> = format!("{}{}", if i == k as usize - 3 { x } else { 'e' }, i).chars().collect();
        check(s[w].push(buf(&e)).is_ok(), "C15 push succeeds");
        all.push(e.clone());
        mine[w].push(e.clone());
        // the newest entries are all in the file
        let d = lines();
        let n = max.min(all.len()).min(d.len());
        check(d.len() >= max.min(all.len()), "C15 the file keeps as many entries as it may");
        check(same_all(&d[d.len() - n..], &all[all.len() - n..]), "C15 the file has every pushed entry in order");
        // and every pushed one is in memory
        let have: Vec<Vec<char>> = s[w].buffers.iter().map(chars).collect();
        check(have.len() <= mem.max(if share { max } else { 0 }), "C15 memory holds at most its maximum");
        if !share { check(same_all(&have, &last(&mine[w], mem)), "C15 memory has the session's entries and those loaded") }
        else { check(have.last().map_or(false, |l| same(l, &e)), "C15 the pushed entry is the newest in memory") }
    }
    reach("end");
    observe(fs().data(0).len() as u64);
}

// ---------------------------------------------------------------- C16
#[no_mangle]
pub extern "C" fn c16_long(k: u64, n: u64) {
    set_width(80);
    let mut c = ctx();
    let t = long_text(n as usize);
    let mut ed = editor(&mut c, &t);
    let p = place(n as usize);
    ed.move_cursor_to(p).unwrap();
    // candidates of very different lengths, given in no order and some twice
    let mut want: Vec<Vec<char>> = (0..k).map(|i| { let mut v: Vec<char> = vec![(b'!' + i as u8) as char]; for _ in 0..i * 5 % 97 { v.push('z') } v }).collect();
    want[k as usize / 2].push(ascii("c"));
    let mut l: Vec<String> = want.iter().rev().map(|c| string(c)).collect();
    l.push(l[0].clone());
    l.push(l[3].clone());
    let mut h = ListComp(l);
    let mut km = Emacs::new();
    let s = ref_words(&t).iter().find(|w| w.0 < p && p <= w.1).map_or(p, |w| w.0);
    km.handle_key(Key::Char('\t'), &mut ed, &mut h).unwrap();
    check(is(ed.current_buffer(), &t), "C16 only the word before the cursor is completed");
    for i in 0..k as usize + 2 {
        km.handle_key(Key::Char('\t'), &mut ed, &mut h).unwrap();
        let w = &want[i % k as usize];
        check(is(ed.current_buffer(), &splice(&t, s, p, w)) & (ed.cursor() == s + w.len()), "C16 cycling goes through the candidates already offered");
    }
    reach("end");
}

// ---------------------------------------------------------------- C17
#[no_mangle]
pub extern "C" fn c17_long(k: u64, n: u64) {
    let f = reset();
    f.cwd = b"/vfs/w";
    f.dir(b"/vfs");
    f.dir(b"/vfs/w");
    let x = ascii("c");
    assume((x != '/') & (x != '\\') & (x != ' '));
    let mut want = vec![];
    for i in 0..k {
        let mut name: Vec<char> = format!("{}{} ", ['a', 'b'][i as usize % 2], i).chars().collect();
        for _ in 0..n * i / k { name.push(x) }
        let mut p = b"/vfs/w/".to_vec();
        p.extend(string(&name).bytes());
        let is_dir = i % 7 == 0;
        if is_dir { f.dir(&p); } else { f.nodes.push(Node { path: p, dir: false, data: vec![], there: true, link: None }); }
        if i % 2 == 0 {
            let mut w: Vec<char> = vec![];
            for c in &name { if *c == ' ' { w.push('\\') } w.push(*c) }
            if is_dir { w.push('/') }
            want.push(w);
        }
    }
    let got = FilenameCompleter::new(Some("/vfs/w")).completions("a");
    check(got.len() == want.len(), "C17 as many candidates as matching entries");
    for w in &want {
        let mut ok = false;
        for g in &got { ok |= same(&g.chars().collect::<Vec<char>>(), w); }
        check(ok, "C17 every matching entry is offered, completing what was typed");
    }
    reach("end");
}

// ---------------------------------------------------------------- C18
#[no_mangle]
pub extern "C" fn c18_long(n: u64) {
    let t = long_text(n as usize);
    let w = ref_words(&t);
    check(get_buffer_words(&buf(&t)) == w, "C18 words are the maximal runs between unescaped spaces");
    let c = below("cursor", n as usize + 1);
    use CursorPosition::*;
    let l = w.len();
    match CursorPosition::get(c, w.iter().copied()) {
        InWord(i) => { check(i < l && w[i].0 < c && c < w[i].1, "C18 inside the word"); }
        OnWordLeftEdge(i) => { check(i < l && w[i].0 == c, "C18 on the left edge"); }
        OnWordRightEdge(i) => { check(i < l && w[i].1 == c, "C18 on the right edge"); }
        InSpace(a, b) => {
            let k = w.iter().filter(|x| x.1 < c).count();
            check(w.iter().all(|x| x.1 < c || x.0 > c), "C18 in no word");
            check(a == k.checked_sub(1), "C18 nearest word to the left");
            check(b == if k < l { Some(k) } else { None }, "C18 nearest word to the right");
        }
    }
    reach("end");
}

// ---------------------------------------------------------------- C19, C20
#[no_mangle]
pub extern "C" fn c19_long(n: u64) {
    let w = [7, 20, 80][choose("w", 3)];
    let mut c = term_ctx(w);
    let t = long_text(n as usize);
    let mut ed = editor(&mut c, &t);
    let mut v = View::new(w, 0, vec![]);
    v.check(&ed, false, false);
    let mut m = Emacs::new();
    let p = place(t.len());
    ed.move_cursor_to(p).unwrap();
    v.check(&ed, false, false);
    for _ in 0..2 {
        let key = [Key::Char('x'), Key::Left, Key::Home, Key::Ctrl('w'), Key::Ctrl('k'), Key::Ctrl('u'), Key::Char('\n')][choose("key", 7)];
        if key == Key::Char('\n') && ed.cursor() > 0 && chars(ed.current_buffer())[ed.cursor() - 1] == '\\' { return }
        let done = m.handle_key(key, &mut ed, &mut NoComp).unwrap();
        v.check(&ed, false, done);
        if done { reach("entered"); break }
    }
    reach("end");
    observe(v.s.r as u64);
}
#[no_mangle]
pub extern "C" fn c20_long(n: u64) {
    let w = [7, 80][choose("w", 2)];
    let mut c = term_ctx(w);
    let mut s = String::new();
    let mut lines = vec![vec![]];
    let kind = choose("kind", 5);
    let x = ascii("p");
    for i in 0..n {
        match kind {
            0 => {}
            1 => { s.push_str(&format!("\x1b[38;5;{}m", i)); }
            2 => { s.push_str("\x1b]0;title "); for _ in 0..i { s.push(x) } s.push('\x07') }
            3 => { s.push_str("\x1b]2;"); for _ in 0..i { s.push('t') } s.push_str("\x1b\\") }
            _ => if i % 10 == 9 { s.push('\n'); lines.push(vec![]) }
        }
        let y = if i == n / 2 { x } else { 'p' };
        s.push(y);
        lines.last_mut().unwrap().push(y);
    }
    let last = lines.pop().unwrap();
    let mut ed = Editor::new_with_init_buffer(Prompt::from(s), None, &mut c, "ab").unwrap();
    let mut v = View::of(w, lines, last, vec![]);
    v.check(&ed, false, false);
    Emacs::new().handle_key(Key::Char('x'), &mut ed, &mut NoComp).unwrap();
    v.check(&ed, false, false);
    reach("end");
    observe(v.s.r as u64);
}

// ---------------------------------------------------------------- C22, C24
struct Count { before: usize, after: usize, complete: usize, ok: bool, keys: Vec<Key> }
impl Completer for Count {
    fn completions(&mut self, _s: &str) -> Vec<String> { vec!["aa".into(), "bb".into(), "cc".into()] }
    fn on_event<C: EditorContext>(&mut self, e: Event<C>) {
        match e.kind {
            EventKind::BeforeKey(k) => { self.ok &= self.before == self.after && k == self.keys[self.before]; self.before += 1 }
            EventKind::AfterKey(k) => { self.after += 1; self.ok &= self.before == self.after && k == self.keys[self.after - 1]; }
            EventKind::BeforeComplete => {
                self.complete += 1;
                let tabs = self.keys[..self.before].iter().filter(|k| **k == Key::Char('\t')).count();
                self.ok &= self.before == self.after + 1 && self.keys[self.after] == Key::Char('\t') && self.complete == tabs;
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn c24_long(k: u64) {
    set_width(80);
    let mut c = ctx();
    for i in 0..9 { c.history.buffers.push_back(buf(&[(b'a' + i) as char, 'x'])); }
    c.key_bindings = if flag("vi") { KeyBindings::Vi } else { KeyBindings::Emacs };
    let x = ascii("kc");
    assume(x != '\\');
    let set = choose("set", 4);
    for i in 0..k as usize {
        let cycle: &[Key] = [
            &[Key::Char('a'), Key::Left, Key::Char(' '), Key::Right, Key::Backspace][..],
            &[Key::Up, Key::Up, Key::Down, Key::Char('b'), Key::Home],
            &[Key::Char('\t'), Key::Char('\t'), Key::Char('\t'), Key::Char(' '), Key::Char('\t'), Key::Char('q')],
            &[Key::Ctrl('r'), Key::Char('a'), Key::Ctrl('s'), Key::Ctrl('f'), Key::Char('\t'), Key::Esc, Key::Ctrl('l')],
        ][set];
        c.terminal.keys.push(cycle[i % cycle.len()]);
    }
    c.terminal.keys.push(Key::Char(x));
    let keys = c.terminal.keys.clone();
    let n = keys.len();
    let mut h = Count { before: 0, after: 0, complete: 0, ok: true, keys };
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut h, None, "");
    check(r.is_ok(), "C24 reading ends as it should");
    let tabs = c.terminal.keys.iter().filter(|k| **k == Key::Char('\t')).count();
    check(h.ok && h.before == n && h.after == n && h.complete == tabs, "C24 one event before and after each key, and one before each completion");
    reach("end");
}
/// Many changes of mode: the indicator never falls behind.
#[no_mangle]
pub extern "C" fn c22_long(k: u64) {
    set_width(80);
    let mut c = Context::with_terminal(Term::recording());
    let p = Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "(cmd)", "(ins)")) };
    let mut ed = Editor::new_with_init_buffer(p, None, &mut c, "some text").unwrap();
    let mut m = Vi::new();
    m.init(&mut ed).unwrap();
    let mut shown = true;
    let set = choose("set", 4);
    for i in 0..k as usize {
        let (key, ins) = [
            &[(Key::Esc, false), (Key::Char('i'), true)][..],
            &[(Key::Esc, false), (Key::Char('c'), false), (Key::Char('w'), true), (Key::Char('x'), true)],
            &[(Key::Esc, false), (Key::Char('2'), false), (Key::Char('A'), true), (Key::Char(ascii("kc")), true)],
            &[(Key::Esc, false), (Key::Char('.'), false), (Key::Char('s'), true), (Key::Left, true), (Key::Char('z'), true)],
        ][set].iter().cycle().nth(i).copied().unwrap();
        let from = ed.context().terminal.out.len();
        m.handle_key(key, &mut ed, &mut NoComp).unwrap();
        let d = &ed.context().terminal.out[from..];
        // (a key that draws nothing leaves the last one)
        if let Some(w) = d.windows(5).rev().find(|w| *w == b"(ins)" || *w == b"(cmd)") { shown = w == b"(ins)" }
        check(shown == ins, "C22 the prompt says insert exactly when a key is inserted");
    }
    reach("end");
}

// ---------------------------------------------------------------- C23
/// A long session in which one operation fails, at any of many places.
#[no_mangle]
pub extern "C" fn c23_long(ops: u64, step: u64) {
    set_width(9);
    let mut c = ctx();
    for i in 0..9 { c.history.buffers.push_back(buf(&[(b'a' + i) as char, 'x'])); }
    c.terminal.fail.0 = choose("fail", (ops / step) as usize) * step as usize + choose("off", step as usize);
    c.terminal.fail.1 = c.terminal.fail.0 + 1;
    for i in 0..ops as usize { c.terminal.keys.push([Key::Char('a'), Key::Left, Key::Up, Key::Char(' '), Key::Ctrl('r'), Key::Down, Key::Ctrl('f'), Key::Char('\t'), Key::Char('\t'), Key::Char('b'), Key::Ctrl('l'), Key::Ctrl('w')][i % 12]); }
    let mut comp = ListComp(vec!["ab".into(), "b".into()]);
    let r = (&mut c).read_line_with_init_buffer(Prompt::from("$ "), &mut comp, None, "");
    check(c.terminal.failed == 1, "C23 the operation was reached");
    match r { Ok(_) => check(false, "C23 a failure is reported"), Err(e) => check(e.kind() == c.terminal.kind, "C23 the error is the terminal's") }
    reach("end");
}
