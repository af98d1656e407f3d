//! C19, C20: what a terminal shows of the editor's output.
use crate::{env::*, keys::*, session::*, sym::*, util::*};
use liner::*;

pub fn width(c: char) -> usize { match c { '\u{301}' => 0, '\u{4e16}' | '\u{ff21}' => 2, _ => 1 } }
const BLANK: u32 = 0x20;

/// A terminal with deferred wrapping at the right margin (c == w: the next character wraps). It is
/// high enough not to scroll.
pub struct Screen { pub w: usize, pub rows: Vec<Vec<u32>>, pub r: usize, pub c: usize, fed: usize, st: u8, num: usize, any: bool, code: u32, more: u8, cleared: bool, now: (u8, u8), hues: Vec<Vec<(u8, u8)>>, pars: Vec<usize>, saved: (usize, usize) }
impl Screen {
    pub fn new(w: usize) -> Screen {
        let mut s = Screen { w, rows: vec![], r: TOP, c: 0, fed: 0, st: 0, num: 0, any: false, code: 0, more: 0, cleared: false, now: (0, 0), hues: vec![], pars: vec![], saved: (TOP, 0) };
        // earlier output above, and leftovers below
        for _ in 0..TOP { s.rows.push(vec!['#' as u32; w]) }
        for _ in 0..3 { s.rows.push(vec!['%' as u32; w]) }
        s
    }
    fn row(&mut self, r: usize) -> &mut Vec<u32> {
        while self.rows.len() <= r { self.rows.push(vec![BLANK; self.w]) }
        &mut self.rows[r]
    }
    fn wrap(&mut self) { self.r += 1; self.c = 0; }
    fn put(&mut self, ch: u32) {
        let k = if ch < 0x80 { 1 } else { width(char::from_u32(ch).unwrap()) };
        if k == 0 { return }
        if self.c + k > self.w { self.wrap() }
        let (r, c) = (self.r, self.c);
        let row = self.row(r);
        row[c] = ch;
        if k == 2 { row[c + 1] = 0 }
        while self.hues.len() <= r { self.hues.push(vec![(0, 0); self.w]) }
        self.hues[r][c] = self.now;
        self.c += k;
    }
    /// The colour of a cell, and the one for what comes next (0: the terminal's own).
    pub fn colour(&self, r: usize, c: usize) -> u8 { self.hues.get(r).map_or(0, |x| x[c].0) }
    pub fn back(&self, r: usize, c: usize) -> u8 { self.hues.get(r).map_or(0, |x| x[c].1) }
    pub fn now(&self) -> (u8, u8) { self.now }
    /// Select colours (others are 100 and up; reverse counts as a background).
    fn sgr(&mut self) {
        let p = std::mem::take(&mut self.pars);
        let mut i = 0;
        while i < p.len() {
            match p[i] {
                0 => self.now = (0, 0),
                30..=37 | 90..=97 => self.now.0 = p[i] as u8,
                40..=47 | 100..=107 => self.now.1 = p[i] as u8,
                39 => self.now.0 = 0,
                49 | 27 => self.now.1 = 0,
                7 => self.now.1 = 1,
                38 | 48 if i + 2 < p.len() => {
                    let x = 150 + (p[i + 2] % 100) as u8;
                    if p[i] == 38 { self.now.0 = x } else { self.now.1 = x }
                    i += if p[i + 1] == 2 { 4 } else { 2 };
                }
                _ => {}
            }
            i += 1;
        }
    }
    fn csi(&mut self, b: u8) {
        let n = if self.any { self.num } else { 0 };
        let one = n.max(1);
        let col = self.c.min(self.w - 1);
        match b {
            b'A' => { check(self.r >= one, "C19 the cursor stays on the screen"); self.r = self.r.saturating_sub(one); self.c = col }
            b'B' => { self.r += one; self.c = col }
            b'C' => self.c = (col + one).min(self.w - 1),
            b'D' => self.c = col.saturating_sub(one),
            b'E' => { self.r += one; self.c = 0 }
            b'F' => { check(self.r >= one, "C19 the cursor stays on the screen"); self.r = self.r.saturating_sub(one); self.c = 0 }
            b'G' => self.c = (one - 1).min(self.w - 1),
            b'K' => {
                let r = self.r;
                let (a, b) = match n { 0 => (col, self.w), 1 => (0, col + 1), _ => (0, self.w) };
                for x in &mut self.row(r)[a..b] { *x = BLANK }
            }
            b's' => self.saved = (self.r, self.c),
            b'u' => { self.r = self.saved.0; self.c = self.saved.1 }
            b'H' => { self.r = 0; self.c = 0 }
            b'J' if n == 0 => {
                let (r, c) = (self.r, self.c);
                self.row(r);
                self.rows.truncate(r + 1);
                for x in &mut self.rows[r][c.min(self.w - 1)..] { *x = BLANK }
            }
            b'J' => { self.rows.clear(); self.cleared = true }
            b'm' => { self.pars.push(n); self.sgr() }
            _ => {}
        }
    }
    pub fn feed(&mut self, out: &[u8]) {
        while self.fed < out.len() {
            let b = out[self.fed];
            self.fed += 1;
            if self.more > 0 {
                self.code = self.code << 6 | (b & 0x3f) as u32;
                self.more -= 1;
                if self.more == 0 { let c = self.code; self.put(c) }
                continue;
            }
            match self.st {
                0 => {
                    if b < 0x20 {
                        match b { 0x1b => self.st = 1, b'\r' => self.c = 0, b'\n' => { self.r += 1; self.c = self.c.min(self.w - 1); let r = self.r; self.row(r); } _ => {} }
                    } else if b < 0x80 { self.put(b as u32) }
                    else if b >= 0xf0 { self.code = (b & 7) as u32; self.more = 3 }
                    else if b >= 0xe0 { self.code = (b & 15) as u32; self.more = 2 }
                    else { self.code = (b & 31) as u32; self.more = 1 }
                }
                1 => self.st = match b { b'[' => { self.num = 0; self.any = false; self.pars.clear(); 2 } b']' => 3, _ => 0 },
                2 => {
                    if b >= b'0' && b <= b'9' { self.num = self.num * 10 + (b - b'0') as usize; self.any = true }
                    else if b == b';' { self.pars.push(self.num); self.num = 0 }
                    else if b >= 0x40 && b <= 0x7e { self.st = 0; self.csi(b) }
                }
                3 => self.st = match b { 7 => 0, 0x1b => 4, _ => 3 },
                _ => self.st = match b { b'\\' => 0, 0x1b => 4, _ => 3 },
            }
        }
    }
}
pub const TOP: usize = 2;

/// Where prompt and text go on a screen of width w: cells from the prompt on, and the cursor.
struct Layout { w: usize, rows: Vec<Vec<u32>>, r: usize, c: usize }
impl Layout {
    fn put(&mut self, ch: char) {
        let k = width(ch);
        if k == 0 { return }
        if self.c + k > self.w { self.r += 1; self.c = 0 }
        while self.rows.len() <= self.r { self.rows.push(vec![BLANK; self.w]) }
        self.rows[self.r][self.c] = ch as u32;
        if k == 2 { self.rows[self.r][self.c + 1] = 0 }
        self.c += k;
    }
    /// Where the next character goes.
    fn at(&self, next: usize) -> (usize, usize) { if self.c + next.max(1) > self.w { (self.r + 1, 0) } else { (self.r, self.c) } }
    fn newline(&mut self) {
        self.r += 1;
        self.c = 0;
        while self.rows.len() <= self.r { self.rows.push(vec![BLANK; self.w]) }
    }
}
/// Text after a prompt; the cursor before character `cur` of the text, or before character `p.1` of
/// the prompt.
fn layout(w: usize, prompt: &[char], text: &[char], cur: usize, in_prompt: Option<usize>) -> (Vec<Vec<u32>>, (usize, usize), (usize, usize)) {
    let mut l = Layout { w, rows: vec![vec![BLANK; w]], r: 0, c: 0 };
    let mut pw = 0;
    let mut at = (0, 0);
    for (i, c) in prompt.iter().enumerate() {
        if in_prompt == Some(i) { at = l.at(width(*c)) }
        if *c == '\n' { l.newline(); pw = 0 } else { l.put(*c); pw += width(*c) }
    }
    for (i, c) in text.iter().enumerate() {
        if in_prompt.is_none() && i == cur { at = l.at(if *c == '\n' { 1 } else { width(*c) }) }
        if *c == '\n' { l.newline(); for _ in 0..pw { l.put(' ') } } else { l.put(*c) }
    }
    if in_prompt.is_none() && cur >= text.len() { at = l.at(1) }
    let end = (l.r, l.c);
    (l.rows, at, end)
}
fn row_is(s: &Screen, r: usize, want: &[u32]) -> u32 {
    let mut d = 0;
    for i in 0..s.w { d |= s.rows.get(r).map_or(BLANK, |x| x[i]) ^ want.get(i).copied().unwrap_or(BLANK); }
    d
}
/// The screen shows `above` rows of earlier output, then prompt and text and nothing else; returns
/// where prompt and text are.
fn shows(s: &Screen, origin: usize, lead: &[Vec<u32>], rows: &[Vec<u32>], cleared: bool) {
    let mut d = 0;
    if !cleared {
        for r in 0..TOP { d |= row_is(s, r, &vec!['#' as u32; s.w]) }
        check(d == 0, "C19 earlier output above the prompt stays");
        for i in 0..lead.len() { d |= row_is(s, TOP + i, &lead[i]) }
    }
    for i in 0..rows.len() { d |= row_is(s, origin + i, &rows[i]) }
    check(d == 0, "C19 the screen shows prompt and line");
    for r in origin + rows.len()..s.rows.len() { d |= row_is(s, r, &[]) }
    check(d == 0, "C19 nothing is left over below the line");
}
/// The prompts of keys.rs without their escape sequences: lines before the last, last line.
fn plain(i: usize) -> (Vec<Vec<char>>, Vec<char>) {
    let v = |s: &str| s.chars().collect::<Vec<char>>();
    match i {
        0 => (vec![], v("$ ")),
        1 => (vec![], vec![]),
        2 => (vec![v("one")], v("two> ")),
        3 => (vec![], v("ab\u{4e16} ")),
        4 => (vec![], v("ppppppp")),
        _ => (vec![vec![]], vec![]),
    }
}
pub fn some_text(n: usize, wide: u64) -> Vec<char> {
    (0..n).map(|_| match choose("kind", 2 + wide as usize) { 0 => ascii("c"), 1 => '\n', 2 => '\u{4e16}', _ => '\u{301}' }).collect()
}
fn insert_key(wide: u64) -> char { match choose("what", 1 + wide as usize) { 0 => ascii("kc"), 1 => '\u{4e16}', _ => '\u{301}' } }
/// A context whose terminal has this width (which is not that of standard output).
pub fn term_ctx(w: usize) -> Ctx {
    set_width(w as u16 + 3);
    let mut t = Term::recording();
    t.width = w;
    Context::with_terminal(t)
}
pub(crate) struct View { pub s: Screen, lead: Vec<Vec<char>>, last: Vec<char>, status: bool, cleared: bool, hist: Vec<Vec<char>> }
impl View {
    pub fn new(w: usize, prompt: usize, hist: Vec<Vec<char>>) -> View {
        let (lead, last) = plain(prompt);
        View::of(w, lead, last, hist)
    }
    pub fn of(w: usize, lead: Vec<Vec<char>>, last: Vec<char>, hist: Vec<Vec<char>>) -> View {
        let mut v = View { s: Screen::new(w), lead, last, status: false, cleared: false, hist };
        // (only the last line of a prompt clears what is below)
        if v.above().len() > 1 { v.s.rows.truncate(TOP); let _ = v.s.row(TOP); }
        v
    }
    fn above(&self) -> Vec<Vec<u32>> {
        let mut above = vec![];
        for l in &self.lead { above.extend(layout(self.s.w, &[], l, 0, None).0) }
        above
    }
    /// Check the screen against the editor's state.
    pub fn check(&mut self, ed: &Editor<&mut Ctx>, search: bool, entered: bool) {
        self.s.feed(&ed.context().terminal.out);
        let w = self.s.w;
        let mut p = self.last.clone();
        let above = if self.cleared { vec![] } else { self.above() };
        let origin = if self.cleared { 0 } else { TOP + above.len() };
        if self.status {
            // (C22 judges which one)
            let normal = self.s.rows.get(origin).map_or(0, |r| r[0]) == '(' as u32;
            p.splice(0..0, (if normal { "(N)" } else { "[i] " }).chars());
            if normal { reach("normal") }
        }
        let t = chars(ed.current_buffer());
        let showing = ed.is_currently_showing_autosuggestion();
        let draft = ed.current_history_location().is_none();
        let mut shown = t.clone();
        let mut in_prompt = None;
        if search {
            p = "(search)'".chars().collect();
            in_prompt = Some(p.len() + ed.cursor());
            p.extend_from_slice(&t);
            p.extend("` (".chars());
            // which of how many candidates
            let (_, (r, c), _) = layout(w, &p, &[], 0, None);
            let i = self.s.rows.get(origin + r).map_or(0, |x| x[c]);
            p.push(char::from_u32(i).unwrap());
            p.push('/');
            let m: Vec<usize> = (0..self.hist.len()).filter(|x| has(&self.hist[*x], &t)).collect();
            p.push((b'0' + m.len() as u8) as char);
            p.extend("): ".chars());
            let n = (i as usize).wrapping_sub('0' as usize);
            check(n <= m.len() && (n > 0) == (m.len() > 0), "C19 the search prompt counts the candidates");
            if n > 0 && n <= m.len() { shown = self.hist[m[n - 1]].clone() }
            reach("search");
        } else if showing && draft && !entered {
            match self.hist.iter().rev().find(|h| longer(h, &t)) { Some(h) => { shown = h.clone(); reach("suggestion") } None => check(false, "C19 a suggestion comes from history") }
        }
        let (rows, at, end) = layout(w, &p, &shown, ed.cursor(), in_prompt);
        shows(&self.s, origin, &above, &rows, self.cleared);
        if entered {
            check((self.s.c == 0) & (self.s.r > origin + end.0), "C19 after Enter the cursor is on a new line");
        } else {
            let c = (self.s.r, if self.s.c == w { w - 1 } else { self.s.c });
            check(c == (origin + at.0, at.1), "C19 the terminal's cursor is at the editing cursor");
            if rows.len() > 1 { reach("wrapped") }
            if end.1 == w { reach("margin") }
        }
    }
}
/// A line of up to n characters (wide and combining ones if wide = 1, 2) on a screen of width w.
#[no_mangle]
pub extern "C" fn c19_text(n: u64, k: u64, w: u64, pr: u64, wide: u64) {
    let mut c = term_ctx(w as usize);
    let t = some_text(choose("len", n as usize + 1), wide);
    let closure: Option<ColorClosure> = if flag("colour") { Some(Box::new(|s: &str| format!("\x1b[31m{}\x1b[0m", s))) } else { None };
    let mut ed = Editor::new_with_init_buffer(Prompt::from(prompt(pr as usize)), closure, &mut c, string(&t)).unwrap();
    let mut v = View::new(w as usize, pr as usize, vec![]);
    v.check(&ed, false, false);
    let mut m = Emacs::new();
    for _ in 0..k {
        let key = match choose("key", 9) {
            0 => Key::Char(insert_key(wide)), 1 => Key::Left, 2 => Key::Home, 3 => Key::Backspace, 4 => Key::Ctrl('k'), 5 => Key::Ctrl('l'), 6 => Key::Delete, 7 => Key::End,
            _ => Key::Char('\n'),
        };
        let done = m.handle_key(key, &mut ed, &mut NoComp).unwrap();
        if key == Key::Ctrl('l') { v.cleared = true }
        v.check(&ed, false, done);
        if done { reach("entered"); break }
    }
    reach("end");
    observe(v.s.r as u64);
    observe(v.s.c as u64);
}
/// History entries of up to m characters: suggestions, browsing, searching.
#[no_mangle]
pub extern "C" fn c19_hist(h: u64, m: u64, n: u64, k: u64, w: u64, wide: u64) {
    let mut c = term_ctx(w as usize);
    let mut hist = vec![];
    for _ in 0..h {
        let e = some_text(choose("hlen", m as usize + 1), wide);
        c.history.buffers.push_back(buf(&e));
        hist.push(e);
    }
    let t = some_text(choose("len", n as usize + 1), wide);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut v = View::new(w as usize, 0, hist);
    v.check(&ed, false, false);
    let mut km = Emacs::new();
    let mut search = false;
    for _ in 0..k {
        let key = [Key::Char('\n'), Key::Left, Key::Up, Key::Down, Key::Ctrl('r'), Key::Ctrl('s'), Key::Backspace, Key::Char('x'), Key::Right, Key::Ctrl('l'), Key::Char('a')][choose("key", 11)];
        let key = if key == Key::Char('a') { Key::Char(ascii("kc")) } else { key };
        let key = if key == Key::Char('x') { Key::Char('\u{4e16}') } else { key };
        // (patterns of several lines are drawn with their line breaks)
        if (key == Key::Ctrl('r') || key == Key::Ctrl('s')) && !search && chars(&ed.current_buffer()).contains(&'\n') { return }
        let end = ed.cursor() == ed.current_buffer().num_chars();
        let showing = ed.is_currently_showing_autosuggestion();
        let draft = ed.current_history_location().is_none();
        let done = km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        match key {
            Key::Ctrl('r') | Key::Ctrl('s') => { search = true; if !draft { return } }
            Key::Right if showing && end => search = false,
            Key::Char('\n') => search = false,
            Key::Ctrl('l') => { v.cleared = true; search = false }
            _ => {}
        }
        v.check(&ed, search, done);
        if done { reach("entered"); break }
    }
    reach("end");
    observe(v.s.r as u64);
    observe(v.s.c as u64);
}

struct Offer(Vec<Vec<char>>);
impl Completer for Offer {
    fn completions(&mut self, _s: &str) -> Vec<String> { self.0.iter().map(|c| string(c)).collect() }
}
/// Tab, with candidates given in order and without a common prefix; other keys in between.
fn list(t: Vec<char>, cands: Vec<Vec<char>>, tabs: u64, w: usize, pr: usize) {
    let mut c = term_ctx(w);
    let mut ed = Editor::new_with_init_buffer(Prompt::from(prompt(pr)), None, &mut c, string(&t)).unwrap();
    let mut v = View::new(w, pr, vec![]);
    v.check(&ed, false, false);
    let mut km = Emacs::new();
    let mut h = Offer(cands.clone());
    let (mut sel, mut listed) = (None, false);
    let all: Vec<u32> = cands.iter().flatten().map(|c| *c as u32).collect();
    for i in 0..tabs {
        let key = if i == 0 { Key::Char('\t') } else { [Key::Char('\t'), Key::Char('x'), Key::Left, Key::Char('\n')][choose("key", 4)] };
        let done = km.handle_key(key, &mut ed, &mut h).unwrap();
        // (the list stays until the next key)
        if key != Key::Char('\t') && !done { km.handle_key(Key::Home, &mut ed, &mut h).unwrap(); }
        if key != Key::Char('\t') { v.check(&ed, false, done); if done { return } listed = false; reach("dismissed"); continue }
        v.s.feed(&ed.context().terminal.out);
        let (_, p) = plain(pr);
        let above = v.above();
        let origin = TOP + above.len();
        let (rows, at, _) = layout(w, &p, &chars(ed.current_buffer()), ed.cursor(), None);
        check(v.s.r > origin + at.0, "C19 the candidates are listed above the line");
        let n = v.s.r.wrapping_sub(origin + at.0);
        // the candidates' characters in order, and nothing else
        let mut got = vec![];
        let mut at_cell = vec![];
        for r in origin..(origin + n).min(v.s.rows.len()) { for (c, x) in v.s.rows[r].iter().enumerate() { if *x != BLANK && *x != 0 { got.push(*x); at_cell.push((r, c)) } } }
        let mut d = (got.len() ^ all.len()) as u32;
        for (a, b) in got.iter().zip(&all) { d |= a ^ b }
        check(d == 0, "C19 the list shows the candidates in order");
        // they are apart, and the one that is in the line is marked
        sel = if i == 0 || !listed { None } else { Some(sel.map_or(0, |s| (s + 1) % cands.len())) };
        listed = true;
        let mut j = 0;
        for (k, x) in cands.iter().enumerate() {
            let (r, c) = at_cell[j];
            check(c == 0 || v.s.rows[r][c - 1] == BLANK, "C19 the candidates are apart");
            let mut bad = false;
            for _ in x { let (r, c) = at_cell[j]; bad |= (v.s.back(r, c) != 0) != (sel == Some(k)); j += 1 }
            check(!bad, "C19 the candidate that is in the line is marked");
        }
        check(v.s.now() == (0, 0), "C19 the mark ends with the candidate");
        shows(&v.s, origin + n, &above, &rows, false);
        let col = if v.s.c == w { w - 1 } else { v.s.c };
        check(col == at.1, "C19 the terminal's cursor is at the editing cursor");
        if n > 1 { reach("rows") }
        if n < cands.len() { reach("columns") }
    }
    reach("end");
    observe(v.s.r as u64);
}
/// Up to k candidates of up to m characters.
#[no_mangle]
pub extern "C" fn c19_list(n: u64, k: u64, m: u64, tabs: u64, w: u64, wide: u64) {
    let mut l: Vec<Vec<char>> = vec![];
    for i in 0..2 + choose("k", k as usize - 1) {
        // (different first characters, in order)
        let mut c = vec![(b'a' + i as u8) as char];
        for _ in 0..choose("m", m as usize) {
            c.push(if wide > 0 && flag("wide") { '\u{4e16}' } else { let x = ascii("c"); assume(x != ' '); x });
        }
        l.push(c);
    }
    let t = ascii_chars(choose("len", n as usize + 1));
    list(t, l, tabs, w as usize, 0);
}
/// Many candidates on terminals of every width up to w.
#[no_mangle]
pub extern "C" fn c19_columns(k: u64, m: u64, w: u64) {
    let n = 2 + choose("k", k as usize - 1);
    let m = 1 + choose("m", m as usize);
    let x = ascii("c");
    assume(x != ' ');
    let l = (0..n).map(|i| { let mut c = vec![(b'A' + i as u8) as char]; for _ in 1..m - (i * 7 + 3) % m { c.push(x) } c }).collect();
    list(vec!['l'], l, 3, 2 + choose("w", w as usize - 1), 2 * choose("pr", 2));
}

/// Earlier output ended in any column.
#[no_mangle]
pub extern "C" fn c19_start(w: u64) {
    let w = 2 + choose("w", w as usize - 1);
    let mut c = term_ctx(w);
    let pr = choose("pr", 6);
    let t = some_text(choose("len", 2), 2);
    let mut v = View::new(w, pr, vec![]);
    let col = choose("col", w + 1);
    // (the first row of the editor's, with what is there already)
    for i in 0..w { v.s.rows[TOP][i] = if i < col { '#' as u32 } else { BLANK } }
    v.s.c = col;
    if !v.above().is_empty() { v.s.rows.truncate(TOP + 1) }
    let mut ed = Editor::new_with_init_buffer(Prompt::from(prompt(pr)), None, &mut c, string(&t)).unwrap();
    if col > 0 {
        // the screen is judged from the next row on
        v.s.feed(&ed.context().terminal.out);
        let r = v.s.rows.remove(TOP);
        v.s.r -= 1;
        let mut d = 0;
        for i in 0..col { d |= r[i] ^ '#' as u32 }
        check(d == 0, "C19 earlier output above the prompt stays");
        reach("next row");
    }
    v.check(&ed, false, false);
    Emacs::new().handle_key(Key::Char('x'), &mut ed, &mut NoComp).unwrap();
    v.check(&ed, false, false);
    reach("end");
    observe(v.s.r as u64);
}

/// Vi: k keys, with the mode in the prompt.
#[no_mangle]
pub extern "C" fn c19_vi(n: u64, k: u64, w: u64, pr: u64, wide: u64) {
    let mut c = term_ctx(w as usize);
    let t = some_text(choose("len", n as usize + 1), wide);
    let p = Prompt { prompt: prompt(pr as usize), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "(N)", "[i] ")) };
    let mut ed = Editor::new_with_init_buffer(p, None, &mut c, string(&t)).unwrap();
    let mut v = View::new(w as usize, pr as usize, vec![]);
    v.status = true;
    let mut m = Vi::new();
    m.init(&mut ed).unwrap();
    v.check(&ed, false, false);
    for _ in 0..k {
        let key = match choose("key", 6) {
            0 => Key::Char(insert_key(wide)), 1 => Key::Esc, 2 => Key::Left, 3 => Key::Ctrl('l'), 4 => Key::Char('d'), _ => Key::Char('\n'),
        };
        let done = m.handle_key(key, &mut ed, &mut NoComp).unwrap();
        // (commands in between do not)
        if key == Key::Ctrl('l') { v.s.feed(&ed.context().terminal.out); v.cleared |= v.s.cleared }
        v.check(&ed, false, done);
        if done { reach("entered"); break }
    }
    reach("end");
    observe(v.s.r as u64);
    observe(v.s.c as u64);
}

/// A prompt of k pieces: characters, line breaks, colour and title sequences.
#[no_mangle]
pub extern "C" fn c20_prompt(k: u64, m: u64, n: u64, w: u64) {
    let mut c = term_ctx(w as usize);
    let mut s = String::new();
    let mut lines = vec![vec![]];
    for _ in 0..k {
        match choose("piece", 5) {
            0 => { let x = ascii("p"); s.push(x); lines.last_mut().unwrap().push(x) }
            1 => { s.push('\u{4e16}'); lines.last_mut().unwrap().push('\u{4e16}') }
            2 => { s.push('\n'); lines.push(vec![]) }
            3 => {
                // parameters
                s.push_str("\x1b[");
                for _ in 0..choose("params", m as usize + 1) { let x = new("param", 8) as u8; assume((x >= 0x30) & (x < 0x40) | (x == b' ')); s.push(x as char) }
                s.push(['m', 'h', 'l', 'q'][choose("final", 4)]);
                reach("colour");
            }
            _ => {
                s.push_str("\x1b]");
                for _ in 0..choose("title", m as usize + 1) { s.push(ascii("t")) }
                s.push_str(["\x07", "\x1b\\"][choose("end", 2)]);
                reach("title");
            }
        }
    }
    let last = lines.pop().unwrap();
    let t = some_text(choose("len", n as usize + 1), 0);
    let mut ed = Editor::new_with_init_buffer(Prompt::from(s), None, &mut c, string(&t)).unwrap();
    let mut v = View::of(w as usize, lines, last, vec![]);
    v.check(&ed, false, false);
    let mut km = Emacs::new();
    for key in [Key::Char('x'), Key::Left, Key::Home] {
        km.handle_key(key, &mut ed, &mut NoComp).unwrap();
        v.check(&ed, false, false);
    }
    reach("end");
    observe(v.s.r as u64);
    observe(v.s.c as u64);
}

/// Another prompt while a line is edited: all its lines are shown from then on.
#[no_mangle]
pub extern "C" fn c19_set(n: u64, k: u64, w: u64) {
    let mut c = term_ctx(w as usize);
    let t = some_text(choose("len", n as usize + 1), 0);
    let mut ed = Editor::new_with_init_buffer(Prompt::from("$ "), None, &mut c, string(&t)).unwrap();
    let mut v = View::new(w as usize, 0, vec![]);
    v.check(&ed, false, false);
    let mut km = Emacs::new();
    for _ in 0..k {
        let p = ["one> ", "one\ntwo> ", "a\n\nbb\nc ", "x\ny\n", ""][choose("prompt", 5)];
        ed.set_prompt(Prompt::from(p));
        v.last = p.chars().collect();
        match choose("then", 4) {
            0 => ed.display().unwrap(),
            1 => { km.handle_key(Key::Home, &mut ed, &mut NoComp).unwrap(); }
            2 => { km.handle_key(Key::Char(ascii("kc")), &mut ed, &mut NoComp).unwrap(); }
            _ => { km.handle_key(Key::Backspace, &mut ed, &mut NoComp).unwrap(); }
        }
        v.check(&ed, false, false);
    }
    reach("end");
    observe(v.s.r as u64);
    observe(v.s.c as u64);
}
