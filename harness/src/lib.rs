//! Verification harness for the `liner` crate. Every entry drives the crate through its public API
//! with symbolic inputs; the functions executed are the crate's own, compiled from /repo's tree.
#![allow(clippy::all)]
#[macro_use]
pub mod sym;
pub mod env;
pub mod util;
pub mod api;
pub mod buffer;
pub mod keys;
pub mod emacs;
pub mod vi;
pub mod session;
pub mod hist;
pub mod fs;
pub mod comp;
pub mod names;
pub mod mode;
pub mod fail;
pub mod screen;
pub mod file;
pub mod words;
pub mod tty;
pub mod long;

macro_rules! entries {
    ($($m:ident :: $f:ident ( $($i:tt),* );)*) => {
        #[cfg(not(feature = "sym"))]
        pub fn run_native(entry: &str, args: &[u64], inputs: Vec<u64>) {
            sym::INPUTS.with(|i| *i.borrow_mut() = (inputs, 0));
            let _a = |i: usize| args.get(i).copied().unwrap_or(0);
            match entry {
                $(stringify!($f) => $m::$f($(_a($i)),*),)*
                _ => { println!("NO-ENTRY {}", entry); std::process::exit(4) }
            }
            sym::OBS.with(|o| println!("\nOBS {:?}", o.borrow()));
            println!("\nDONE");
        }
    };
}
entries! {
    buffer::c01_ops(0, 1);
    buffer::c01_deep(0);
    buffer::c01_long(0);
    buffer::c02_edit(0, 1);
    buffer::c02_query(0);
    buffer::c02_match(0, 1);
    buffer::c02_lines(0);
    buffer::c02_words(0);
    keys::c03_text(0, 1, 2, 3);
    keys::c04_text(0, 1, 2, 3, 4);
    keys::c03_hist(0, 1, 2, 3);
    keys::c04_hist(0, 1, 2, 3, 4);
    keys::c03_comp(0, 1, 2, 3);
    emacs::c05_keys(0, 1, 2);
    emacs::c05_word(0, 1);
    emacs::c05_divider(0, 1);
    emacs::c05_lastarg(0, 1, 2, 3);
    emacs::c05_lastarg_recalled(0, 1);
    vi::c06_motion(0, 1, 2, 3, 4);
    vi::c06_count(0, 1);
    vi::c07_op(0, 1, 2, 3);
    vi::c07_cmd(0, 1, 2);
    vi::c07_insert(0, 1, 2);
    vi::c08_dot(0, 1, 2, 3, 4);
    vi::c08_undo(0, 1, 2, 3, 4);
    vi::c08_up(0, 1);
    vi::c08_two(0);
    vi::c08_move(0, 1, 2);
    vi::c08_insert(0, 1);
    vi::c08_dot_count(0, 1, 2);
    session::c09_read(0, 1, 2, 3, 4, 5);
    session::c10_keys(0, 1, 2, 3, 4);
    session::c10_undo(0, 1, 2);
    session::c11_nav(0, 1, 2, 3, 4);
    session::c12_search(0, 1, 2, 3, 4);
    session::c12_narrow(0, 1, 2);
    hist::c13_ops(0, 1, 2);
    hist::c13_lookup(0, 1, 2);
    file::c14_roundtrip(0, 1, 2);
    file::c14_load(0, 1);
    file::c15_append(0, 1, 2);
    file::c15_compact(0, 1, 2, 3);
    file::c15_fail(0, 1, 2, 3);
    file::c15_editor(0, 1, 2, 3);
    comp::c16_complete(0, 1, 2, 3, 4);
    comp::c16_wide(0, 1, 2, 3);
    comp::c16_words(0, 1);
    screen::c19_text(0, 1, 2, 3, 4);
    screen::c19_hist(0, 1, 2, 3, 4, 5);
    screen::c19_list(0, 1, 2, 3, 4, 5);
    screen::c19_columns(0, 1, 2);
    screen::c19_start(0);
    screen::c19_vi(0, 1, 2, 3, 4);
    keys::c03_wide(0, 1, 2, 3, 4);
    keys::c04_wide(0, 1, 2, 3, 4, 5);
    screen::c19_set(0, 1, 2);
    screen::c20_prompt(0, 1, 2, 3);
    comp::c24_events(0, 1, 2);
    comp::c24_vi(0, 1, 2);
    fail::c23_keys(0, 1, 2, 3);
    fail::c23_read(0, 1, 2, 3);
    mode::c22_mode(0, 1, 2, 3);
    mode::c22_plain(0, 1, 2);
    names::c17_names(0, 1, 2, 3, 4);
    names::c17_typed(0, 1);
    names::c17_fail(0);
    names::c17_basic(0, 1, 2);
    words::c18_words(0, 1);
    words::c18_position(0, 1);
    words::c18_adjacent(0, 1);
    words::c18_editor(0);
    session::c21_suggest(0, 1, 2, 3, 4);
    session::c21_browse(0, 1, 2, 3, 4);
    keys::c03_nav(0, 1, 2, 3, 4);
    api::c25_redo(0, 1);
    api::c25_insert(0, 1, 2);
    api::c25_calls(0, 1, 2);
    api::c26_colour(0, 1, 2, 3, 4);
    api::c26_search(0, 1, 2);
    tty::c27_tty(0, 1, 2);
    tty::c27_fail(0, 1, 2);
    tty::c27_lines(0, 1);
    tty::c27_long(0, 1);
    long::c02_long(0);
    long::c03_long(0, 1);
    long::c04_count(0, 1);
    long::c04_long(0, 1);
    long::c05_long(0, 1);
    long::c05_many(0);
    long::c05_lastarg_long(0);
    long::c06_long(0);
    long::c07_long(0);
    long::c08_long(0, 1);
    long::c08_many(0, 1);
    long::c09_long(0, 1);
    long::c10_long(0);
    long::c11_long(0);
    long::c12_long(0);
    long::c21_long(0, 1);
    long::c13_long(0, 1);
    long::c14_long(0, 1, 2);
    long::c15_long(0, 1, 2);
    long::c16_long(0, 1);
    long::c17_long(0, 1);
    long::c18_long(0);
    long::c19_long(0);
    long::c20_long(0);
    long::c24_long(0);
    long::c22_long(0);
    long::c23_long(0, 1);
}
