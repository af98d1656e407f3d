use crate::sym::*;
use liner::*;

/// Content of a buffer as characters.
pub fn chars(b: &Buffer) -> Vec<char> { b.chars().copied().collect() }
/// Equality without one branch per element.
pub fn same(a: &[char], b: &[char]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u32;
    for i in 0..a.len() { d |= a[i] as u32 ^ b[i] as u32; }
    d == 0
}
pub fn is(b: &Buffer, m: &[char]) -> bool { same(&chars(b), m) }
pub fn buf(c: &[char]) -> Buffer { c.iter().copied().collect() }
pub fn any_chars(n: usize) -> Vec<char> { (0..n).map(|_| any_char("c")).collect() }
pub fn ascii_chars(n: usize) -> Vec<char> { (0..n).map(|_| ascii("c")).collect() }
/// n characters drawn from `set` (each a symbolic index into the set, one path per character).
pub fn from_set(n: usize, set: &[char]) -> Vec<char> { (0..n).map(|_| set[choose("s", set.len())]).collect() }
pub fn obs(v: &[char]) { observe(v.len() as u64); for c in v { observe(*c as u64); } }
/// A text of n characters with the structure of one of a few kinds, and one arbitrary ASCII character in the
/// middle.
pub fn long_text(n: usize) -> Vec<char> {
    let kind = choose("pattern", 4);
    let mut v = vec![];
    let (mut word, mut left) = (1, 1);
    for i in 0..n {
        v.push(match kind {
            // words of growing length
            0 => if left == 0 { word = word % 9 + 1; left = word; ' ' } else { left -= 1; (b'a' + (i % 26) as u8) as char },
            // one word
            1 => (b'A' + (i % 26) as u8) as char,
            // lines
            2 => if i % 37 == 36 { '\n' } else if i % 5 == 4 { ' ' } else { 'b' },
            _ => ['a', '.', '\u{4e16}', ' ', '\\', ' ', '_', '\u{301}'][i % 8],
        })
    }
    if n > 0 { v[n / 2] = ascii("c") }
    v
}
/// A place in a text of n characters: either end, next to it, the middle.
pub fn place(n: usize) -> usize { [0, 1, n / 2, n.saturating_sub(1), n][choose("at", 5)].min(n) }
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
pub fn same_str(a: &str, b: &str) -> bool { same_bytes(a.as_bytes(), b.as_bytes()) }
