//! Shared by the property modules.
use crate::sym;
use tedium::parse::ParseResult;
use tedium::*;

/// Compared without early exit, so that the outcome is one condition.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut eq = true;
    for i in 0..a.len() {
        eq &= a[i] == b[i];
    }
    eq
}
/// Parse with any of the three parsers; also the number of bytes it left.
#[inline(never)]
pub fn parse<T: Decode>(b: &[u8]) -> (ParseResult<T>, usize) {
    match sym::upto(2) {
        0 => run::<T, ByteParser>(ByteParser::from_buffer(b.into())),
        1 => run::<T, MemoParser>(MemoParser::from_buffer(b.into())),
        _ => run::<T, SliceParser>(SliceParser::from_buffer(b.into())),
    }
}
/// Parse with the default parser.
#[inline(never)]
pub fn parse1<T: Decode>(b: &[u8]) -> (ParseResult<T>, usize) {
    run::<T, ByteParser>(ByteParser::from_buffer(b.into()))
}
pub fn run<T: Decode, P: Parser>(mut p: P) -> (ParseResult<T>, usize) {
    let r = T::parse(&mut p);
    let n = p.remainder();
    (r, n)
}
/// Encode, insisting that every count agrees with the bytes produced.
#[inline(never)]
pub fn enc<T: Encode>(x: &T) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let n = x.write_to(&mut v);
    sym::check(n == v.len(), "write_to returned a count other than the bytes it wrote");
    v
}
/// `n` bytes, the first ones given, the rest unconstrained
#[inline(never)]
pub fn with_tail(head: &[u8], extra: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(head.len() + extra);
    v.extend_from_slice(head);
    for _ in 0..extra {
        v.push(sym::u8());
    }
    v
}
/// A size beyond the small ones, on either side of the powers of two at which storage and shortcuts usually change.
#[inline(never)]
pub fn long() -> usize {
    match sym::upto(1) {
        0 => wide(),
        _ => 65573,
    }
}
/// As `long`, but within what two bytes can number
#[inline(never)]
pub fn wide() -> usize {
    match sym::upto(1) {
        0 => medium(),
        _ => 8192,
    }
}
#[inline(never)]
pub fn medium() -> usize {
    match sym::upto(7) {
        0 => 15,
        1 => 17,
        2 => 32,
        3 => 65,
        4 => 128,
        5 => 256,
        6 => 257,
        _ => 1025,
    }
}
/// One of 0, 1, half, all but one, all of `max`.
#[inline(never)]
pub fn edge(max: usize) -> usize {
    match sym::upto(4) {
        0 => 0,
        1 => max.min(1),
        2 => max / 2,
        3 => max.saturating_sub(1),
        _ => max,
    }
}
/// One of `edge(max)`, or any larger number.
#[inline(never)]
pub fn edge_or_more(max: usize) -> usize {
    if sym::upto(5) == 5 {
        let n = sym::usize();
        sym::assume(n > max);
        n
    } else {
        edge(max)
    }
}
/// One of `edge(max)`, or one of a few larger numbers.
#[inline(never)]
pub fn edge_or_past(max: usize) -> usize {
    match sym::upto(7) {
        5 => max + 1,
        6 => max + 256,
        7 => usize::MAX,
        _ => edge(max),
    }
}
/// `n` bytes: the first and last two and one in the middle unconstrained, a fixed pattern elsewhere
#[inline(never)]
pub fn ends(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 2 || i + 2 >= n || i == n / 2 { sym::u8() } else { (i * 37 + i / 256 + 11) as u8 });
    }
    v
}
/// text: something special first, any ASCII character, plain filling, something special last
#[inline(never)]
pub fn text() -> String {
    let mut s = String::new();
    s.push_str(match sym::upto(9) {
        0 => "",
        1 => "\u{feff}",
        2 => "\0",
        3 => "\r\n",
        4 => " ",
        5 => "\u{10ffff}",
        6 => "0x",
        7 => "\"",
        8 => "e\u{301}",
        _ => "\u{fffd}",
    });
    s.push((sym::u8() & 0x7f) as char);
    let n = match sym::upto(2) {
        0 => 0,
        1 => 7,
        _ => 300,
    };
    for i in 0..n {
        s.push((b'a' + (i % 26) as u8) as char);
    }
    s.push_str(match sym::upto(6) {
        0 => "",
        1 => "\0",
        2 => "\n",
        3 => " ",
        4 => "\u{feff}",
        5 => "\u{e9}",
        _ => "\u{1f980}",
    });
    s
}
/// more than two bytes can number, as `ends`
#[inline(never)]
pub fn huge() -> Vec<u8> {
    ends(65573)
}
pub fn be(raw: &[u8]) -> u64 {
    let mut x = 0u64;
    for i in 0..raw.len() {
        x = x << 8 | raw[i] as u64;
    }
    x
}
/// low `w` bytes of `x`, most significant first
pub fn to_be(x: u64, w: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(w);
    for i in 0..w {
        v.push((x >> (8 * (w - 1 - i))) as u8);
    }
    v
}
struct Spy(Vec<u8>);
impl std::hash::Hasher for Spy {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
/// everything a value feeds into a hasher
#[inline(never)]
pub fn hashed<T: std::hash::Hash>(x: &T) -> Vec<u8> {
    let mut h = Spy(Vec::new());
    x.hash(&mut h);
    h.0
}
/// unconstrained bytes of any size up to `wide`, or more of them as `ends`
#[inline(never)]
pub fn stuff() -> Vec<u8> {
    match sym::upto(1) {
        0 => sym::vec(wide()),
        _ => huge(),
    }
}
