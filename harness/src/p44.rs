//! Showing a value shows its content.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::fmt::{Debug, Display, Formatter, Write};
use tedium::builder::Builder;
use tedium::*;

/// prints one letter and every flag it was asked to print with
#[derive(Clone, Copy, PartialEq, Encode, Decode, Estimable)]
struct Spy(u8);
macro_rules! spy {
    ($($t:ident $c:literal),*) => { $(
        impl $t for Spy {
            fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
                f.write_char($c)?;
                f.write_char((self.0 & 127) as char)?;
                f.write_char(if f.alternate() { '#' } else { '.' })?;
                f.write_char((b'a' + f.width().map_or(0, |w| w as u8 + 1)) as char)?;
                f.write_char((b'a' + f.precision().map_or(0, |w| w as u8 + 1)) as char)?;
                f.write_char(if f.sign_plus() { '+' } else { '.' })
            }
        }
    )* };
}
spy!(Display 'D', Debug 'G');
fn holds(s: &[u8], w: &[u8]) -> bool {
    let mut r = w.is_empty();
    for i in 0..s.len() {
        if i + w.len() <= s.len() {
            r |= same(&s[i..i + w.len()], w);
        }
    }
    r
}
macro_rules! each {
    (|$f:ident| $body:expr, $($l:literal),*) => {{
        let n = sym::upto([$($l),*].len() - 1);
        let mut _i = 0;
        $( if n == _i { macro_rules! $f { ($x:expr) => { format!($l, $x) } } $body; } _i += 1; )*
    }};
}
/// transparent wrappers are shown as their content, flags and all
fn transparent() {
    let x = Spy(sym::u8() & 127);
    match sym::upto(1) {
        0 => each!(|f| sym::check(same(f!(Dynamic::<u8, Spy>::new(x)).as_bytes(), f!(x).as_bytes()), "a prefixed value is not displayed as its content"), "{}", "{:#}", "{:5}", "{:.2}", "{:+}", "{:7.1}"),
        _ => each!(|f| sym::check(same(f!(VPadded::<Spy, 2>::new(x)).as_bytes(), f!(x).as_bytes()), "a virtually padded value is not shown as its content"), "{:?}", "{:#?}", "{:5?}", "{:.2?}", "{:+?}"),
    }
}
#[derive(Debug, Encode, Estimable)]
struct Both {
    x: Spy,
    y: Bytes,
}
/// and the others show it along with what else they hold
fn shown() {
    let x = Spy(sym::u8() & 127);
    let g = format!("{:?}", x);
    let s = match sym::upto(3) {
        0 => {
            let n = match sym::upto(2) { 0 => 0, 1 => 7, _ => 260 };
            let d = Dynamic::<u16, Both>::new(Both { x, y: Bytes::from_vec(vec![0x41; n]) });
            let s = format!("{:?}", d);
            let len = (n + 1).to_string();
            let at = s.find(|c: char| c.is_ascii_digit()).unwrap_or(0);
            sym::check(s[at..].starts_with(&len) && !s[at + len.len()..].starts_with(|c: char| c.is_ascii_digit()) && holds(s.as_bytes(), b"u16"), "a prefixed value shows another length or prefix");
            s
        }
        1 => format!("{:?}", Padded::<Spy, 2>::new(x)),
        2 => format!("{:?}", Sequence::from_vec(vec![Spy(1), x])),
        _ => format!("{:?}", Dynamic::<u30, Spy>::new(x)),
    };
    sym::check(holds(s.as_bytes(), g.as_bytes()), "showing a value leaves out its content");
}
data!(Shape, u8, shape, { 2 => Nothing, 7 => Dot(pub u8), 200 => Line { pub a: u8, pub b: u16 } });
cstyle!(Color, u8, { Red = 1, Blue = 7 });
fn members() {
    let x = match sym::upto(3) { 0 => 0u8, 1 => 42, 2 => 100, _ => 255 };
    let (s, w) = match sym::upto(4) {
        0 => (format!("{:?}", Shape::Dot(shape::Dot(x))), format!("Dot({})", x)),
        1 => (format!("{:?}", Shape::Nothing(shape::Nothing)), "Nothing".to_string()),
        2 => (format!("{:?}", Shape::Line(shape::Line { a: x, b: 513 })), format!("Line {{ a: {}, b: 513 }}", x)),
        3 => (format!("{:?}", Color::Red), "Red".to_string()),
        _ => (format!("{:?}", Color::Blue), "Blue".to_string()),
    };
    sym::check(holds(s.as_bytes(), w.as_bytes()), "showing a member leaves out its name or fields");
}
/// fixed-width text is displayed as its characters, with undecodable bytes replaced
fn text() {
    want!("ascii", "other");
    let a = [sym::u8(), sym::u8()];
    let b = match sym::upto(3) { 0 => [b'x', a[0], a[1], b'y'], 1 => [a[0], a[1], b'x', b'y'], 2 => [b'x', b'y', a[0], a[1]], _ => [a[0], b' ', 0, a[1]] };
    let t = FixedString::<4>::from(b);
    let s = format!("{}", t);
    if a[0] < 128 && a[1] < 128 {
        sym::cover("ascii");
        sym::check(same(s.as_bytes(), &b), "a text is displayed with other characters");
    } else {
        sym::cover("other");
        let w = String::from_utf8_lossy(&b).into_owned();
        sym::check(same(s.as_bytes(), w.as_bytes()), "a text is displayed with other characters");
    }
    let k = match sym::upto(2) { 0 => (format!("{:>6}|", t), format!("{:>6}|", s)), 1 => (format!("{:.2}|", t), format!("{:.2}|", s)), _ => (format!("{:-<7}|", t), format!("{:-<7}|", s)) };
    sym::check(same(k.0.as_bytes(), k.1.as_bytes()), "a text is laid out differently from its characters");
}
/// what a builder, a buffer and a parser hold, for debugging
fn holders() {
    use tedium::conv::target::Target;
    let (v, w) = match sym::upto(2) { 0 => (vec![], vec![7u8]), 1 => (vec![1u8, 200], vec![]), _ => (vec![0u8], vec![255u8, 16]) };
    let mut b = MemoBuilder::from(v.clone());
    b.resolve();
    b.push_all(&w);
    let mut all = v.clone();
    all.extend_from_slice(&w);
    let sum = v.len() + w.len();
    let (s, ws): (String, Vec<String>) = match sym::upto(5) {
        0 => (format!("{:?}", b), vec![format!("{:?}", v), format!("{:?}", w)]),
        1 => (format!("{:?}", b.finalize()), vec![format!("{:?}", all), format!("{:?}", [v.len(), w.len()])]),
        2 => (format!("{:?}", Bytes::from_vec(all.clone())), vec![format!("{:?}", all)]),
        3 => (format!("{:?}", ByteParser::from_buffer((&all[..]).into())), vec![format!("{:?}", all), sum.to_string()]),
        4 => (format!("{:?}", MemoParser::from_buffer((&all[..]).into())), vec![format!("{:?}", all), sum.to_string()]),
        _ => (format!("{:?}", SliceParser::from_buffer((&all[..]).into())), vec![format!("{:?}", all)]),
    };
    for w in ws {
        sym::check(holds(s.as_bytes(), w.as_bytes()), "what is shown leaves out what is held");
    }
}
harnesses! {
    fn p44_transparent() { transparent() }
    fn p44_shown() { shown() }
    fn p44_members() { members() }
    fn p44_text() { text() }
    fn p44_holders() { holders() }
}
