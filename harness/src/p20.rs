//! Comparing bytes with hexadecimal text: true exactly when the text reads as those bytes, in any case of letters.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Cow;
use tedium::hexstring::HexString;
use tedium::*;

fn digit(c: u8) -> u8 {
    if c >= b'0' && c <= b'9' {
        c - b'0'
    } else if c >= b'a' && c <= b'f' {
        c - b'a' + 10
    } else if c >= b'A' && c <= b'F' {
        c - b'A' + 10
    } else {
        16
    }
}
fn means(s: &[u8], b: &[u8]) -> bool {
    if s.len() != 2 * b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..b.len() {
        let (h, l) = (digit(s[2 * i]), digit(s[2 * i + 1]));
        ok &= (h != 16) & (l != 16) & ((h << 4 | l & 15) == b[i]);
    }
    ok
}
fn text(max: usize, ascii: bool) -> String {
    let n = sym::upto(max);
    let mut v: Vec<u8> = Vec::new();
    for _ in 0..n {
        if ascii || sym::bool() {
            v.push(sym::u8() & 0x7f);
        } else {
            v.push(0xc2 + (sym::u8() & 15));
            v.push(0x80 | sym::u8() & 0x3f);
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn compare(bytes: usize, chars: usize, ascii: bool) {
    want!("equal", "different");
    let b = sym::vec(sym::upto(bytes));
    let s = text(chars, ascii);
    let h = HexString::from_vec(b.clone());
    let want = means(s.as_bytes(), &b);
    let got = match sym::upto(8) {
        0 => h.eq_hex(&s),
        1 => h.eq_hex(&s[..]),
        2 => h == &s[..],
        3 => &s[..] == h,
        4 => h == s,
        5 => s == h,
        6 => h == Cow::Borrowed(&s[..]),
        7 => Cow::<str>::Owned(s.clone()) == h,
        _ => match HexString::from_hex(&s) {
            Ok(x) => x == h,
            Err(_) => false,
        },
    };
    sym::check(got == want, "comparison with hexadecimal text is wrong");
    sym::cover(if got { "equal" } else { "different" });
}
/// held bytes compare like bytes
fn bytes(max: usize) {
    let (a, b) = (sym::vec(sym::upto(max)), sym::vec(sym::upto(max)));
    let (x, y) = (HexString::from_vec(a.clone()), HexString::from_vec(b.clone()));
    sym::check((x == y) == same(&a, &b), "equality differs from that of the bytes");
    sym::check((x < y) == (a < b) && (x <= y) == (a <= b), "order differs from that of the bytes");
    sym::check((x.to_hex() == y.to_hex()) == (x == y), "printed text is equal exactly for equal bytes");
}
/// long: one byte and one digit free, anywhere, in either case; or another length
fn far() {
    want!("equal", "different");
    let n = wide();
    let mut b = Vec::with_capacity(n);
    let mut t = Vec::with_capacity(2 * n);
    for i in 0..n {
        let x = (i * 37 + i / 256 + 11) as u8;
        b.push(x);
        for d in [x >> 4, x & 15] {
            t.push(if d < 10 { b'0' + d } else if i % 3 == 0 { b'A' + (d - 10) } else { b'a' + (d - 10) });
        }
    }
    let at = edge(n - 1);
    b[at] = sym::u8();
    t[2 * at + sym::upto(1)] = sym::u8() & 0x7f;
    match sym::upto(3) {
        0 => { b.pop(); }
        1 => { t.pop(); }
        _ => {}
    }
    let s = unsafe { String::from_utf8_unchecked(t) };
    let h = HexString::from_vec(b.clone());
    let want = means(s.as_bytes(), &b);
    let got = match sym::upto(2) {
        0 => h.eq_hex(&s),
        1 => h == &s[..],
        _ => s == h,
    };
    sym::check(got == want, "comparison with hexadecimal text is wrong");
    sym::cover(if got { "equal" } else { "different" });
}
harnesses! {
    fn p20_ascii() { compare(2, 5, true) }
    fn p20_text() { compare(2, 3, false) }
    fn p20_bytes() { bytes(2) }
    fn p20_ascii__rel() { compare(2, 4, true) }
    fn p20t_ascii() { compare(4, 9, true) }
    fn p20t_text() { compare(3, 5, false) }
    fn p20t_bytes() { bytes(4) }
    fn p20_far() { far() }
    fn p20_far__rel() { far() }
}
