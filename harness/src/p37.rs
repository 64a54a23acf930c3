//! What a value decodes to does not depend on the form its bytes are handed over in.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Cow;
use tedium::conv::error::{DecodeError, DecodeResult};
use tedium::*;

#[derive(Encode, Decode, Debug, PartialEq, Clone)]
struct Rec(u8, Option<u8>, Bytes);

/// whole-input decoding by the plainest road
fn plain<T: Decode>(v: &[u8]) -> Option<T> {
    let mut p = SliceParser::from_buffer(v.into());
    let r = T::parse(&mut p).ok();
    if cfg!(feature = "ccp") && p.remainder() != 0 {
        return None;
    }
    r
}
fn agree<T: PartialEq>(r: DecodeResult<T>, want: Option<T>) {
    match (r, want) {
        (Ok(x), Some(y)) => {
            sym::cover("ok");
            sym::check(x == y, "the same bytes in another form decode to another value")
        }
        (Err(DecodeError::Conv(_)), _) => sym::check(false, "bytes were read as text"),
        (Err(_), None) => sym::cover("err"),
        _ => sym::check(false, "whether bytes decode depends on the form they come in"),
    }
}
#[inline(never)]
fn forms<T: Decode + PartialEq>(v: &[u8], a: [u8; 4]) {
    let w = plain::<T>(v);
    match sym::upto(9) {
        0 => agree(T::try_decode::<_, ByteParser>(v), w),
        1 => agree(T::try_decode::<_, MemoParser>(v), w),
        2 => agree(T::try_decode::<_, SliceParser>(v), w),
        3 => agree(T::try_decode::<_, ByteParser>(v.to_vec()), w),
        4 => agree(T::try_decode::<_, MemoParser>(v.to_vec()), w),
        5 => agree(T::try_decode::<_, ByteParser>(HexString::from_vec(v.to_vec())), w),
        6 => agree(T::try_decode::<_, MemoParser>(HexString::from_vec(v.to_vec())), w),
        7 => agree(T::try_decode::<_, ByteParser>(a), plain::<T>(&a)),
        8 => agree(T::try_decode::<_, MemoParser>(&a), plain::<T>(&a)),
        _ => agree(T::try_decode::<_, ByteParser>(&a), plain::<T>(&a)),
    }
}
fn bytes<T: Decode + PartialEq>(max: usize) {
    want!("ok", "err");
    let v = sym::vec(sym::upto(max));
    let a = sym::bytes::<4>();
    forms::<T>(&v, a)
}
/// the panicking forms, for input that decodes
#[inline(never)]
fn infallible<T: Decode + PartialEq>(max: usize) {
    want!("ok");
    let v = sym::vec(sym::upto(max));
    let y = match plain::<T>(&v) {
        Some(y) => y,
        None => return,
    };
    sym::cover("ok");
    let x = match sym::upto(5) {
        0 => T::decode(&v[..]),
        1 => T::decode(v.clone()),
        2 => T::decode(HexString::from_vec(v.clone())),
        3 => T::decode_memo(&v[..]),
        4 => T::decode_memo(v.clone()),
        _ => T::decode_memo(HexString::from_vec(v.clone())),
    };
    sym::check(x == y, "the same bytes in another form decode to another value");
}
fn ascii(max: usize) -> String {
    let n = sym::upto(max);
    let mut s = String::with_capacity(max);
    for _ in 0..n {
        s.push((sym::u8() & 0x7f) as char);
    }
    s
}
fn texts<T: Decode>(s: &str) -> DecodeResult<T> {
    match sym::upto(7) {
        0 => T::try_decode::<_, ByteParser>(s),
        1 => T::try_decode::<_, ByteParser>(s.to_string()),
        #[cfg(not(feature = "imh"))]
        2 => T::try_decode::<_, ByteParser>(&s.to_string()),
        3 => T::try_decode::<_, ByteParser>(Cow::Borrowed(s)),
        4 => T::try_decode::<_, ByteParser>(Cow::<str>::Owned(s.to_string())),
        5 => T::try_decode::<_, MemoParser>(s),
        6 => T::try_decode::<_, MemoParser>(s.to_string()),
        _ => T::try_decode::<_, MemoParser>(Cow::Borrowed(s)),
    }
}
/// by default a text stands for its own bytes
fn raw<T: Decode + PartialEq>(max: usize) {
    want!("ok", "err");
    let s = ascii(max);
    agree(texts::<T>(&s), plain::<T>(s.as_bytes()));
}
/// with `implicit_hexstring` it stands for the bytes it spells
fn hex<T: Decode + PartialEq>(max: usize) {
    want!("ok", "refused");
    let s = ascii(max);
    let b = s.as_bytes();
    let mut spelled = Some(Vec::new());
    if b.len() % 2 != 0 {
        spelled = None;
    }
    for i in 0..b.len() / 2 {
        match (digit(b[2 * i]), digit(b[2 * i + 1])) {
            (Some(h), Some(l)) => {
                if let Some(v) = &mut spelled {
                    v.push(h << 4 | l)
                }
            }
            _ => spelled = None,
        }
    }
    match spelled {
        Some(v) => agree(texts::<T>(&s), plain::<T>(&v)),
        None => {
            sym::cover("refused");
            sym::check(matches!(texts::<T>(&s), Err(DecodeError::Conv(_))), "a text that spells no bytes was not refused as such")
        }
    }
}
fn digit(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// long inputs, in every form
#[inline(never)]
fn far<T: Decode + PartialEq>(head: &[u8]) {
    want!("ok");
    let mut v = head.to_vec();
    v.extend_from_slice(&ends(long()));
    let w = plain::<T>(&v);
    match sym::upto(6) {
        0 => agree(T::try_decode::<_, ByteParser>(&v[..]), w),
        1 => agree(T::try_decode::<_, MemoParser>(&v[..]), w),
        2 => agree(T::try_decode::<_, SliceParser>(&v[..]), w),
        3 => agree(T::try_decode::<_, ByteParser>(v.clone()), w),
        4 => agree(T::try_decode::<_, MemoParser>(v.clone()), w),
        5 => agree(T::try_decode::<_, ByteParser>(HexString::from_vec(v.clone())), w),
        _ => agree(T::try_decode::<_, MemoParser>(HexString::from_vec(v.clone())), w),
    }
}
fn far_array<T: Decode + PartialEq>() {
    want!("ok");
    let mut a = [0x2au8; 300];
    a[0] = sym::u8();
    a[299] = sym::u8();
    match sym::upto(3) {
        0 => agree(T::try_decode::<_, ByteParser>(a), plain::<T>(&a)),
        1 => agree(T::try_decode::<_, MemoParser>(a), plain::<T>(&a)),
        2 => agree(T::try_decode::<_, ByteParser>(&a), plain::<T>(&a)),
        _ => agree(T::try_decode::<_, MemoParser>(&a), plain::<T>(&a)),
    }
}
fn far_text() -> String {
    let n = long();
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push(if i == n / 2 { (sym::u8() & 0x7f) as char } else { b"0123456789abcdefABCDEF"[(i * 7 + i / 22) % 22] as char });
    }
    s
}
/// text around one character of two or three bytes that may be any
fn wide_text<T: Decode + PartialEq>() {
    want!("ok");
    let c = sym::u16() as u32;
    sym::assume(c >= 0x80 && !(0xd800..0xe000).contains(&c));
    let mut s = String::new();
    let at = sym::upto(2);
    if at == 1 {
        s.push('A');
    }
    match char::from_u32(c) {
        Some(c) => s.push(c),
        None => return,
    }
    if at < 2 {
        s.push_str("z1");
    }
    agree(texts::<T>(&s), plain::<T>(s.as_bytes()));
}
fn special() {
    want!("ok");
    let s = text();
    if sym::upto(1) == 0 {
        agree(texts::<Bytes>(&s), plain::<Bytes>(s.as_bytes()));
    } else {
        agree(texts::<String>(&s), Some(s.clone()));
    }
}
fn far_raw() {
    want!("ok");
    let s = far_text();
    agree(texts::<Bytes>(&s), plain::<Bytes>(s.as_bytes()));
}
fn far_hex() {
    want!("ok");
    let s = far_text();
    match (texts::<Bytes>(&s), HexString::from_hex(&s)) {
        (Ok(b), Ok(h)) => {
            sym::cover("ok");
            sym::check(same(&b, h.as_bytes()), "decoding from text is not decoding from the bytes it spells")
        }
        (Err(DecodeError::Conv(_)), Err(_)) => {}
        _ => sym::check(false, "decoding from text succeeds unlike reading it"),
    }
}
harnesses! {
    fn p37_u16() { bytes::<u16>(3) }
    fn p37_rec() { bytes::<Rec>(4) }
    fn p37_dynamic() { bytes::<Dynamic<u8, Bytes>>(4) }
    fn p37_seq() { bytes::<Sequence<u16>>(4) }
    fn p37_n() { bytes::<N>(3) }
    fn p37_u16__ccp() { bytes::<u16>(3) }
    fn p37_rec__ccp() { bytes::<Rec>(4) }
    fn p37_dynamic__ccp() { bytes::<Dynamic<u8, Bytes>>(4) }
    fn p37_rec__imh() { bytes::<Rec>(4) }
    fn p37_fits_rec() { infallible::<Rec>(4) }
    fn p37_fits_dynamic() { infallible::<Dynamic<u8, Bytes>>(4) }
    fn p37_fits_rec__ccp() { infallible::<Rec>(4) }
    fn p37_raw_u16() { raw::<u16>(3) }
    fn p37_wide_text() { wide_text::<Bytes>() }
    fn p37_raw_dynamic() { raw::<Dynamic<u8, Bytes>>(3) }
    fn p37_hex_u8__imh() { hex::<u8>(3) }
    fn p37_hex_bytes__imh() { want!("ok"); hex_bytes(3) }
    fn p37t_rec() { bytes::<Rec>(8) }
    fn p37t_raw_dynamic() { raw::<Dynamic<u8, Bytes>>(6) }
    fn p37t_hex_u8__imh() { hex::<u8>(5) }
    fn p37_far_bytes() { far::<Bytes>(&[]) }
    fn p37_far_u16() { far::<u16>(&[]) }
    fn p37_far_dynamic() { far::<Dynamic<u16, Bytes>>(&[1, 0]) }
    fn p37_far_bytes__ccp() { far::<Bytes>(&[]) }
    fn p37_far_dynamic__ccp() { far::<Dynamic<u16, Bytes>>(&[1, 0]) }
    fn p37_far_bytes__imh() { far::<Bytes>(&[]) }
    fn p37_far_array() { far_array::<Bytes>() }
    fn p37_far_array_fixed() { far_array::<FixedBytes<300>>() }
    fn p37_far_raw() { far_raw() }
    fn p37_special() { special() }
    fn p37_far_hex__imh() { far_hex() }
}
fn hex_bytes(max: usize) {
    let s = ascii(max);
    match (texts::<Bytes>(&s), HexString::from_hex(&s)) {
        (Ok(b), Ok(h)) => {
            sym::cover("ok");
            sym::check(same(&b, h.as_bytes()), "decoding from text is not decoding from the bytes it spells")
        }
        (Err(DecodeError::Conv(_)), Err(_)) => {}
        _ => sym::check(false, "decoding from text succeeds unlike reading it"),
    }
}
