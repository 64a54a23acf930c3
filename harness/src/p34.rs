//! Whole-input decoding: leftovers are ignored by default and refused with `check_complete_parse`; the panicking forms panic
//! exactly when the fallible one fails.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::error::DecodeError;
use tedium::parse::ParserExt;
use tedium::*;

/// Opens windows and leaves them open.
#[derive(Debug, PartialEq, Clone)]
struct Leaky(u8);
impl Decode for Leaky {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let n = p.take_u8()?;
        p.set_fit((n & 3) as usize)?;
        if n & 4 != 0 {
            p.take_u8()?;
        }
        if n & 8 != 0 {
            p.set_fit(0)?;
        }
        if n & 16 != 0 {
            let k = p.remainder();
            p.set_fit(k)?;
        }
        Ok(Leaky(n))
    }
}
#[derive(Encode, Decode, Debug, PartialEq, Clone)]
struct Pair(u8, Option<u8>);

/// what parsing does to these bytes: the value, and the bytes nobody read
fn reference<T: Decode>(b: &[u8]) -> (ParseResult<T>, usize) {
    let mut p = SliceParser::from_buffer(b.into());
    let r = T::parse(&mut p);
    if r.is_err() {
        return (r, 0);
    }
    // drain window by window
    let mut left = 0;
    loop {
        let n = p.remainder();
        left += ParserExt::skip(&mut p, n).unwrap_or(0);
        if p.enforce_target().is_err() {
            break;
        }
    }
    (r, left)
}
#[inline(never)]
fn fallible<T: Decode + PartialEq>(b: &[u8], strict: bool) {
    let (want, left) = reference::<T>(b);
    let got = match sym::upto(2) {
        0 => T::try_decode::<_, ByteParser>(b),
        1 => T::try_decode::<_, MemoParser>(b),
        _ => T::try_decode::<_, SliceParser>(b),
    };
    match (got, want) {
        (Ok(x), Ok(y)) => {
            sym::cover("decoded");
            sym::check(x == y, "whole-input decoding yields another value than parsing");
            sym::check(!strict || left == 0, "unread input was let through");
            if left > 0 {
                sym::cover("leftovers ignored");
            }
        }
        (Err(DecodeError::NonEmpty(s)), Ok(_)) => {
            sym::cover("leftovers refused");
            sym::check(strict, "leftovers were refused although nothing asks for that");
            sym::check(left > 0, "a completely read input was refused");
            sym::check(!s.is_empty() && s.len() == left, "the leftovers reported are not the unread bytes");
        }
        (Err(DecodeError::Parse(_)), Err(_)) => sym::cover("parse error"),
        (Err(_), Err(_)) => sym::check(false, "a parse error is reported as something else"),
        (Err(_), Ok(_)) => sym::check(false, "whole-input decoding fails where parsing succeeds"),
        (Ok(_), Err(_)) => sym::check(false, "whole-input decoding succeeds where parsing fails"),
    }
}
#[inline(never)]
fn panicking<T: Decode + PartialEq>(b: &[u8], strict: bool) {
    let (want, left) = reference::<T>(b);
    let ok = want.is_ok() && (!strict || left == 0);
    sym::panic_ok(!ok);
    let x = if sym::upto(1) == 0 { T::decode(b) } else { T::decode_memo(b) };
    sym::check(ok, "the panicking form returned a value where the fallible one fails");
    if let Ok(y) = want {
        sym::cover("returned");
        sym::check(x == y, "the panicking form returned another value");
    }
}
fn both<T: Decode + PartialEq>(max: usize, strict: bool) {
    let b = sym::vec(sym::upto(max));
    if sym::upto(1) == 0 {
        fallible::<T>(&b, strict)
    } else {
        panicking::<T>(&b, strict)
    }
}
/// `()` reads nothing
fn unit(strict: bool) {
    let b = sym::vec(sym::upto(3));
    let ok = !strict || b.is_empty();
    if sym::upto(1) == 0 {
        let r = match sym::upto(2) {
            0 => <()>::try_decode::<_, ByteParser>(&b[..]),
            1 => <()>::try_decode::<_, MemoParser>(&b[..]),
            _ => <()>::try_decode::<_, SliceParser>(&b[..]),
        };
        sym::check(r.is_ok() == ok, "the unit value treats leftovers unlike other values");
    } else {
        sym::panic_ok(!ok);
        if sym::upto(1) == 0 {
            <()>::decode(&b[..])
        } else {
            <()>::decode_memo(&b[..])
        }
        sym::check(ok, "the unit value treats leftovers unlike other values");
    }
}
macro_rules! h {
    ($t:ty, $max:literal, strict) => {{ want!("decoded", "leftovers refused", "parse error", "returned"); both::<$t>($max, true) }};
    ($t:ty, $max:literal, lax) => {{ want!("decoded", "leftovers ignored", "parse error", "returned"); both::<$t>($max, false) }};
}
/// many windows left open, many bytes left over
#[derive(Debug, PartialEq, Clone)]
struct Deep(u8);
impl Decode for Deep {
    fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
        let n = p.take_u8()?;
        for _ in 0..n {
            let k = p.remainder();
            p.set_fit(k - 1)?;
        }
        Ok(Deep(n))
    }
}
fn far<T: Decode + PartialEq>(head: &[u8], strict: bool) {
    let mut b = head.to_vec();
    b.extend_from_slice(&ends(long()));
    if sym::upto(1) == 0 {
        fallible::<T>(&b, strict)
    } else {
        panicking::<T>(&b, strict)
    }
}
fn far_deep(strict: bool) {
    let n = match sym::upto(2) { 0 => 3, 1 => 9, _ => 14 };
    far::<Deep>(&[n], strict)
}
harnesses! {
    fn p34_int() { h!(u16, 3, lax) }
    fn p34_pair() { h!(Pair, 4, lax) }
    fn p34_dynamic() { h!(Dynamic<u8, Bytes>, 3, lax) }
    fn p34_leaky() { h!(Leaky, 5, lax) }
    fn p34_all() { want!("decoded", "returned"); both::<Bytes>(3, false) }
    fn p34_unit() { unit(false) }
    fn p34_int__ccp() { h!(u16, 3, strict) }
    fn p34_bool__ccp() { h!(bool, 2, strict) }
    fn p34_pair__ccp() { h!(Pair, 4, strict) }
    fn p34_dynamic__ccp() { h!(Dynamic<u8, Bytes>, 3, strict) }
    fn p34_nat__ccp() { h!(N, 3, strict) }
    fn p34_leaky__ccp() { h!(Leaky, 5, strict) }
    fn p34_option__ccp() { h!(Option<u8>, 3, strict) }
    fn p34_fixseq__ccp() { h!(FixSeq<u8, 2>, 4, strict) }
    fn p34_padded__ccp() { h!(Padded<u8, 2>, 5, strict) }
    fn p34_all__ccp() { want!("decoded", "returned"); both::<Bytes>(3, true) }
    fn p34_unit__ccp() { unit(true) }
    fn p34t_leaky__ccp() { h!(Leaky, 8, strict) }
    fn p34t_dynamic__ccp() { h!(Dynamic<u16, Bytes>, 8, strict) }
    fn p34_far_u16() { want!("decoded", "leftovers ignored", "returned"); far::<u16>(&[], false) }
    fn p34_far_deep() { want!("decoded", "leftovers ignored", "returned"); far_deep(false) }
    fn p34_far_dyn() { want!("decoded", "leftovers ignored", "returned"); far::<Dynamic<u8, Bytes>>(&[10], false) }
    fn p34_far_u16__ccp() { want!("leftovers refused"); far::<u16>(&[], true) }
    fn p34_far_deep__ccp() { want!("leftovers refused"); far_deep(true) }
    fn p34_far_dyn__ccp() { want!("leftovers refused"); far::<Dynamic<u8, Bytes>>(&[10], true) }
    fn p34_far_dyn_full__ccp() { want!("leftovers refused", "decoded", "returned"); far::<Dynamic<u16, Bytes>>(&[1, 0], true) }
    fn p34_far_bytes__ccp() { want!("decoded", "returned"); far::<Bytes>(&[], true) }
}
