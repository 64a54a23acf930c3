//! Fixed-width scalars: big-endian two's complement of exactly their width.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::*;

macro_rules! int {
    ($t:ident, $w:expr, $sym:ident) => {{
        want!("decoded", "too short");
        // encoding
        let v: $t = sym::$sym() as $t;
        let e = enc(&v);
        sym::check(same(&e, &to_be(v as u64, $w)), "encoding is not the big-endian bytes");
        sym::check(<$t as FixedLength>::LEN == $w, "declared width differs");
        sym::check(same(&v.to_bytes(), &e), "to_bytes differs from write_to");
        // decoding any input
        let b = sym::vec(sym::upto($w + 2));
        let (r, left) = parse::<$t>(&b);
        match r {
            Ok(x) => {
                sym::cover("decoded");
                sym::check(b.len() >= $w, "decoded from too few bytes");
                sym::check(left == b.len() - $w, "did not consume exactly its width");
                sym::check(x == be(&b[..$w]) as $t, "decoded value is not the big-endian value");
                sym::check(same(&enc(&x), &b[..$w]), "re-encoding differs from the bytes decoded");
            }
            Err(_) => {
                sym::cover("too short");
                sym::check(b.len() < $w, "refused an input of sufficient length")
            }
        }
    }};
}
/// big-endian encodings order like the numbers they encode (signed ones after flipping the sign bit)
macro_rules! order {
    ($t:ident, $w:expr, $flip:expr) => {{
        let (a, b) = (sym::$t(), sym::$t());
        let (mut x, mut y) = (enc(&a), enc(&b));
        if x.len() == $w && y.len() == $w {
            x[0] ^= $flip;
            y[0] ^= $flip;
            let (mut lt, mut eq) = (false, true);
            for i in 0..$w {
                lt |= eq & (x[i] < y[i]);
                eq &= x[i] == y[i];
            }
            sym::check(lt == (a < b), "encodings do not order like the values");
            sym::check(eq == (a == b), "distinct values share an encoding");
        }
    }};
}
/// the parser's own readers, with any offset and any remainder
#[inline(never)]
fn take<P: Parser>(mut p: P, b: &[u8]) {
    let skip = sym::upto(1);
    if skip > b.len() || p.consume(skip).is_err() {
        return;
    }
    let t = &b[skip..];
    macro_rules! one {
        ($m:ident, $w:expr, |$x:ident| $e:expr) => {{
            match p.$m() {
                Ok($x) => {
                    sym::cover("read");
                    sym::check(t.len() >= $w, "read from too few bytes");
                    sym::check($e as u64 == be(&t[..$w]) && p.remainder() == t.len() - $w, "what was read is not the big-endian value of the next bytes");
                }
                Err(_) => {
                    sym::cover("too short");
                    sym::check(t.len() < $w, "refused an input of sufficient length");
                }
            }
        }};
    }
    match sym::upto(8) {
        0 => one!(take_u8, 1, |x| x),
        1 => one!(take_i8, 1, |x| x as u8),
        2 => one!(take_u16, 2, |x| x),
        3 => one!(take_i16, 2, |x| x as u16),
        4 => one!(take_u32, 4, |x| x),
        5 => one!(take_i32, 4, |x| x as u32),
        6 => one!(take_u64, 8, |x| x),
        7 => one!(take_i64, 8, |x| x),
        _ => one!(take_f64, 8, |x| x.to_bits()),
    }
}
fn takes() {
    want!("read", "too short");
    let b = sym::vec(sym::upto(10));
    match sym::upto(2) {
        0 => take(ByteParser::from_buffer((&b[..]).into()), &b),
        1 => take(MemoParser::from_buffer((&b[..]).into()), &b),
        _ => take(SliceParser::from_buffer((&b[..]).into()), &b),
    }
}
harnesses! {
    fn p01_take() { takes() }
    fn p01_take__rel() { takes() }
    fn p01_order_u16() { order!(u16, 2, 0) }
    fn p01_order_i16() { order!(i16, 2, 0x80) }
    fn p01_order_u32() { order!(u32, 4, 0) }
    fn p01_order_i32() { order!(i32, 4, 0x80) }
    fn p01_order_u64() { order!(u64, 8, 0) }
    fn p01_order_i64() { order!(i64, 8, 0x80) }
    fn p01_u8() { int!(u8, 1, u8) }
    fn p01_i8() { int!(i8, 1, i8) }
    fn p01_u16() { int!(u16, 2, u16) }
    fn p01_i16() { int!(i16, 2, i16) }
    fn p01_u32() { int!(u32, 4, u32) }
    fn p01_i32() { int!(i32, 4, i32) }
    fn p01_u64() { int!(u64, 8, u64) }
    fn p01_i64() { int!(i64, 8, i64) }
    fn p01_f64() {
        want!("decoded", "too short");
        let v = sym::u64();
        let e = enc(&f64::from_bits(v));
        sym::check(same(&e, &to_be(v, 8)), "encoding is not the big-endian IEEE bits");
        sym::check(<f64 as FixedLength>::LEN == 8, "declared width differs");
        let b = sym::vec(sym::upto(10));
        let (r, left) = parse::<f64>(&b);
        match r {
            Ok(x) => {
                sym::cover("decoded");
                sym::check(b.len() >= 8, "decoded from too few bytes");
                sym::check(left == b.len() - 8, "did not consume exactly its width");
                sym::check(x.to_bits() == be(&b[..8]), "decoded bits differ");
            }
            Err(_) => {
                sym::cover("too short");
                sym::check(b.len() < 8, "refused an input of sufficient length")
            }
        }
    }
    fn p01_unit() {
        let b = sym::vec(sym::upto(3));
        sym::check(enc(&()).is_empty(), "unit encodes to something");
        sym::check(().to_bytes().is_empty(), "unit encodes to something");
        sym::check(().encode::<StrictBuilder>().is_empty(), "unit encodes to something");
        let mut v = b.clone();
        ().write_to_vec(&mut v);
        sym::check(same(&v, &b), "unit changed its target");
        sym::check(<() as FixedLength>::LEN == 0, "unit has a width");
        let (r, left) = parse::<()>(&b);
        sym::check(r.is_ok(), "unit not decoded");
        sym::check(left == b.len(), "unit consumed input");
    }
    fn p01_all__rel() {
        let n = sym::u64();
        sym::check(same(&enc(&(n as u16)), &to_be(n, 2)) , "encoding is not the big-endian bytes");
        sym::check(same(&enc(&(n as i32)), &to_be(n, 4)) , "encoding is not the big-endian bytes");
        sym::check(same(&enc(&(n as i64)), &to_be(n, 8)) , "encoding is not the big-endian bytes");
        let b = sym::vec(8);
        sym::check(matches!(parse::<u16>(&b), (Ok(x), 6) if x as u64 == be(&b[..2])), "decoded value is not the big-endian value");
        sym::check(matches!(parse::<i32>(&b), (Ok(x), 4) if x as u32 as u64 == be(&b[..4])), "decoded value is not the big-endian value");
        sym::check(matches!(parse::<i64>(&b), (Ok(x), 0) if x as u64 == be(&b)), "decoded value is not the big-endian value");
    }
}
