//! Range-restricted integers: conversions go by numeric value.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::{TryFrom, TryInto};
use tedium::int::{MAX_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT};
use tedium::*;

macro_rules! from {
    ($t:ident, $min:expr, $max:expr, $($s:ident),+) => {{
        want!("converted", "refused");
        type R = RangedInt<$t, { $min }, { $max }>;
        let (min, max) = ($min as i128, $max as i128);
        $(
            {
                let v = sym::$s();
                let r = R::try_from(v);
                let inside = v as i128 >= min && v as i128 <= max;
                sym::check(r.is_ok() == inside, concat!("conversion does not accept exactly the range: ", stringify!($s)));
                match r {
                    Ok(x) => {
                        sym::cover("converted");
                        sym::check(x.to_i32() as i128 == v as i128, concat!("conversion changed the number: ", stringify!($s)))
                    }
                    Err(_) => sym::cover("refused"),
                }
            }
        )+
        let v = sym::i32();
        let r = R::try_from_i32(v);
        let inside = v as i128 >= min && v as i128 <= max;
        sym::check(r.is_ok() == inside, "try_from_i32 does not accept exactly the range");
        if let Ok(x) = r {
            sym::check(x.to_i32() == v, "try_from_i32 changed the number");
            let y = unsafe { R::from_numeric_unchecked(v) };
            sym::check(y.to_i32() == v, "from_numeric_unchecked changed the number");
            let y = R::from_i32(v);
            sym::check(y.to_i32() == v, "from_i32 changed the number");
            sym::check(x == y && !(x < y), "equal numbers compare unequal");
        }
        // extremes
        sym::check(R::min_val().to_i32() as i128 == min, "minimum value is not MIN");
        sym::check(R::max_val().to_i32() as i128 == max, "maximum value is not MAX");
        let d = R::default().to_i32() as i128;
        sym::check(d == if min > 0 { min } else if max < 0 { max } else { 0 }, "default is not the value closest to zero");
        // order
        let (a, b) = (sym::$t(), sym::$t());
        if let (Ok(x), Ok(y)) = (R::try_from_underlying(a), R::try_from_underlying(b)) {
            sym::check((x < y) == (x.to_i32() < y.to_i32()), "order differs from the numbers'");
            sym::check((x == y) == (x.to_i32() == y.to_i32()), "equality differs from the numbers'");
        }
    }};
}
macro_rules! all {
    ($t:ident, $min:expr, $max:expr) => { from!($t, $min, $max, u8, i8, u16, i16, u32, i32, u64, i64, usize, isize) };
}
/// conversion back into plain integers, for ranges that are stored as they are
macro_rules! into {
    ($t:ident, $min:expr, $max:expr; $($d:ident),*; $($e:ident),*) => {{
        type R = RangedInt<$t, { $min }, { $max }>;
        let u = sym::$t();
        if let Ok(x) = R::try_from_underlying(u) {
            let n = x.to_i32();
            $( {
                let y: $d = x.into();
                sym::check(y as i128 == n as i128, concat!("conversion into a plain integer changed the number: ", stringify!($d)));
            } )*
            $( {
                let y: Result<$e, _> = x.try_into();
                let fits = n as i128 >= $e::MIN as i128 && n as i128 <= $e::MAX as i128;
                sym::check(y.is_ok() == fits, concat!("conversion into a plain integer does not accept what fits: ", stringify!($e)));
                if let Ok(y) = y {
                    sym::check(y as i128 == n as i128, concat!("conversion into a plain integer changed the number: ", stringify!($e)));
                }
            } )*
        }
    }};
}
harnesses! {
    fn p03_u30() { all!(u32, 0, MAX_OCAML_NATIVE_INT) }
    fn p03_i31() { all!(i32, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p03_u8() { all!(u8, 0, 100) }
    fn p03_i8() { all!(i8, -5, 7) }
    fn p03_i8_neg() { all!(i8, -100, -20) }
    fn p03_u16() { all!(u16, 0, 1000) }
    fn p03_i16() { all!(i16, -300, 30000) }
    fn p03_low8() { all!(u8, 3, 200) }
    fn p03_high8() { all!(u8, 256, 257) }
    fn p03_high16() { all!(u16, 100_000, 150_000) }
    fn p03_high32() { all!(u32, 1, MAX_OCAML_NATIVE_INT) }
    fn p03_i31__rel() { all!(i32, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p03_high8__rel() { all!(u8, 256, 257) }
    fn p03_u8__rel() { all!(u8, 0, 100) }
    fn p03_point() { all!(u16, 9, 9) }
    fn p03_point8() { all!(u8, 1, 1) }
    fn p03_zero() { all!(u8, 0, 0) }
    fn p03_minus_one() { all!(i32, -1, -1) }
    fn p03_minus_one8() { all!(i8, -1, -1) }
    fn p03_top() { all!(u32, MAX_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p03_bottom() { all!(i32, MIN_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT) }
    fn p03_all8() { all!(u8, 0, 255) }
    fn p03_all_i8() { all!(i8, -128, 127) }
    fn p03_all16() { all!(u16, 0, 65535) }
    fn p03_all_i16() { all!(i16, -32768, 32767) }
    fn p03_up_to_zero() { all!(i16, -32768, 0) }
    fn p03_last8() { all!(u8, MAX_OCAML_NATIVE_INT - 255, MAX_OCAML_NATIVE_INT) }
    fn p03_one_up() { all!(u16, 1, 65536) }
    fn p03_into_u8() { into!(u8, 0, 200; u8, u16, i32, u32, u64, i64, usize, isize; i8) }
    fn p03_into_i8() { into!(i8, -50, 70; i8, i16, i32, i64, isize; u8, u16, u32, u64, usize) }
    fn p03_into_u16() { into!(u16, 0, 60000; i32, u32, u64, i64, usize, isize; i8, u8, i16) }
    fn p03_into_i16() { into!(i16, -300, 30000; i16, i32, i64, isize; i8, u8, u16, u32, u64, usize) }
    fn p03_into_u32() { into!(u32, 0, MAX_OCAML_NATIVE_INT; u32, i32, u64, i64, usize, isize; i8, u8, i16, u16) }
    fn p03_into_i32() { into!(i32, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT; i32, i64, isize; i8, u8, i16, u16, u32, u64, usize) }
    fn p03_into_high() { into!(u8, 256, 257; i32; ) }
}
