//! Range-restricted integers: only in-range values decode, only in-range values encode.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::int::{MAX_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT};
use tedium::*;

/// lowest and highest underlying value: offsets from MIN when MIN > 0
fn lo(min: i64) -> i64 {
    if min > 0 {
        0
    } else {
        min
    }
}
fn hi(min: i64, max: i64) -> i64 {
    if min > 0 {
        max - min
    } else {
        max
    }
}
macro_rules! ranged {
    ($t:ident, $w:expr, $min:expr, $max:expr) => {{
        type R = RangedInt<$t, { $min }, { $max }>;
        let (lo, hi) = (lo($min as i64), hi($min as i64, $max as i64));
        sym::check(<R as FixedLength>::LEN == $w, "declared width differs from the carrier's");
        // decoding
        let b = sym::vec(sym::upto($w + 1));
        let (r, left) = parse::<R>(&b);
        match r {
            Ok(x) => {
                sym::check(b.len() >= $w, "decoded from too few bytes");
                let raw = be(&b[..$w]) as $t;
                sym::check(raw as i64 >= lo && raw as i64 <= hi, "an out-of-range value was decoded");
                sym::check(left == b.len() - $w, "did not consume exactly the carrier's width");
                sym::check(x.to_underlying() == raw, "decoded value is not the carrier's");
                sym::check(same(&enc(&x), &b[..$w]), "re-encoding differs from the bytes decoded");
                sym::cover("decoded");
            }
            Err(_) => {
                if b.len() >= $w {
                    let raw = be(&b[..$w]) as $t as i64;
                    sym::check(raw < lo || raw > hi, "an in-range value was refused");
                    sym::cover("out of range");
                } else {
                    sym::cover("too short");
                }
            }
        }
        // construction
        let u = sym::$t();
        let inside = u as i64 >= lo && u as i64 <= hi;
        let r = R::try_from_underlying(u);
        sym::check(r.is_ok() == inside, "construction does not follow the range");
        if let Ok(x) = r {
            sym::check(unsafe { x.to_underlying_unchecked() } == u, "construction changed the value");
            sym::check(same(&enc(&x), &to_be(u as u64, $w)), "encoding is not the carrier's");
        }
    }};
}
/// an out-of-range value that was forced in is never emitted
macro_rules! forced {
    ($t:ident, $w:expr, $min:expr, $max:expr) => {{
        want!("emitted");
        type R = RangedInt<$t, { $min }, { $max }>;
        let (lo, hi) = (lo($min as i64), hi($min as i64, $max as i64));
        let u = sym::$t();
        let inside = u as i64 >= lo && u as i64 <= hi;
        sym::panic_ok(!inside);
        let x = unsafe { R::from_underlying_unchecked(u) };
        let out = match sym::upto(3) {
            0 => enc(&x),
            1 => x.to_bytes(),
            2 => {
                let u = x.to_underlying();
                sym::check(inside, "an out-of-range value was destructed");
                to_be(u as u64, $w)
            }
            _ => {
                let u = R::from_underlying(u);
                enc(&u)
            }
        };
        sym::cover("emitted");
        sym::check(inside, "an out-of-range value was emitted");
        sym::check(same(&out, &to_be(u as u64, $w)), "an in-range value was altered");
    }};
}
/// a range that is not one holds no value: nothing is decoded, made, taken out or emitted
macro_rules! incoherent {
    ($t:ident, $min:expr, $max:expr) => {{
        type R = RangedInt<$t, { $min }, { $max }>;
        sym::panic_ok(true);
        let u = sym::$t();
        let held = match sym::upto(6) {
            0 => R::try_from_underlying(u).is_ok(),
            1 => R::try_from_i32(sym::i32()).is_ok(),
            2 => {
                R::from_underlying(u);
                true
            }
            3 => {
                R::from_i32(sym::i32());
                true
            }
            4 => {
                unsafe { R::from_underlying_unchecked(u) }.to_underlying();
                true
            }
            5 => parse::<R>(&sym::vec(sym::upto(5))).0.is_ok(),
            _ => {
                enc(&unsafe { R::from_underlying_unchecked(u) });
                true
            }
        };
        sym::check(!held, "an incoherent range holds a value");
    }};
}
/// ... and with `invalid_range_checking`, handling it panics
macro_rules! checked {
    ($t:ident, $min:expr, $max:expr) => {{
        type R = RangedInt<$t, { $min }, { $max }>;
        sym::panic_ok(true);
        let u = sym::$t();
        sym::cover("tried");
        match sym::upto(5) {
            0 => drop(R::try_from_underlying(u)),
            1 => drop(R::try_from_i32(sym::i32())),
            2 => drop(unsafe { R::from_underlying_unchecked(u) }.to_underlying()),
            3 => drop(unsafe { R::from_underlying_unchecked(u) }.to_i32()),
            4 => drop(parse::<R>(&sym::vec(4))),
            _ => drop(enc(&unsafe { R::from_underlying_unchecked(u) })),
        }
        sym::check(false, "an incoherent range was used without a panic");
    }};
}
harnesses! {
    fn p02_incoherent_u8() { incoherent!(u8, 5, 4) }
    fn p02_incoherent_i32() { incoherent!(i32, 100, -100) }
    fn p02_incoherent_i16() { incoherent!(i16, -3, -4) }
    fn p02_incoherent_u16() { incoherent!(u16, 400, 300) }
    fn p02_u30__irc() { want!("decoded", "out of range", "too short"); ranged!(u32, 4, 0, MAX_OCAML_NATIVE_INT) }
    fn p02_i31__irc() { want!("decoded", "out of range", "too short"); ranged!(i32, 4, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p02_high16__irc() { want!("decoded", "out of range", "too short"); ranged!(u16, 2, 100_000, 150_000) }
    fn p02_point__irc() { want!("decoded", "out of range", "too short"); ranged!(u16, 2, 9, 9) }
    fn p02_forced_i16__irc() { forced!(i16, 2, -300, 30000) }
    fn p02_checked_low__irc() { checked!(i32, -0x4000_0001, 7) }
    fn p02_checked_high__irc() { checked!(u32, 0, 0x4000_0000) }
    fn p02_checked_high_point__irc() { checked!(i32, 0x4000_0000, 0x4000_0000) }
    fn p02_checked_empty__irc() { checked!(u8, 5, 4) }
    fn p02_checked_empty_neg__irc() { checked!(i16, -3, -4) }
    fn p02_u30() { want!("decoded", "out of range", "too short"); ranged!(u32, 4, 0, MAX_OCAML_NATIVE_INT) }
    fn p02_i31() { want!("decoded", "out of range", "too short"); ranged!(i32, 4, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p02_u8() { want!("decoded", "out of range", "too short"); ranged!(u8, 1, 0, 100) }
    fn p02_u8_all() { want!("decoded", "too short"); ranged!(u8, 1, 0, 255) }
    fn p02_i8() { want!("decoded", "out of range", "too short"); ranged!(i8, 1, -5, 7) }
    fn p02_i8_neg() { want!("decoded", "out of range", "too short"); ranged!(i8, 1, -100, -20) }
    fn p02_u16() { want!("decoded", "out of range", "too short"); ranged!(u16, 2, 0, 1000) }
    fn p02_i16() { want!("decoded", "out of range", "too short"); ranged!(i16, 2, -300, 30000) }
    fn p02_high8() { want!("decoded", "out of range", "too short"); ranged!(u8, 1, 256, 257) }
    fn p02_high8_wide() { want!("decoded", "too short"); ranged!(u8, 1, 1000, 1255) }
    fn p02_high16() { want!("decoded", "out of range", "too short"); ranged!(u16, 2, 100_000, 150_000) }
    fn p02_high32() { want!("decoded", "out of range", "too short"); ranged!(u32, 4, 1, MAX_OCAML_NATIVE_INT) }
    fn p02_point() { want!("decoded", "out of range", "too short"); ranged!(u16, 2, 9, 9) }
    fn p02_zero() { want!("decoded", "out of range", "too short"); ranged!(u8, 1, 0, 0) }
    fn p02_minus_one() { want!("decoded", "out of range", "too short"); ranged!(i32, 4, -1, -1) }
    fn p02_minus_one8() { want!("decoded", "out of range", "too short"); ranged!(i8, 1, -1, -1) }
    fn p02_top() { want!("decoded", "out of range", "too short"); ranged!(u32, 4, MAX_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p02_bottom() { want!("decoded", "out of range", "too short"); ranged!(i32, 4, MIN_OCAML_NATIVE_INT, MIN_OCAML_NATIVE_INT) }
    fn p02_i8_all() { want!("decoded", "too short"); ranged!(i8, 1, -128, 127) }
    fn p02_u16_all() { want!("decoded", "too short"); ranged!(u16, 2, 0, 65535) }
    fn p02_i16_all() { want!("decoded", "too short"); ranged!(i16, 2, -32768, 32767) }
    fn p02_last8() { want!("decoded", "too short"); ranged!(u8, 1, MAX_OCAML_NATIVE_INT - 255, MAX_OCAML_NATIVE_INT) }
    fn p02_one_up() { want!("decoded", "too short"); ranged!(u16, 2, 1, 65536) }
    fn p02_forced_u8() { forced!(u8, 1, 0, 100) }
    fn p02_forced_i8() { forced!(i8, 1, -5, 7) }
    fn p02_forced_u16() { forced!(u16, 2, 0, 1000) }
    fn p02_forced_i16() { forced!(i16, 2, -300, 30000) }
    fn p02_forced_u30() { forced!(u32, 4, 0, MAX_OCAML_NATIVE_INT) }
    fn p02_forced_i31() { forced!(i32, 4, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p02_forced_high8() { forced!(u8, 1, 256, 257) }
    fn p02_forced_high32() { forced!(u32, 4, 1, MAX_OCAML_NATIVE_INT) }
    fn p02_forced_u8__rel() { forced!(u8, 1, 0, 100) }
    fn p02_forced_i31__rel() { forced!(i32, 4, MIN_OCAML_NATIVE_INT, MAX_OCAML_NATIVE_INT) }
    fn p02_u30__rel() { want!("decoded", "out of range", "too short"); ranged!(u32, 4, 0, MAX_OCAML_NATIVE_INT) }
    fn p02_high8__rel() { want!("decoded", "out of range", "too short"); ranged!(u8, 1, 256, 257) }
}
