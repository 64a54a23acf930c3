//! Bounds checking classifies every value, for every pair of bounds.
use crate::{harnesses, sym, want};
use std::convert::TryInto;
use tedium::error::BoundsError;

#[derive(PartialEq, Clone, Copy)]
enum W {
    Ok,
    Under,
    Over,
    Invalid,
    Negative,
    Failed,
}
fn class<T, E: std::fmt::Debug>(r: &Result<T, BoundsError<E>>) -> W {
    match r {
        Ok(_) => W::Ok,
        Err(BoundsError::Underflow { .. }) => W::Under,
        Err(BoundsError::Overflow { .. }) => W::Over,
        Err(BoundsError::InvalidBounds { .. }) => W::Invalid,
        Err(BoundsError::IllegalNegative { .. }) => W::Negative,
        Err(BoundsError::Failed(_)) => W::Failed,
    }
}
/// from the documentation, in 128 bits
fn want(v: i128, min: i128, max: i128) -> W {
    if min > 0 {
        if v < 0 {
            W::Negative
        } else if max < min {
            W::Invalid
        } else if v > max - min {
            W::Over
        } else {
            W::Ok
        }
    } else if min > max {
        W::Invalid
    } else if v < min {
        W::Under
    } else if v > max {
        W::Over
    } else {
        W::Ok
    }
}
fn seen(w: W) {
    sym::cover(match w {
        W::Ok => "ok",
        W::Under => "under",
        W::Over => "over",
        W::Invalid => "invalid",
        W::Negative => "negative",
        W::Failed => "failed",
    })
}
macro_rules! r {
    ($val:ty, $bound:ident, $ext:ty) => {{
        let v: $val = sym::u64() as $val;
        let (min, max) = (sym::$bound(), sym::$bound());
        let r = BoundsError::<$ext>::restrict(v, min, max);
        let fits = TryInto::<$ext>::try_into(v).is_ok();
        let w = if fits { want(v as i128, min as i128, max as i128) } else { W::Failed };
        seen(w);
        sym::check(class(&r) == w, "a value was not classified by its position relative to the bounds");
        match r {
            Ok(x) => sym::check(x == v, "a value within bounds was changed"),
            Err(BoundsError::Underflow { min: a, val: b }) => sym::check(a as i128 == min as i128 && b as i128 == v as i128, "the error reports other numbers"),
            Err(BoundsError::Overflow { max: a, val: b }) => {
                let hi = if min > 0 { max as i128 - min as i128 } else { max as i128 };
                sym::check(a as i128 == hi && b as i128 == v as i128, "the error reports other numbers")
            }
            Err(BoundsError::InvalidBounds { min: a, max: b }) => sym::check(a as i128 == min as i128 && b as i128 == max as i128, "the error reports other numbers"),
            Err(BoundsError::IllegalNegative { min: a, val: b }) => sym::check(a as i128 == min as i128 && b as i128 == v as i128, "the error reports other numbers"),
            Err(BoundsError::Failed(_)) => {}
        }
    }};
}
fn float(v: f64, r: Result<f64, BoundsError<f64>>, min: f64, max: f64) {
    let w = if !(min <= max) {
        W::Invalid
    } else if v >= min && v <= max {
        W::Ok
    } else if v > max {
        W::Over
    } else {
        W::Under // NaN included: it is not above the lower bound
    };
    seen(w);
    sym::check(class(&r) == w, "a float was not classified by its position relative to the bounds");
    match r {
        Ok(x) => sym::check(x.to_bits() == v.to_bits(), "a float within bounds was changed"),
        Err(BoundsError::Underflow { min: a, val: b }) => sym::check(a.to_bits() == min.to_bits() && (b.to_bits() == v.to_bits() || v != v), "the error reports other numbers"),
        Err(BoundsError::Overflow { max: a, val: b }) => sym::check(a.to_bits() == max.to_bits() && b.to_bits() == v.to_bits(), "the error reports other numbers"),
        Err(BoundsError::InvalidBounds { min: a, max: b }) => sym::check((a.to_bits() == min.to_bits() || min != min) && (b.to_bits() == max.to_bits() || max != max), "the error reports other numbers"),
        Err(_) => {}
    }
}
harnesses! {
    fn p35_i64_by_i32() { want!("ok", "under", "over", "invalid", "negative"); r!(i64, i32, i64) }
    fn p35_i32_by_i32() { want!("ok", "under", "over", "invalid", "negative"); r!(i32, i32, i64) }
    fn p35_u8_by_i32() { want!("ok", "over", "invalid"); r!(u8, i32, i64) }
    fn p35_i8_by_i32() { want!("ok", "under", "over", "invalid", "negative"); r!(i8, i32, i64) }
    fn p35_u32_by_i32() { want!("ok", "over", "invalid"); r!(u32, i32, i64) }
    fn p35_u64_by_i32() { want!("ok", "over", "invalid", "failed"); r!(u64, i32, i64) }
    fn p35_i64_by_i64() { want!("ok", "under", "over", "invalid", "negative"); r!(i64, i64, i64) }
    fn p35_u64_by_i64() { want!("ok", "over", "invalid", "failed"); r!(u64, i64, i64) }
    fn p35_i64_to_i32() { want!("ok", "under", "over", "invalid", "failed", "negative"); r!(i64, i32, i32) }
    fn p35_i64_by_i64__rel() { want!("ok", "under", "over", "invalid", "negative"); r!(i64, i64, i64) }
    fn p35_i64_to_i32__rel() { want!("ok", "under", "over", "invalid", "failed", "negative"); r!(i64, i32, i32) }
    fn p35_f64() {
        want!("ok", "under", "over", "invalid");
        let (v, min, max) = (f64::from_bits(sym::u64()), f64::from_bits(sym::u64()), f64::from_bits(sym::u64()));
        float(v, BoundsError::restrict_float(v, min, max), min, max)
    }
    fn p35_f32() {
        want!("ok", "under", "over", "invalid");
        let (v, min, max) = (f32::from_bits(sym::u32()), f64::from_bits(sym::u64()), f64::from_bits(sym::u64()));
        float(v as f64, BoundsError::restrict_float(v, min, max), min, max)
    }
}
