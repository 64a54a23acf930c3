//! Range-restricted floats: exactly the numbers between the bounds, bit for bit; never NaN.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::TryFrom;
use tedium::*;

fn nan(b: u64) -> bool {
    b & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000
}
/// IEEE order as an integer: both zeros map to 0
fn key(b: u64) -> i64 {
    let m = (b & 0x7fff_ffff_ffff_ffff) as i64;
    if b >> 63 == 1 {
        -m
    } else {
        m
    }
}
fn inside(b: u64, min: u64, max: u64) -> bool {
    !nan(b) & (key(b) >= key(min)) & (key(b) <= key(max))
}
macro_rules! ranged {
    ($min:expr, $max:expr) => {{
        const LO: f64 = $min;
        const HI: f64 = $max;
        type R = RangedFloat<{ unsafe { std::mem::transmute::<f64, u64>($min) } }, { unsafe { std::mem::transmute::<f64, u64>($max) } }>;
        want!("decoded", "refused", "too short");
        let (lo, hi) = (LO.to_bits(), HI.to_bits());
        sym::check(<R as FixedLength>::LEN == 8, "declared width is not 8");
        let b = sym::vec(sym::upto(9));
        let (r, left) = parse::<R>(&b);
        match r {
            Ok(x) => {
                sym::cover("decoded");
                sym::check(b.len() >= 8, "decoded from too few bytes");
                sym::check(left == b.len() - 8, "did not consume 8 bytes");
                let raw = be(&b[..8]);
                sym::check(inside(raw, lo, hi), "an out-of-range number was decoded");
                sym::check(x.as_f64().to_bits() == raw, "decoded bits differ");
                sym::check(same(&enc(&x), &b[..8]), "re-encoding differs from the bytes decoded");
                sym::check(f64::from(x).to_bits() == raw, "extracted bits differ");
                sym::check(matches!(x.get_validated(), Ok(v) if v.to_bits() == raw), "a decoded value does not validate");
            }
            Err(_) => {
                if b.len() >= 8 {
                    sym::cover("refused");
                    sym::check(!inside(be(&b[..8]), lo, hi), "an in-range number was refused");
                } else {
                    sym::cover("too short");
                }
            }
        }
        let raw = sym::u64();
        let v = f64::from_bits(raw);
        let ok = inside(raw, lo, hi);
        match sym::upto(3) {
            0 => {
                let r = R::try_from_f64(v);
                sym::check(r.is_ok() == ok, "construction does not follow the range");
                if let Ok(x) = r {
                    sym::check(x.as_f64().to_bits() == raw, "construction changed the bits");
                    sym::check(same(&enc(&x), &to_be(raw, 8)), "encoding is not the IEEE bits");
                }
            }
            1 => {
                let r = R::try_from(v);
                sym::check(r.is_ok() == ok, "conversion does not follow the range");
                if let Ok(x) = r {
                    sym::check(x.as_f64().to_bits() == raw, "conversion changed the bits");
                }
            }
            2 => {
                sym::panic_ok(!ok);
                let x = R::from_f64(v);
                sym::check(ok, "an out-of-range number was constructed");
                sym::check(x.as_f64().to_bits() == raw, "construction changed the bits");
            }
            _ => {
                let x = unsafe { R::from_f64_unchecked(v) };
                sym::check(x.get_validated().is_ok() == ok, "validation does not follow the range");
                sym::check(R::prevalidate_f64(v).is_ok() == ok, "validation does not follow the range");
            }
        }
        sym::check(R::MIN.as_f64().to_bits() == lo && R::MAX.as_f64().to_bits() == hi, "extreme values are not the bounds");
        let d = R::default().as_f64().to_bits();
        sym::check(inside(d, lo, hi), "the default is out of range");
        sym::check(key(d) == if key(lo) > 0 { key(lo) } else if key(hi) < 0 { key(hi) } else { 0 }, "the default is not the number closest to zero");
    }};
}
macro_rules! single {
    ($min:expr, $max:expr) => {{
        const LO: f64 = $min;
        const HI: f64 = $max;
        type R = RangedFloat<{ unsafe { std::mem::transmute::<f64, u64>($min) } }, { unsafe { std::mem::transmute::<f64, u64>($max) } }>;
        want!("in", "out");
        let x = f32::from_bits(sym::u32());
        let wide = x as f64;
        let r = R::try_from(x);
        let ok = !nan(wide.to_bits()) & inside(wide.to_bits(), LO.to_bits(), HI.to_bits());
        sym::check(r.is_ok() == ok, "conversion of a single-precision number does not follow the range");
        sym::check(R::prevalidate_f32(x).is_ok() == ok, "validation of a single-precision number does not follow the range");
        match r {
            Ok(v) => {
                sym::cover("in");
                sym::check(v.as_f64().to_bits() == wide.to_bits(), "conversion of a single-precision number changed it")
            }
            Err(_) => sym::cover("out"),
        }
    }};
}
/// bounds written as floats: a bound survives the way into a const generic and back
fn bounds() {
    let raw = sym::u64();
    let v = f64::from_bits(raw);
    sym::check(tedium::float::to_const_generic(v) == raw, "a bound is not passed on as its bits");
    sym::check(tedium::float::from_const_generic(raw).to_bits() == raw, "a bound does not come back as it was given");
    type R = RangedF64!(-1.5, 2.25);
    let ok = inside(raw, (-1.5f64).to_bits(), 2.25f64.to_bits());
    sym::check(R::MIN_F64 == -1.5 && R::MAX_F64 == 2.25, "the bounds are not those written");
    sym::check(R::try_from_f64(v).is_ok() == ok, "construction does not follow the range");
}
harnesses! {
    fn p04_bounds() { bounds() }
    fn p04_unit() { ranged!(0.0, 1.0) }
    fn p04_mixed() { ranged!(-1.5, 2.25) }
    fn p04_negative() { ranged!(-1.0e300, -0.1) }
    fn p04_positive() { ranged!(1.0e-300, 3.0) }
    fn p04_unbounded() { ranged!(f64::NEG_INFINITY, f64::INFINITY) }
    fn p04_zero() { ranged!(0.0, 0.0) }
    fn p04_neg_zero() { ranged!(-0.0, 0.0) }
    fn p04_half_line() { ranged!(0.0, f64::INFINITY) }
    fn p04_mixed__rel() { ranged!(-1.5, 2.25) }
    fn p04_single() { single!(-1.5, 2.25) }
    fn p04_single_unit() { single!(0.0, 0.1) }
}
