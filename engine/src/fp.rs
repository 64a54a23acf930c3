//! IEEE 754 arithmetic as bit-vector expressions (binary32/binary64, round to nearest even). A NaN result is the first NaN
//! operand made quiet, or the default NaN of x86; Rust leaves those bits open.
use crate::expr::*;

#[derive(Clone, Copy)]
pub struct F {
    pub wd: u16,
    pub mb: u16,
}
pub const F64: F = F { wd: 64, mb: 52 };
pub const F32: F = F { wd: 32, mb: 23 };
impl F {
    fn eb(self) -> u16 {
        self.wd - 1 - self.mb
    }
    fn bias(self) -> i32 {
        (1 << (self.eb() - 1)) - 1
    }
    fn inf(self) -> u128 {
        mask(self.eb()) << self.mb
    }
}
fn k16(v: i32) -> E {
    c(v as u128 & 0xffff, 16)
}
fn ne0(e: E) -> E {
    not(eq(e, c(0, w(e))))
}
fn shl(a: E, n: E) -> E {
    bin(Op::Shl, a, n)
}
fn shr(a: E, n: E) -> E {
    bin(Op::LShr, a, n)
}
fn mag(f: F, x: E) -> E {
    ext(x, 0, f.wd - 1)
}
fn sign(f: F, x: E) -> E {
    ext(x, f.wd - 1, 1)
}
pub fn nan(f: F, x: E) -> E {
    ult(c(f.inf(), f.wd - 1), mag(f, x))
}
fn inf(f: F, x: E) -> E {
    eq(c(f.inf(), f.wd - 1), mag(f, x))
}
fn zero(f: F, x: E) -> E {
    eq(c(0, f.wd - 1), mag(f, x))
}
fn quiet(f: F, x: E) -> E {
    or(x, c(1 << (f.mb - 1), f.wd))
}
fn default_nan(f: F) -> E {
    c((mask(f.eb() + 1) << f.mb) | 1 << (f.mb - 1), f.wd)
}
fn with_sign(s: E, m: E) -> E {
    concat(s, m)
}
/// exponent of the last mantissa bit (16 bits, signed) and mantissa of a finite number
fn unpack(f: F, x: E) -> (E, E) {
    let e = ext(x, f.mb, f.eb());
    let sub = eq(e, c(0, f.eb()));
    let m = concat(not(sub), ext(x, 0, f.mb));
    let e = ite(sub, c(1, 16), zext(e, 16));
    (add(e, k16(-f.bias() - f.mb as i32)), m)
}
/// leading one moved to the top; exponent adjusted
fn normalise(mut e: E, mut m: E) -> (E, E) {
    let wd = w(m);
    let mut k = 64;
    while k > 0 {
        if k < wd {
            let z = eq(ext(m, wd - k, k), c(0, k));
            m = ite(z, shl(m, c(k as u128, wd)), m);
            e = ite(z, add(e, k16(-(k as i32))), e);
        }
        k /= 2;
    }
    (e, m)
}
/// sig * 2^e, rounded
fn round(f: F, s: E, e: E, sig: E) -> E {
    let (mut e, mut sig) = (e, sig);
    if w(sig) < f.mb + 3 {
        let more = f.mb + 3 - w(sig);
        sig = concat(sig, c(0, more));
        e = add(e, k16(-(more as i32)));
    }
    let wd = w(sig);
    let is0 = eq(sig, c(0, wd));
    let (e, sig) = normalise(e, sig);
    let be = add(e, k16(wd as i32 - 1 + f.bias()));
    let sub = sle(be, k16(0));
    let sh = ite(sub, bin(Op::Sub, k16(1), be), k16(0));
    let sh = ite(ult(k16(wd as i32), sh), k16(wd as i32), sh);
    let n = if wd > 16 { zext(sh, wd) } else { trunc(sh, wd) };
    let low = shr(sig, n);
    let lost = not(eq(shl(low, n), sig));
    let lost = or(lost, and(eq(sh, k16(wd as i32)), ne0(sig)));
    let m = ext(low, wd - 1 - f.mb, f.mb + 1);
    let half = ext(low, wd - 2 - f.mb, 1);
    let rest = or(ne0(ext(low, 0, wd - 2 - f.mb)), lost);
    let inc = and(half, or(rest, ext(m, 0, 1)));
    let b = f.wd - 1;
    let bew = if b >= 16 { zext(be, b) } else { trunc(be, b) };
    let norm = add(bin(Op::Sub, shl(bew, c(f.mb as u128, b)), c(1 << f.mb, b)), zext(m, b));
    let body = add(ite(sub, zext(m, b), norm), zext(inc, b));
    let big = slt(k16((1 << f.eb()) - 2), be);
    let body = ite(big, c(f.inf(), b), body);
    with_sign(s, ite(is0, c(0, b), body))
}
pub fn neg(f: F, x: E) -> E {
    bin(Op::Xor, x, c(1 << (f.wd - 1), f.wd))
}
pub fn add_(f: F, x: E, y: E) -> E {
    let swap = ult(mag(f, x), mag(f, y));
    let (a, b) = (ite(swap, y, x), ite(swap, x, y));
    let ((ea, ma), (eb, mb)) = (unpack(f, a), unpack(f, b));
    // three bits below the last: guard, round, sticky
    let wd = f.mb + 5;
    let ma = concat(c(0, 1), concat(ma, c(0, 3)));
    let mb = concat(c(0, 1), concat(mb, c(0, 3)));
    let d = bin(Op::Sub, ea, eb);
    let d = ite(ult(k16(wd as i32), d), k16(wd as i32), d);
    let d = if wd > 16 { zext(d, wd) } else { trunc(d, wd) };
    let sh = shr(mb, d);
    let lost = not(eq(shl(sh, d), mb));
    let sh = or(sh, zext(lost, wd));
    let same = eq(sign(f, a), sign(f, b));
    let sum = ite(same, add(ma, sh), bin(Op::Sub, ma, sh));
    let r = round(f, sign(f, a), add(ea, k16(-3)), sum);
    // an exact zero is positive unless both operands are negative
    let r = ite(eq(sum, c(0, wd)), with_sign(and(sign(f, a), sign(f, b)), c(0, f.wd - 1)), r);
    let r = ite(inf(f, a), ite(and(inf(f, b), not(same)), default_nan(f), a), r);
    ite(nan(f, x), quiet(f, x), ite(nan(f, y), quiet(f, y), r))
}
pub fn sub_(f: F, x: E, y: E) -> E {
    ite(nan(f, y), ite(nan(f, x), quiet(f, x), quiet(f, y)), add_(f, x, neg(f, y)))
}
pub fn mul_(f: F, x: E, y: E) -> E {
    let ((ea, ma), (eb, mb)) = (unpack(f, x), unpack(f, y));
    let wd = 2 * (f.mb + 1);
    let s = bin(Op::Xor, sign(f, x), sign(f, y));
    let r = round(f, s, add(ea, eb), bin(Op::Mul, zext(ma, wd), zext(mb, wd)));
    let i = or(inf(f, x), inf(f, y));
    let z = or(zero(f, x), zero(f, y));
    let r = ite(i, ite(z, default_nan(f), with_sign(s, c(f.inf(), f.wd - 1))), r);
    ite(nan(f, x), quiet(f, x), ite(nan(f, y), quiet(f, y), r))
}
pub fn div_(f: F, x: E, y: E) -> E {
    let ((ea, ma), (eb, mb)) = (unpack(f, x), unpack(f, y));
    let ((ea, ma), (eb, mb)) = (normalise(ea, ma), normalise(eb, mb));
    let wd = 2 * (f.mb + 1) + 2;
    let s = bin(Op::Xor, sign(f, x), sign(f, y));
    let up = f.mb + 3;
    let num = shl(zext(ma, wd), c(up as u128, wd));
    let den = zext(mb, wd);
    let q = bin(Op::UDiv, num, den);
    let r = bin(Op::URem, num, den);
    let q = concat(q, ne0(r));
    let e = add(bin(Op::Sub, ea, eb), k16(-(up as i32) - 1));
    let r = round(f, s, e, q);
    let r = ite(zero(f, x), with_sign(s, c(0, f.wd - 1)), r);
    let r = ite(zero(f, y), ite(zero(f, x), default_nan(f), with_sign(s, c(f.inf(), f.wd - 1))), r);
    let r = ite(inf(f, y), ite(inf(f, x), default_nan(f), with_sign(s, c(0, f.wd - 1))), ite(inf(f, x), with_sign(s, c(f.inf(), f.wd - 1)), r));
    ite(nan(f, x), quiet(f, x), ite(nan(f, y), quiet(f, y), r))
}
pub fn of_int(f: F, x: E, signed: bool) -> E {
    let wd = w(x);
    let s = if signed { ext(x, wd - 1, 1) } else { ff() };
    let m = ite(s, bin(Op::Sub, c(0, wd), x), x);
    round(f, s, k16(0), m)
}
/// towards zero; out of range: the nearest bound, NaN: 0 (as `as` does)
pub fn to_int(f: F, x: E, wd: u16, signed: bool) -> E {
    let (e, m) = unpack(f, x);
    let m = zext(m, 128);
    let cap = |v: E| zext(ite(ult(k16(128), v), k16(128), v), 128);
    let up = shl(m, cap(e));
    let down = shr(m, cap(bin(Op::Sub, k16(0), e)));
    let v = ite(slt(e, k16(0)), down, up);
    let huge = slt(k16(127 - f.mb as i32), e);
    let s = sign(f, x);
    let (hi, lo) = if signed { (mask(wd - 1), 1u128 << (wd - 1)) } else { (mask(wd), 0) };
    let over = or(huge, ult(c(hi, 128), v));
    let under = or(huge, ult(c(lo, 128), v));
    let t = trunc(v, wd);
    let r = ite(s, ite(under, c(lo, wd), bin(Op::Sub, c(0, wd), t)), ite(over, c(hi, wd), t));
    ite(nan(f, x), c(0, wd), r)
}
pub fn convert(from: F, to: F, x: E) -> E {
    let (e, m) = unpack(from, x);
    let r = round(to, sign(from, x), e, m);
    let s = sign(from, x);
    let r = ite(inf(from, x), with_sign(s, c(to.inf(), to.wd - 1)), r);
    let frac = ext(x, 0, from.mb);
    let frac = if to.mb >= from.mb {
        if to.mb == from.mb { frac } else { concat(frac, c(0, to.mb - from.mb)) }
    } else {
        ext(frac, from.mb - to.mb, to.mb)
    };
    let q = quiet(to, concat(s, concat(c(mask(to.eb()), to.eb()), frac)));
    ite(nan(from, x), q, r)
}
pub fn trunc_(f: F, x: E) -> E {
    let e = ext(x, f.mb, f.eb());
    let small = ult(e, c(f.bias() as u128, f.eb()));
    let exact = ule(c((f.bias() + f.mb as i32) as u128, f.eb()), e);
    let n = bin(Op::Sub, c((f.bias() + f.mb as i32) as u128, f.eb()), e);
    let keep = shl(c(mask(f.wd), f.wd), zext(n, f.wd));
    ite(exact, ite(nan(f, x), quiet(f, x), x), ite(small, and(x, c(1 << (f.wd - 1), f.wd)), and(x, keep)))
}
fn one(f: F) -> E {
    c((f.bias() as u128) << f.mb, f.wd)
}
pub fn floor(f: F, x: E) -> E {
    let t = trunc_(f, x);
    ite(and(sign(f, x), not(or(eq(t, x), nan(f, x)))), sub_(f, t, one(f)), t)
}
pub fn ceil(f: F, x: E) -> E {
    let t = trunc_(f, x);
    ite(and(not(sign(f, x)), not(or(eq(t, x), nan(f, x)))), add_(f, t, one(f)), t)
}
pub fn round_away(f: F, x: E) -> E {
    let t = trunc_(f, x);
    let d = mag(f, sub_(f, x, t));
    let half = c(((f.bias() - 1) as u128) << f.mb, f.wd - 1);
    let fin = not(or(nan(f, x), inf(f, x)));
    ite(and(fin, ule(half, d)), add_(f, t, or(one(f), and(x, c(1 << (f.wd - 1), f.wd)))), t)
}
pub fn round_even(f: F, x: E) -> E {
    let big = c(((f.bias() + f.mb as i32) as u128) << f.mb, f.wd);
    let a = with_sign(ff(), mag(f, x));
    let r = sub_(f, add_(f, a, big), big);
    let r = concat(sign(f, x), mag(f, r));
    ite(ult(a, big), r, ite(nan(f, x), quiet(f, x), x))
}

#[cfg(test)]
mod test {
    use super::*;
    fn samples() -> Vec<u64> {
        let mut v = vec![];
        let mut s = 0x9E3779B97F4A7C15u64;
        let mut r = move || {
            s ^= s << 13;
            s ^= s >> 7;
            s ^= s << 17;
            s
        };
        for e in [0u64, 1, 2, 52, 53, 54, 1000, 1021, 1022, 1023, 1024, 1025, 1026, 1050, 1074, 1075, 1076, 1086, 1087, 1150, 2045, 2046, 2047] {
            for m in [0u64, 1, 2, 3, 1 << 51, (1 << 51) + 1, (1 << 52) - 1, (1 << 52) - 2, r() >> 12, r() >> 12] {
                v.push(e << 52 | m);
                v.push(1 << 63 | e << 52 | m);
            }
        }
        for _ in 0..200 {
            v.push(r());
        }
        v
    }
    fn same(a: u128, b: f64) -> bool {
        a as u64 == b.to_bits() || f64::from_bits(a as u64).is_nan() && b.is_nan()
    }
    fn same32(a: u128, b: f32) -> bool {
        a as u32 == b.to_bits() || f32::from_bits(a as u32).is_nan() && b.is_nan()
    }
    #[test]
    fn against_the_processor() {
        init();
        let v = samples();
        let k = |x: u64| c(x as u128, 64);
        for &x in &v {
            let a = f64::from_bits(x);
            for &y in &v {
                let b = f64::from_bits(y);
                for (n, g, r) in [("+", add_ as fn(F, E, E) -> E, a + b), ("-", sub_, a - b), ("*", mul_, a * b), ("/", div_, a / b)] {
                    let q = cst(g(F64, k(x), k(y))).unwrap();
                    assert!(same(q, r), "{:e} {} {:e}: {:x} {:x}", a, n, b, q, r.to_bits());
                }
                let (p, q) = (a as f32, b as f32);
                let k = |x: f32| c(x.to_bits() as u128, 32);
                for (n, g, r) in [("+", add_ as fn(F, E, E) -> E, p + q), ("-", sub_, p - q), ("*", mul_, p * q), ("/", div_, p / q)] {
                    let z = cst(g(F32, k(p), k(q))).unwrap();
                    assert!(same32(z, r), "f32 {:e} {} {:e}: {:x} {:x}", p, n, q, z, r.to_bits());
                }
            }
            for (n, g, r) in [
                ("trunc", trunc_ as fn(F, E) -> E, a.trunc()),
                ("floor", floor, a.floor()),
                ("ceil", ceil, a.ceil()),
                ("round", round_away, a.round()),
                ("even", round_even, a.round_ties_even()),
            ] {
                let q = cst(g(F64, k(x))).unwrap();
                assert!(same(q, r), "{} {:e}: {:x} {:x}", n, a, q, r.to_bits());
            }
            assert!(same32(cst(convert(F64, F32, k(x))).unwrap(), a as f32), "to f32 {:e}", a);
            let p = f32::from_bits(x as u32);
            assert!(same(cst(convert(F32, F64, c(x as u32 as u128, 32))).unwrap(), p as f64), "from f32 {:e}", p);
            assert_eq!(cst(to_int(F64, k(x), 64, true)).unwrap() as i64, a as i64, "{:e}", a);
            assert_eq!(cst(to_int(F64, k(x), 64, false)).unwrap() as u64, a as u64, "{:e}", a);
            assert_eq!(cst(to_int(F64, k(x), 8, true)).unwrap() as i8, a as i8, "{:e}", a);
            assert_eq!(cst(to_int(F64, k(x), 16, false)).unwrap() as u16, a as u16, "{:e}", a);
            assert_eq!(cst(to_int(F64, k(x), 128, true)).unwrap() as i128, a as i128, "{:e}", a);
            assert_eq!(cst(to_int(F64, k(x), 128, false)).unwrap(), a as u128, "{:e}", a);
            assert!(same(cst(of_int(F64, k(x), true)).unwrap(), x as i64 as f64));
            assert!(same(cst(of_int(F64, k(x), false)).unwrap(), x as f64));
            assert!(same(cst(of_int(F64, c(x as u128 & 0xffff, 16), true)).unwrap(), x as i16 as f64));
            assert!(same32(cst(of_int(F32, k(x), true)).unwrap(), x as i64 as f32));
        }
    }
}
