//! The number types convert, coerce and print by value.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint, Sign};
use std::convert::TryFrom;
use tedium::{RangedInt, N, Z};

/// a natural number with up to `words` 32-bit digits and its low 64 bits, and whether more are set
#[inline(never)]
fn digits(words: usize) -> Vec<u32> {
    let mut v = Vec::with_capacity(words);
    for _ in 0..words {
        v.push(sym::u32());
    }
    if words > 0 {
        sym::assume(v[words - 1] != 0);
    }
    v
}
fn low(d: &[u32]) -> u64 {
    let mut x = 0u64;
    if d.len() > 0 {
        x |= d[0] as u64;
    }
    if d.len() > 1 {
        x |= (d[1] as u64) << 32;
    }
    x
}
macro_rules! nat {
    ($t:ty, $d:expr) => {{
        let n = N(BigUint::new($d.clone()));
        let x = low(&$d);
        let fits = $d.len() <= 2 && x <= <$t>::MAX as u64;
        match <$t>::try_from(n) {
            Ok(y) => {
                sym::cover("converted");
                sym::check(fits, "a natural number was converted into a type it does not fit");
                sym::check(y as u64 == x, "a natural number changed value");
            }
            Err(_) => {
                sym::cover("refused");
                sym::check(!fits, "a natural number was refused by a type it fits");
            }
        }
    }};
}
macro_rules! int {
    ($t:ty, $d:expr, $neg:expr) => {{
        let z = Z(BigInt::new(if $neg { Sign::Minus } else { Sign::Plus }, $d.clone()));
        let x = low(&$d);
        let m = <$t>::MAX as u64;
        // the most negative magnitude
        let low_m = if <$t>::MIN == 0 { 0 } else { m + 1 };
        let fits = $d.len() <= 2 && if $neg { x <= low_m } else { x <= m };
        match <$t>::try_from(z) {
            Ok(y) => {
                sym::cover("converted");
                sym::check(fits, "an integer was converted into a type it does not fit");
                sym::check(y as i64 as u64 == if $neg { x.wrapping_neg() } else { x }, "an integer changed value");
            }
            Err(_) => {
                sym::cover("refused");
                sym::check(!fits, "an integer was refused by a type it fits");
            }
        }
    }};
}
fn nats() {
    want!("converted", "refused");
    let d = digits(sym::upto(4));
    match sym::upto(3) {
        0 => nat!(u8, d),
        1 => nat!(u16, d),
        2 => nat!(u32, d),
        _ => nat!(u64, d),
    }
}
fn ints() {
    want!("converted", "refused");
    let d = digits(sym::upto(4));
    let neg = sym::split(sym::upto(1)) == 1;
    match sym::upto(7) {
        0 => int!(u8, d, neg),
        1 => int!(u16, d, neg),
        2 => int!(u32, d, neg),
        3 => int!(u64, d, neg),
        4 => int!(i8, d, neg),
        5 => int!(i16, d, neg),
        6 => int!(i32, d, neg),
        _ => int!(i64, d, neg),
    }
}
fn held() {
    let d = digits(sym::upto(4));
    let neg = sym::split(sym::upto(1)) == 1;
    let b = BigUint::new(d.clone());
    let i = BigInt::new(if neg { Sign::Minus } else { Sign::Plus }, d);
    let n = match sym::upto(2) {
        0 => N::new(b.clone()),
        1 => N::from(b.clone()),
        _ => N(b.clone()).clone(),
    };
    let z = match sym::upto(2) {
        0 => Z::new(i.clone()),
        1 => Z(i.clone()),
        _ => Z::new(i.clone()).clone(),
    };
    match sym::upto(3) {
        0 => {
            sym::check(*n.as_inner() == b, "the natural number held is another");
            sym::check(*z.as_inner() == i, "the integer held is another");
        }
        1 => {
            sym::check(*n == b && n.bits() == b.bits(), "the natural number reached is another");
            sym::check(*z == i && z.bits() == i.bits() && z.sign() == i.sign(), "the integer reached is another");
        }
        2 => {
            sym::check(n.into_inner() == b, "the natural number taken out is another");
            sym::check(z.into_inner() == i, "the integer taken out is another");
        }
        _ => {
            sym::check(BigUint::from(n) == b, "the natural number converted is another");
            sym::check(BigInt::from(z) == i, "the integer converted is another");
        }
    }
}
/// the digits of `t` from `at` spell `x` in decimal, without leading zeros
fn spells(t: &[u8], at: usize, x: u32) -> bool {
    let mut y = 0u32;
    let mut ok = t.len() > at && (t.len() == at + 1 || t[at] != b'0');
    for i in at..t.len() {
        ok &= t[i] >= b'0' && t[i] <= b'9';
        y = y.wrapping_mul(10).wrapping_add((t[i].wrapping_sub(b'0')) as u32);
    }
    ok && y == x
}
fn printed(neg: bool) {
    let x = sym::u8() as u32;
    if neg {
        sym::assume(x != 0);
        let t = format!("{}", Z(BigInt::new(Sign::Minus, vec![x])));
        sym::check(t.as_bytes()[0] == b'-' && spells(t.as_bytes(), 1, x), "a negative integer is printed as another number");
    } else if sym::upto(1) == 0 {
        let t = format!("{}", Z(BigInt::new(Sign::Plus, vec![x])));
        sym::check(spells(t.as_bytes(), 0, x), "an integer is printed as another number");
    } else {
        let t = format!("{}", N(BigUint::new(vec![x])));
        sym::check(spells(t.as_bytes(), 0, x), "a natural number is printed as another number");
    }
}
fn shown() {
    let x = (sym::u8() & 0x7f) as u32;
    match sym::upto(2) {
        0 => {
            let t = format!("{:?}", N(BigUint::new(vec![x])));
            let t = t.as_bytes();
            let k = "\u{2115}(".len();
            sym::check(t.len() > k + 1 && same(&t[..k], "\u{2115}(".as_bytes()) && t[t.len() - 1] == b')' && spells(&t[..t.len() - 1], k, x), "a natural number is shown as another number");
        }
        1 => {
            let t = format!("{:?}", Z(BigInt::new(Sign::Plus, vec![x])));
            let t = t.as_bytes();
            let k = "\u{2124}(".len();
            sym::check(t.len() > k + 1 && same(&t[..k], "\u{2124}(".as_bytes()) && t[t.len() - 1] == b')' && spells(&t[..t.len() - 1], k, x), "an integer is shown as another number");
        }
        _ => {
            // width, sign and fill are honoured as for the number itself
            let n = BigUint::new(vec![x]);
            let z = BigInt::new(Sign::Minus, vec![x]);
            let (a, b) = match sym::upto(3) {
                0 => (format!("{:>6}|{:+}", N(n.clone()), Z(z.clone())), format!("{:>6}|{:+}", n, z)),
                1 => (format!("{:06}|{:<7}", N(n.clone()), Z(z.clone())), format!("{:06}|{:<7}", n, z)),
                2 => (format!("{:*^9}|{:08}", N(n.clone()), Z(z.clone())), format!("{:*^9}|{:08}", n, z)),
                _ => (format!("{:+}|{:#}", N(n.clone()), Z(z.clone())), format!("{:+}|{:#}", n, z)),
            };
            sym::check(same(a.as_bytes(), b.as_bytes()), "a number is laid out differently from its value");
        }
    }
}
/// numbers beyond one machine word, as their digits
fn printed_wide() {
    let (d, t): (Vec<u32>, &str) = match sym::upto(4) {
        0 => (vec![0, 0, 1], "18446744073709551616"),
        1 => (vec![u32::MAX, u32::MAX, u32::MAX, u32::MAX], "340282366920938463463374607431768211455"),
        2 => (vec![0xeb1f0ad2, 0xab54a98c, 0], "12345678901234567890"),
        3 => (vec![0, 1], "4294967296"),
        _ => (vec![1000000000], "1000000000"),
    };
    let m = format!("-{}", t);
    sym::check(same(format!("{}", N(BigUint::new(d.clone()))).as_bytes(), t.as_bytes()), "a natural number is printed as another number");
    sym::check(same(format!("{}", Z(BigInt::new(Sign::Plus, d.clone()))).as_bytes(), t.as_bytes()), "an integer is printed as another number");
    sym::check(same(format!("{}", Z(BigInt::new(Sign::Minus, d.clone()))).as_bytes(), m.as_bytes()), "a negative integer is printed as another number");
    let s = format!("\u{2124}({})", m);
    sym::check(same(format!("{:?}", Z(BigInt::new(Sign::Minus, d))).as_bytes(), s.as_bytes()), "a negative integer is shown as another number");
}
/// a restricted integer in the bases it can be shown in, against the plain integer
macro_rules! based {
    ($i:ty, $t:ident, $x:expr) => {{
        let x: $t = $x;
        match <RangedInt<$t, { <$i>::LO }, { <$i>::HI }>>::try_from(x) {
            Err(_) => (),
            Ok(r) => {
                sym::cover("held");
                let v = x as i32;
                let (a, b) = match sym::upto(7) {
                    0 => (format!("{:b}", r), format!("{:b}", v)),
                    1 => (format!("{:o}", r), format!("{:o}", v)),
                    2 => (format!("{:x}", r), format!("{:x}", v)),
                    3 => (format!("{:X}", r), format!("{:X}", v)),
                    4 => (format!("{:#x}", r), format!("{:#x}", v)),
                    5 => (format!("{:010X}", r), format!("{:010X}", v)),
                    6 => (format!("{:#o}", r), format!("{:#o}", v)),
                    _ => (format!("{:>12x}", r), format!("{:>12x}", v)),
                };
                sym::check(same(a.as_bytes(), b.as_bytes()), "a restricted integer is shown as another number");
            }
        }
    }};
}
struct A;
impl A {
    const LO: i32 = -20;
    const HI: i32 = 100;
}
struct B;
impl B {
    const LO: i32 = 10;
    const HI: i32 = 70000;
}
struct C;
impl C {
    const LO: i32 = 100;
    const HI: i32 = 300;
}
fn bases() {
    want!("held");
    match sym::upto(2) {
        0 => based!(A, i8, sym::u8() as i8),
        1 => based!(B, i32, match sym::upto(5) { 0 => 10, 1 => 11, 2 => 255, 3 => 4095, 4 => 65536, _ => 70000 }),
        _ => based!(C, i16, 90 + sym::u8() as i16),
    }
}
/// a constant type parameter is a number in its own right
fn unrestricted() {
    want!("held");
    struct D;
    impl D {
        const LO: i32 = -70;
        const HI: i32 = 127;
    }
    based!(D, i8, sym::u8() as i8)
}
harnesses! {
    fn p41_nats() { nats() }
    fn p41_ints() { ints() }
    fn p41_held() { held() }
    fn p41_printed() { printed(false) }
    fn p41_printed_negative() { printed(true) }
    fn p41_printed_wide() { printed_wide() }
    fn p41_shown() { shown() }
    fn p41_bases() { bases() }
    fn p41_bases_wide() { unrestricted() }
    fn p41_nats__rel() { nats() }
    fn p41_ints__rel() { ints() }
}
