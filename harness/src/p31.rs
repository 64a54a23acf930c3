//! Wrapping does not change how values compare, order and hash.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::fmt::Debug;
use std::hash::Hash;
use std::iter::FromIterator;
use tedium::*;

#[inline(never)]
fn partial<W: PartialEq + PartialOrd + Clone, C: PartialEq + PartialOrd>(wa: &W, wb: &W, a: &C, b: &C) {
    sym::check((*wa == *wb) == (*a == *b), "wrapped values are equal when their contents are not, or the other way round");
    sym::check((*wa != *wb) == (*a != *b), "`!=` disagrees with the contents");
    sym::check(wa.partial_cmp(wb) == a.partial_cmp(b), "wrapped values order unlike their contents");
    sym::check((*wa < *wb) == (*a < *b) && (*wa >= *wb) == (*a >= *b), "`<` or `>=` disagrees with the contents");
    sym::check(wa.clone() == *wa || *a != *a, "a clone differs");
}
#[inline(never)]
fn total<W: Eq + Ord + Clone + Hash, C: Eq + Ord + Hash>(wa: &W, wb: &W, a: &C, b: &C) {
    partial(wa, wb, a, b);
    sym::check(wa.cmp(wb) == a.cmp(b), "wrapped values order unlike their contents");
    hash(wa, wb);
}
#[inline(never)]
fn hash<W: PartialEq + Hash>(wa: &W, wb: &W) {
    if *wa == *wb {
        sym::cover("equal");
        sym::check(same(&hashed(wa), &hashed(wb)), "equal values hash differently");
    } else {
        sym::cover("different");
    }
}
/// for types that lend their contents (`Borrow`): the hash is that of the contents
#[inline(never)]
fn lends<B: Eq + Ord + Hash + ?Sized, W: Eq + Ord + Hash + std::borrow::Borrow<B>>(w: &W, v: &W, c: &B, d: &B) {
    sym::check(same(&hashed(w), &hashed_ref(c)), "a value hashes unlike the contents it lends");
    let (x, y): (&B, &B) = (w.borrow(), v.borrow());
    sym::check(*x == *c, "the lent contents differ");
    sym::check((*w == *v) == (*x == *y), "values are equal when the contents they lend are not, or the other way round");
    sym::check(w.cmp(v) == x.cmp(y), "values order unlike the contents they lend");
    sym::check(w.cmp(v) == c.cmp(d), "values order unlike the contents they lend");
}
fn hashed_ref<B: Hash + ?Sized>(b: &B) -> Vec<u8> {
    hashed(&b)
}
fn elems(n: usize) -> Vec<u8> {
    sym::vec(sym::upto(n))
}
fn opt() -> Option<u16> {
    if sym::upto(1) == 1 { Some(sym::u16()) } else { None }
}
cstyle!(Color, u16, { Red = 1, Green = 300, Blue = 65535 });
data!(Shape, u8, shape, { 200 => Nothing, 7 => Dot(pub u8, pub i16), 0 => Blob { pub len: u8 }, 90 => Run(pub u8) });
fn shape(k: usize) -> Shape {
    match k {
        0 => Shape::Nothing(shape::Nothing),
        1 => Shape::Dot(shape::Dot(sym::u8(), sym::i16())),
        2 => Shape::Blob(shape::Blob { len: sym::u8() }),
        _ => Shape::Run(shape::Run(sym::u8())),
    }
}
fn wrappers() {
    want!("equal", "different");
    let (a, b) = (sym::i16(), sym::i16());
    match sym::upto(6) {
        0 => {
            let (x, y) = (Dynamic::<u8, i16>::new(a), Dynamic::<u8, i16>::new(b));
            total(&x, &y, &a, &b);
            lends::<i16, _>(&x, &y, &a, &b)
        }
        1 => total(&Padded::<i16, 3>::new(a), &Padded::<i16, 3>::new(b), &a, &b),
        2 => total(&VPadded::<i16, 3>::new(a), &VPadded::<i16, 3>::new(b), &a, &b),
        3 => total(&AutoBox::new(a), &AutoBox::new(b), &a, &b),
        4 => {
            let (a, b) = (opt(), opt());
            total(&Nullable::<u16>::from(a), &Nullable::<u16>::from(b), &a, &b)
        }
        5 => {
            let (x, y) = (Dynamic::<u16, Padded<i16, 1>>::new(Padded::new(a)), Dynamic::<u16, Padded<i16, 1>>::new(Padded::new(b)));
            total(&x, &y, &a, &b)
        }
        _ => {
            let (a, b) = (f64::from_bits(sym::u64()), f64::from_bits(sym::u64()));
            match sym::upto(2) {
                0 => partial(&Dynamic::<u8, f64>::new(a), &Dynamic::<u8, f64>::new(b), &a, &b),
                1 => partial(&AutoBox::new(a), &AutoBox::new(b), &a, &b),
                _ => partial(&Padded::<f64, 1>::new(a), &Padded::<f64, 1>::new(b), &a, &b),
            }
        }
    }
}
fn numbers() {
    want!("equal", "different");
    match sym::upto(6) {
        0 => {
            let (a, b) = (sym::u32() & 0x3fff_ffff, sym::u32() & 0x3fff_ffff);
            total(&u30::from_underlying(a), &u30::from_underlying(b), &a, &b)
        }
        1 => {
            let (a, b) = (sym::i32() >> 1, sym::i32() >> 1);
            total(&i31::from_underlying(a), &i31::from_underlying(b), &a, &b)
        }
        2 => {
            // stored as an offset, compared as numbers
            let (a, b) = (300 + (sym::u8() & 15) as i32, 300 + (sym::u8() & 15) as i32);
            total(&RangedInt::<u8, 300, 315>::from_i32(a), &RangedInt::<u8, 300, 315>::from_i32(b), &a, &b)
        }
        3 => {
            let (a, b) = ((sym::i8() >> 3) as i32, (sym::i8() >> 3) as i32);
            total(&RangedInt::<i8, { -16 }, 15>::from_i32(a), &RangedInt::<i8, { -16 }, 15>::from_i32(b), &a, &b)
        }
        4 => {
            let (a, b) = (sym::u16(), sym::u16());
            total(&N(BigUint::from(a)), &N(BigUint::from(b)), &a, &b)
        }
        5 => {
            let (a, b) = (sym::i16(), sym::i16());
            total(&Z(BigInt::from(a)), &Z(BigInt::from(b)), &a, &b)
        }
        _ => {
            let (a, b) = (f64::from_bits(sym::u64()), f64::from_bits(sym::u64()));
            const HI: u64 = 0x7fefffffffffffff;
            const LO: u64 = 0xffefffffffffffff;
            let (x, y) = unsafe { (RangedFloat::<LO, HI>::from_f64_unchecked(a), RangedFloat::<LO, HI>::from_f64_unchecked(b)) };
            partial(&x, &y, &a, &b)
        }
    }
}
fn byte_strings() {
    want!("equal", "different");
    let (a, b) = (elems(3), elems(3));
    match sym::upto(3) {
        0 => total(&Bytes::from_vec(a.clone()), &Bytes::from_vec(b.clone()), &a, &b),
        1 => total(&HexString::from_vec(a.clone()), &HexString::from_vec(b.clone()), &a, &b),
        2 => {
            let (a, b) = (sym::bytes::<3>(), sym::bytes::<3>());
            let (x, y) = (FixedBytes::<3>::from_array(a), FixedBytes::<3>::from_array(b));
            total(&x, &y, &a, &b);
            lends::<[u8], _>(&x, &y, &a, &b);
            lends::<[u8; 3], _>(&x, &y, &a, &b);
        }
        _ => {
            let (x, y) = (Dynamic::<u8, Bytes>::new(Bytes::from_vec(a.clone())), Dynamic::<u8, Bytes>::new(Bytes::from_vec(b.clone())));
            total(&x, &y, &a, &b);
            lends::<Bytes, _>(&x, &y, &Bytes::from_vec(a), &Bytes::from_vec(b))
        }
    }
}
fn sequences() {
    want!("equal", "different");
    let (a, b) = (elems(3), elems(3));
    match sym::upto(2) {
        0 => total(&Sequence::from_vec(a.clone()), &Sequence::from_vec(b.clone()), &a, &b),
        1 => total(&LimSeq::<u8, 3>::from_vec(a.clone()), &LimSeq::<u8, 3>::from_vec(b.clone()), &a, &b),
        _ => {
            let (x, y) = (FixSeq::<u8, 3>::try_from(a.clone()).unwrap(), FixSeq::<u8, 3>::try_from(b.clone()).unwrap());
            partial(&x, &y, &a, &b);
            hash(&x, &y)
        }
    }
}
fn adts() {
    want!("equal", "different");
    if sym::upto(1) == 0 {
        let f = |k| match k { 0 => Color::Red, 1 => Color::Green, _ => Color::Blue };
        let (a, b) = (f(sym::upto(2)), f(sym::upto(2)));
        total(&a, &b, &a.get_tagval(), &b.get_tagval())
    } else {
        let (i, j) = (sym::upto(3), sym::upto(3));
        let (a, b) = (shape(i), shape(j));
        hash(&a, &b);
        sym::check((a == b) == same(&a.to_bytes(), &b.to_bytes()), "variants are equal when their encodings are not, or the other way round");
        if i != j {
            sym::check((a < b) == (i < j), "variants do not order by declaration");
            sym::check(a != b, "different variants are equal");
            sym::check(a.partial_cmp(&b) == Some(i.cmp(&j)), "variants do not order by declaration");
        } else {
            let o = match (&a, &b) {
                (Shape::Dot(x), Shape::Dot(y)) => (x.0, x.1).cmp(&(y.0, y.1)),
                (Shape::Blob(x), Shape::Blob(y)) => x.len.cmp(&y.len),
                (Shape::Run(x), Shape::Run(y)) => x.0.cmp(&y.0),
                _ => std::cmp::Ordering::Equal,
            };
            sym::check(a.partial_cmp(&b) == Some(o), "values of one variant do not order as their contents");
        }
    }
}
/// a difference at the far end counts too
fn pair(n: usize) -> (Vec<u8>, Vec<u8>) {
    let mut a = Vec::with_capacity(n + 1);
    for i in 0..n {
        a.push((i * 37 + 11) as u8);
    }
    let mut b = a.clone();
    match sym::upto(3) {
        0 => { let i = edge(n - 1); a[i] = sym::u8(); b[i] = sym::u8(); }
        1 => { a[n - 1] = sym::u8(); b[n - 1] = sym::u8(); a[0] = sym::u8(); b[0] = sym::u8(); }
        2 => b.push(sym::u8()),
        _ => { a.pop(); }
    }
    (a, b)
}
fn far_size() -> usize {
    match sym::upto(4) { 0 => 9, 1 => 17, 2 => 33, 3 => 65, _ => 260 }
}
fn far() {
    want!("equal", "different");
    let (a, b) = pair(far_size());
    match sym::upto(5) {
        0 => total(&Bytes::from_vec(a.clone()), &Bytes::from_vec(b.clone()), &a, &b),
        1 => total(&HexString::from_vec(a.clone()), &HexString::from_vec(b.clone()), &a, &b),
        2 => total(&Sequence::from_vec(a.clone()), &Sequence::from_vec(b.clone()), &a, &b),
        3 => total(&LimSeq::<u8, 300>::from_vec(a.clone()), &LimSeq::<u8, 300>::from_vec(b.clone()), &a, &b),
        4 => {
            let (x, y) = (FixSeq::<u8, 300>::try_from(a.clone()).unwrap(), FixSeq::<u8, 300>::try_from(b.clone()).unwrap());
            partial(&x, &y, &a, &b);
            hash(&x, &y)
        }
        _ => {
            let (x, y) = (Dynamic::<u16, Bytes>::new(Bytes::from_vec(a.clone())), Dynamic::<u16, Bytes>::new(Bytes::from_vec(b.clone())));
            total(&x, &y, &a, &b);
            lends::<Bytes, _>(&x, &y, &Bytes::from_vec(a), &Bytes::from_vec(b))
        }
    }
}
fn far_fixed<const K: usize>() {
    want!("equal", "different");
    let mut a = [0u8; K];
    for i in 0..K {
        a[i] = (i * 37 + 11) as u8;
    }
    let mut b = a;
    let i = edge(K - 1);
    a[i] = sym::u8();
    b[i] = sym::u8();
    let j = edge(K - 1);
    a[j] = sym::u8();
    b[j] = sym::u8();
    let (x, y) = (FixedBytes::<K>::from_array(a), FixedBytes::<K>::from_array(b));
    total(&x, &y, &a, &b);
    lends::<[u8], _>(&x, &y, &a, &b);
    lends::<[u8; K], _>(&x, &y, &a, &b);
}
/// a value against itself, not a copy: no better than its contents
fn itself() {
    let a = f64::from_bits(sym::u64());
    fn it<W: PartialEq + PartialOrd + Clone, C: PartialEq + PartialOrd>(w: W, c: C) {
        partial(&w, &w, &c, &c)
    }
    match sym::upto(8) {
        0 => it(Dynamic::<u8, f64>::new(a), a),
        1 => it(AutoBox::new(a), a),
        2 => it(Padded::<f64, 1>::new(a), a),
        3 => it(VPadded::<f64, 1>::new(a), a),
        4 => it(Nullable::<f64>::from(Some(a)), a),
        5 => it(Sequence::from_vec(vec![1.0, a]), a),
        6 => it(LimSeq::<f64, 3>::from_vec(vec![1.0, a]), a),
        7 => it(FixSeq::<f64, 2>::from_iter([1.0, a]), a),
        _ => it(unsafe { RangedFloat::<{ (-8.0f64).to_bits() }, { 8.0f64.to_bits() }>::from_f64_unchecked(a) }, a),
    }
}
harnesses! {
    fn p31_itself() { itself() }
    fn p31_itself__avf() { itself() }
    fn p31_wrappers() { wrappers() }
    fn p31_numbers() { numbers() }
    fn p31_byte_strings() { byte_strings() }
    fn p31_sequences() { sequences() }
    fn p31_sequences__avf() { sequences() }
    fn p31_adts() { adts() }
    fn p31_far() { far() }
    fn p31_far__avf() { far() }
    fn p31_far_fixed20() { far_fixed::<20>() }
    fn p31_far_fixed64() { far_fixed::<64>() }
}
