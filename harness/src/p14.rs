//! One length: the estimate, the counting run, the value returned by writing and the bytes written agree.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint, Sign};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

#[inline(never)]
fn agree<T: Encode + Estimable>(x: &T) {
    let mut v: Vec<u8> = Vec::new();
    let n = x.write_to(&mut v);
    sym::check(n == v.len(), "the count returned is not the number of bytes written");
    sym::check(x.enc_len() == v.len(), "enc_len is not the number of bytes written");
    sym::check(x.estimate() == v.len(), "the estimate is not the number of bytes written");
    if let Some(k) = T::KNOWN {
        sym::check(k == v.len(), "the statically known length is not the number of bytes written");
        sym::cover("known");
    } else {
        sym::cover("dynamic");
    }
    sym::check(x.unknown() == v.len(), "the dynamic estimate is not the number of bytes written");
    sym::check(x.write_to(&mut std::io::sink()) == v.len(), "the counting target counts differently");
    sym::check(same(&x.to_bytes(), &v), "to_bytes differs");
    sym::check(same(&x.to_bytes_full(), &v), "to_bytes_full differs");
}
/// a type declared to have a fixed length has it for every value
fn fixed<T: Encode + Estimable + FixedLength>(x: &T) {
    sym::check(T::KNOWN == Some(T::LEN), "the declared length is not the known one");
    agree(x);
    sym::check(x.estimate() == T::LEN, "the estimate is not the declared length");
}
fn bytes(max: usize) -> Bytes {
    Bytes::from_vec(sym::vec(sym::upto(max)))
}
fn dynb(max: usize) -> Dynamic<u8, Bytes> {
    Dynamic::new(bytes(max))
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if sym::split(sym::upto(1)) == 1 {
        Some(f())
    } else {
        None
    }
}
fn nat(k: usize) -> N {
    N(BigUint::from(sym::u64() >> (64 - k)))
}
fn int(k: usize) -> Z {
    Z(BigInt::from_biguint(if sym::bool() { Sign::Minus } else { Sign::Plus }, BigUint::from(sym::u64() >> (64 - k))))
}
fn vec_of<T>(max: usize, f: impl Fn() -> T) -> Vec<T> {
    let n = sym::upto(max);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f());
    }
    v
}
#[derive(Encode, Decode, Estimable)]
struct Wrap(u16);
#[derive(Encode, Decode, Estimable)]
struct WrapDyn(Dynamic<u16, Bytes>);
#[derive(Encode, Decode, Estimable)]
struct Pair(u8, u32);
#[derive(Encode, Decode, Estimable)]
struct Fixed {
    a: u8,
    b: FixedBytes<3>,
    c: FixSeq<u16, 2>,
    d: bool,
    e: RangedInt<u8, 0, 9>,
    f: Padded<u16, 2>,
    g: Nullable<()>,
    h: Option<()>,
}
#[derive(Encode, Decode, Estimable)]
struct Mixed {
    a: u8,
    b: FixSeq<u16, 2>,
    c: Option<u16>,
    d: Dynamic<u8, Bytes>,
    e: N,
    f: Dynamic<u16, u32>,
    g: Padded<u16, 2>,
    h: Option<()>,
    i: AutoBox<u16>,
}
#[derive(Encode, Decode, Estimable)]
struct Tail(u16, Bytes);
#[derive(Encode, Decode, Estimable)]
struct Tuple(Option<u8>, Z, Dynamic<u8, LimSeq<u16, 3>>);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq, PartialOrd, Hash)]
struct Unit;
/// every field may come to no bytes at all
#[derive(Encode, Estimable)]
struct Loose {
    a: Bytes,
    b: Nullable<u16>,
    c: Sequence<u8>,
    d: FixedBytes<0>,
    e: LimSeq<u16, 2>,
    f: (),
}
/// the same without names
#[derive(Encode, Estimable)]
struct Bare(Nullable<Bytes>, FixSeq<u16, 0>, Vec<u8>, String, Unit);
/// one of a record inside another
#[derive(Encode, Estimable)]
struct Nest {
    a: Loose,
    b: Nullable<Unit>,
    c: Bare,
    d: AutoBox<Tail>,
}
#[derive(Encode, FixedLength)]
struct Flat {
    a: u16,
    b: bool,
    c: i64,
}
#[derive(Encode, FixedLength)]
struct Flat2(u8, f64, Inner);
#[derive(Encode, FixedLength)]
struct Inner(i16);
#[derive(Encode, FixedLength)]
struct Flat0;
/// arrays have a declared length but write nothing by themselves
#[derive(FixedLength)]
struct Grid {
    a: [u16; 3],
    b: [(); 3],
    c: [[Inner; 2]; 2],
    d: [bool; 0],
}
impl Encode for Grid {
    fn write_to<U: Target>(&self, buf: &mut U) -> usize {
        let mut n = 0;
        for x in &self.a { n += x.write_to(buf); }
        for x in &self.b { n += x.write_to(buf); }
        for x in self.c.iter().flatten() { n += x.write_to(buf); }
        for x in &self.d { n += x.write_to(buf); }
        n + buf.resolve_zero()
    }
}
cstyle!(Color, u16, { Red = 1, Green = 300, Blue = 65535 });
data!(Shape, u8, shape, {
    0 => Nothing,
    1 => Dot(pub u8, pub u16),
    2 => Blob { pub len: u8, pub data: Dynamic<u8, Bytes> },
    9 => Num(pub N),
});
data!(Mark, u16, mark, {
    3 => Nothing,
    258 => Dot(pub u8, pub u16),
    65535 => Blob { pub len: u8, pub data: Dynamic<u8, Bytes> },
});
cstyle!(Level, u32, { Low = 0, Mid = 256, High = 4294967295 });
fn mark_value() -> Mark {
    match sym::upto(2) {
        0 => Mark::Nothing(mark::Nothing),
        1 => Mark::Dot(mark::Dot { 0: sym::u8(), 1: sym::u16() }),
        _ => Mark::Blob(mark::Blob { len: sym::u8(), data: dynb(2) }),
    }
}
fn tagged() {
    match sym::upto(3) {
        0 => agree(&mark_value()),
        1 => agree(&Dynamic::<u8, Mark>::new(mark_value())),
        2 => agree(&Sequence::from_vec(vec_of(2, mark_value))),
        _ => fixed(&match sym::upto(2) { 0 => Level::Low, 1 => Level::Mid, _ => Level::High }),
    }
}
fn shape_value() -> Shape {
    match sym::upto(3) {
        0 => Shape::Nothing(shape::Nothing),
        1 => Shape::Dot(shape::Dot(sym::u8(), sym::u16())),
        2 => Shape::Blob(shape::Blob { len: sym::u8(), data: dynb(2) }),
        _ => Shape::Num(shape::Num(nat(16))),
    }
}
fn color() -> Color {
    match sym::upto(2) {
        0 => Color::Red,
        1 => Color::Green,
        _ => Color::Blue,
    }
}
fn u30() -> tedium::u30 {
    tedium::u30::from_underlying(sym::u32() & 0x3fff_ffff)
}
fn ranged() -> RangedInt<u8, 0, 9> {
    RangedInt::from_underlying(sym::u8() & 7)
}
fn mixed() -> Mixed {
    Mixed {
        a: sym::u8(), b: FixSeq::from_iter([sym::u16(), sym::u16()]), c: opt(sym::u16), d: dynb(2), e: nat(14),
        f: Dynamic::new(sym::u32()), g: Padded::new(sym::u16()), h: opt(|| ()), i: AutoBox::new(sym::u16()),
    }
}
fn scalars() {
    fixed(&sym::u8());
    fixed(&sym::i8());
    fixed(&sym::u16());
    fixed(&sym::i16());
    fixed(&sym::u32());
    fixed(&sym::i32());
    fixed(&sym::u64());
    fixed(&sym::i64());
    fixed(&f64::from_bits(sym::u64()));
    fixed(&sym::bool());
    fixed(&());
    fixed(&u30());
    fixed(&i31::from_underlying(sym::i32() >> 1));
    fixed(&ranged());
    fixed(&RangedInt::<u8, 256, 300>::from_underlying(sym::u8() & 31));
    fixed(&unsafe { RangedFloat::<0, { 1.0f64.to_bits() }>::from_f64_unchecked(f64::from_bits(sym::u64())) });
    fixed(&FixedBytes::<5>::from_array(sym::bytes::<5>()));
    fixed(&color());
    fixed(&Flat { a: sym::u16(), b: sym::bool(), c: sym::i64() });
    fixed(&Flat2(sym::u8(), f64::from_bits(sym::u64()), Inner(sym::i16())));
    fixed(&Flat0);
    fixed(&Unit);
}
fn known() {
    agree(&Wrap(sym::u16()));
    agree(&Pair(sym::u8(), sym::u32()));
    agree(&Fixed {
        a: sym::u8(), b: FixedBytes::from_array(sym::bytes::<3>()), c: FixSeq::from_iter([sym::u16(), sym::u16()]), d: sym::bool(),
        e: ranged(), f: Padded::new(sym::u16()), g: Nullable::<()>::from(opt(|| ())), h: opt(|| ()),
    });
    agree(&Padded::<u32, 7>::new(sym::u32()));
    agree(&Padded::<Padded<u8, 1>, 2>::new(Padded::new(sym::u8())));
    agree(&Dynamic::<u8, u32>::new(sym::u32()));
    agree(&Dynamic::<u16, u8>::new(sym::u8()));
    agree(&Dynamic::<tedium::u30, Padded<u8, 3>>::new(Padded::new(sym::u8())));
    agree(&VPadded::<u16, 4>::new(sym::u16()));
    agree(&FixSeq::<u32, 3>::from_iter([sym::u32(), sym::u32(), sym::u32()]));
    agree(&FixSeq::<u32, 0>::from_iter([]));
    agree(&FixSeq::<Dynamic<u8, u16>, 2>::from_iter([Dynamic::new(sym::u16()), Dynamic::new(sym::u16())]));
    agree(&AutoBox::new(sym::u32()));
    agree(&opt(|| ()));
    agree(&opt(|| Unit));
    agree(&opt(|| FixedBytes::<2>::from_array(sym::bytes::<2>())));
    agree(&Padded::<Option<()>, 2>::new(opt(|| ())));
    agree(&Nullable::<()>::from(opt(|| ())));
    agree(&FixedString::<4>::try_from_array(b"tedi").unwrap_or_else(|_| panic!()));
}
fn options() {
    match sym::upto(15) {
        0 => agree(&opt(sym::u16)),
        1 => agree(&opt(|| dynb(2))),
        2 => agree(&opt(|| opt(sym::u8))),
        3 => agree(&Nullable::<u32>::from(opt(sym::u32))),
        4 => { agree(&Nullable::<u8>::from(opt(sym::u8))); agree(&Nullable::<bool>::from(opt(sym::bool))); agree(&Nullable::<Bytes>::from(opt(|| bytes(2)))) }
        // payloads that may be empty
        5 => agree(&opt(|| bytes(2))),
        6 => agree(&opt(|| Sequence::from_vec(vec_of(2, sym::u16)))),
        7 => agree(&opt(|| LimSeq::<u16, 2>::from_vec(vec_of(2, sym::u16)))),
        8 => agree(&opt(|| Nullable::<u16>::from(opt(sym::u16)))),
        9 => agree(&opt(|| if sym::bool() { String::new() } else { String::from("ab") })),
        10 => agree(&opt(|| AutoBox::new(bytes(2)))),
        11 => agree(&opt(|| Tail(sym::u16(), bytes(1)))),
        12 => agree(&Nullable::<Sequence<u8>>::from(opt(|| Sequence::from_vec(vec_of(2, sym::u8))))),
        13 => agree(&Nullable::<Option<Bytes>>::from(opt(|| opt(|| bytes(1))))),
        14 => agree(&Dynamic::<u8, Option<Bytes>>::new(opt(|| bytes(1)))),
        _ => agree(&opt(|| nat(14))),
    }
}
/// every fixed width, in every wrapper that keeps or adds to it
fn width<const K: usize>() {
    let f = || FixedBytes::<K>::from_array([7; K]);
    match sym::upto(8) {
        0 => agree(&f()),
        1 => agree(&Nullable::<FixedBytes<K>>::from(opt(f))),
        2 => agree(&opt(f)),
        3 => if K < 256 { agree(&Dynamic::<u8, _>::new(f())) } else { agree(&Dynamic::<u16, _>::new(f())) },
        4 => agree(&Padded::<_, 3>::new(f())),
        5 => agree(&VPadded::<_, 3>::new(f())),
        6 => agree(&AutoBox::new(f())),
        7 => agree(&FixSeq::<_, 2>::from_iter([f(), f()])),
        _ => agree(&Sequence::from_vec(vec_of(2, f))),
    }
}
fn widths() {
    match sym::upto(7) {
        0 => width::<1>(),
        1 => width::<2>(),
        2 => width::<3>(),
        3 => width::<4>(),
        4 => width::<5>(),
        5 => width::<7>(),
        6 => width::<8>(),
        _ => width::<16>(),
    }
}
fn wide_widths() {
    match sym::upto(4) {
        0 => width::<17>(),
        1 => width::<33>(),
        2 => width::<65>(),
        3 => width::<257>(),
        _ => width::<1025>(),
    }
}
/// an array is declared as long as its elements together
fn array<T: FixedLength, const K: usize>() {
    let n = K * T::LEN;
    sym::check(<[T; K] as FixedLength>::LEN == n, "the declared length of an array is not that of its elements");
    sym::check(<[T; K] as Estimable>::KNOWN == Some(n), "the known length of an array is not that of its elements");
}
fn arrays_declared() {
    macro_rules! each { ($($t:ty),+) => { $( array::<$t, 0>(); array::<$t, 1>(); array::<$t, 7>(); array::<$t, 33>(); array::<$t, 64>(); array::<$t, 257>(); array::<$t, 1025>(); array::<[$t; 40], 3>(); array::<[$t; 3], 40>(); )+ } }
    each!((), u8, i8, bool, u16, i16, u32, i32, u64, i64, f64, tedium::u30, FixedBytes<5>, RangedInt<u8, 0, 9>);
}
fn zarith() {
    agree(&nat(40));
    agree(&int(40));
    agree(&Dynamic::<u8, N>::new(nat(21)));
}
fn sequences() {
    match sym::upto(9) {
        0 => agree(&Sequence::from_vec(vec_of(3, sym::u16))),
        1 => agree(&Sequence::from_vec(vec_of(2, || dynb(2)))),
        2 => agree(&LimSeq::<u32, 3>::from_vec(vec_of(3, sym::u32))),
        3 => agree(&LimSeq::<Option<u8>, 3>::from_vec(vec_of(3, || opt(sym::u8)))),
        4 => agree(&FixSeq::<Option<u8>, 2>::from_iter([opt(sym::u8), opt(sym::u8)])),
        5 => agree(&FixSeq::<Dynamic<u8, Bytes>, 2>::from_iter([dynb(2), dynb(2)])),
        6 => agree(&Dynamic::<u8, Sequence<u16>>::new(Sequence::from_vec(vec_of(3, sym::u16)))),
        7 => agree(&Dynamic::<u16, Sequence<Dynamic<u8, Bytes>>>::new(Sequence::from_vec(vec_of(2, || dynb(1))))),
        8 => agree(&VPadded::<Sequence<u16>, 3>::new(Sequence::from_vec(vec_of(2, sym::u16)))),
        _ => agree(&AutoBox::new(Sequence::from_vec(vec_of(2, sym::u8)))),
    }
}
fn strings() {
    match sym::upto(5) {
        0 => agree(&bytes(4)),
        1 => agree(&sym::vec(sym::upto(4))),
        2 => agree(&Dynamic::<tedium::u30, Bytes>::new(bytes(4))),
        3 => {
            let n = sym::upto(3);
            let mut s = String::new();
            for _ in 0..n {
                s.push((sym::u8() & 0x7f) as char);
            }
            agree(&s)
        }
        4 => {
            let mut s = String::new();
            s.push(match sym::upto(3) { 0 => '\u{7f}', 1 => '\u{e9}', 2 => '\u{20ac}', _ => '\u{1f980}' });
            s.push('x');
            agree(&Dynamic::<u8, String>::new(s))
        }
        _ => agree(&Nullable::<Bytes>::from(Some(bytes(3)))),
    }
}
fn loose() -> Loose {
    Loose {
        a: bytes(1), b: opt(sym::u16).into(), c: Sequence::from_vec(vec_of(1, sym::u8)), d: FixedBytes::from_array([]),
        e: LimSeq::from_vec(vec_of(1, sym::u16)), f: (),
    }
}
fn bare() -> Bare {
    Bare(opt(|| bytes(1)).into(), FixSeq::from_iter([]), sym::vec(sym::upto(1)), match sym::upto(1) { 0 => String::new(), _ => "x".to_string() }, Unit)
}
/// records whose fields may all be empty
fn empties() {
    match sym::upto(2) {
        0 => agree(&loose()),
        1 => agree(&bare()),
        _ => agree(&Nest { a: loose(), b: opt(|| Unit).into(), c: Bare(Nullable::default(), FixSeq::from_iter([]), sym::vec(sym::upto(1)), String::new(), Unit), d: AutoBox::new(Tail(sym::u16(), bytes(1))) }),
    }
}
fn records() {
    match sym::upto(5) {
        0 => agree(&WrapDyn(Dynamic::new(bytes(2)))),
        1 => agree(&mixed()),
        2 => agree(&Tail(sym::u16(), bytes(3))),
        3 => agree(&Tuple(opt(sym::u8), int(14), Dynamic::new(LimSeq::from_vec(vec_of(3, sym::u16))))),
        4 => agree(&shape_value()),
        _ => agree(&Dynamic::<u16, Shape>::new(shape_value())),
    }
}
/// beyond the small sizes
fn many() {
    let seq = |n: usize| { let mut v = Vec::with_capacity(n); for i in 0..n { v.push(if i < 2 { sym::u16() } else { i as u16 }); } v };
    match sym::upto(13) {
        0 => agree(&Bytes::from_vec(ends(long()))),
        1 => agree(&Dynamic::<u16, Bytes>::new(Bytes::from_vec(ends(wide())))),
        2 => agree(&Sequence::from_vec(ends(long()))),
        3 => agree(&Sequence::from_vec(seq(wide()))),
        4 => agree(&LimSeq::<u16, 300>::from_vec(seq(match sym::upto(3) { 0 => 17, 1 => 65, 2 => 257, _ => 300 }))),
        5 => agree(&FixSeq::<u16, 17>::from_iter(seq(17))),
        6 => agree(&FixSeq::<u16, 300>::from_iter(seq(300))),
        7 => agree(&Sequence::from_vec({ let n = match sym::upto(2) { 0 => 9, 1 => 17, _ => 33 }; let mut v = Vec::with_capacity(n); for i in 0..n { v.push(Dynamic::<u8, Bytes>::new(Bytes::from_vec(ends(i % 3)))); } v })),
        8 => agree(&Padded::<u16, 300>::new(sym::u16())),
        9 => agree(&VPadded::<Bytes, 300>::new(Bytes::from_vec(ends(long())))),
        10 => agree(&FixedBytes::<300>::from_array([sym::u8(); 300])),
        11 => agree(&opt(|| Bytes::from_vec(ends(long())))),
        12 => agree(&Nullable::<Bytes>::from(Some(Bytes::from_vec(ends(long()))))),
        _ => {
            let n = wide();
            let mut s = String::with_capacity(n);
            for _ in 0..n {
                s.push('t');
            }
            agree(&Dynamic::<u16, String>::new(s))
        }
    }
}
/// a long value among other fields
fn long_record() {
    agree(&Mixed {
        a: sym::u8(), b: FixSeq::from_iter([sym::u16(), sym::u16()]), c: Some(sym::u16()), d: Dynamic::new(Bytes::from_vec(ends(match sym::upto(2) { 0 => 17, 1 => 128, _ => 255 }))), e: N(BigUint::from_bytes_le(&[0xa5; 40])),
        f: Dynamic::new(sym::u32()), g: Padded::new(sym::u16()), h: Some(()), i: AutoBox::new(sym::u16()),
    });
    agree(&Tail(sym::u16(), Bytes::from_vec(ends(long()))));
    agree(&Z(BigInt::from_biguint(Sign::Minus, BigUint::from_bytes_le(&[0x5a; 40]))));
}
harnesses! {
    fn p14_scalars() { want!("known"); scalars() }
    fn p14_known() { want!("known"); known() }
    fn p14_options() { want!("dynamic"); options() }
    fn p14_widths() { widths() }
    fn p14_widths__elo() { widths() }
    fn p14_wide_widths() { wide_widths() }
    fn p14_wide_widths__elo() { wide_widths() }
    fn p14_arrays_declared() { arrays_declared() }
    fn p14_zarith() { want!("dynamic"); zarith() }
    fn p14_sequences() { want!("dynamic"); sequences() }
    fn p14_strings() { want!("dynamic"); strings() }
    fn p14_records() { want!("dynamic"); records() }
    fn p14_scalars__elo() { want!("known"); scalars() }
    fn p14_known__elo() { want!("known"); known() }
    fn p14_options__elo() { want!("dynamic"); options() }
    fn p14_zarith__elo() { want!("dynamic"); zarith() }
    fn p14_sequences__elo() { want!("dynamic"); sequences() }
    fn p14_strings__elo() { want!("dynamic"); strings() }
    fn p14_arrays() { want!("known"); fixed(&Grid { a: [sym::u16(); 3], b: [(); 3], c: [[Inner(sym::u16() as i16), Inner(3)], [Inner(4), Inner(5)]], d: [] }) }
    fn p14_empties() { want!("dynamic"); empties() }
    fn p14_empties__elo() { want!("dynamic"); empties() }
    fn p14_records__elo() { want!("dynamic"); records() }
    fn p14_sequences__avf() { want!("dynamic"); sequences() }
    fn p14_known__rel() { want!("known"); known() }
    fn p14_records__rel() { want!("dynamic"); records() }
    fn p14_tagged() { want!("dynamic", "known"); tagged() }
    fn p14_tagged__elo() { want!("dynamic", "known"); tagged() }
    fn p14_many() { want!("dynamic", "known"); many() }
    fn p14_many__elo() { want!("dynamic", "known"); many() }
    fn p14_many__avf() { want!("dynamic", "known"); many() }
    fn p14_long_record() { want!("dynamic"); long_record() }
    fn p14_long_record__elo() { want!("dynamic"); long_record() }
}
