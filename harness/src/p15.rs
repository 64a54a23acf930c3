//! Every target receives the same bytes, whatever they are pushed with, and nothing else changes.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint, Sign};
use std::io::Write;
use tedium::builder::memo::MemoBuilder;
use tedium::builder::Builder;
use tedium::conv::target::Target;
use tedium::conv::EncodeLength;
use tedium::hexstring::HexString;
use tedium::*;

trait Bytes_: Target {
    fn bytes(self) -> Vec<u8>;
}
impl Bytes_ for Vec<u8> {
    fn bytes(self) -> Vec<u8> {
        self
    }
}
impl Bytes_ for StrictBuilder {
    fn bytes(self) -> Vec<u8> {
        self.into_vec()
    }
}
impl Bytes_ for MemoBuilder {
    fn bytes(self) -> Vec<u8> {
        self.into_vec()
    }
}
impl Bytes_ for HexString {
    fn bytes(self) -> Vec<u8> {
        self.into_inner()
    }
}
/// one push of any kind; the reference is the flat list of bytes
fn step<T: Target>(t: &mut T, model: &mut Vec<u8>) {
    match sym::upto(4) {
        0 => {
            let b = sym::u8();
            sym::check(t.push_one(b) == 1, "push_one did not count one byte");
            model.push(b);
        }
        1 => {
            let a = sym::bytes::<3>();
            sym::check(t.push_many(a) == 3, "push_many did not count its bytes");
            model.extend_from_slice(&a);
        }
        2 => {
            let v = sym::vec(sym::upto(3));
            sym::check(t.push_all(&v) == v.len(), "push_all did not count its bytes");
            model.extend_from_slice(&v);
        }
        3 => {
            if sym::bool() {
                t.resolve()
            } else {
                sym::check(t.resolve_zero() == 0, "resolve_zero did not return 0");
            }
        }
        _ => {
            t.anticipate(sym::upto(40));
            sym::check(t.push_many([]) == 0, "pushing nothing counted something");
        }
    }
}
fn pushes<T: Bytes_>(k: usize) {
    let mut t = T::create();
    let mut m = Vec::new();
    for _ in 0..k {
        step(&mut t, &mut m);
    }
    sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was pushed");
}
fn counter(k: usize) {
    let mut t = std::io::sink();
    let mut m = Vec::new();
    for _ in 0..k {
        step(&mut t, &mut m);
    }
}
/// One value through every way of encoding it. `raw` is what it must produce.
fn every<T: Encode + tedium::conv::len::Estimable>(x: &T) {
    let v = enc(x);
    sym::check(same(&x.to_bytes(), &v), "to_bytes differs");
    sym::check(same(&x.to_bytes_full(), &v), "to_bytes_full differs");
    sym::check(same(&x.encode::<Vec<u8>>(), &v), "encoding into a vector differs");
    let s = x.encode::<StrictBuilder>();
    sym::check(s.len() == v.len() && s.is_empty() == v.is_empty(), "the strict builder's length differs");
    sym::check(same(&s.into_vec(), &v), "the strict builder holds other bytes");
    let m = x.encode::<MemoBuilder>();
    sym::check(m.len() == v.len() && m.is_empty() == v.is_empty(), "the memoizing builder's length differs");
    sym::check(same(&m.into_vec(), &v), "the memoizing builder holds other bytes");
    let h = x.encode::<HexString>();
    sym::check(same(h.as_bytes(), &v), "the hexadecimal target holds other bytes");
    sym::check(x.write_to(&mut std::io::sink()) == v.len(), "the counting target counts other bytes");
    // appending keeps what is there
    let head = sym::vec(sym::upto(2));
    let mut all = head.clone();
    all.extend_from_slice(&v);
    let mut a = head.clone();
    x.write_to_vec(&mut a);
    sym::check(same(&a, &all), "write_to_vec does not append");
    let mut a = head.clone();
    let n = x.write_to(&mut a);
    sym::check(n == v.len() && same(&a, &all), "write_to does not append, or counts what was there");
    let mut a = StrictBuilder::from(head.clone());
    sym::check(x.write_to(&mut a) == v.len() && same(&a.into_vec(), &all), "the strict builder does not append");
    let mut a = MemoBuilder::from(head.clone());
    sym::check(x.write_to(&mut a) == v.len() && same(&a.into_vec(), &all), "the memoizing builder does not append");
    let mut a = HexString::from_vec(head);
    sym::check(x.write_to(&mut a) == v.len() && same(a.as_bytes(), &all), "the hexadecimal target does not append");
}
fn bytes(max: usize) -> Bytes {
    Bytes::from_vec(sym::vec(sym::upto(max)))
}
fn vec_of<T>(max: usize, f: impl Fn() -> T) -> Vec<T> {
    let n = sym::upto(max);
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(f());
    }
    v
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if sym::upto(1) == 1 {
        Some(f())
    } else {
        None
    }
}
#[derive(Encode, Estimable)]
struct Rec {
    a: u16,
    b: Option<u8>,
    c: Dynamic<u8, Bytes>,
    d: bool,
    e: FixedBytes<3>,
}
#[derive(Encode, Estimable)]
struct Tup(i32, Padded<u8, 2>, Nullable<u8>);
data!(Shape, u8, shape, {
    0 => Nothing,
    1 => Dot(pub u8, pub u16),
    2 => Blob { pub data: Bytes },
});
cstyle!(Color, u8, { Red = 1, Blue = 255 });
fn scalars() {
    match sym::upto(11) {
        0 => every(&sym::u8()),
        1 => every(&sym::i8()),
        2 => every(&sym::u16()),
        3 => every(&sym::i16()),
        4 => every(&sym::u32()),
        5 => every(&sym::i32()),
        6 => every(&sym::u64()),
        7 => every(&sym::i64()),
        8 => every(&f64::from_bits(sym::u64())),
        9 => every(&sym::bool()),
        10 => every(&()),
        _ => every(&FixedBytes::<5>::from_array(sym::bytes::<5>())),
    }
}
fn restricted() {
    match sym::upto(4) {
        0 => every(&tedium::u30::from_underlying(sym::u32() & 0x3fff_ffff)),
        1 => every(&i31::from_underlying(sym::i32() >> 1)),
        2 => every(&RangedInt::<u8, 300, 400>::from_underlying(sym::u8() & 63)),
        3 => {
            let x = sym::u64();
            sym::assume(x <= 0x3ff0_0000_0000_0000);
            every(&RangedFloat::<0, { 1.0f64.to_bits() }>::from_f64(f64::from_bits(x)))
        }
        _ => every(if sym::bool() { &Color::Red } else { &Color::Blue }),
    }
}
fn containers() {
    match sym::upto(9) {
        0 => every(&opt(sym::u16)),
        1 => every(&Nullable::<u32>::from(opt(sym::u32))),
        2 => every(&bytes(3)),
        3 => every(&sym::vec(sym::upto(3))),
        4 => every(&Padded::<u16, 5>::new(sym::u16())),
        5 => every(&VPadded::<Bytes, 5>::new(bytes(3))),
        6 => every(&AutoBox::new(sym::u32())),
        7 => every(&Dynamic::<u8, Bytes>::new(bytes(3))),
        8 => every(&Dynamic::<u16, Dynamic<tedium::u30, u8>>::new(Dynamic::new(sym::u8()))),
        _ => {
            let n = sym::upto(3);
            let mut s = String::new();
            for _ in 0..n {
                s.push((sym::u8() & 0x7f) as char);
            }
            every(&s)
        }
    }
}
fn sequences() {
    match sym::upto(4) {
        0 => every(&Sequence::from_vec(vec_of(3, sym::u16))),
        1 => every(&FixSeq::<u16, 3>::from_iter([sym::u16(), sym::u16(), sym::u16()])),
        2 => every(&LimSeq::<u16, 3>::from_vec(vec_of(3, sym::u16))),
        3 => every(&Sequence::from_vec(vec_of(2, || Dynamic::<u8, Bytes>::new(bytes(1))))),
        _ => every(&Dynamic::<u8, LimSeq<Option<u8>, 2>>::new(LimSeq::from_vec(vec_of(2, || opt(sym::u8))))),
    }
}
fn records() {
    match sym::upto(4) {
        0 => every(&Rec { a: sym::u16(), b: opt(sym::u8), c: Dynamic::new(bytes(2)), d: sym::bool(), e: FixedBytes::from_array(sym::bytes::<3>()) }),
        1 => every(&Tup(sym::i32(), Padded::new(sym::u8()), Nullable::from(opt(sym::u8)))),
        2 => every(&Shape::Nothing(shape::Nothing)),
        3 => every(&Shape::Dot(shape::Dot(sym::u8(), sym::u16()))),
        _ => every(&Shape::Blob(shape::Blob { data: bytes(2) })),
    }
}
fn zarith() {
    if sym::upto(1) == 0 {
        every(&N(BigUint::from(sym::u64() >> 22)))
    } else {
        every(&Z(BigInt::from_biguint(if sym::upto(1) == 0 { Sign::Minus } else { Sign::Plus }, BigUint::from(sym::u64() >> 22))))
    }
}
/// std::io::Write on the builders and hexadecimal strings appends everything it is given
fn io<T: Bytes_ + Write>() {
    let mut t = T::create();
    let mut m = Vec::new();
    for _ in 0..2 {
        match sym::upto(2) {
            0 => {
                let v = sym::vec(sym::upto(3));
                sym::check(matches!(t.write(&v), Ok(n) if n == v.len()), "write did not take everything");
                m.extend_from_slice(&v);
            }
            1 => {
                let v = sym::vec(sym::upto(2));
                sym::check(t.write_all(&v).is_ok(), "write_all failed");
                m.extend_from_slice(&v);
            }
            _ => sym::check(t.flush().is_ok(), "flush failed"),
        }
    }
    sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was written");
}
fn makes<B: Builder + Bytes_>(promote: impl Fn(Vec<u8>) -> B) {
    let hex = |b: &[u8]| {
        let mut s = Vec::new();
        for x in b {
            for d in [x >> 4, x & 15] {
                s.push(if d < 10 { b'0' + d } else { b'a' + (d - 10) });
            }
        }
        s
    };
    let (b, raw) = match sym::upto(3) {
        0 => (B::empty(), vec![]),
        1 => {
            let x = sym::u8();
            (B::word(x), vec![x])
        }
        2 => {
            let x = sym::bytes::<3>();
            (B::words(x), x.to_vec())
        }
        _ => {
            let v = sym::vec(sym::upto(2));
            (promote(v.clone()), v)
        }
    };
    sym::check(b.len() == raw.len() && b.is_empty() == raw.is_empty(), "the builder's length differs");
    match sym::upto(2) {
        0 => {
            let f: Vec<u8> = b.finalize().into();
            sym::check(same(&f, &raw), "the finalized builder holds other bytes")
        }
        1 => sym::check(same(&b.into_vec(), &raw), "the builder holds other bytes"),
        _ => sym::check(same(b.into_hex().as_bytes(), &hex(&raw)), "the builder prints other bytes"),
    }
}
fn text<B: Builder>() {
    want!("text", "not text");
    let x = sym::bytes::<2>();
    let ok = x[0] < 0x80 && x[1] < 0x80 || (x[0] >= 0xc2 && x[0] <= 0xdf && x[1] & 0xc0 == 0x80);
    match B::words(x).into_bin() {
        Ok(s) => {
            sym::cover("text");
            sym::check(ok && same(s.as_bytes(), &x), "bytes that are not UTF-8 became text, or the text differs")
        }
        Err(_) => {
            sym::cover("not text");
            sym::check(!ok, "UTF-8 text was refused")
        }
    }
}
/// text is what was pushed, whatever it begins and ends with
fn texts<B: Builder>() {
    want!("text");
    let s = crate::util::text();
    let mut b = B::create();
    let k = if sym::upto(1) == 0 { 0 } else { s.len() / 2 };
    b.push_all(&s.as_bytes()[..k]);
    b.push_all(&s.as_bytes()[k..]);
    match b.into_bin() {
        Ok(t) => {
            sym::cover("text");
            sym::check(same(t.as_bytes(), s.as_bytes()), "the text differs from the bytes pushed")
        }
        Err(_) => sym::check(false, "UTF-8 text was refused"),
    }
}
/// one long push between short ones
fn far<T: Bytes_>() {
    let mut t = T::create();
    let mut m = Vec::new();
    if sym::upto(1) == 1 {
        let b = sym::u8();
        t.push_one(b);
        m.push(b);
    }
    match sym::upto(6) {
        0 => { let a = [sym::u8(); 16]; sym::check(t.push_many(a) == 16, "push_many did not count its bytes"); m.extend_from_slice(&a); }
        1 => { let a = [sym::u8(); 33]; sym::check(t.push_many(a) == 33, "push_many did not count its bytes"); m.extend_from_slice(&a); }
        2 => { let a = [sym::u8(); 300]; sym::check(t.push_many(a) == 300, "push_many did not count its bytes"); m.extend_from_slice(&a); }
        3 => { t.anticipate(wide()); }
        4 => { let n = wide(); for i in 0..n { let b = if i + 3 > n { sym::u8() } else { i as u8 }; sym::check(t.push_one(b) == 1, "push_one did not count one byte"); m.push(b); } }
        _ => { let v = ends(wide()); sym::check(t.push_all(&v) == v.len(), "push_all did not count its bytes"); m.extend_from_slice(&v); }
    }
    if sym::upto(1) == 1 {
        t.resolve();
    }
    step(&mut t, &mut m);
    sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was pushed");
}
/// a push longer than two bytes can number
fn huge_push<T: Bytes_>() {
    let mut t = T::create();
    let v = huge();
    let b = sym::u8();
    t.push_one(b);
    let mut m = vec![b];
    match sym::upto(2) {
        0 => {
            t.anticipate(v.len());
            sym::check(t.push_all(&v) == v.len(), "push_all did not count its bytes");
        }
        1 => {
            let mut a = [0x5a; 65573];
            a[0] = v[0];
            a[65536] = v[65536];
            sym::check(t.push_many(a) == 65573, "push_many did not count its bytes");
            m.extend_from_slice(&a);
            sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was pushed");
            return;
        }
        _ => {
            let y = Bytes::from_vec(v.clone());
            sym::check(y.write_to(&mut t) == v.len(), "writing did not count its bytes");
        }
    }
    m.extend_from_slice(&v);
    sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was pushed");
}
fn huge_count() {
    let mut t = std::io::sink();
    let v = huge();
    sym::check(t.push_all(&v) == v.len() && t.push_many([0u8; 65573]) == 65573, "the counting target counts differently");
    sym::check(Bytes::from_vec(v).write_to(&mut t) == 65573, "the counting target counts differently");
}
fn many() {
    match sym::upto(8) {
        0 => every(&Bytes::from_vec(ends(long()))),
        1 => every(&Dynamic::<u16, Bytes>::new(Bytes::from_vec(ends(wide())))),
        2 => every(&FixedBytes::<300>::from_array([sym::u8(); 300])),
        3 => every(&Padded::<u16, 300>::new(sym::u16())),
        4 => every(&VPadded::<Bytes, 5>::new(Bytes::from_vec(ends(long())))),
        5 => every(&Sequence::from_vec(ends(wide()))),
        6 => every(&LimSeq::<u8, 300>::from_vec(ends(match sym::upto(2) { 0 => 17, 1 => 65, _ => 300 }))),
        7 => every(&ends(long())),
        _ => every(&N(BigUint::from_bytes_le(&[0xa5; 40]))),
    }
}
fn io_far<T: Bytes_ + Write>() {
    let mut t = T::create();
    let mut m = Vec::new();
    let v = ends(long());
    if sym::upto(1) == 0 {
        sym::check(matches!(t.write(&v), Ok(n) if n == v.len()), "write did not take everything");
    } else {
        sym::check(t.write_all(&v).is_ok(), "write_all failed");
    }
    m.extend_from_slice(&v);
    let v = sym::bytes::<2>();
    sym::check(t.write_all(&v).is_ok(), "write_all failed");
    m.extend_from_slice(&v);
    sym::check(t.flush().is_ok(), "flush failed");
    sym::check(same(&t.bytes(), &m), "the target does not hold exactly what was written");
}
fn makes_far<B: Builder + Bytes_>(promote: impl Fn(Vec<u8>) -> B) {
    fn array<B: Builder, const K: usize>() -> (B, Vec<u8>) {
        let v = ends(K);
        let mut x = [0u8; K];
        x.copy_from_slice(&v);
        (B::words(x), v)
    }
    let (b, raw) = match sym::upto(3) {
        0 => array::<B, 300>(),
        1 => array::<B, 8193>(),
        2 => array::<B, 65573>(),
        _ => {
            let v = ends(long());
            (promote(v.clone()), v)
        }
    };
    sym::check(b.len() == raw.len() && !b.is_empty(), "the builder's length differs");
    if sym::upto(1) == 0 {
        let f: Vec<u8> = b.finalize().into();
        sym::check(same(&f, &raw), "the finalized builder holds other bytes")
    } else {
        sym::check(same(&b.into_vec(), &raw), "the builder holds other bytes")
    }
}
harnesses! {
    fn p15_pushes_vec() { pushes::<Vec<u8>>(3) }
    fn p15_pushes_strict() { pushes::<StrictBuilder>(3) }
    fn p15_pushes_memo() { pushes::<MemoBuilder>(3) }
    fn p15_pushes_hex() { pushes::<HexString>(3) }
    fn p15_pushes_counter() { counter(3) }
    fn p15_scalars() { scalars() }
    fn p15_restricted() { restricted() }
    fn p15_containers() { containers() }
    fn p15_sequences() { sequences() }
    fn p15_records() { records() }
    fn p15_zarith() { zarith() }
    fn p15_scalars__rel() { scalars() }
    fn p15_containers__rel() { containers() }
    fn p15_records__elo() { records() }
    fn p15_containers__elo() { containers() }
    fn p15_sequences__avf() { sequences() }
    fn p15_io_strict() { io::<StrictBuilder>() }
    fn p15_io_memo() { io::<MemoBuilder>() }
    fn p15_io_hex() { io::<HexString>() }
    fn p15_makes_strict() { makes::<StrictBuilder>(|v| StrictBuilder::promote(StrictBuilder::from(v))) }
    fn p15_makes_memo() { makes::<MemoBuilder>(MemoBuilder::promote) }
    fn p15_text_strict() { text::<StrictBuilder>() }
    fn p15_text_memo() { text::<MemoBuilder>() }
    fn p15_texts_strict() { texts::<StrictBuilder>() }
    fn p15_texts_memo() { texts::<MemoBuilder>() }
    fn p15t_pushes_vec() { pushes::<Vec<u8>>(4) }
    fn p15t_pushes_strict() { pushes::<StrictBuilder>(4) }
    fn p15t_pushes_memo() { pushes::<MemoBuilder>(4) }
    fn p15t_pushes_hex() { pushes::<HexString>(4) }
    fn p15_huge_vec() { huge_push::<Vec<u8>>() }
    fn p15_huge_strict() { huge_push::<StrictBuilder>() }
    fn p15_huge_memo() { huge_push::<MemoBuilder>() }
    fn p15_huge_hex() { huge_push::<HexString>() }
    fn p15_huge_count() { huge_count() }
    fn p15_far_vec() { far::<Vec<u8>>() }
    fn p15_far_strict() { far::<StrictBuilder>() }
    fn p15_far_memo() { far::<MemoBuilder>() }
    fn p15_far_hex() { far::<HexString>() }
    fn p15_many() { many() }
    fn p15_io_far_strict() { io_far::<StrictBuilder>() }
    fn p15_io_far_memo() { io_far::<MemoBuilder>() }
    fn p15_io_far_hex() { io_far::<HexString>() }
    fn p15_makes_far_strict() { makes_far::<StrictBuilder>(|v| StrictBuilder::promote(StrictBuilder::from(v))) }
    fn p15_makes_far_memo() { makes_far::<MemoBuilder>(MemoBuilder::promote) }
}
