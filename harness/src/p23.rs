//! Derived records: the fields, one after the other, in declaration order, and nothing else.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::BigUint;
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Same4 {
    z: u8,
    a: u8,
    m: u8,
    b: u8,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Same3(u8, u8, u8);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Named {
    buf: u16,
    q: Option<u8>,
    f: Dynamic<u8, Bytes>,
    r#type: bool,
    rest: Bytes,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Tup(Option<u16>, pub Dynamic<u16, Bytes>, i8, Nullable<u8>);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Wrap(Option<u8>);
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct WrapNamed {
    only: Dynamic<u8, Bytes>,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Deep {
    head: Wrap,
    mid: Same3,
    v: VPadded<Tail, 2>,
    end: u16,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Tail {
    k: u8,
    w: Sequence<u8>,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Unit;
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct NoFields {}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct NoSlots();
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Around {
    a: u8,
    b: (),
    c: Unit,
    d: u8,
}
#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
struct Flat {
    x: u16,
    y: bool,
    z: FlatTup,
}
#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
struct FlatTup(u8, u32);
/// as many fields as the schemas of real protocols have
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Long {
    a: u8,
    b: u16,
    c: u8,
    d: u32,
    e: bool,
    f: u8,
    g: u16,
    h: i8,
    i: Option<()>,
    j: u8,
    k: u8,
    l: u64,
}

/// names that mean something elsewhere
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Names {
    _phantom: u8,
    r#fn: u8,
    __x: u8,
    self_: u8,
    _0: u8,
    unit: u8,
    padding: u8,
    len: u8,
    known: u8,
    KNOWN: u8,
    inp: u8,
    ret: u8,
    tag: u8,
    data: u8,
    _pad: u8,
    reserved: u8,
    skip: u8,
    val: u8,
    out: u8,
    x: u8,
    bytes: u8,
    parser: u8,
    target: u8,
    _unused: u8,
}
#[derive(Encode, Decode, FixedLength, Debug, Clone, PartialEq)]
struct NamesFlat {
    _phantom: u16,
    LEN: u8,
    f: u32,
    buf: u8,
    q: u16,
}
/// what the fields read one by one yield, on the same bytes
macro_rules! step {
    ($p:ident, $ty:ty) => {
        match <$ty>::parse(&mut $p) {
            Ok(x) => enc(&x),
            Err(_) => return None,
        }
    };
}
macro_rules! fields {
    ($name:ident: $($ty:ty),* $(,)?) => {
        fn $name(b: &[u8]) -> Option<(Vec<Vec<u8>>, usize)> {
            let mut p = ByteParser::from_buffer(b.into());
            let mut v: Vec<Vec<u8>> = Vec::new();
            $( v.push(step!(p, $ty)); )*
            Some((v, p.remainder()))
        }
    };
}
fields!(same4: u8, u8, u8, u8);
fields!(same3: u8, u8, u8);
fields!(named: u16, Option<u8>, Dynamic<u8, Bytes>, bool, Bytes);
fields!(tup: Option<u16>, Dynamic<u16, Bytes>, i8, Nullable<u8>);
fields!(wrap: Option<u8>);
fields!(wrap_named: Dynamic<u8, Bytes>);
fields!(deep: Option<u8>, u8, u8, u8, VPadded<Tail, 2>, u16);
fields!(tail: u8, Sequence<u8>);
fields!(none:);
fields!(around: u8, u8);
fields!(flat: u16, bool, u8, u32);
fields!(names: u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
fields!(names_flat: u16, u8, u32, u8, u16);
fields!(long: u8, u16, u8, u32, bool, u8, u16, i8, Option<()>, u8, u8, u64);

macro_rules! record {
    ($t:ty, $r:ident, $len:expr, |$x:ident| [ $($f:expr),* ]) => {{
        let b = sym::vec(sym::upto($len));
        let (r, left) = parse::<$t>(&b);
        match (r, $r(&b)) {
            (Ok($x), Some((v, l))) => {
                sym::cover("decoded");
                sym::check(left == l, "the record did not consume what its fields consume");
                let got: Vec<Vec<u8>> = vec![ $( enc(&$f) ),* ];
                sym::check(got.len() == v.len(), "the record has another number of fields");
                let mut all: Vec<u8> = Vec::new();
                for i in 0..v.len() {
                    sym::check(same(&got[i], &v[i]), "a field holds another value than the field in its place");
                    all.extend_from_slice(&v[i]);
                }
                let e = enc(&$x);
                sym::check(same(&e, &all), "the encoding is not the fields' encodings in declaration order");
                sym::check(same(&$x.to_bytes(), &e), "to_bytes differs from write_to");
                sym::check($x.enc_len() == e.len() && $x.estimate() == e.len(), "the length is not the sum of the fields' lengths");
            }
            (Err(_), None) => sym::cover("refused"),
            (Ok(_), None) => sym::check(false, "a record was decoded where one of its fields cannot be"),
            (Err(_), Some(_)) => sym::check(false, "a record was refused where all of its fields can be decoded"),
        }
    }};
}
/// values: known bytes, and back
fn values() {
    match sym::upto(3) {
        0 => {
            let k = sym::bytes::<4>();
            let x = Same4 { b: k[3], m: k[2], a: k[1], z: k[0] };
            sym::check(same(&enc(&x), &k), "the encoding is not the fields in declaration order");
            let (r, left) = parse::<Same4>(&with_tail(&k, 1));
            sym::check(matches!(r, Ok(y) if y == x) && left == 1, "the record did not survive");
        }
        1 => {
            let k = sym::bytes::<3>();
            let x = Same3(k[0], k[1], k[2]);
            sym::check(same(&enc(&x), &k), "the encoding is not the fields in declaration order");
            let (r, left) = parse::<Same3>(&with_tail(&k, 1));
            sym::check(matches!(r, Ok(y) if y == x) && left == 1, "the record did not survive");
        }
        2 => {
            let k = sym::bytes::<7>();
            let x = Flat { z: FlatTup(k[2], be(&k[3..]) as u32), y: true, x: be(&k[..2]) as u16 };
            let e = [k[0], k[1], 255, k[2], k[3], k[4], k[5], k[6]];
            sym::check(same(&enc(&x), &e), "the encoding is not the fields in declaration order");
            sym::check(Flat::LEN == 8 && FlatTup::LEN == 5, "the declared length is not the sum of the fields'");
            let (r, left) = parse::<Flat>(&with_tail(&e, 1));
            sym::check(matches!(r, Ok(y) if y == x) && left == 1, "the record did not survive");
        }
        _ => {
            let v = sym::vec(sym::upto(2));
            let (k, a) = (sym::u16(), sym::u8());
            let x = Named { rest: Bytes::from_vec(vec![a]), r#type: false, f: Dynamic::new(Bytes::from_vec(v.clone())), q: Some(a), buf: k };
            let mut e = vec![(k >> 8) as u8, k as u8, 255, a, v.len() as u8];
            e.extend_from_slice(&v);
            e.push(0);
            e.push(a);
            sym::check(same(&enc(&x), &e), "the encoding is not the fields in declaration order");
            let (r, left) = parse::<Named>(&e);
            sym::check(matches!(r, Ok(y) if y == x) && left == 0, "the record did not survive");
        }
    }
}
fn empty() {
    sym::check(enc(&Unit).is_empty() && enc(&NoFields {}).is_empty() && enc(&NoSlots()).is_empty(), "a record without fields encodes to something");
    sym::check(Unit.to_bytes().is_empty() && NoFields {}.to_bytes().is_empty() && NoSlots().to_bytes().is_empty(), "a record without fields encodes to something");
    sym::check(<Unit as FixedLength>::LEN == 0 && <NoFields as FixedLength>::LEN == 0 && <NoSlots as FixedLength>::LEN == 0, "a record without fields has a length");
    record!(Unit, none, 1, |x| []);
    record!(NoFields, none, 1, |x| []);
    record!(NoSlots, none, 1, |x| []);
}
macro_rules! both { ($e:expr) => {{ want!("decoded", "refused"); $e }}; }
harnesses! {
    fn p23_same4() { both!(record!(Same4, same4, 5, |x| [x.z, x.a, x.m, x.b])) }
    fn p23_same3() { both!(record!(Same3, same3, 4, |x| [x.0, x.1, x.2])) }
    fn p23_named() { both!(record!(Named, named, 8, |x| [x.buf, x.q, x.f, x.r#type, x.rest])) }
    fn p23_tup() { both!(record!(Tup, tup, 7, |x| [x.0, x.1, x.2, x.3])) }
    fn p23_wrap() { both!(record!(Wrap, wrap, 3, |x| [x.0])) }
    fn p23_wrap_named() { both!(record!(WrapNamed, wrap_named, 4, |x| [x.only])) }
    fn p23_deep() { both!(record!(Deep, deep, 8, |x| [x.head, x.mid.0, x.mid.1, x.mid.2, x.v, x.end])) }
    fn p23_tail() { both!(record!(Tail, tail, 5, |x| [x.k, x.w])) }
    fn p23_around() { both!(record!(Around, around, 3, |x| [x.a, x.d])) }
    fn p23_flat() { both!(record!(Flat, flat, 9, |x| [x.x, x.y, x.z.0, x.z.1])) }
    fn p23_long() { both!(record!(Long, long, 25, |x| [x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j, x.k, x.l])) }
    fn p23_names() { both!(record!(Names, names, 25, |r| [r._phantom, r.r#fn, r.__x, r.self_, r._0, r.unit, r.padding, r.len, r.known, r.KNOWN, r.inp, r.ret, r.tag, r.data, r._pad, r.reserved, r.skip, r.val, r.out, r.x, r.bytes, r.parser, r.target, r._unused])) }
    fn p23_names_flat() { both!(record!(NamesFlat, names_flat, 11, |r| [r._phantom, r.LEN, r.f, r.buf, r.q])) }
    fn p23_empty() { empty() }
    fn p23_values() { values() }
    fn p23_named__rel() { both!(record!(Named, named, 8, |x| [x.buf, x.q, x.f, x.r#type, x.rest])) }
    fn p23_deep__rel() { both!(record!(Deep, deep, 8, |x| [x.head, x.mid.0, x.mid.1, x.mid.2, x.v, x.end])) }
    fn p23_tup__elo() { both!(record!(Tup, tup, 7, |x| [x.0, x.1, x.2, x.3])) }
    fn p23t_named() { both!(record!(Named, named, 12, |x| [x.buf, x.q, x.f, x.r#type, x.rest])) }
    fn p23t_deep() { both!(record!(Deep, deep, 12, |x| [x.head, x.mid.0, x.mid.1, x.mid.2, x.v, x.end])) }
}
