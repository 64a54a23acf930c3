//! Whatever was encoded or decoded before, however it ended, leaves nothing behind.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::{BigInt, BigUint};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::parse::ParserExt;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
use tedium::*;

/// the parser used
static WITH: AtomicU8 = AtomicU8::new(0);
fn with() {
    WITH.store(match sym::upto(2) { 0 => 0, 1 => 1, _ => 2 }, Relaxed)
}

#[derive(Encode, Decode, Estimable, Debug, PartialEq, Clone)]
struct Rec {
    a: u8,
    b: Option<u8>,
    c: Dynamic<u8, Bytes>,
}
#[derive(Encode, Decode, Debug, PartialEq, Clone)]
struct Chain(u8, Option<AutoBox<Chain>>);
cstyle!(Color, u8, { Red = 1, Green = 3, Blue = 255 });
data!(Shape, u8, shape, { 0 => Nothing, 1 => Dot(pub u8, pub u16), 7 => Blob(pub Dynamic<u8, Bytes>) });

/// encodes to `raw`, has its length, and is what `raw` decodes to
#[inline(never)]
fn is<T: Encode + Decode + PartialEq>(x: T, raw: &[u8]) {
    sym::check(same(&enc(&x), raw), "a value encodes to something else after what came before");
    sym::check(same(&x.encode::<StrictBuilder>().into_vec(), raw), "a value encodes to something else after what came before");
    let (r, left) = match WITH.load(Relaxed) {
        0 => parse1::<T>(raw),
        1 => run::<T, _>(MemoParser::from_buffer(raw.into())),
        _ => run::<T, _>(SliceParser::from_buffer(raw.into())),
    };
    sym::check(left == 0, "an encoding is not consumed after what came before");
    match r {
        Ok(y) => sym::check(x == y, "an encoding decodes to something else after what came before"),
        Err(_) => sym::check(false, "an encoding is refused after what came before"),
    }
}
#[inline(never)]
fn sized<T: EncodeLength>(x: &T, n: usize) {
    sym::check(x.enc_len() == n && x.to_bytes().len() == n, "a value has another encoded length after what came before");
}
/// `raw` is no encoding of the type
#[inline(never)]
fn isnt<T: Decode>(raw: &[u8]) {
    sym::check(parse1::<T>(raw).0.is_err(), "what is no encoding is decoded after what came before")
}
const PROBES: usize = 19;
/// one use of the library with unconstrained contents
#[inline(never)]
fn probe(k: usize, x: [u8; 3]) {
    let n = u16::from_be_bytes([x[1], x[2]]);
    match k {
        0 => is(n, &x[1..]),
        1 => {
            let d = Dynamic::<u8, Bytes>::new(Bytes::from_vec(x.to_vec()));
            sized(&d, 4);
            is(d, &[3, x[0], x[1], x[2]])
        }
        2 => is(Dynamic::<u16, Dynamic<u8, Bytes>>::new(Dynamic::new(Bytes::from_vec(x.to_vec()))), &[0, 4, 3, x[0], x[1], x[2]]),
        3 => {
            sym::assume(x[0] < 128);
            is(N(BigUint::from(x[0])), &x[..1])
        }
        4 => {
            sym::assume(x[0] < 64);
            is(Z(BigInt::from(x[0])), &x[..1]);
            if x[0] > 0 {
                is(Z(BigInt::from(-(x[0] as i8))), &[x[0] | 64])
            }
        }
        5 => {
            is(Some(n), &[255, x[1], x[2]]);
            is(None::<u16>, &[0])
        }
        6 => {
            is(Shape::Dot(shape::Dot(x[0], n)), &[1, x[0], x[1], x[2]]);
            isnt::<Shape>(&[2, x[0], x[1], x[2]])
        }
        7 => {
            is(Color::Blue, &[255]);
            isnt::<Color>(&[2])
        }
        8 => {
            let l = LimSeq::<u8, 2>::try_from(x[..2].to_vec());
            match l {
                Ok(l) => is(Dynamic::<u8, _>::new(l), &[2, x[0], x[1]]),
                Err(_) => sym::check(false, "a sequence within its limit is refused after what came before"),
            }
            isnt::<LimSeq<u8, 2>>(&x)
        }
        9 => is(Chain(x[0], Some(AutoBox::new(Chain(x[1], None)))), &[x[0], 255, x[1], 0]),
        10 => is(Padded::<u8, 2>::new(x[0]), &[x[0], 0, 0]),
        11 => {
            let p = HexString::from_hex(&HexString::from_vec(x.to_vec()).to_hex());
            sym::check(matches!(p, Ok(h) if same(h.as_bytes(), &x)), "hexadecimal text spells something else after what came before");
            sym::check(HexString::from_hex("0g").is_err(), "what is no hexadecimal text is accepted after what came before")
        }
        12 => {
            let r = RangedInt::<u16, 0, 300>::try_from_underlying(n);
            sym::check(r.is_ok() == (n <= 300), "a range admits something else after what came before");
            if let Ok(r) = r {
                is(r, &x[1..])
            }
        }
        13 => {
            let s = String::from_utf8(vec![x[0] & 0x7f, b'z']).unwrap_or_default();
            is(s, &[x[0] & 0x7f, b'z'])
        }
        14 => {
            let r = Rec { a: x[0], b: None, c: Dynamic::new(Bytes::from_vec(vec![x[2]])) };
            sized(&r, 4);
            is(r, &[x[0], 0, 1, x[2]]);
            is(Rec { a: x[0], b: Some(x[1]), c: Dynamic::new(Bytes::from_vec(vec![x[2]])) }, &[x[0], 255, x[1], 1, x[2]])
        }
        15 => {
            let mut b = MemoBuilder::create();
            use tedium::conv::target::Target;
            b.push_one(x[0]);
            b.resolve();
            b.push_many([x[1], x[2]]);
            sym::check(b.len() == 3 && same(&b.into_vec(), &x), "a builder holds something else after what came before")
        }
        16 => {
            sym::assume(x[0] != x[2]);
            let v = [x[0], x[1], x[2], x[1]];
            let mut p = ByteParser::from_buffer((&v[..]).into());
            let r = p.fast_kv_search::<[u8; 1], [u8; 1], _, 1, 1>(&[x[2]], |v| v);
            sym::check(matches!(r, Ok(Some(v)) if v[0] == x[1]) && p.remainder() == 0, "a search finds something else after what came before")
        }
        17 => {
            let mut p = MemoParser::from_buffer((&x[..]).into());
            sym::check(p.set_fit(2).is_ok() && p.remainder() == 2 && p.offset() == 0, "a fresh parser is not fresh after what came before");
            sym::check(matches!(p.take_u8(), Ok(b) if b == x[0]) && p.enforce_target().is_err(), "a window closes early after what came before");
            sym::check(matches!(p.take_u8(), Ok(b) if b == x[1]) && p.enforce_target().is_ok(), "a window does not close after what came before");
            sym::check(matches!(p.take_u8(), Ok(b) if b == x[2]) && p.take_u8().is_err(), "the input ends elsewhere after what came before")
        }
        18 => {
            let mut s: Sequence<u16> = Sequence::from_vec(vec![n]);
            s.extend([n ^ 1]);
            is(s, &[x[1], x[2], x[1], x[2] ^ 1])
        }
        _ => {
            let r: Result<Rec, _> = Rec::try_decode::<_, SliceParser>(&[x[0], 0, 1, x[1]][..]);
            sym::check(matches!(r, Ok(Rec { a, b: None, c }) if a == x[0] && same(&enc(&c), &[1, x[1]])), "an input decodes to something else after what came before")
        }
    }
}
const NOISE: usize = 16;
/// one use of the library that fails, is given up in the middle, or is large
#[inline(never)]
fn noise(k: usize, i: usize) {
    let y = i as u8;
    match k {
        0 => drop(parse1::<Dynamic<u8, Bytes>>(&[5, y])),
        1 => drop(parse1::<Dynamic<u8, u16>>(&[5, y, 0, 0, 0, 0])),
        2 => drop(parse1::<Dynamic<u8, Dynamic<u16, Dynamic<u8, bool>>>>(&[4, 0, 2, 1, 7])),
        3 => drop(parse1::<N>(&[0x80 | y, 0x80])),
        4 => drop(parse1::<Z>(&[0x80, 0x80, 0])),
        5 => drop(parse1::<Option<Dynamic<u8, Bytes>>>(&[254, y])),
        6 => drop(parse1::<Padded<Dynamic<u8, u8>, 4>>(&[1, y, 0])),
        7 => drop(parse1::<Shape>(&[7, 9, y])),
        8 => drop(parse1::<Dynamic<u8, LimSeq<u8, 2>>>(&[3, y, y, y])),
        9 => drop(parse1::<Chain>(&[y, 255, y, 255, y, 255, y])),
        10 => drop((HexString::from_hex("0011zz"), RangedInt::<u16, 0, 300>::try_from_underlying(999), parse1::<RangedFloat<0, 1>>(&[255; 8]))),
        11 => drop(parse1::<Dynamic<u8, String>>(&[2, 0xff, y])),
        12 => {
            // a parser given up with windows open
            let b = [y; 9];
            let mut p = MemoParser::from_buffer((&b[..]).into());
            let _ = (p.set_fit(8), p.take_u8(), p.set_fit(3), p.take_u16());
            let mut p = ByteParser::from_buffer((&b[..]).into());
            let _ = (p.set_fit(8), p.take_u8(), p.set_fit(3), p.take_u16());
            let mut p = SliceParser::from_buffer((&b[..]).into());
            let _ = (p.set_fit(8), p.take_u8(), p.set_fit(3), p.take_u16());
        }
        13 => {
            // encodings given up on
            use tedium::conv::target::Target;
            let r = Rec { a: y, b: None, c: Dynamic::new(Bytes::from_vec(vec![y; 9])) };
            let mut b = MemoBuilder::create();
            r.write_to(&mut b);
            b.anticipate(20);
            drop(r.encode::<StrictBuilder>());
            drop((r.enc_len(), r.estimate()))
        }
        14 => {
            let p = ByteParser::from_buffer((&[y, 1, 2, 3][..]).into());
            let mut p = p;
            drop(p.fast_kv_search::<[u8; 2], [u8; 1], _, 2, 1>(&[y, 2], |v| v));
            drop(p.skip_exactly(200))
        }
        15 => drop(parse1::<Rec>(&[y, 255, y, 9, y])),
        _ => {
            // decodings that succeed
            drop(parse1::<Rec>(&[y, 255, y, 1, y, 77]));
            drop(parse1::<Dynamic<u16, Dynamic<u8, Bytes>>>(&[0, 3, 2, y, y]));
            drop(parse1::<Chain>(&[y, 255, y, 0]));
            drop(parse1::<N>(&[0x80 | y, 1]));
        }
    }
}
/// the same failure so often, then anything
fn after(reps: usize) {
    with();
    let (k, j) = (sym::upto(NOISE), sym::upto(PROBES));
    for i in 0..reps {
        noise(k, i);
    }
    probe(j, sym::bytes::<3>());
}
/// all failures in turn, then anything
fn mixed(reps: usize) {
    with();
    let j = sym::upto(PROBES);
    let from = sym::upto(NOISE);
    for i in 0..reps {
        noise((from + i) % (NOISE + 1), i);
    }
    probe(j, sym::bytes::<3>());
}
/// several uses with contents of their own
fn row(n: usize) {
    with();
    for _ in 0..n {
        probe(sym::upto(PROBES), sym::bytes::<3>());
        with();
    }
}
/// the same use over and over
fn again(reps: usize) {
    with();
    let j = sym::upto(PROBES);
    for i in 0..reps {
        probe(j, if i + 2 < reps { [(i % 50) as u8 + 1, i as u8, 200] } else { sym::bytes::<3>() });
    }
}
/// a large value, then a small one
fn large() {
    with();
    want!("small");
    let n = long();
    let v = ends(n);
    match sym::upto(4) {
        0 => {
            let d = Dynamic::<u30, Bytes>::new(Bytes::from_vec(v.clone()));
            let e = enc(&d);
            sym::check(e.len() == n + 4 && same(&e[4..], &v), "a value encodes to something else");
        }
        1 => {
            let (r, _) = parse1::<Bytes>(&v);
            sym::check(matches!(r, Ok(x) if same(&x, &v)), "an encoding decodes to something else");
        }
        2 => {
            let (r, _) = parse1::<LimSeq<u8, 2>>(&v);
            sym::check(r.is_err(), "what is no encoding is decoded");
        }
        3 => {
            let mut p = SliceParser::from_buffer((&v[..]).into());
            for i in 0..33 {
                sym::check(p.set_fit(n - i.min(n)).is_ok(), "a window that fits was refused");
            }
        }
        _ => {
            use tedium::conv::target::Target;
            let mut b = MemoBuilder::create();
            b.push_all(&v);
        }
    }
    sym::cover("small");
    probe(sym::upto(PROBES), sym::bytes::<3>())
}
harnesses! {
    fn p46_row2() { row(2) }
    fn p46_after1() { after(1) }
    fn p46_after2() { after(2) }
    fn p46_after9() { after(9) }
    fn p46_after70() { after(70) }
    fn p46_after300() { after(300) }
    fn p46_mixed() { mixed(17) }
    fn p46_mixed40() { mixed(140) }
    fn p46_again() { again(5) }
    fn p46_again40() { again(40) }
    fn p46_again300() { again(300) }
    fn p46_large() { large() }
    fn p46_row2__chk() { row(2) }
    fn p46_after9__elo() { after(9) }
    fn p46_after9__avf() { after(9) }
    fn p46t_row3() { row(3) }
    fn p46t_after5000() { after(5000) }
    fn p46t_mixed3000() { mixed(3000) }
}
