//! Decoding looks at nothing but the bytes it consumes: same result whatever follows, and failure on every proper prefix.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::*;

#[derive(Encode, Decode, Debug, PartialEq, Clone)]
struct Rec {
    a: u8,
    b: Option<u8>,
    c: Dynamic<u8, Bytes>,
}
#[derive(Encode, Decode, Debug, PartialEq, Clone)]
struct Tuple(bool, Dynamic<u8, Nested>, N);
#[derive(Encode, Decode, Estimable, Debug, PartialEq, Clone)]
struct Nested {
    a: VPadded<Bytes, 1>,
    b: u8,
}
cstyle!(Color, u8, { Red = 1, Green = 3, Blue = 255 });
data!(Shape, u8, shape, { 0 => Nothing, 1 => Dot(pub u8, pub u16), 7 => Blob(pub Dynamic<u8, Bytes>) });

/// `b`: arbitrary input; `same_value` compares
#[inline(never)]
fn local<T: Decode + PartialEq>(max: usize) {
    want!("ok", "tail", "prefix");
    let n = sym::upto(max);
    let b = sym::vec(n);
    let (r, left) = parse1::<T>(&b);
    let x = match r {
        Ok(x) => x,
        Err(_) => return,
    };
    sym::cover("ok");
    sym::check(left <= n, "more bytes left than there were");
    let k = sym::split(n - left);
    match sym::upto(2) {
        0 => {
            // exactly the consumed bytes
            let (s, l) = parse::<T>(&b[..k]);
            sym::check(l == 0, "the consumed bytes alone are not consumed completely");
            match s {
                Ok(y) => sym::check(y == x, "the consumed bytes alone decode to another value"),
                Err(_) => sym::check(false, "the consumed bytes alone do not decode"),
            }
        }
        1 => {
            // another tail
            sym::cover("tail");
            let t = sym::upto(2);
            let c = with_tail(&b[..k], t);
            let (s, l) = parse::<T>(&c);
            sym::check(l == t, "what follows changes how much is consumed");
            match s {
                Ok(y) => sym::check(y == x, "what follows changes the value"),
                Err(_) => sym::check(false, "what follows changes whether a value decodes"),
            }
        }
        _ => {
            if k > 0 {
                let j = sym::upto(k - 1);
                sym::cover("prefix");
                let (s, _) = parse::<T>(&b[..j]);
                sym::check(s.is_err(), "a proper prefix of an encoding decodes too");
            }
        }
    }
}
/// two values written one after the other are read back one after the other
#[inline(never)]
fn juxtaposed<T: Decode + Encode + PartialEq>(max: usize) {
    want!("two");
    let (b, c) = (sym::vec(sym::upto(max)), sym::vec(sym::upto(max)));
    let (x, y) = match (parse1::<T>(&b), parse1::<T>(&c)) {
        ((Ok(x), _), (Ok(y), _)) => (x, y),
        _ => return,
    };
    sym::cover("two");
    let mut all = enc(&x);
    all.extend(enc(&y));
    let mut p = ByteParser::from_buffer((&all[..]).into());
    match (T::parse(&mut p), T::parse(&mut p)) {
        (Ok(u), Ok(v)) => {
            sym::check(u == x && v == y, "two values in a row are read back as others");
            sym::check(p.remainder() == 0, "two values in a row are not read completely");
        }
        _ => sym::check(false, "two values in a row are not read back"),
    }
}
/// `head` makes a value of the first `k` of many bytes
#[inline(never)]
fn far<T: Decode + PartialEq>(head: &[u8], k: usize) {
    want!("ok", "tail", "prefix");
    let mut b = head.to_vec();
    b.extend_from_slice(&ends(k - head.len()));
    let (r, l) = parse::<T>(&b);
    let x = match r {
        Ok(x) => x,
        Err(_) => return sym::check(false, "the value does not decode"),
    };
    sym::check(l == 0, "the value is not all the bytes");
    sym::cover("ok");
    if sym::upto(1) == 0 {
        sym::cover("tail");
        let t = wide();
        let c = with_tail(&b, t);
        let (s, l) = parse::<T>(&c);
        sym::check(l == t, "what follows changes how much is consumed");
        match s {
            Ok(y) => sym::check(y == x, "what follows changes the value"),
            Err(_) => sym::check(false, "what follows changes whether a value decodes"),
        }
    } else {
        let j = edge(k - 1);
        sym::cover("prefix");
        let (s, _) = parse::<T>(&b[..j]);
        sym::check(s.is_err(), "a proper prefix of an encoding decodes too");
    }
}
harnesses! {
    fn p36_u32() { local::<u32>(5) }
    fn p36_bool() { local::<bool>(2) }
    fn p36_i64() { local::<i64>(9) }
    fn p36_ranged() { local::<RangedInt<u16, 5, 300>>(3) }
    fn p36_u30() { local::<u30>(5) }
    fn p36_n() { local::<N>(3) }
    fn p36_z() { local::<Z>(3) }
    fn p36_fixed() { local::<FixedBytes<3>>(4) }
    fn p36_option() { local::<Option<u16>>(4) }
    fn p36_option_dyn() { local::<Option<Dynamic<u8, Bytes>>>(4) }
    fn p36_dynamic() { local::<Dynamic<u8, Bytes>>(4) }
    fn p36_dynamic16() { local::<Dynamic<u16, Sequence<u8>>>(4) }
    fn p36_dynamic30() { local::<Dynamic<u30, LimSeq<u8, 2>>>(6) }
    fn p36_dynamic_nullable() { local::<Dynamic<u8, Nullable<u16>>>(4) }
    fn p36_dynamic_string() { local::<Dynamic<u8, LimSeq<bool, 2>>>(4) }
    fn p36_fixseq() { local::<FixSeq<Option<u8>, 2>>(5) }
    fn p36_padded() { local::<Padded<u16, 2>>(5) }
    fn p36_padded__chk() { local::<Padded<u16, 2>>(5) }
    fn p36_autobox() { local::<AutoBox<Option<bool>>>(3) }
    fn p36_rec() { local::<Rec>(5) }
    fn p36_tuple() { local::<Tuple>(5) }
    fn p36_color() { local::<Color>(2) }
    fn p36_shape() { local::<Shape>(4) }
    fn p36_dyn_seq() { local::<Dynamic<u8, Sequence<Dynamic<u8, Bytes>>>>(5) }
    fn p36_row_dynamic() { juxtaposed::<Dynamic<u8, Bytes>>(3) }
    fn p36_row_option() { juxtaposed::<Option<u16>>(3) }
    fn p36_row_n() { juxtaposed::<N>(2) }
    fn p36_row_z() { juxtaposed::<Z>(2) }
    fn p36_row_shape() { juxtaposed::<Shape>(4) }
    fn p36_row_rec() { juxtaposed::<Rec>(4) }
    fn p36t_rec() { local::<Rec>(8) }
    fn p36t_tuple() { local::<Tuple>(8) }
    fn p36t_dyn_seq() { local::<Dynamic<u8, Sequence<Dynamic<u8, Bytes>>>>(7) }
    fn p36t_n() { local::<N>(6) }
    fn p36t_z() { local::<Z>(6) }
    fn p36t_row_rec() { juxtaposed::<Rec>(6) }
    fn p36_far_fixed() { far::<FixedBytes<65>>(&[], 65) }
    fn p36_far_fixseq() { far::<FixSeq<u16, 40>>(&[], 80) }
    fn p36_far_dynamic() { far::<Dynamic<u16, Bytes>>(&[1, 4], 262) }
    fn p36_far_dynamic8() { far::<Dynamic<u8, Sequence<u16>>>(&[200], 201) }
    fn p36_far_padded() { far::<Padded<u16, 40>>(&[], 42) }
    fn p36_far_n() { far::<N>(&{ let mut v = vec![0x81u8; 30]; v.push(1); v }, 31) }
    fn p36_far_shape() { far::<Shape>(&[7, 100], 102) }
    fn p36_far_u16() { far::<u16>(&[], 2) }
}
