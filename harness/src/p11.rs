//! Padded values: the value, then exactly K padding bytes, written as zeros.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

/// `inner`: bytes the payload takes at the front of the input, if it is well-formed
fn padded<T: Encode + Decode + Estimable, const K: usize>(x: T, raw: Vec<u8>, len: usize, strict: bool, inner: impl Fn(&[u8]) -> Option<usize>) {
    want!("decoded", "refused");
    let p = Padded::<T, K>::new(x);
    let e = enc(&p);
    sym::check(e.len() == raw.len() + K && same(&e[..raw.len()], &raw), "the payload is not at the front");
    let mut zero = true;
    for i in raw.len()..e.len() {
        zero &= e[i] == 0;
    }
    sym::check(zero, "the padding is not zero");
    sym::check(p.estimate() == e.len() && p.enc_len() == e.len(), "the length does not count the padding");
    sym::check(same(&p.to_bytes(), &e), "to_bytes differs from write_to");
    // decoding
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Padded<T, K>>(&b);
    let mut want = None;
    if let Some(n) = inner(&b) {
        if b.len() >= n && b.len() - n >= K {
            let mut zero = true;
            for i in n..n + K {
                zero &= b[i] == 0;
            }
            if zero || !strict {
                want = Some(n);
            }
        }
    }
    match (r, want) {
        (Ok(y), Some(n)) => {
            sym::cover("decoded");
            sym::check(left == b.len() - n - K, "decoding did not consume exactly payload and padding");
            sym::check(same(&enc(y.as_inner()), &b[..n]), "the payload did not survive");
        }
        (Err(_), None) => sym::cover("refused"),
        (Ok(_), None) => sym::check(false, "a malformed or unpadded value was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a well-formed value was refused"),
    }
}
fn one(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 { Some(1) } else { None }
}
fn two(b: &[u8]) -> Option<usize> {
    if b.len() >= 2 { Some(2) } else { None }
}
fn flag(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 && (b[0] == 0 || b[0] == 0xff) { Some(1) } else { None }
}
fn framed(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 && b.len() - 1 >= b[0] as usize { Some(sym::split(1 + b[0] as usize)) } else { None }
}
fn dynamic<const K: usize>() {
    #[cfg(feature = "rlx")]
    {
        let v = sym::vec(sym::upto(3));
        let mut raw = vec![v.len() as u8];
        raw.extend_from_slice(&v);
        padded::<Dynamic<u8, Bytes>, K>(Dynamic::new(Bytes::from_vec(v)), raw, 6, false, framed)
    }
}
/// much padding, of which two bytes, the one before the last and any other, may be anything
fn far<const K: usize>(strict: bool) {
    want!("decoded", "short");
    if strict {
        want!("not zero");
    }
    let v = sym::u16();
    let p = Padded::<u16, K>::new(v);
    let e = enc(&p);
    let mut want = to_be(v as u64, 2);
    want.resize(2 + K, 0);
    sym::check(same(&e, &want), "the encoding is not the payload and zeros");
    sym::check(p.estimate() == e.len() && p.enc_len() == e.len(), "the length does not count the padding");
    sym::check(same(&p.to_bytes(), &e), "to_bytes differs from write_to");
    let at = 2 + edge(K - 1);
    let mut x = sym::u8();
    want[at] = x;
    if at != K {
        want[K] = sym::u8();
        x |= want[K];
    }
    match sym::upto(2) {
        0 => {}
        1 => want.push(sym::u8()),
        _ => {
            want.pop();
        }
    }
    let (r, left) = parse::<Padded<u16, K>>(&want);
    match r {
        Ok(y) => {
            sym::cover("decoded");
            sym::check(want.len() >= 2 + K, "a value without all of its padding was accepted");
            sym::check(x == 0 || !strict, "padding other than zero was accepted");
            sym::check(left == want.len() - 2 - K, "decoding did not consume exactly payload and padding");
            sym::check(y.into_inner() == v, "the payload did not survive");
        }
        Err(_) => {
            sym::cover(if want.len() >= 2 + K { "not zero" } else { "short" });
            sym::check(want.len() < 2 + K || (strict && x != 0), "a well-formed value was refused");
        }
    }
}
/// much padding behind a value of any length
fn far_dynamic<const K: usize>() {
    #[cfg(feature = "rlx")]
    {
        let v = sym::vec(match sym::upto(3) { 0 => 0, 1 => 1, 2 => 17, _ => 255 });
        let p = Padded::<Dynamic<u8, Bytes>, K>::new(Dynamic::new(Bytes::from_vec(v.clone())));
        let e = enc(&p);
        let mut want = vec![v.len() as u8];
        want.extend_from_slice(&v);
        want.resize(1 + v.len() + K, 0);
        sym::check(same(&e, &want), "the encoding is not the payload and zeros");
        sym::check(p.estimate() == e.len() && p.enc_len() == e.len() && p.unknown() == e.len(), "the length does not count the padding");
        sym::check(same(&p.to_bytes(), &e) && same(&p.to_bytes_full(), &e), "to_bytes differs from write_to");
        let more = sym::upto(1);
        let (r, left) = parse::<Padded<Dynamic<u8, Bytes>, K>>(&with_tail(&want, more));
        sym::check(left == more && r.map_or(false, |y| same(&y.into_inner().into_inner()[..], &v)), "the value did not come back");
        sym::check(parse::<Padded<Dynamic<u8, Bytes>, K>>(&want[..want.len() - 1]).0.is_err(), "a value without all of its padding was accepted");
    }
}
harnesses! {
    fn p11_u8_0() { let v = sym::u8(); padded::<u8, 0>(v, vec![v], 2, false, one) }
    fn p11_u8_1() { let v = sym::u8(); padded::<u8, 1>(v, vec![v], 3, false, one) }
    fn p11_u16_3() { let v = sym::u16(); padded::<u16, 3>(v, to_be(v as u64, 2), 7, false, two) }
    fn p11_bool_2() { let v = sym::bool(); padded::<bool, 2>(v, vec![if v { 255 } else { 0 }], 5, false, flag) }
    fn p11_u8_8() { let v = sym::u8(); padded::<u8, 8>(v, vec![v], 10, false, one) }
    fn p11_u16_3__rel() { let v = sym::u16(); padded::<u16, 3>(v, to_be(v as u64, 2), 7, false, two) }
    fn p11_nested__chk() { let v = sym::u8(); padded::<Padded<u8, 1>, 2>(Padded::new(v), vec![v, 0], 5, true, |b| if b.len() >= 2 && b[1] == 0 { Some(2) } else { None }) }
    fn p11_u8_0__chk() { let v = sym::u8(); padded::<u8, 0>(v, vec![v], 2, true, one) }
    fn p11_u8_1__chk() { let v = sym::u8(); padded::<u8, 1>(v, vec![v], 3, true, one) }
    fn p11_u16_3__chk() { let v = sym::u16(); padded::<u16, 3>(v, to_be(v as u64, 2), 7, true, two) }
    fn p11_bool_2__chk() { let v = sym::bool(); padded::<bool, 2>(v, vec![if v { 255 } else { 0 }], 5, true, flag) }
    fn p11_u16_2__rlx() { let v = sym::u16(); padded::<u16, 2>(v, to_be(v as u64, 2), 6, false, two) }
    fn p11_dynamic_1__rlx() { dynamic::<1>() }
    fn p11_dynamic_2__rlx() { dynamic::<2>() }
    fn p11_many__elo() { let v = sym::u16(); padded::<u16, 20>(v, to_be(v as u64, 2), 24, false, two) }
    fn p11_far_dynamic__rlx() { match sym::upto(2) { 0 => far_dynamic::<256>(), 1 => far_dynamic::<257>(), _ => far_dynamic::<1000>() } }
    fn p11_far16() { far::<16>(false) }
    fn p11_far64() { far::<64>(false) }
    fn p11_far300() { far::<300>(false) }
    fn p11_far16__chk() { far::<16>(true) }
    fn p11_far33__chk() { far::<33>(true) }
    fn p11_far67__chk() { far::<67>(true) }
    fn p11_far257__chk() { far::<257>(true) }
    fn p11_far1031__chk() { far::<1031>(true) }
    fn p11_far1031() { far::<1031>(false) }
    fn p11_far300__chk() { far::<300>(true) }
    fn p11_far64__rlx() { far::<64>(false) }
}
