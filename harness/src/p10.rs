//! Values followed by K reserved bytes: decoded from exactly all but the last K bytes.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::*;


/// any input, any payload that fills its span
fn decodes<const K: usize, T: Decode>(len: usize, window: bool, payload: impl Fn(&[u8]) -> bool, value: impl Fn(&T, &[u8]) -> bool) {
    want!("decoded");
    if K > 0 {
        want!("refused");
    }
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => on::<_, K, T>(ByteParser::from_buffer((&b[..]).into()), &b, window, &payload, &value),
        1 => on::<_, K, T>(MemoParser::from_buffer((&b[..]).into()), &b, window, &payload, &value),
        _ => on::<_, K, T>(SliceParser::from_buffer((&b[..]).into()), &b, window, &payload, &value),
    }
}
fn on<P: Parser, const K: usize, T: Decode>(mut p: P, b: &[u8], window: bool, payload: &impl Fn(&[u8]) -> bool, value: &impl Fn(&T, &[u8]) -> bool) {
    let mut scope = b;
    if window {
        let w = sym::usize();
        let r = p.set_fit(w);
        sym::check(r.is_ok() == (w <= b.len()), "a window opens exactly when it fits");
        if r.is_err() {
            return;
        }
        scope = &b[..sym::split(w)];
    }
    let r = VPadded::<T, K>::parse(&mut p);
    let fits = scope.len() >= K && payload(&scope[..scope.len() - K]);
    match r {
        Ok(x) => {
            sym::cover("decoded");
            sym::check(fits, "a payload that does not fill its span was accepted");
            sym::check(p.remainder() == K, "the reserved bytes are not what is left");
            sym::check(value(&x.into_inner(), &scope[..scope.len() - K]), "decoded payload differs");
            let t = p.consume(K);
            sym::check(matches!(t, Ok(s) if same(s, &scope[scope.len() - K..])), "the reserved bytes cannot be read afterwards");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!fits, "a well-formed value was refused");
        }
    }
}
fn bytes_ok(_: &[u8]) -> bool {
    true
}
fn bytes_eq(x: &Bytes, b: &[u8]) -> bool {
    same(x, b)
}
/// round trip in its intended place: in front of K bytes of other fields
fn record<const K: usize>(len: usize) {
    let v = sym::vec(sym::upto(len));
    let x = VPadded::<Bytes, K>::new(Bytes::from_vec(v.clone()));
    let e = enc(&x);
    sym::check(same(&e, &v), "the reserved bytes are emitted, or the payload altered");
    sym::check(x.estimate() == v.len() && x.to_bytes_len() == v.len(), "the length is not the payload's");
    let all = with_tail(&e, K);
    let (r, left) = parse::<VPadded<Bytes, K>>(&all);
    sym::check(left == K, "the reserved bytes are not what is left");
    sym::check(r.map_or(false, |y| same(&y.into_inner(), &v)), "the payload did not survive");
}
trait L {
    fn to_bytes_len(&self) -> usize;
}
impl<T: tedium::conv::EncodeLength> L for T {
    fn to_bytes_len(&self) -> usize {
        self.enc_len()
    }
}
/// many reserved bytes: inputs around their number
fn far<const K: usize>() {
    want!("decoded", "refused");
    let n = match sym::upto(5) { 0 => 0, 1 => K - 1, 2 => K, 3 => K + 1, 4 => K + 17, _ => K + 300 };
    let b = ends(n);
    match sym::upto(2) {
        0 => on::<_, K, Bytes>(ByteParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
        1 => on::<_, K, Bytes>(MemoParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
        _ => on::<_, K, Bytes>(SliceParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
    }
}
/// a long payload in front of a few reserved bytes
fn far_payload<const K: usize>() {
    want!("decoded");
    let b = ends(long());
    match sym::upto(2) {
        0 => on::<_, K, Bytes>(ByteParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
        1 => on::<_, K, Bytes>(MemoParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
        _ => on::<_, K, Bytes>(SliceParser::from_buffer((&b[..]).into()), &b, false, &bytes_ok, &bytes_eq),
    }
}
harnesses! {
    fn p10_bytes0() { decodes::<0, Bytes>(5, false, bytes_ok, bytes_eq) }
    fn p10_zero_u16() { want!("refused"); decodes::<0, u16>(4, false, |b| b.len() == 2, |x, b| *x as u64 == be(b)) }
    fn p10_zero_u8_window() { want!("refused"); decodes::<0, u8>(3, true, |b| b.len() == 1, |x, b| *x == b[0]) }
    fn p10_zero_nullable() { want!("refused"); decodes::<0, Nullable<u8>>(3, false, |b| b.len() <= 1, |x, b| match x.as_inner() { None => b.is_empty(), Some(v) => b.len() == 1 && *v == b[0] }) }
    fn p10_one_n() { decodes::<1, Dynamic<u8, Bytes>>(5, false, |b| !b.is_empty() && b[0] as usize == b.len() - 1, |x, b| same(x.as_ref(), &b[1..])) }
    fn p10_bytes1() { decodes::<1, Bytes>(5, false, bytes_ok, bytes_eq) }
    fn p10_bytes4() { decodes::<4, Bytes>(6, false, bytes_ok, bytes_eq) }
    fn p10_bytes4__rel() { decodes::<4, Bytes>(6, false, bytes_ok, bytes_eq) }
    fn p10_window2() { decodes::<2, Bytes>(5, true, bytes_ok, bytes_eq) }
    fn p10_window3__rel() { decodes::<3, Bytes>(5, true, bytes_ok, bytes_eq) }
    fn p10_u16() { decodes::<2, u16>(6, false, |b| b.len() == 2, |x, b| *x as u64 == be(b)) }
    fn p10_seq() {
        decodes::<1, Sequence<u16>>(6, false, |b| b.len() % 2 == 0, |x, b| { let mut ok = x.len() * 2 == b.len(); for i in 0..x.len() { ok &= x[i] as u64 == be(&b[2 * i..2 * i + 2]); } ok })
    }
    fn p10_nullable() {
        decodes::<2, Nullable<u8>>(5, false, |b| b.len() <= 1, |x, b| match x.as_inner() { None => b.is_empty(), Some(v) => b.len() == 1 && *v == b[0] })
    }
    fn p10_record0() { record::<0>(4) }
    fn p10_record3() { record::<3>(4) }
    fn p10_record8() { record::<8>(5) }
    fn p10_far16() { far::<16>() }
    fn p10_far64() { far::<64>() }
    fn p10_far256() { far::<256>() }
    fn p10_far300() { far::<300>() }
    fn p10_payload2() { far_payload::<2>() }
    fn p10_record40() { record::<40>(4) }
    fn p10_record300() { record::<300>(2) }
}
