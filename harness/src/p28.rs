//! Nullable values: nothing is no bytes, something is its own bytes; the end of the scope tells them apart.
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::conv::len::Estimable;
use tedium::conv::EncodeLength;
use tedium::*;

/// `scope` is what is visible: the whole input, or an open window at its front
fn on<P: Parser, T: Decode + Encode>(mut p: P, b: &[u8], known: &impl Fn(&[u8]) -> Option<usize>) {
    let mut scope = b;
    if sym::upto(1) == 1 {
        let w = sym::upto(b.len());
        sym::check(p.set_fit(w).is_ok(), "a window that fits was refused");
        scope = &b[..w];
    }
    let r = Nullable::<T>::parse(&mut p);
    let left = p.remainder();
    match r {
        Ok(x) => match x.as_inner() {
            None => {
                sym::cover("none");
                sym::check(scope.is_empty(), "bytes were taken for nothing");
                sym::check(left == 0, "nothing consumed something");
            }
            Some(v) => {
                sym::cover("some");
                sym::check(!scope.is_empty(), "a value was made from nothing");
                sym::check(matches!(known(scope), Some(n) if left == scope.len() - n), "the value did not consume its own bytes");
                sym::check(same(&enc(v), &scope[..scope.len() - left]), "the value is not the bytes'");
                sym::check(same(&enc(&x), &scope[..scope.len() - left]), "re-encoding differs from the bytes decoded");
            }
        },
        Err(_) => {
            sym::cover("refused");
            sym::check(!scope.is_empty() && known(scope).is_none(), "a well-formed value was refused");
        }
    }
}
fn decodes<T: Decode + Encode>(len: usize, known: impl Fn(&[u8]) -> Option<usize>) {
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => on::<_, T>(ByteParser::from_buffer((&b[..]).into()), &b, &known),
        1 => on::<_, T>(MemoParser::from_buffer((&b[..]).into()), &b, &known),
        _ => on::<_, T>(SliceParser::from_buffer((&b[..]).into()), &b, &known),
    }
}
fn w2(b: &[u8]) -> Option<usize> {
    if b.len() >= 2 { Some(2) } else { None }
}
fn w1(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 { Some(1) } else { None }
}
fn flag(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 && (b[0] == 0 || b[0] == 255) { Some(1) } else { None }
}
fn dyn1(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 && b.len() - 1 >= b[0] as usize { Some(1 + sym::split(b[0] as usize)) } else { None }
}
fn all(b: &[u8]) -> Option<usize> {
    Some(b.len())
}
/// values, through every way in and out
#[inline(never)]
fn value<T: Encode + Decode + Estimable + PartialEq + Clone>(o: Option<T>, raw: &[u8]) {
    want!("some", "none");
    let n: Nullable<T> = match sym::upto(3) {
        0 => o.clone().into(),
        1 => match o.clone() {
            Some(x) => x.into(),
            None => Nullable::default(),
        },
        2 => {
            let mut n = Nullable::default();
            *n.as_mut_inner() = o.clone();
            n
        }
        _ => {
            let n: Nullable<T> = o.clone().into();
            n.clone()
        }
    };
    sym::check(n.is_some() == o.is_some() && n.is_none() == o.is_none(), "presence is reported wrongly");
    sym::cover(if o.is_some() { "some" } else { "none" });
    let e = enc(&n);
    sym::check(same(&e, raw), "nothing is not no bytes, or something not its own bytes");
    sym::check(same(&n.to_bytes(), raw), "to_bytes differs");
    sym::check(n.enc_len() == raw.len() && n.estimate() == raw.len(), "the length is not the content's");
    sym::check(*n.as_inner() == o && n.clone().into_inner() == o && Option::<T>::from(n.clone()) == o, "the content is another");
    let (r, left) = parse::<Nullable<T>>(&e);
    sym::check(matches!(r, Ok(x) if x == n) && left == 0, "the value did not survive");
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> {
    if sym::split(sym::upto(1)) == 1 { Some(f()) } else { None }
}
fn values() {
    match sym::upto(2) {
        0 => {
            let x = sym::u16();
            let o = opt(|| x);
            value(o, &if o.is_some() { to_be(x as u64, 2) } else { vec![] })
        }
        1 => {
            let v = sym::vec(sym::between(1, 3));
            let o = opt(|| Bytes::from_vec(v.clone()));
            let raw = if o.is_some() { v } else { vec![] };
            value(o, &raw)
        }
        _ => {
            let v = sym::vec(sym::upto(2));
            let o = opt(|| Dynamic::<u8, Bytes>::new(Bytes::from_vec(v.clone())));
            let mut raw = vec![];
            if o.is_some() {
                raw.push(v.len() as u8);
                raw.extend_from_slice(&v);
            }
            value(o, &raw)
        }
    }
}
/// inside a prefix: the prefix tells
fn framed() {
    want!("some", "none", "refused");
    let b = sym::vec(sym::upto(5));
    let (r, left) = parse::<Dynamic<u8, Nullable<u16>>>(&b);
    let w = if b.is_empty() { None } else { Some(b[0]) };
    match r {
        Ok(d) => match d.into_inner().into_inner() {
            None => {
                sym::cover("none");
                sym::check(w == Some(0) && left == b.len() - 1, "nothing was decoded from something");
            }
            Some(x) => {
                sym::cover("some");
                sym::check(w == Some(2) && b.len() >= 3 && x as u64 == be(&b[1..3]) && left == b.len() - 3, "another value was decoded");
            }
        },
        Err(_) => {
            sym::cover("refused");
            sym::check(!(w == Some(0) || w == Some(2) && b.len() >= 3), "a well-formed value was refused");
        }
    }
}
/// long contents
fn far() {
    want!("some", "refused");
    let n = long();
    let b = ends(n);
    let w = match sym::upto(2) { 0 => n, 1 => n - 1, _ => 1 };
    macro_rules! run {
        ($p:ty, $t:ty, $ok:expr, $len:expr) => {{
            let mut p = <$p>::from_buffer((&b[..]).into());
            sym::check(p.set_fit(w).is_ok(), "a window that fits was refused");
            match Nullable::<$t>::parse(&mut p) {
                Ok(x) => {
                    sym::cover("some");
                    sym::check($ok && x.is_some(), "the value is not the bytes'");
                    sym::check(p.remainder() == w - $len && same(&enc(&x), &b[..$len]), "the value did not consume its own bytes");
                }
                Err(_) => {
                    sym::cover("refused");
                    sym::check(!$ok, "a well-formed value was refused");
                }
            }
        }};
    }
    match sym::upto(4) {
        0 => run!(ByteParser, Bytes, true, w),
        1 => run!(MemoParser, Bytes, true, w),
        2 => run!(SliceParser, Bytes, true, w),
        3 => run!(ByteParser, FixedBytes<17>, w >= 17, 17),
        _ => run!(ByteParser, Sequence<u16>, w % 2 == 0, w),
    }
}
fn far_values() {
    let v = ends(long());
    let o = opt(|| Bytes::from_vec(v.clone()));
    let raw = if o.is_some() { v } else { vec![] };
    value(o, &raw)
}
harnesses! {
    fn p28_u8() { want!("none", "some"); decodes::<u8>(3, w1) }
    fn p28_u16() { want!("none", "some", "refused"); decodes::<u16>(4, w2) }
    fn p28_bool() { want!("none", "some", "refused"); decodes::<bool>(3, flag) }
    fn p28_bytes() { want!("none", "some"); decodes::<Bytes>(4, all) }
    fn p28_dynamic() { want!("none", "some", "refused"); decodes::<Dynamic<u8, Bytes>>(4, dyn1) }
    fn p28_values() { values() }
    fn p28_framed() { framed() }
    fn p28_u16__rel() { want!("none", "some", "refused"); decodes::<u16>(4, w2) }
    fn p28_framed__rel() { framed() }
    fn p28_values__elo() { values() }
    fn p28t_dynamic() { want!("none", "some", "refused"); decodes::<Dynamic<u8, Bytes>>(8, dyn1) }
    fn p28_far() { far() }
    fn p28_far_values() { far_values() }
}
