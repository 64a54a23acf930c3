//! Byte strings, builders and wrappers hold one content, whichever way in, out or through.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Borrow;
use std::convert::TryFrom;
use std::io::Write;
use std::iter::FromIterator;
use std::ops::{Deref, DerefMut};
use tedium::builder::Builder;
use tedium::*;

/// up to 3 bytes, or many with a few unconstrained
#[inline(never)]
fn content() -> Vec<u8> {
    match sym::upto(5) {
        0 => vec![],
        1 => sym::vec(1),
        2 => sym::vec(2),
        3 => sym::vec(3),
        4 => ends(17),
        _ => ends(if sym::upto(1) == 0 { 300 } else { 8193 }),
    }
}
/// an index worth changing
fn place(n: usize) -> usize {
    match sym::upto(2) {
        0 => 0,
        1 => n / 2,
        _ => n - 1,
    }
}
fn make_bytes(v: &[u8]) -> Bytes {
    match sym::upto(6) {
        0 => Bytes::from_vec(v.to_vec()),
        1 => Bytes::from(v.to_vec()),
        2 => Bytes::from(v),
        3 => {
            let mut w = v.to_vec();
            Bytes::from(&mut w[..])
        }
        4 => Bytes::from(v.to_vec().into_boxed_slice()),
        5 => v.iter().copied().collect(),
        _ => {
            let mut b = Bytes::new();
            let h = v.len() / 2;
            b.extend(v[..h].iter().copied());
            b.extend(v[h..].to_vec());
            b
        }
    }
}
/// the same bytes at any position, and nothing beyond
fn at_any(b: &[u8], v: &[u8]) -> bool {
    let i = if v.len() > 300 { edge_or_past(v.len()) } else { sym::usize() };
    b.get(i) == v.get(i)
}
/// bytes to write
fn piece() -> Vec<u8> {
    match sym::upto(3) { 0 => vec![], 1 => sym::vec(2), 2 => ends(300), _ => ends(8193) }
}
fn read_bytes(b: Bytes, v: &[u8]) {
    let ok = match sym::upto(11) {
        0 => same(AsRef::<[u8]>::as_ref(&b), v),
        1 => same(AsRef::<Vec<u8>>::as_ref(&b), v),
        2 => same(b.deref(), v) && b.len() == v.len() && b.is_empty() == v.is_empty(),
        3 => same(&b.into_vec(), v),
        4 => same(&Vec::<u8>::from(b), v),
        5 => same(&Box::<[u8]>::from(b), v),
        6 => same(&b.into_iter().collect::<Vec<u8>>(), v),
        7 => same(&(&b).into_iter().copied().collect::<Vec<u8>>(), v),
        8 => same(&b.to_vec(), v) && same(&enc(&b), v),
        9 => same(&b.clone().into_vec(), v) && b.clone() == b,
        10 => at_any(&b, v),
        _ => same(&b.into_iter().rev().collect::<Vec<u8>>(), &v.iter().rev().copied().collect::<Vec<u8>>()),
    };
    sym::check(ok, "a byte string gives back other bytes than it was given")
}
fn bytes() {
    want!("changed");
    let mut v = content();
    let mut b = make_bytes(&v);
    if !v.is_empty() && sym::upto(1) == 1 {
        let (i, x) = (place(v.len()), sym::u8());
        v[i] = x;
        match sym::upto(5) {
            0 => AsMut::<[u8]>::as_mut(&mut b)[i] = x,
            1 => AsMut::<Vec<u8>>::as_mut(&mut b)[i] = x,
            2 => b.deref_mut()[i] = x,
            3 => b[i] = x,
            4 => {
                for (j, y) in (&mut b).into_iter().enumerate() {
                    if j == i {
                        *y = x;
                    }
                }
            }
            _ => {
                v.push(x);
                let w: &mut Vec<u8> = b.as_mut();
                w[i] = x;
                w.push(x)
            }
        }
        sym::cover("changed");
    }
    read_bytes(b, &v)
}
fn bytes_arrays() {
    let mut a = [sym::u8(), sym::u8(), sym::u8()];
    let b = match sym::upto(2) {
        0 => Bytes::from(a),
        1 => Bytes::from(&a),
        _ => Bytes::from(&mut a),
    };
    read_bytes(b, &a);
    sym::check(Bytes::default().is_empty() && Bytes::new() == Bytes::default() && Bytes::from([0u8; 0]).is_empty(), "an empty byte string holds something")
}
fn hexstring() {
    want!("changed");
    let mut v = content();
    let mut h = match sym::upto(5) {
        0 => HexString::from_vec(v.clone()),
        1 => HexString::from(v.clone()),
        2 => v.iter().copied().collect::<HexString>(),
        3 => v.iter().collect::<HexString>(),
        4 => HexString::from_bytes(v.clone()),
        _ => HexString::clone_from_bytes(v.clone()),
    };
    if !v.is_empty() && sym::upto(1) == 1 {
        let (i, x) = (place(v.len()), sym::u8());
        v[i] = x;
        match sym::upto(4) {
            0 => h.as_mut_bytes()[i] = x,
            1 => h.as_mut_vec()[i] = x,
            2 => h.as_mut()[i] = x,
            3 => {
                h.as_mut_vec()[i] = x;
                v.push(x);
                v.push(7);
                h.extend([x, 7u8].iter())
            }
            _ => {
                h.as_mut_bytes()[i] = x;
                v.push(x);
                h.extend(std::iter::once(x))
            }
        }
        sym::cover("changed");
    }
    let ok = match sym::upto(9) {
        0 => same(h.as_bytes(), &v),
        1 => same(h.as_vec(), &v),
        2 => same(h.as_ref(), &v),
        3 => same(&h.into_inner(), &v),
        4 => same(&Vec::<u8>::from(h), &v),
        5 => same(&h.into_iter().collect::<Vec<u8>>(), &v),
        6 => same(&(&h).into_iter().copied().collect::<Vec<u8>>(), &v),
        7 => same(&h.iter().copied().collect::<Vec<u8>>(), &v) && h.len() == v.len() && h.is_empty() == v.is_empty(),
        8 => at_any(h.as_ref(), &v),
        _ => h.clone() == h && same(h.clone().as_bytes(), &v),
    };
    sym::check(ok, "a hex string holds other bytes than it was given");
    sym::check(HexString::new().is_empty() && HexString::new() == HexString::from_vec(vec![]), "an empty hex string holds something")
}
fn strict() {
    let v = content();
    let mut s = if sym::upto(1) == 0 { StrictBuilder::from(v.clone()) } else { StrictBuilder::from(&v[..]) };
    let mut w = v.clone();
    match sym::upto(3) {
        0 => (),
        1 => {
            let x = piece();
            sym::check(s.write(&x).map_or(false, |n| n == x.len()) && s.flush().is_ok(), "writing did not take everything");
            w.extend_from_slice(&x);
        }
        2 => {
            let x = piece();
            sym::check(s.write_all(&x).is_ok() && s.write(&[]).map_or(false, |n| n == 0), "writing did not take everything");
            w.extend_from_slice(&x);
        }
        _ => {
            let x = sym::u8();
            s.push_one(x);
            w.push(x);
        }
    }
    let ok = match sym::upto(4) {
        0 => same(Borrow::<[u8]>::borrow(&s), &w),
        1 => same(&Vec::<u8>::from(s), &w),
        2 => same(&s.finalize(), &w),
        3 => s.len() == w.len() && s.is_empty() == w.is_empty(),
        _ => s.clone() == s && same(&StrictBuilder::promote(s).into_vec(), &w),
    };
    sym::check(ok, "a builder holds other bytes than it was given")
}
fn memo() {
    let v = content();
    let mut s = if sym::upto(1) == 0 { MemoBuilder::from(v.clone()) } else { MemoBuilder::from(&v[..]) };
    let mut w = v.clone();
    match sym::upto(2) {
        0 => (),
        1 => {
            let x = piece();
            sym::check(s.write(&x).map_or(false, |n| n == x.len()) && s.flush().is_ok(), "writing did not take everything");
            w.extend_from_slice(&x);
        }
        _ => {
            let x = sym::u8();
            s.push_one(x);
            w.push(x);
        }
    }
    let ok = match sym::upto(3) {
        0 => same(&Vec::<u8>::from(s), &w),
        1 => same(&Vec::<u8>::from(s.finalize()), &w),
        2 => s.len() == w.len() && s.is_empty() == w.is_empty(),
        _ => s.clone() == s && same(&s.into_vec(), &w),
    };
    sym::check(ok, "a memoizing builder holds other bytes than it was given")
}
macro_rules! wrapper {
    ($f:ident, $w:ty, [$($new:expr),*], |$x:ident| [$($get:expr),*], |$y:ident, $b:ident| [$($set:expr),*]) => {
        fn $f() {
            let (a, $b) = (sym::u16(), sym::u16());
            let mut $y: $w = {
                let k = sym::upto(255.min([$(stringify!($new)),*].len() - 1));
                let mut i = 0;
                let mut r = None;
                $( if i == k { r = Some(($new)(a)); } i += 1; )*
                r.unwrap()
            };
            let k = sym::upto([$(stringify!($set)),*].len());
            let mut i = 1;
            $( if i == k { $set; } i += 1; )*
            let want = if k == 0 { a } else { $b };
            sym::check($y == $y.clone(), "a wrapper differs from its clone");
            let $x = $y;
            let k = sym::upto([$(stringify!($get)),*].len() - 1);
            let mut i = 0;
            $( if i == k { sym::check($get == want, "a wrapper gives back another value than it was given"); return; } i += 1; )*
        }
    };
}
wrapper!(dynamic, Dynamic<u8, u16>, [Dynamic::new, Dynamic::from, |x: u16| -> Dynamic<u8, u16> { x.into() }],
    |x| [x.into_inner(), *AsRef::<u16>::as_ref(&x), *Borrow::<u16>::borrow(&x), be(&enc(&x)[1..]) as u16],
    |x, b| [*x.as_mut() = b]);
wrapper!(vpadded, VPadded<u16, 3>, [VPadded::new, VPadded::from, |x: u16| -> VPadded<u16, 3> { x.into() }],
    |x| [x.into_inner(), be(&enc(&x)) as u16, x.clone().into_inner()],
    |x, b| [x = VPadded::new(b)]);
wrapper!(padded, Padded<u16, 3>, [Padded::new, Padded::from, |x: u16| Padded::<u16, 1>::with_padding::<3>(x)],
    |x| [x.into_inner(), *x.as_inner(), be(&enc(&x)[..2]) as u16],
    |x, b| [*x.as_mut_inner() = b]);
wrapper!(padded_far, Padded<u16, 70000>, [Padded::new, Padded::from, |x: u16| Padded::<u16, 1>::with_padding::<70000>(x)],
    |x| [x.into_inner(), *x.as_inner()],
    |x, b| [*x.as_mut_inner() = b]);
wrapper!(vpadded_far, VPadded<u16, 70000>, [VPadded::new, VPadded::from, |x: u16| -> VPadded<u16, 70000> { x.into() }],
    |x| [x.into_inner(), be(&enc(&x)) as u16, x.clone().into_inner()],
    |x, b| [x = VPadded::new(b)]);
fn paddings() {
    sym::check(Padded::<u8, 7>::PADDING == 7 && Padded::<u8, 7>::new(sym::u8()).padding() == 7 && Padded::<u16, 0>::new(1).padding() == 0 && Padded::<u16, 300>::PADDING == 300 && Padded::<u8, 70000>::PADDING == 70000 && Padded::<u8, 70000>::new(1).padding() == 70000,
        "the padding told is not the padding declared");
    sym::check(Padded::<u16, 2>::default().into_inner() == 0 && VPadded::<u16, 2>::default().into_inner() == 0, "the default is not that of the payload");
}
fn sequence() {
    want!("changed");
    let n = match sym::upto(5) { 0 => 0, 1 => 1, 2 => 3, 3 => 17, 4 => 300, _ => 8193 };
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 2 || i + 1 == n { sym::u16() } else { i as u16 });
    }
    let mut s = match sym::upto(2) {
        0 => Sequence::from_vec(v.clone()),
        1 => Sequence::from(v.clone()),
        _ => v.iter().copied().collect(),
    };
    if n > 0 && sym::upto(1) == 1 {
        let (i, x) = (place(n), sym::u16());
        v[i] = x;
        match sym::upto(3) {
            0 => s.as_mut_slice()[i] = x,
            1 => s.as_mut()[i] = x,
            2 => s.deref_mut()[i] = x,
            _ => {
                for (j, y) in s.iter_mut().enumerate() {
                    if j == i {
                        *y = x;
                    }
                }
            }
        }
        sym::cover("changed");
    }
    let ok = match sym::upto(7) {
        0 => s.as_slice() == &v[..],
        1 => AsRef::<[u16]>::as_ref(&s) == &v[..],
        2 => s.deref() == &v[..] && s.len() == v.len() && s.is_empty() == v.is_empty(),
        3 => s.into_inner() == v,
        4 => Vec::<u16>::from(s) == v,
        5 => s.clone() == s && s.clone().into_inner() == v,
        6 => {
            let i = if n > 300 { edge_or_past(n) } else { sym::usize() };
            s.get(i) == v.get(i)
        }
        _ => s.into_iter().collect::<Vec<u16>>() == v,
    };
    sym::check(ok, "a sequence gives back other elements than it was given")
}
/// more than 64 KiB: each way in and each way out
fn huge_content() {
    let v = huge();
    match sym::upto(6) {
        0 => sym::check(same(&make_bytes(&v), &v), "a byte string gives back other bytes than it was given"),
        1 => read_bytes(Bytes::from(v.clone()), &v),
        2 => {
            let h = match sym::upto(4) {
                0 => HexString::from(v.clone()),
                1 => v.iter().copied().collect::<HexString>(),
                2 => v.iter().collect::<HexString>(),
                3 => HexString::from_bytes(v.clone()),
                _ => {
                    let mut h = HexString::from_vec(vec![]);
                    h.extend(v.iter());
                    h
                }
            };
            let ok = match sym::upto(3) {
                0 => same(h.as_bytes(), &v) && h.len() == v.len(),
                1 => same(&h.into_inner(), &v),
                2 => same(&h.into_iter().collect::<Vec<u8>>(), &v),
                _ => same(&Vec::<u8>::from(h), &v),
            };
            sym::check(ok, "a hex string holds other bytes than it was given")
        }
        3 => {
            let mut s = StrictBuilder::from(vec![1]);
            let n = if sym::upto(1) == 0 { s.write(&v).unwrap_or(0) } else { s.write_all(&v).map_or(0, |_| v.len()) };
            sym::check(n == v.len() && s.len() == v.len() + 1, "writing did not take everything");
            let s = s.finalize();
            sym::check(s[0] == 1 && same(&s[1..], &v), "a builder holds other bytes than it was given")
        }
        4 => {
            let mut s = MemoBuilder::from(vec![1]);
            let n = if sym::upto(1) == 0 { s.write(&v).unwrap_or(0) } else { s.write_all(&v).map_or(0, |_| v.len()) };
            sym::check(n == v.len() && s.len() == v.len() + 1, "writing did not take everything");
            let s = s.into_vec();
            sym::check(s[0] == 1 && same(&s[1..], &v), "a memoizing builder holds other bytes than it was given")
        }
        5 => {
            let s = match sym::upto(1) { 0 => StrictBuilder::from(v.clone()).into_vec(), _ => MemoBuilder::from(&v[..]).into_vec() };
            sym::check(same(&s, &v), "a builder holds other bytes than it was given")
        }
        _ => {
            let s = match sym::upto(2) { 0 => Sequence::from_vec(v.clone()), 1 => Sequence::from(v.clone()), _ => v.iter().copied().collect() };
            let ok = match sym::upto(4) {
                0 => same(s.as_slice(), &v),
                1 => same(&s.into_inner(), &v),
                2 => same(&Vec::<u8>::from(s), &v),
                3 => same(&s.clone().into_inner(), &v),
                _ => same(&s.into_iter().collect::<Vec<u8>>(), &v),
            };
            sym::check(ok, "a sequence gives back other elements than it was given")
        }
    }
}
harnesses! {
    fn p42_bytes() { bytes() }
    fn p42_bytes_arrays() { bytes_arrays() }
    fn p42_hexstring() { hexstring() }
    fn p42_strict() { strict() }
    fn p42_memo() { memo() }
    fn p42_dynamic() { dynamic() }
    fn p42_vpadded() { if sym::upto(1) == 0 { vpadded() } else { vpadded_far() } }
    fn p42_padded() { if sym::upto(1) == 0 { padded() } else { padded_far() } }
    fn p42_paddings() { paddings() }
    fn p42_sequence() { sequence() }
    fn p42_huge() { huge_content() }
}
