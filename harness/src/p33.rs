//! Buffers hand out exactly the bytes asked for; a request beyond them panics and never reads outside.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::borrow::Cow;
use tedium::parse::buffer::{SliceBuffer, VecBuffer};
use tedium::HexString;

fn in_range(v: &[u8], ix: usize, len: usize) -> bool {
    ix <= v.len() && len <= v.len() - ix
}
fn eq_at(s: &[u8], v: &[u8], at: usize) -> bool {
    let mut ok = true;
    for i in 0..s.len() {
        ok &= s[i] == v[at + i];
    }
    ok
}
fn vec_slice(max: usize) {
    want!("in", "empty");
    let v = sym::vec(sym::upto(max));
    let b = VecBuffer::from(v.clone());
    let (ix, len) = (sym::usize(), sym::usize());
    let ok = in_range(&v, ix, len);
    sym::panic_ok(!ok);
    let s = b.get_slice(ix, len);
    sym::check(ok, "a range outside the buffer was handed out");
    sym::cover("in");
    let (ix, n) = (sym::split(ix), sym::split(len));
    if n == 0 {
        sym::cover("empty");
    }
    sym::check(s.len() == n && eq_at(s, &v, ix), "the bytes handed out are not the ones asked for");
    let t = unsafe { b.get_slice_unchecked(ix, n) };
    sym::check(t.len() == n && eq_at(t, &v, ix), "the unchecked accessor hands out other bytes");
}
fn vec_byte(max: usize) {
    want!("in");
    let v = sym::vec(sym::upto(max));
    let b = VecBuffer::from(&v[..]);
    let ix = sym::usize();
    let ok = ix < v.len();
    sym::panic_ok(!ok);
    let x = b.get_byte(ix);
    sym::check(ok, "a byte outside the buffer was handed out");
    sym::cover("in");
    let ix = sym::split(ix);
    sym::check(x == v[ix], "the byte handed out is not the one asked for");
    sym::check(unsafe { b.get_byte_unchecked(ix) } == v[ix], "the unchecked accessor hands out another byte");
}
/// a buffer holds what it was made from
fn vec_whole() {
    let v = sym::vec(4);
    let b: VecBuffer = match sym::upto(5) {
        0 => v.clone().into(),
        1 => v[..].into(),
        2 => [v[0], v[1], v[2], v[3]].into(),
        3 => (&[v[0], v[1], v[2], v[3]]).into(),
        4 => HexString::from_vec(v.clone()).into(),
        _ => VecBuffer::from(v.clone()).clone(),
    };
    sym::check(b.len() == 4 && !b.is_empty(), "a buffer has another length than what it was made from");
    for i in 0..4 {
        sym::check(b.get_byte(i) == v[i], "a buffer does not hold what it was made from");
    }
    sym::check(same(b.get_slice(0, 4), &v), "a buffer does not hold what it was made from");
    let e = VecBuffer::from(Vec::new());
    sym::check(e.len() == 0 && e.is_empty() && e.get_slice(0, 0).is_empty(), "an empty buffer is not empty");
}
/// text is taken as its raw bytes
fn vec_text() {
    let n = sym::upto(3);
    let mut s = String::new();
    for _ in 0..n {
        s.push((sym::u8() & 0x7f) as char);
    }
    let b: VecBuffer = match sym::upto(4) {
        0 => (&s[..]).into(),
        1 => s.clone().into(),
        2 => (&s).into(),
        3 => Cow::<str>::Borrowed(&s).into(),
        _ => Cow::<str>::Owned(s.clone()).into(),
    };
    sym::check(same(b.get_slice(0, b.len()), s.as_bytes()), "a buffer made from text does not hold its bytes");
}
fn slice_cut(max: usize) {
    want!("some", "none");
    let v = sym::vec(sym::upto(max));
    let b = SliceBuffer::new(&v);
    sym::check(b.len() == v.len() && b.is_empty() == v.is_empty(), "a slice buffer has another length than its slice");
    sym::check(same(b.as_slice(), &v) && same(b.into_slice(), &v), "a slice buffer is not its slice");
    match b.cut_first() {
        None => {
            sym::cover("none");
            sym::check(v.is_empty(), "the first byte was withheld")
        }
        Some((x, t)) => {
            sym::cover("some");
            sym::check(!v.is_empty(), "a first byte was cut from an empty buffer");
            sym::check(x == v[0] && same(t.as_slice(), &v[1..]), "cutting the first byte changed the bytes");
            let (y, u) = unsafe { b.cut_first_unchecked() };
            sym::check(y == x && same(u.as_slice(), t.as_slice()), "the unchecked cut differs");
        }
    }
    sym::check(same(b.as_slice(), &v), "cutting changed the buffer itself");
}
fn slice_split(max: usize) {
    want!("in");
    let v = sym::vec(sym::upto(max));
    let b = SliceBuffer::from(&v[..]);
    let mid = sym::usize();
    let ok = mid <= v.len();
    sym::panic_ok(!ok);
    let (x, y) = if sym::bool() {
        let (x, y) = b.split(mid);
        (x.into_slice(), y)
    } else {
        b.take(mid)
    };
    sym::check(ok, "a split outside the buffer succeeded");
    sym::cover("in");
    let mid = sym::split(mid);
    sym::check(same(x, &v[..mid]) && same(y.as_slice(), &v[mid..]), "splitting lost or moved bytes");
    let (p, q) = unsafe { b.split_unchecked(mid) };
    let (r, s) = unsafe { b.take_unchecked(mid) };
    sym::check(same(p.as_slice(), x) && same(q.as_slice(), y.as_slice()) && same(r, x) && same(s.as_slice(), y.as_slice()), "the unchecked split differs");
}
/// long buffers, any range of them
fn far_vec(n: usize) {
    want!("in");
    let v = ends(n);
    let b = match sym::upto(1) { 0 => VecBuffer::from(v.clone()), _ => VecBuffer::from(&v[..]) };
    sym::check(b.len() == v.len() && !b.is_empty(), "a buffer has another length than what it was made from");
    let ix = edge_or_more(v.len());
    let len = edge_or_more(v.len());
    let ok = in_range(&v, ix, len);
    sym::panic_ok(!ok);
    let s = b.get_slice(ix, len);
    sym::check(ok, "a range outside the buffer was handed out");
    sym::cover("in");
    sym::check(s.len() == len && same(s, &v[ix..ix + len]), "the bytes handed out are not the ones asked for");
    let t = unsafe { b.get_slice_unchecked(ix, len) };
    sym::check(same(t, s), "the unchecked accessor hands out other bytes");
}
fn far_byte() {
    want!("in");
    let v = ends(medium());
    let b = VecBuffer::from(v.clone());
    let ix = sym::usize();
    let ok = ix < v.len();
    sym::panic_ok(!ok);
    let x = b.get_byte(ix);
    sym::check(ok, "a byte outside the buffer was handed out");
    sym::cover("in");
    sym::check(x == v[ix], "the byte handed out is not the one asked for");
    sym::check(unsafe { b.get_byte_unchecked(ix) } == v[ix], "the unchecked accessor hands out another byte");
}
fn far_slice(n: usize) {
    want!("in");
    let v = ends(n);
    let b = SliceBuffer::from(&v[..]);
    sym::check(b.len() == v.len() && same(b.as_slice(), &v), "a slice buffer is not its slice");
    match b.cut_first() {
        None => sym::check(false, "the first byte was withheld"),
        Some((x, t)) => sym::check(x == v[0] && same(t.as_slice(), &v[1..]), "cutting the first byte changed the bytes"),
    }
    let mid = edge_or_more(v.len());
    let ok = mid <= v.len();
    sym::panic_ok(!ok);
    let (x, y) = if sym::upto(1) == 0 {
        let (x, y) = b.split(mid);
        (x.into_slice(), y)
    } else {
        b.take(mid)
    };
    sym::check(ok, "a split outside the buffer succeeded");
    sym::cover("in");
    sym::check(same(x, &v[..mid]) && same(y.as_slice(), &v[mid..]), "splitting lost or moved bytes");
    let (p, q) = unsafe { b.split_unchecked(mid) };
    let (r, s) = unsafe { b.take_unchecked(mid) };
    sym::check(same(p.as_slice(), x) && same(q.as_slice(), y.as_slice()) && same(r, x) && same(s.as_slice(), y.as_slice()), "the unchecked split differs");
}
fn far_whole() {
    let a = [sym::u8(); 300];
    let b: VecBuffer = match sym::upto(3) {
        0 => a.to_vec().into(),
        1 => a[..].into(),
        2 => a.into(),
        _ => HexString::from_vec(a.to_vec()).into(),
    };
    sym::check(b.len() == 300 && same(b.get_slice(0, 300), &a), "a buffer does not hold what it was made from");
}
harnesses! {
    fn p33_vec_slice() { vec_slice(5) }
    fn p33_vec_byte() { vec_byte(5) }
    fn p33_vec_whole() { vec_whole() }
    fn p33_vec_text() { vec_text() }
    fn p33_slice_cut() { slice_cut(5) }
    fn p33_slice_split() { slice_split(5) }
    fn p33_vec_slice__rel() { vec_slice(5) }
    fn p33_vec_byte__rel() { vec_byte(5) }
    fn p33_slice_split__rel() { slice_split(5) }
    fn p33t_vec_slice() { vec_slice(16) }
    fn p33t_slice_split() { slice_split(16) }
    fn p33t_vec_slice__rel() { vec_slice(16) }
    fn p33_huge_vec() { far_vec(65573) }
    fn p33_huge_slice() { far_slice(65573) }
    fn p33_far_vec() { far_vec(wide()) }
    fn p33_far_byte() { far_byte() }
    fn p33_far_slice() { far_slice(wide()) }
    fn p33_far_whole() { far_whole() }
    fn p33_far_vec__rel() { far_vec(wide()) }
    fn p33_far_byte__rel() { far_byte() }
    fn p33_far_slice__rel() { far_slice(wide()) }
}
