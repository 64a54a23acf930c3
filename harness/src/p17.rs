//! Building, extending, converting and walking a sequence keeps every element, in order.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::TryFrom;
use std::iter::FromIterator;
use tedium::*;

fn elems(n: usize) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym::u16());
    }
    v
}
fn eq(a: &[u16], b: &[u16]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
/// An iterator whose size hint says whatever it likes (within the contract: lower bound 0).
struct Vague<'a, T>(std::slice::Iter<'a, T>);
impl<'a, T: Copy> Iterator for Vague<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next().copied()
    }
}
macro_rules! walk {
    ($s:expr, $v:expr, $t:ty) => {{
        let (mut s, v): ($t, &[u16]) = ($s, $v);
        sym::check(s.len() == v.len() && s.is_empty() == v.is_empty(), "the number of elements changed");
        match sym::upto(7) {
            0 => {
                let out: Vec<u16> = s.into();
                sym::check(eq(&out, v), "conversion into a vector lost or changed elements");
            }
            1 => {
                let mut out = Vec::new();
                for x in s {
                    out.push(x);
                }
                sym::check(eq(&out, v), "iterating by value lost or changed elements");
            }
            2 => {
                let mut out = Vec::new();
                for x in &s {
                    out.push(*x);
                }
                sym::check(eq(&out, v), "iterating by reference lost or changed elements");
            }
            3 => sym::check(eq(&s, v), "the slice view lost or changed elements"),
            4 => sym::check(s.first() == v.first() && s.last() == v.last(), "first or last element differs"),
            5 => {
                let t = s.clone();
                sym::check(t == s, "a clone differs from its original");
                sym::check(eq(&t, v), "a clone lost or changed elements");
            }
            6 => {
                // writing through the mutable view changes that element only
                if v.len() > 0 {
                    let i = sym::upto(v.len() - 1);
                    let x = sym::u16();
                    *s.iter_mut().nth(i).unwrap() = x;
                    let mut want = v.to_vec();
                    want[i] = x;
                    sym::check(eq(&s, &want), "writing one element changed others");
                }
            }
            _ => {
                let mut out = Vec::new();
                for x in s.iter().rev() {
                    out.push(*x);
                }
                out.reverse();
                sym::check(eq(&out, v), "iterating backwards lost or changed elements");
            }
        }
    }};
}
fn fix<const K: usize>(max: usize) {
    want!("built");
    let v = elems(sym::upto(max));
    let fits = v.len() <= K;
    let s: FixSeq<u16, K> = match sym::upto(5) {
        0 => match FixSeq::try_from(v.clone()) {
            Ok(s) => s,
            Err(_) => return sym::check(!fits, "elements that fit were refused"),
        },
        1 => match FixSeq::try_from(&v[..]) {
            Ok(s) => s,
            Err(_) => return sym::check(v.len() != K, "the right number of elements was refused"),
        },
        2 => {
            sym::panic_ok(!fits);
            FixSeq::from_iter(v.clone())
        }
        3 => {
            sym::panic_ok(!fits);
            Vague(v.iter()).collect()
        }
        4 => {
            sym::panic_ok(!fits);
            let mut s = FixSeq::new();
            s.extend(v.clone());
            s
        }
        _ => {
            sym::panic_ok(!fits);
            let k = sym::upto(v.len());
            let mut s = FixSeq::default();
            s.extend(Vague(v[..k].iter()));
            s.extend(v[k..].to_vec());
            s
        }
    };
    sym::cover("built");
    sym::check(fits, "a sequence took more elements than it holds");
    walk!(s, &v, FixSeq<u16, K>)
}
fn lim<const K: usize>(max: usize) {
    want!("built");
    let v = elems(sym::upto(max));
    let fits = v.len() <= K;
    let s: LimSeq<u16, K> = match sym::upto(6) {
        0 => match LimSeq::try_from(v.clone()) {
            Ok(s) => s,
            Err(_) => return sym::check(!fits, "elements that fit were refused"),
        },
        1 => match LimSeq::try_from(&v[..]) {
            Ok(s) => s,
            Err(_) => return sym::check(!fits, "elements that fit were refused"),
        },
        2 => {
            sym::panic_ok(!fits);
            LimSeq::from_iter(v.clone())
        }
        3 => {
            sym::panic_ok(!fits);
            Vague(v.iter()).collect()
        }
        4 => {
            sym::panic_ok(!fits);
            let mut s = LimSeq::new();
            s.extend(v.clone());
            s
        }
        5 => {
            sym::panic_ok(!fits);
            let k = sym::upto(v.len());
            let mut s = LimSeq::default();
            s.extend(Vague(v[..k].iter()));
            s.extend(v[k..].to_vec());
            s
        }
        _ => {
            sym::panic_ok(!fits);
            LimSeq::from_vec(v.clone())
        }
    };
    sym::cover("built");
    sym::check(fits, "a sequence took more elements than it holds");
    if sym::upto(1) == 0 {
        return sym::check(eq(&s.into_vec(), &v), "conversion into a vector lost or changed elements");
    }
    walk!(s, &v, LimSeq<u16, K>)
}
fn all(max: usize) {
    want!("built");
    let v = elems(sym::upto(max));
    let s: Sequence<u16> = match sym::upto(5) {
        0 => Sequence::from_vec(v.clone()),
        1 => v.clone().into(),
        2 => v.iter().copied().collect(),
        3 => Vague(v.iter()).collect(),
        4 => {
            let mut s = Sequence::new();
            s.extend(v.clone());
            s
        }
        _ => {
            let k = sym::upto(v.len());
            let mut s: Sequence<u16> = Sequence::default();
            s.extend(Vague(v[..k].iter()));
            s.extend(v[k..].to_vec());
            s
        }
    };
    sym::cover("built");
    match sym::upto(5) {
        0 => sym::check(eq(&s.into_inner(), &v), "conversion into a vector lost or changed elements"),
        1 => sym::check(eq(s.as_slice(), &v) && eq(s.as_ref(), &v), "the slice view lost or changed elements"),
        2 => {
            let mut s = s;
            let mut n = 0;
            for x in &mut s {
                *x = !*x;
                n += 1;
            }
            let mut w = v.clone();
            for x in w.iter_mut() {
                *x = !*x;
            }
            sym::check(n == v.len() && eq(&s, &w), "iterating mutably lost elements");
        }
        3 => {
            if v.len() > 0 {
                let i = sym::upto(v.len() - 1);
                sym::check(s[i] == v[i] && eq(&s[..i], &v[..i]) && eq(&s[i..], &v[i..]), "indexing returns other elements");
            }
        }
        4 => {
            let mut s = s;
            if v.len() > 0 {
                let i = sym::upto(v.len() - 1);
                let x = sym::u16();
                if sym::bool() {
                    s.as_mut_slice()[i] = x;
                } else {
                    s.as_mut()[i] = x;
                }
                let mut w = v.clone();
                w[i] = x;
                sym::check(eq(&s, &w), "writing one element changed others");
            }
        }
        _ => walk!(s, &v, Sequence<u16>),
    }
}
fn macros() {
    let (a, b, c) = (sym::u16(), sym::u16(), sym::u16());
    let e: Sequence<u16> = seq![];
    sym::check(e.is_empty(), "an empty seq! holds something");
    sym::check(eq(&seq![a, b, c], &[a, b, c]), "seq! lost or reordered its elements");
    sym::check(eq(&seq![a; 4], &[a, a, a, a]), "seq! did not repeat its element");
}
/// byte strings are sequences of bytes too
fn bytes() {
    want!("built");
    let v = sym::vec(sym::upto(if sym::upto(1) == 0 { 4 } else { 20 }));
    let s: Bytes = match sym::upto(7) {
        0 => Bytes::from_vec(v.clone()),
        1 => v.clone().into(),
        2 => (&v[..]).into(),
        3 => v.iter().copied().collect(),
        4 => v.clone().into_boxed_slice().into(),
        5 => Vague(v.iter()).collect(),
        6 => {
            let k = sym::upto(v.len());
            let mut s: Bytes = Vague(v[..k].iter()).collect();
            s.extend(Vague(v[k..].iter()));
            s
        }
        _ => {
            let k = sym::upto(v.len());
            let mut s = Bytes::from_vec(v[..k].to_vec());
            s.extend(v[k..].to_vec());
            s
        }
    };
    sym::cover("built");
    sym::check(s.len() == v.len(), "the number of bytes changed");
    sym::check(same(&s, &v), "the slice view lost or changed bytes");
    sym::check(same(&s.into_vec(), &v), "conversion into a vector lost or changed bytes");
}
fn far_elems(n: usize) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(if i < 2 || i + 2 >= n || i == n / 2 { sym::u16() } else { (i * 257 + 3) as u16 });
    }
    v
}
/// many elements, in one or two parts
macro_rules! far {
    ($t:ty, $n:expr, $cap:expr) => {{
        want!("built");
        let v = far_elems($n);
        sym::panic_ok(v.len() > $cap);
        let s: $t = match sym::upto(3) {
            0 => v.iter().copied().collect(),
            1 => Vague(v.iter()).collect(),
            2 => {
                let k = v.len() / 2;
                let mut s: $t = v[..k].iter().copied().collect();
                s.extend(v[k..].to_vec());
                s
            }
            _ => {
                let k = v.len().min(2);
                let mut s: $t = Vague(v[..k].iter()).collect();
                s.extend(Vague(v[k..].iter()));
                s
            }
        };
        sym::check(v.len() <= $cap, "a sequence took more elements than it holds");
        sym::panic_ok(false);
        sym::cover("built");
        walk!(s, &v, $t)
    }};
}
/// many elements, handed over as a slice or a vector
macro_rules! far_tries {
    ($t:ty, $cap:expr, $exact:expr) => {{
        want!("built", "refused");
        let v = far_elems(sizes($cap));
        let r = if sym::upto(1) == 0 { <$t>::try_from(v.clone()) } else { <$t>::try_from(&v[..]) };
        match r {
            Ok(s) => {
                sym::check(v.len() <= $cap, "a sequence took more elements than it holds");
                sym::cover("built");
                walk!(s, &v, $t)
            }
            Err(_) => {
                sym::cover("refused");
                sym::check(v.len() > $cap || $exact && v.len() != $cap, "a fitting number of elements was refused")
            }
        }
    }};
}
fn sizes(max: usize) -> usize {
    match sym::upto(5) { 0 => max / 2, 1 => max - 1, 2 => max, 3 => max + 1, 4 => 2 * max, _ => max + 256 }
}
fn far_bytes() {
    want!("built");
    let v = ends(long());
    let s: Bytes = match sym::upto(5) {
        0 => Bytes::from_vec(v.clone()),
        1 => (&v[..]).into(),
        2 => v.iter().copied().collect(),
        3 => Vague(v.iter()).collect(),
        4 => v.clone().into_boxed_slice().into(),
        _ => {
            let mut s = Bytes::from_vec(v[..3].to_vec());
            s.extend(v[3..].to_vec());
            s
        }
    };
    sym::cover("built");
    sym::check(s.len() == v.len() && same(&s, &v), "the slice view lost or changed bytes");
    sym::check(same(&s.into_vec(), &v), "conversion into a vector lost or changed bytes");
}
harnesses! {
    fn p17_fix() { fix::<3>(5) }
    fn p17_fix1() { fix::<1>(3) }
    fn p17_fix0() { fix::<0>(2) }
    fn p17_lim() { lim::<3>(5) }
    fn p17_lim1() { lim::<1>(3) }
    fn p17_lim0() { lim::<0>(2) }
    fn p17_seq() { all(4) }
    fn p17_seq_long() {
        let v = elems(sym::upto(12));
        let k = sym::upto(v.len());
        let mut s: Sequence<u16> = Vague(v[..k].iter()).collect();
        s.extend(Vague(v[k..].iter()));
        sym::check(eq(&s, &v), "extending lost or changed elements");
    }
    fn p17_lim_long() {
        let v = elems(sym::upto(12));
        let k = sym::upto(v.len());
        let mut s: LimSeq<u16, 12> = Vague(v[..k].iter()).collect();
        s.extend(Vague(v[k..].iter()));
        sym::check(eq(&s, &v), "extending lost or changed elements");
    }
    fn p17_fix_long() {
        let v = elems(sym::upto(12));
        let k = sym::upto(v.len());
        let mut s: FixSeq<u16, 12> = Vague(v[..k].iter()).collect();
        s.extend(Vague(v[k..].iter()));
        sym::check(eq(&s, &v), "extending lost or changed elements");
    }
    fn p17_far_tries_fix17() { far_tries!(FixSeq<u16, 17>, 17, true) }
    fn p17_far_tries_fix1100() { far_tries!(FixSeq<u16, 1100>, 1100, true) }
    fn p17_far_tries_lim17() { far_tries!(LimSeq<u16, 17>, 17, false) }
    fn p17_far_tries_lim1100() { far_tries!(LimSeq<u16, 1100>, 1100, false) }
    fn p17_far_tries_fix300__avf() { far_tries!(FixSeq<u16, 300>, 300, true) }
    fn p17_far_tries_lim300__avf() { far_tries!(LimSeq<u16, 300>, 300, false) }
    fn p17_macro() { macros() }
    fn p17_bytes() { bytes() }
    fn p17_fix__avf() { fix::<3>(5) }
    fn p17_lim__avf() { lim::<3>(5) }
    fn p17_lim0__avf() { lim::<0>(2) }
    fn p17_fix__rel() { fix::<3>(5) }
    fn p17_lim__rel() { lim::<3>(5) }
    fn p17_seq__rel() { all(4) }
    fn p17t_fix() { fix::<8>(12) }
    fn p17t_lim() { lim::<8>(12) }
    fn p17t_seq() { all(12) }
    fn p17t_fix__avf() { fix::<8>(12) }
    fn p17t_lim__avf() { lim::<8>(12) }
    fn p17_far_fix17() { far!(FixSeq<u16, 17>, sizes(17), 17) }
    fn p17_far_fix300() { far!(FixSeq<u16, 300>, sizes(300), 300) }
    fn p17_far_lim17() { far!(LimSeq<u16, 17>, sizes(17), 17) }
    fn p17_far_lim300() { far!(LimSeq<u16, 300>, sizes(300), 300) }
    fn p17_far_seq() { far!(Sequence<u16>, wide(), 1 << 20) }
    fn p17_far_fix17__avf() { far!(FixSeq<u16, 17>, sizes(17), 17) }
    fn p17_far_fix300__avf() { far!(FixSeq<u16, 300>, sizes(300), 300) }
    fn p17_far_lim300__avf() { far!(LimSeq<u16, 300>, sizes(300), 300) }
    fn p17_far_bytes() { far_bytes() }
}
