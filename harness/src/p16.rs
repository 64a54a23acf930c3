//! Counted sequences: exactly K, or at most K, elements; nothing else decodes and nothing else is emitted.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::convert::TryFrom;
use tedium::conv::len::Estimable;
use tedium::*;

/// Splits the front of `b` into elements; the end of each, until `b` is used up or malformed.
/// Returns (ends of well-formed elements, whether all of `b` was used up)
fn split(b: &[u8], one: &impl Fn(&[u8]) -> Option<usize>) -> (Vec<usize>, bool) {
    let mut ends = Vec::new();
    let mut at = 0;
    while at < b.len() {
        match one(&b[at..]) {
            Some(n) => {
                at += n;
                ends.push(at);
            }
            None => return (ends, false),
        }
    }
    (ends, true)
}
fn joined<T: Encode>(v: &[T]) -> Vec<u8> {
    let mut out = Vec::new();
    for x in v {
        let e = enc(x);
        out.extend_from_slice(&e);
    }
    out
}
/// element shapes: the number of bytes one takes at the front of the input
fn w1(b: &[u8]) -> Option<usize> {
    if b.len() >= 1 { Some(1) } else { None }
}
fn w2(b: &[u8]) -> Option<usize> {
    if b.len() >= 2 { Some(2) } else { None }
}
fn opt1(b: &[u8]) -> Option<usize> {
    if b[0] == 0 {
        Some(1)
    } else if b[0] == 0xff && b.len() >= 2 {
        Some(2)
    } else {
        None
    }
}
fn flag(b: &[u8]) -> Option<usize> {
    if b[0] == 0 || b[0] == 0xff { Some(1) } else { None }
}
fn dyn1(b: &[u8]) -> Option<usize> {
    let n = b[0] as usize;
    if n <= b.len() - 1 { Some(1 + sym::split(n)) } else { None }
}
fn fix<T: Encode + Decode, const K: usize>(len: usize, one: impl Fn(&[u8]) -> Option<usize>) {
    want!("decoded", "refused", "tail");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<FixSeq<T, K>>(&b);
    let (ends, _) = split(&b, &one);
    match r {
        Ok(s) => {
            sym::cover("decoded");
            sym::check(s.len() == K, "an exact sequence decoded with another number of elements");
            sym::check(ends.len() >= K, "elements were decoded that are not there");
            let end = if K == 0 { 0 } else { ends[K - 1] };
            sym::check(left == b.len() - end, "decoding did not stop after the last element");
            if left > 0 {
                sym::cover("tail");
            }
            sym::check(same(&joined(&s), &b[..end]), "the elements are not the ones encoded");
            sym::check(same(&enc(&s), &b[..end]), "re-encoding differs from the bytes decoded");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(ends.len() < K, "a well-formed exact sequence was refused")
        }
    }
}
fn lim<T: Encode + Decode, const K: usize>(len: usize, one: impl Fn(&[u8]) -> Option<usize>) {
    want!("decoded", "refused");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<LimSeq<T, K>>(&b);
    let (ends, all) = split(&b, &one);
    match r {
        Ok(s) => {
            sym::cover("decoded");
            sym::check(s.len() <= K, "a limited sequence decoded with more elements than its limit");
            sym::check(all && ends.len() == s.len(), "a limited sequence decoded from something else than its elements");
            sym::check(left == 0, "a limited sequence did not use up its window");
            sym::check(same(&joined(&s), &b), "the elements are not the ones encoded");
            sym::check(same(&enc(&s), &b), "re-encoding differs from the bytes decoded");
        }
        Err(_) => {
            sym::cover("refused");
            sym::check(!all || ends.len() > K, "a well-formed limited sequence was refused")
        }
    }
}
fn unlimited<T: Encode + Decode>(len: usize, one: impl Fn(&[u8]) -> Option<usize>) {
    want!("decoded");
    let b = sym::vec(sym::upto(len));
    let (r, left) = parse::<Sequence<T>>(&b);
    let (ends, all) = split(&b, &one);
    match r {
        Ok(s) => {
            sym::cover("decoded");
            sym::check(all && ends.len() == s.len(), "a sequence decoded from something else than its elements");
            sym::check(left == 0, "a sequence did not use up its window");
            sym::check(same(&joined(&s), &b), "the elements are not the ones encoded");
            sym::check(same(&enc(&s), &b), "re-encoding differs from the bytes decoded");
        }
        Err(_) => {
            sym::check(!all, "a well-formed sequence was refused")
        }
    }
}
/// a sequence under a length prefix is confined to it
fn windowed<const K: usize>(len: usize) {
    want!("fix", "lim", "all", "refused");
    let b = sym::vec(sym::upto(len));
    let mut n = None;
    if b.len() >= 1 && b[0] as usize <= b.len() - 1 {
        n = Some(sym::split(b[0] as usize));
    }
    macro_rules! one {
        ($t:ty, $cover:literal, $ok:expr) => {{
            let (r, left) = parse::<Dynamic<u8, $t>>(&b);
            match (r, n) {
                (Ok(s), Some(n)) => {
                    sym::cover($cover);
                    sym::check($ok(n), "a windowed sequence of illegal count was accepted");
                    sym::check(left == b.len() - 1 - n, "a windowed sequence did not use up its window");
                    sym::check(same(&joined(&s.into_inner()), &b[1..1 + n]), "the elements are not the ones in the window");
                }
                (Ok(_), None) => sym::check(false, "a window that does not fit was accepted"),
                (Err(_), Some(n)) => {
                    sym::cover("refused");
                    sym::check(!$ok(n), "a well-formed windowed sequence was refused")
                }
                (Err(_), None) => sym::cover("refused"),
            }
        }};
    }
    match sym::upto(2) {
        0 => one!(FixSeq<u16, K>, "fix", |n| n == 2 * K),
        1 => one!(LimSeq<u16, K>, "lim", |n| n % 2 == 0 && n <= 2 * K),
        _ => one!(Sequence<u16>, "all", |n| n % 2 == 0),
    }
}
fn elems(n: usize) -> Vec<u16> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(sym::u16());
    }
    v
}
fn raw(v: &[u16]) -> Vec<u8> {
    let mut out = Vec::new();
    for x in v {
        out.push((x >> 8) as u8);
        out.push(*x as u8);
    }
    out
}
/// whatever way a sequence of illegal count came about, it is not emitted
fn emit_fix<const K: usize>(max: usize) {
    want!("emitted");
    let v = elems(sym::upto(max));
    let legal = v.len() == K;
    let s = match sym::upto(4) {
        0 => FixSeq::<u16, K>::try_from(v.clone()),
        1 => FixSeq::<u16, K>::try_from(&v[..]),
        2 => {
            sym::panic_ok(v.len() > K);
            Ok(v.iter().copied().collect())
        }
        3 => {
            sym::panic_ok(v.len() > K);
            let mut s = FixSeq::<u16, K>::new();
            s.extend(v.iter().copied());
            Ok(s)
        }
        _ => {
            sym::panic_ok(v.len() > K);
            let mut s = FixSeq::<u16, K>::default();
            for x in &v {
                s.extend([*x]);
            }
            Ok(s)
        }
    };
    let s = match s {
        Ok(s) => s,
        Err(_) => {
            sym::check(!legal, "a legal exact sequence was not constructed");
            return;
        }
    };
    sym::check(v.len() <= K && s.len() == v.len(), "a sequence was constructed with another number of elements");
    sym::panic_ok(!legal);
    let e = match sym::upto(4) {
        0 => enc(&s),
        1 => s.to_bytes(),
        2 => s.encode::<Vec<u8>>(),
        3 => {
            let mut e = Vec::new();
            s.write_to_vec(&mut e);
            e
        }
        _ => {
            let n = s.write_to(&mut std::io::sink());
            sym::check(n == 2 * K, "the counting target counts differently");
            raw(&v)
        }
    };
    sym::check(legal, "an exact sequence of illegal count was emitted");
    sym::cover("emitted");
    sym::check(same(&e, &raw(&v)), "the encoding is not the elements' in order");
}
fn emit_lim<const K: usize>(max: usize) {
    want!("emitted");
    let v = elems(sym::upto(max));
    let legal = v.len() <= K;
    let how = sym::upto(5);
    let s = match how {
        0 => LimSeq::<u16, K>::try_from(v.clone()),
        1 => LimSeq::<u16, K>::try_from(&v[..]),
        2 => {
            sym::panic_ok(!legal);
            Ok(v.iter().copied().collect())
        }
        3 => {
            sym::panic_ok(!legal);
            let mut s = LimSeq::<u16, K>::new();
            s.extend(v.iter().copied());
            Ok(s)
        }
        4 => {
            sym::panic_ok(!legal);
            Ok(LimSeq::<u16, K>::from_vec(v.clone()))
        }
        _ => {
            sym::panic_ok(!legal);
            Ok(unsafe { LimSeq::<u16, K>::from_vec_unchecked(v.clone()) })
        }
    };
    let s = match s {
        Ok(s) => s,
        Err(_) => {
            sym::check(!legal, "a legal limited sequence was not constructed");
            return;
        }
    };
    sym::check(s.len() == v.len(), "a sequence was constructed with another number of elements");
    sym::check(legal || how == 5, "a limited sequence of illegal count was constructed");
    sym::panic_ok(!legal);
    let e = match sym::upto(3) {
        0 => enc(&s),
        1 => s.to_bytes(),
        2 => Dynamic::<u8, LimSeq<u16, K>>::new(s).to_bytes().split_off(1),
        _ => s.encode::<Vec<u8>>(),
    };
    sym::check(legal, "a limited sequence of illegal count was emitted");
    sym::cover("emitted");
    sym::check(same(&e, &raw(&v)), "the encoding is not the elements' in order");
}
/// counts on either side of a large K
fn far<const K: usize>(sizes: &[usize]) {
    want!("decoded", "refused");
    let n = sizes[sym::upto(sizes.len() - 1)];
    let b = ends(n);
    match sym::upto(2) {
        0 => {
            let (r, left) = parse::<FixSeq<u8, K>>(&b);
            match r {
                Ok(s) => {
                    sym::cover("decoded");
                    sym::check(n >= K && s.len() == K && left == n - K, "an exact sequence decoded with another number of elements");
                    sym::check(same(&s, &b[..K]) && same(&enc(&s), &b[..K]), "the elements are not the ones encoded");
                }
                Err(_) => { sym::cover("refused"); sym::check(n < K, "a well-formed exact sequence was refused") }
            }
        }
        1 => {
            let (r, left) = parse::<LimSeq<u8, K>>(&b);
            match r {
                Ok(s) => {
                    sym::cover("decoded");
                    sym::check(n <= K && s.len() == n && left == 0, "a limited sequence decoded with another number of elements");
                    sym::check(same(&s, &b) && same(&enc(&s), &b), "the elements are not the ones encoded");
                }
                Err(_) => { sym::cover("refused"); sym::check(n > K, "a well-formed limited sequence was refused") }
            }
        }
        _ => {
            let (r, left) = parse::<Sequence<u8>>(&b);
            match r {
                Ok(s) => {
                    sym::check(s.len() == n && left == 0, "a sequence decoded with another number of elements");
                    sym::check(same(&s, &b) && same(&enc(&s), &b), "the elements are not the ones encoded");
                }
                Err(_) => sym::check(false, "a well-formed sequence was refused"),
            }
        }
    }
}
fn far_emit<const K: usize>(sizes: &[usize]) {
    want!("emitted", "refused");
    let v = ends(sizes[sym::upto(sizes.len() - 1)]);
    let e = match sym::upto(5) {
        0 => {
            sym::panic_ok(v.len() < K);
            let e = FixSeq::<u8, K>::try_from(v.clone()).ok().map(|s| enc(&s));
            sym::check(e.is_none() || v.len() == K, "an exact sequence of illegal count was emitted");
            e
        }
        1 => FixSeq::<u8, K>::try_from(&v[..]).ok().map(|s| s.to_bytes()),
        2 => LimSeq::<u8, K>::try_from(v.clone()).ok().map(|s| enc(&s)),
        3 => LimSeq::<u8, K>::try_from(&v[..]).ok().map(|s| s.to_bytes()),
        4 => {
            sym::panic_ok(v.len() != K);
            let s: FixSeq<u8, K> = v.iter().copied().collect();
            let e = enc(&s);
            sym::check(v.len() == K, "an exact sequence of illegal count was emitted");
            Some(e)
        }
        _ => {
            sym::panic_ok(v.len() > K);
            let s: LimSeq<u8, K> = v.iter().copied().collect();
            let e = enc(&s);
            sym::check(v.len() <= K, "a limited sequence of illegal count was emitted");
            Some(e)
        }
    };
    match e {
        Some(e) => {
            sym::cover("emitted");
            sym::check(v.len() <= K && same(&e, &v), "the encoding is not the elements' in order, or their count is illegal");
        }
        None => {
            sym::cover("refused");
            sym::check(v.len() != K, "a legal sequence was not constructed");
        }
    }
}
harnesses! {
    fn p16_fix_u8() { fix::<u8, 3>(5, w1) }
    fn p16_fix_u16() { fix::<u16, 2>(6, w2) }
    fn p16_fix_one() { fix::<u16, 1>(4, w2) }
    fn p16_fix_bool() { fix::<bool, 3>(4, flag) }
    fn p16_fix_option() { fix::<Option<u8>, 2>(5, opt1) }
    fn p16_fix_dynamic() { fix::<Dynamic<u8, Bytes>, 2>(5, dyn1) }
    fn p16_fix_none() {
        let b = sym::vec(sym::upto(2));
        let (r, left) = parse::<FixSeq<u16, 0>>(&b);
        sym::check(r.is_ok() && left == b.len(), "an empty exact sequence consumed or refused input");
        sym::check(enc(&FixSeq::<u16, 0>::new()).is_empty(), "an empty exact sequence emitted something");
    }
    fn p16_lim_u8() { lim::<u8, 3>(5, w1) }
    fn p16_lim_u16() { lim::<u16, 2>(6, w2) }
    fn p16_lim_one() { lim::<u16, 1>(4, w2) }
    fn p16_lim_none() { lim::<u8, 0>(2, w1) }
    fn p16_lim_bool() { lim::<bool, 2>(4, flag) }
    fn p16_lim_option() { lim::<Option<u8>, 2>(5, opt1) }
    fn p16_lim_dynamic() { lim::<Dynamic<u8, Bytes>, 2>(5, dyn1) }
    fn p16_seq_u8() { unlimited::<u8>(5, w1) }
    fn p16_seq_u16() { unlimited::<u16>(7, w2) }
    fn p16_seq_bool() { unlimited::<bool>(4, flag) }
    fn p16_seq_option() { unlimited::<Option<u8>>(5, opt1) }
    fn p16_seq_dynamic() { unlimited::<Dynamic<u8, Bytes>>(5, dyn1) }
    fn p16_windowed() { windowed::<2>(8) }
    fn p16_emit_fix() { emit_fix::<3>(5) }
    fn p16_emit_fix1() { emit_fix::<1>(3) }
    fn p16_emit_lim() { emit_lim::<3>(5) }
    fn p16_emit_lim0() { emit_lim::<0>(2) }
    fn p16_fix_u16__avf() { fix::<u16, 2>(6, w2) }
    fn p16_lim_u16__avf() { lim::<u16, 2>(6, w2) }
    fn p16_lim_none__avf() { lim::<u8, 0>(2, w1) }
    fn p16_fix_dynamic__avf() { fix::<Dynamic<u8, Bytes>, 2>(5, dyn1) }
    fn p16_lim_dynamic__avf() { lim::<Dynamic<u8, Bytes>, 2>(5, dyn1) }
    fn p16_windowed__avf() { windowed::<2>(8) }
    fn p16_emit_fix__avf() { emit_fix::<3>(5) }
    fn p16_emit_lim__avf() { emit_lim::<3>(5) }
    fn p16_fix_u16__rel() { fix::<u16, 2>(6, w2) }
    fn p16_lim_u16__rel() { lim::<u16, 2>(6, w2) }
    fn p16_emit_fix__rel() { emit_fix::<3>(5) }
    fn p16_emit_lim__rel() { emit_lim::<3>(5) }
    fn p16t_fix_dynamic() { fix::<Dynamic<u8, Bytes>, 3>(8, dyn1) }
    fn p16t_lim_dynamic() { lim::<Dynamic<u8, Bytes>, 3>(8, dyn1) }
    fn p16t_seq_option() { unlimited::<Option<u8>>(9, opt1) }
    fn p16t_windowed() { windowed::<5>(14) }
    fn p16t_emit_fix() { emit_fix::<8>(12) }
    fn p16t_emit_lim() { emit_lim::<8>(12) }
    fn p16_far17() { far::<17>(&[0, 1, 15, 16, 17, 18, 19, 40]) }
    fn p16_far256() { far::<256>(&[0, 1, 17, 128, 255, 256, 257, 300, 512]) }
    fn p16_far300() { far::<300>(&[0, 1, 17, 44, 255, 256, 299, 300, 301, 600]) }
    fn p16_far17__avf() { far::<17>(&[0, 1, 16, 17, 18, 40]) }
    fn p16_far300__avf() { far::<300>(&[0, 1, 44, 299, 300, 301]) }
    fn p16_far_emit17() { far_emit::<17>(&[0, 1, 16, 17, 18, 34]) }
    fn p16_far_emit300() { far_emit::<300>(&[0, 1, 44, 256, 299, 300, 301, 556]) }
    fn p16_far_emit300__avf() { far_emit::<300>(&[0, 1, 44, 256, 299, 300, 301, 556]) }
}
