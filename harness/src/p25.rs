//! Length prefixes as windows: opening, skipping, and decoding agree on what a prefix spans.
use crate::model::Model;
use crate::util::*;
use crate::{harnesses, sym, want};
use tedium::dynamic::LenPref;
use tedium::int::MAX_OCAML_NATIVE_UINT;
use tedium::parse::ParserExt;
use tedium::*;
type U30 = tedium::int::u30;

/// the number a prefix at the current position spells, if it is all there and legal
fn spelled(m: &Model, w: usize, max: usize) -> Option<usize> {
    if m.rem() < w {
        return None;
    }
    let n = be(&m.buf[m.pos..m.pos + w]) as usize;
    if n <= max {
        Some(n)
    } else {
        None
    }
}
fn opened<S: LenPref, P: Parser + ParserExt>(mut p: P, b: &[u8], w: usize, max: usize, wins: usize) {
    let mut m = Model::arbitrary(b, &mut p, wins);
    let n = spelled(&m, w, max);
    let r = p.process_prefix::<S>();
    match (r, n) {
        (Ok(k), Some(n)) => {
            sym::check(k == n, "the number reported is not the one spelled");
            sym::check(n <= m.rem() - w, "a window wider than what remains was opened");
            sym::cover("opened");
            m.pos += w;
            m.ends.push(m.pos + sym::split(n));
            m.drain(&mut p);
        }
        (Ok(_), None) => sym::check(false, "a prefix that is not there, or illegal, was accepted"),
        (Err(_), None) => {
            sym::cover("bad prefix");
        }
        (Err(_), Some(n)) => {
            sym::check(n > m.rem() - w, "a prefix whose span is there was refused");
            sym::cover("too wide");
            // no window is left behind: what was open is still what bounds the parser
            sym::check(p.remainder() == m.rem() - w || p.remainder() == m.rem(), "a refused prefix left a window open");
        }
    }
}
fn skipped<S: LenPref, P: Parser + ParserExt>(mut p: P, b: &[u8], w: usize, max: usize, wins: usize) {
    let mut m = Model::arbitrary(b, &mut p, wins);
    let n = spelled(&m, w, max);
    let r = p.skip_dynamic::<S>();
    match (r, n) {
        (Ok(k), Some(n)) => {
            sym::check(k == n, "the number reported is not the one spelled");
            sym::check(n <= m.rem() - w, "more was skipped than what remains");
            sym::cover("skipped");
            m.pos += w + sym::split(n);
            m.drain(&mut p);
        }
        (Ok(_), None) => sym::check(false, "a prefix that is not there, or illegal, was accepted"),
        (Err(_), None) => sym::cover("bad prefix"),
        (Err(_), Some(n)) => {
            sym::check(n > m.rem() - w, "a skip whose span is there was refused");
            sym::cover("too wide");
        }
    }
}
fn open<S: LenPref>(w: usize, max: usize, len: usize, wins: usize) {
    want!("opened", "bad prefix", "too wide");
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => opened::<S, _>(ByteParser::from_buffer((&b[..]).into()), &b, w, max, wins),
        1 => opened::<S, _>(MemoParser::from_buffer((&b[..]).into()), &b, w, max, wins),
        _ => opened::<S, _>(SliceParser::from_buffer((&b[..]).into()), &b, w, max, wins),
    }
}
fn skip<S: LenPref>(w: usize, max: usize, len: usize, wins: usize) {
    want!("skipped", "bad prefix", "too wide");
    let b = sym::vec(sym::upto(len));
    match sym::upto(2) {
        0 => skipped::<S, _>(ByteParser::from_buffer((&b[..]).into()), &b, w, max, wins),
        1 => skipped::<S, _>(MemoParser::from_buffer((&b[..]).into()), &b, w, max, wins),
        _ => skipped::<S, _>(SliceParser::from_buffer((&b[..]).into()), &b, w, max, wins),
    }
}
/// skipping a value and decoding it accept the same inputs and leave the same bytes
fn twin<S: LenPref>(len: usize) {
    want!("both", "neither");
    let b = sym::vec(sym::upto(len));
    let mut p = ByteParser::from_buffer((&b[..]).into());
    let mut q = ByteParser::from_buffer((&b[..]).into());
    let r = Dynamic::<S, Bytes>::parse(&mut p);
    let s = q.skip_dynamic::<S>();
    match (r, s) {
        (Ok(x), Ok(n)) => {
            sym::cover("both");
            sym::check(x.into_inner().len() == n, "the skipped length is not the payload's");
            sym::check(p.remainder() == q.remainder() && p.offset() == q.offset(), "skipping and decoding end at different places");
        }
        (Err(_), Err(_)) => sym::cover("neither"),
        _ => sym::check(false, "skipping and decoding disagree on whether the value is well-formed"),
    }
}
/// a span that two bytes cannot number
fn huge_span<P: Parser + ParserExt>(mut p: P, skip: bool) {
    want!("spanned");
    let n = 65573;
    if skip {
        let r = p.skip_dynamic::<U30>();
        sym::check(matches!(r, Ok(k) if k == n), "a long span is not skipped as spelled");
    } else {
        sym::check(matches!(p.process_prefix::<U30>(), Ok(k) if k == n), "a long span is not opened as spelled");
        sym::check(p.remainder() == n, "a long span does not bound the parser");
        sym::check(p.skip_exactly(n).is_ok() && p.enforce_target().is_ok(), "a long span does not hold its bytes");
    }
    sym::check(p.remainder() == 3, "a long span does not end where it was spelled");
    sym::cover("spanned");
}
fn huge_spans() {
    let mut b = vec![0, 1, 0, 0x25];
    b.extend_from_slice(&huge());
    b.extend_from_slice(&[1, 2, 3]);
    let skip = sym::upto(1) == 0;
    match sym::upto(2) {
        0 => huge_span(ByteParser::from_buffer((&b[..]).into()), skip),
        1 => huge_span(MemoParser::from_buffer((&b[..]).into()), skip),
        _ => huge_span(SliceParser::from_buffer((&b[..]).into()), skip),
    }
}
/// a list of prefixed values, some skipped and some decoded, inside an outer prefix
fn chain(k: usize) {
    want!("done");
    let mut raw: Vec<u8> = Vec::new();
    let mut parts: Vec<Vec<u8>> = Vec::new();
    for _ in 0..k {
        let v = sym::vec(sym::upto(2));
        raw.push(0);
        raw.push(v.len() as u8);
        raw.extend_from_slice(&v);
        parts.push(v);
    }
    let mut all = vec![raw.len() as u8];
    all.extend_from_slice(&raw);
    all.push(0xee);
    let mut p = MemoParser::from_buffer((&all[..]).into());
    sym::check(matches!(p.process_prefix::<u8>(), Ok(n) if n == raw.len()), "a well-formed prefix was refused");
    for i in 0..k {
        if sym::upto(1) == 0 {
            sym::check(matches!(p.skip_dynamic::<u16>(), Ok(n) if n == parts[i].len()), "skipping a well-formed value failed");
        } else {
            let x = Dynamic::<u16, Bytes>::parse(&mut p);
            sym::check(matches!(x, Ok(x) if same(&x.clone().into_inner(), &parts[i])), "the value after a skipped one is another");
        }
    }
    sym::check(p.enforce_target().is_ok(), "the outer window is not consumed");
    sym::check(matches!(p.consume_byte(), Ok(0xee)) && p.remainder() == 0, "what follows the outer window is another");
    sym::cover("done");
}
/// a prefix one less, as much as, or one more than the many bytes after it; windows around it
fn far<S: LenPref, P: Parser + ParserExt>(mut p: P, b: &[u8], n: usize, w: usize, wins: usize) {
    let mut m = Model::new(b);
    for i in 0..wins {
        let k = m.rem() - i.min(1);
        let r = p.set_fit(k);
        m.opened(k, r);
    }
    let fits = n <= m.rem() - w;
    if sym::upto(1) == 0 {
        match p.process_prefix::<S>() {
            Ok(k) => {
                sym::cover("opened");
                sym::check(k == n && fits, "the number reported is not the one spelled, or its span is not there");
                m.pos += w;
                m.ends.push(m.pos + n);
                m.drain(&mut p);
            }
            Err(_) => {
                sym::cover("too wide");
                sym::check(!fits, "a prefix whose span is there was refused");
            }
        }
    } else {
        match p.skip_dynamic::<S>() {
            Ok(k) => {
                sym::cover("skipped");
                sym::check(k == n && fits, "the number reported is not the one spelled, or its span is not there");
                m.pos += w + n;
                m.drain(&mut p);
            }
            Err(_) => {
                sym::cover("too wide");
                sym::check(!fits, "a skip whose span is there was refused");
            }
        }
    }
}
fn far_of<S: LenPref>(w: usize, max: usize) {
    want!("opened", "skipped", "too wide");
    let have = long();
    let n = have + sym::upto(2) - 1;
    if n > max {
        return;
    }
    let mut b = to_be(n as u64, w);
    b.extend_from_slice(&ends(have));
    let wins = match sym::upto(2) { 0 => 0, 1 => 1, _ => 9 };
    match sym::upto(2) {
        0 => far::<S, _>(ByteParser::from_buffer((&b[..]).into()), &b, n, w, wins),
        1 => far::<S, _>(MemoParser::from_buffer((&b[..]).into()), &b, n, w, wins),
        _ => far::<S, _>(SliceParser::from_buffer((&b[..]).into()), &b, n, w, wins),
    }
}
/// a long list of prefixed values
fn far_chain() {
    want!("done");
    let k = match sym::upto(2) { 0 => 9, 1 => 17, _ => 70 };
    let mut all: Vec<u8> = Vec::new();
    for i in 0..k {
        all.push((i % 5) as u8);
        for _ in 0..i % 5 {
            all.push(if i % 16 == 3 { sym::u8() } else { i as u8 });
        }
    }
    let skip = sym::upto(1);
    let mut p = ByteParser::from_buffer((&all[..]).into());
    let mut at = 0;
    for i in 0..k {
        if i % 2 == skip {
            sym::check(matches!(p.skip_dynamic::<u8>(), Ok(n) if n == i % 5), "skipping a well-formed value failed");
        } else {
            let x = Dynamic::<u8, Bytes>::parse(&mut p);
            sym::check(matches!(x, Ok(x) if same(x.as_ref(), &all[at + 1..at + 1 + i % 5])), "the value after a skipped one is another");
        }
        at += 1 + i % 5;
    }
    sym::check(p.remainder() == 0, "bytes are left after the last value");
    sym::cover("done");
}
harnesses! {
    fn p25_huge() { huge_spans() }
    fn p25_open_u8() { open::<u8>(1, 255, 4, 2) }
    fn p25_open_u16() { open::<u16>(2, 65535, 4, 2) }
    fn p25_open_u30() { open::<u30>(4, MAX_OCAML_NATIVE_UINT as usize, 6, 1) }
    fn p25_skip_u8() { skip::<u8>(1, 255, 4, 2) }
    fn p25_skip_u16() { skip::<u16>(2, 65535, 4, 2) }
    fn p25_skip_u30() { skip::<u30>(4, MAX_OCAML_NATIVE_UINT as usize, 6, 1) }
    fn p25_twin_u8() { twin::<u8>(6) }
    fn p25_twin_u16() { twin::<u16>(6) }
    fn p25_twin_u30() { twin::<u30>(8) }
    fn p25_chain() { chain(3) }
    fn p25_open_u30__rel() { open::<u30>(4, MAX_OCAML_NATIVE_UINT as usize, 6, 1) }
    fn p25_skip_u8__rel() { skip::<u8>(1, 255, 4, 2) }
    fn p25_skip_u16__rel() { skip::<u16>(2, 65535, 4, 1) }
    fn p25t_open_u8() { open::<u8>(1, 255, 7, 3) }
    fn p25t_skip_u8() { skip::<u8>(1, 255, 7, 3) }
    fn p25t_chain() { chain(6) }
    fn p25_far_u8() { far_of::<u8>(1, 255) }
    fn p25_far_u16() { far_of::<u16>(2, 65535) }
    fn p25_far_u30() { far_of::<u30>(4, MAX_OCAML_NATIVE_UINT as usize) }
    fn p25_far_chain() { far_chain() }
}
