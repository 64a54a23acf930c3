//! Bounded, in-order, all-or-nothing consumption, for each of the three parsers.
use crate::model::Model;
use crate::util::{edge, same, edge_or_past, edge_or_more, ends, wide, stuff};
use crate::{harnesses, sym, want};
use tedium::parse::ParserExt;
use tedium::*;

#[inline(never)]
fn steps<P: Parser + ParserExt>(buf: &[u8], mut p: P, wins: usize, k: usize) {
    let mut m = Model::arbitrary(buf, &mut p, wins);
    m.observe(&mut p);
    for _ in 0..k {
        match sym::upto(6) {
            0 => {
                let n = sym::usize();
                let r = p.consume(n);
                if r.is_ok() {
                    sym::cover("consume ok")
                } else {
                    sym::cover("consume refused")
                }
                m.consumed(n, r)
            }
            1 => {
                let r = p.consume_byte();
                m.byte(r)
            }
            2 => {
                let n = sym::usize();
                let r = p.take_dynamic(n);
                match &r {
                    Ok(v) => m.consumed(n, Ok(&v[..])),
                    Err(_) => sym::check(n > m.rem(), "take_dynamic refused bytes that are there"),
                }
            }
            3 => {
                let r = p.consume_arr::<3>();
                match &r {
                    Ok(v) => m.consumed(3, Ok(&v[..])),
                    Err(_) => sym::check(m.rem() < 3, "consume_arr refused bytes that are there"),
                }
            }
            4 => {
                let n = sym::usize();
                let r = p.skip(n);
                m.skipped(n, r)
            }
            5 => {
                let n = sym::usize();
                let r = p.skip_exactly(n);
                m.skipped_exactly(n, r)
            }
            _ => {
                let r = p.take_fixed::<2>();
                match &r {
                    Ok(v) => m.consumed(2, Ok(&v[..])),
                    Err(_) => sym::check(m.rem() < 2, "take_fixed refused bytes that are there"),
                }
            }
        }
        m.observe(&mut p);
    }
    m.drain(&mut p);
}
/// the same on inputs far longer than the exhaustive bound
#[inline(never)]
fn long<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::far(buf, &mut p, 1);
    match sym::upto(4) {
        0 => {
            let n = edge_or_more(m.rem());
            let r = p.consume(n);
            m.consumed(n, r)
        }
        1 => {
            let n = edge_or_past(m.rem());
            let r = p.take_dynamic(n);
            match &r {
                Ok(v) => m.consumed(n, Ok(&v[..])),
                Err(_) => sym::check(n > m.rem(), "take_dynamic refused bytes that are there"),
            }
        }
        2 => {
            let n = edge_or_past(m.rem());
            let r = p.skip(n);
            m.skipped(n, r)
        }
        3 => {
            let n = edge_or_past(m.rem());
            let r = p.skip_exactly(n);
            m.skipped_exactly(n, r)
        }
        _ => {
            let r = p.take_fixed::<33>();
            match &r {
                Ok(v) => m.consumed(33, Ok(&v[..])),
                Err(_) => sym::check(m.rem() < 33, "take_fixed refused bytes that are there"),
            }
        }
    }
    m.drain(&mut p);
}
/// byte after byte through a long input
fn walk<P: Parser + ParserExt + Iterator<Item = u8>>(buf: &[u8], mut p: P) {
    let mut m = Model::new(buf);
    for _ in 0..buf.len() {
        match p.next() {
            Some(b) => m.byte(Ok(b)),
            None => sym::check(false, "iteration ended early"),
        }
    }
    sym::check(p.next().is_none(), "iterating yields more bytes than the buffer holds");
    m.drain(&mut p);
}
/// a run of any of some lengths ends at its terminal byte
fn far_end<P: Parser + ParserExt>(buf: &[u8], mut p: P, at: usize) {
    let mut m = Model::new(buf);
    match p.take_self_terminating(|b| b & 0x80 == 0) {
        Ok(v) => m.consumed(at + 1, Ok(&v[..])),
        Err(_) => sym::check(false, "a terminated run was refused"),
    }
    m.drain(&mut p);
}
fn offset_tracks<P: Parser>(mut p: P, len: usize) {
    // either the offset never moves, or it counts the consumed bytes
    let n = sym::upto(len);
    let a = p.offset();
    sym::check(a == 0, "a fresh parser is not at offset 0");
    sym::check(p.view_len() == len, "a fresh parser does not span the buffer");
    let _ = p.consume(n);
    let b = p.offset();
    sym::check(b == 0 || b == n, "offset is neither fixed nor the number of bytes consumed");
    let r = p.consume(sym::usize()).is_ok();
    if !r {
        sym::check(p.offset() == b, "a refused request moved the offset")
    }
}
/// all fixed-width reads at an arbitrary position
fn widths<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::arbitrary(buf, &mut p, 1);
    macro_rules! w {
        ($take:ident, $n:expr, $cmp:expr) => {{
            let at = m.pos;
            match p.$take() {
                Ok(x) => {
                    sym::check($n <= m.rem(), "fixed-width read past the limit");
                    let mut raw = [0u8; $n];
                    for i in 0..$n {
                        raw[i] = m.buf[at + i];
                    }
                    sym::check($cmp(x, raw), "fixed-width read does not match its bytes");
                    sym::cover(stringify!($take));
                    m.pos += $n;
                }
                Err(_) => sym::check($n > m.rem(), "fixed-width read refused although its bytes are there"),
            }
        }};
    }
    match sym::upto(8) {
        0 => w!(take_u8, 1, |x: u8, r: [u8; 1]| x == r[0]),
        1 => w!(take_i8, 1, |x: i8, r: [u8; 1]| x as u8 == r[0]),
        2 => w!(take_u16, 2, |x: u16, r: [u8; 2]| x == (r[0] as u16) << 8 | r[1] as u16),
        3 => w!(take_i16, 2, |x: i16, r: [u8; 2]| x as u16 == (r[0] as u16) << 8 | r[1] as u16),
        4 => w!(take_u32, 4, |x: u32, r: [u8; 4]| x == (r[0] as u32) << 24 | (r[1] as u32) << 16 | (r[2] as u32) << 8 | r[3] as u32),
        5 => w!(take_i32, 4, |x: i32, r: [u8; 4]| x as u32 == (r[0] as u32) << 24 | (r[1] as u32) << 16 | (r[2] as u32) << 8 | r[3] as u32),
        6 => w!(take_u64, 8, |x: u64, r: [u8; 8]| x == be64(r)),
        7 => w!(take_i64, 8, |x: i64, r: [u8; 8]| x as u64 == be64(r)),
        _ => w!(take_f64, 8, |x: f64, r: [u8; 8]| x.to_bits() == be64(r)),
    }
    m.observe(&mut p);
    m.drain(&mut p);
}
fn be64(r: [u8; 8]) -> u64 {
    let mut x = 0u64;
    for b in r {
        x = x << 8 | b as u64;
    }
    x
}
/// self-terminating reads: up to and including the first terminal byte, or everything and an error
fn terminating<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::arbitrary(buf, &mut p, 1);
    let mut want = None;
    for i in m.pos..m.limit() {
        if want.is_none() && buf[i] & 0x80 == 0 {
            want = Some(i + 1);
        }
    }
    match (p.take_self_terminating(|b| b & 0x80 == 0), want) {
        (Ok(v), Some(e)) => {
            sym::cover("terminated");
            m.consumed(e - m.pos, Ok(&v[..]));
            m.drain(&mut p);
        }
        (Err(_), None) => sym::cover("unterminated"),
        (Ok(_), None) => sym::check(false, "an unterminated run was accepted"),
        (Err(_), Some(_)) => sym::check(false, "a terminated run was refused"),
    }
}
/// the byte iterator yields exactly the bytes of the current window
fn iterates<P: Parser + ParserExt + Iterator<Item = u8>>(buf: &[u8], mut p: P) {
    let mut m = Model::arbitrary(buf, &mut p, 1);
    let mut n = 0;
    while let Some(b) = p.next() {
        m.byte(Ok(b));
        n += 1;
        if n > buf.len() {
            sym::check(false, "iterating yields more bytes than the buffer holds");
            return;
        }
    }
    sym::check(m.rem() == 0, "iteration ended early");
    m.drain(&mut p);
}
/// so do the iterator's other ways on
fn adapted<P: Parser + ParserExt + Iterator<Item = u8>>(buf: &[u8], mut p: P) {
    let mut m = if buf.len() > 8 { Model::far(buf, &mut p, 1) } else { Model::arbitrary(buf, &mut p, 1) };
    let rem = m.rem();
    let (lo, hi) = p.size_hint();
    sym::check(lo <= rem && hi.map_or(true, |h| h >= rem), "the number of bytes to come is misjudged");
    let at = m.pos;
    let k = edge(rem + 1);
    match sym::upto(5) {
        0 => {
            // k passed over, one returned
            let x = p.nth(k);
            sym::check(x == if k < rem { Some(buf[at + k]) } else { None }, "another byte than the nth");
            m.pos += rem.min(k + 1);
        }
        1 => {
            let v: Vec<u8> = p.by_ref().take(k).collect();
            let n = rem.min(k);
            sym::check(same(&v, &buf[at..at + n]), "taking yields other bytes");
            m.pos += n;
        }
        2 => {
            let n = p.by_ref().fold(0, |n, b| if n < rem && b == buf[at + n] { n + 1 } else { usize::MAX });
            sym::check(n == rem, "folding sees other bytes");
            m.pos += rem;
        }
        3 => {
            let n = sym::upto(2).min(rem);
            let x = Iterator::skip(p.by_ref(), n).next();
            sym::check(x == if n < rem { Some(buf[at + n]) } else { None }, "skipping yields another byte");
            m.pos += rem.min(n + 1);
        }
        4 => return sym::check(p.count() == rem, "the bytes are miscounted"),
        _ => return sym::check(p.last() == if rem > 0 { Some(buf[at + rem - 1]) } else { None }, "another byte is the last"),
    }
    m.drain(&mut p);
}
macro_rules! on {
    (B, $v:expr) => { ByteParser::from_buffer((&$v[..]).into()) };
    (M, $v:expr) => { MemoParser::from_buffer((&$v[..]).into()) };
    (S, $v:expr) => { SliceParser::from_buffer((&$v[..]).into()) };
}
macro_rules! h {
    ($p:ident, $len:expr, $w:expr, $k:expr) => {{
        want!("consume ok", "consume refused");
        let v = sym::vec(sym::upto($len));
        steps(&v, on!($p, v), $w, $k)
    }};
}
macro_rules! g {
    ($p:ident, $len:expr, $f:ident) => {{
        let v = sym::vec(sym::upto($len));
        $f(&v, on!($p, v))
    }};
}
harnesses! {
    fn p06_step_byte() { h!(B, 4, 2, 1) }
    fn p06_step_memo() { h!(M, 4, 2, 1) }
    fn p06_step_slice() { h!(S, 4, 2, 1) }
    fn p06_two_byte() { h!(B, 3, 1, 2) }
    fn p06_two_memo() { h!(M, 3, 1, 2) }
    fn p06_two_slice() { h!(S, 3, 1, 2) }
    fn p06_step_byte__rel() { h!(B, 4, 1, 1) }
    fn p06_step_memo__rel() { h!(M, 4, 1, 1) }
    fn p06_step_slice__rel() { h!(S, 4, 1, 1) }
    fn p06_long_byte() { let v = stuff(); long(&v, on!(B, v)) }
    fn p06_long_memo() { let v = sym::vec(wide()); long(&v, on!(M, v)) }
    fn p06_long_slice() { let v = stuff(); long(&v, on!(S, v)) }
    fn p06_walk() {
        let v = ends(wide());
        match sym::upto(2) {
            0 => walk(&v, on!(B, v)),
            1 => walk(&v, on!(M, v)),
            _ => walk(&v, on!(S, v)),
        }
    }
    fn p06_adapted_byte() { g!(B, 4, adapted) }
    fn p06_adapted_memo() { g!(M, 4, adapted) }
    fn p06_adapted_slice() { g!(S, 4, adapted) }
    fn p06_far_adapted() {
        let v = ends(match sym::upto(2) { 0 => 17, 1 => 260, _ => 1025 });
        match sym::upto(2) {
            0 => adapted(&v, on!(B, v)),
            1 => adapted(&v, on!(M, v)),
            _ => adapted(&v, on!(S, v)),
        }
    }
    fn p06_far_end() {
        let n = wide();
        let mut v = ends(n + 2);
        for i in 0..n {
            v[i] |= 0x80;
        }
        v[n] &= 0x7f;
        match sym::upto(2) {
            0 => far_end(&v, on!(B, v), n),
            1 => far_end(&v, on!(M, v), n),
            _ => far_end(&v, on!(S, v), n),
        }
    }
    fn p06_offset() {
        let n = sym::upto(6);
        let v = sym::vec(n);
        match sym::upto(2) {
            0 => offset_tracks(on!(B, v), n),
            1 => offset_tracks(on!(M, v), n),
            _ => offset_tracks(on!(S, v), n),
        }
    }
    fn p06_widths_byte() { want!("take_f64", "take_i8"); g!(B, 9, widths) }
    fn p06_widths_memo() { want!("take_f64", "take_i8"); g!(M, 9, widths) }
    fn p06_widths_slice() { want!("take_f64", "take_i8"); g!(S, 9, widths) }
    fn p06_terminating_byte() { want!("terminated", "unterminated"); g!(B, 4, terminating) }
    fn p06_terminating_memo() { want!("terminated", "unterminated"); g!(M, 4, terminating) }
    fn p06_terminating_slice() { want!("terminated", "unterminated"); g!(S, 4, terminating) }
    fn p06_iterates_byte() { g!(B, 5, iterates) }
    fn p06_iterates_memo() { g!(M, 5, iterates) }
    fn p06_iterates_slice() { g!(S, 5, iterates) }
    fn p06t_step_byte() { h!(B, 8, 3, 2) }
    fn p06t_step_memo() { h!(M, 8, 3, 2) }
    fn p06t_step_slice() { h!(S, 8, 3, 2) }
}
