//! Context windows: open exactly when they fit, confine every read, close only when consumed.
use crate::model::Model;
use crate::util::{edge_or_past, ends, edge_or_more, wide as length, stuff};
use crate::{harnesses, sym, want};
use tedium::parse::ParserExt;
use tedium::*;

#[inline(never)]
fn step<P: Parser + ParserExt>(m: &mut Model, p: &mut P) {
    match sym::upto(5) {
        0 => {
            let n = sym::usize();
            let r = p.set_fit(n);
            if r.is_ok() {
                sym::cover("open ok")
            } else {
                sym::cover("open refused")
            }
            m.opened(n, r)
        }
        1 => {
            let r = p.enforce_target();
            if r.is_ok() {
                sym::cover("close ok")
            } else if m.ends.is_empty() {
                sym::cover("close without window")
            } else {
                sym::cover("close with residue")
            }
            m.closed(r)
        }
        2 => {
            let n = sym::usize();
            let r = p.consume(n);
            m.consumed(n, r)
        }
        3 => {
            let r = p.consume_byte();
            m.byte(r)
        }
        4 => {
            let n = sym::usize();
            let r = p.skip_exactly(n);
            m.skipped_exactly(n, r)
        }
        _ => {
            let n = sym::usize();
            let r = p.skip(n);
            m.skipped(n, r)
        }
    }
    m.observe(p);
}
#[inline(never)]
fn steps<P: Parser + ParserExt>(buf: &[u8], mut p: P, wins: usize, k: usize) {
    want!("open ok", "open refused", "close ok", "close without window", "close with residue");
    let mut m = Model::arbitrary(buf, &mut p, wins);
    m.observe(&mut p);
    for _ in 0..k {
        step(&mut m, &mut p);
    }
    m.drain(&mut p);
}
/// immediately after opening a window of n bytes exactly n bytes can be consumed, and after
/// closing it the outer bound is back in force
fn nest<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::arbitrary(buf, &mut p, 1);
    let n = sym::upto(m.rem());
    let outer = m.rem();
    sym::check(p.set_fit(n).is_ok(), "a window that fits is refused");
    sym::check(p.remainder() == n, "the remainder after opening is not the window size");
    sym::check(p.consume(sym::usize().saturating_add(n + 1)).is_err(), "a window was overrun");
    sym::check(p.set_fit(n + 1).is_err(), "a nested window wider than its parent was opened");
    sym::check(p.remainder() == n, "refused requests moved the parser");
    m.ends.push(m.pos + n);
    let r = p.consume(n);
    m.consumed(n, r);
    let r = p.enforce_target();
    m.closed(r);
    sym::check(p.remainder() == outer - n, "the enclosing bound is not restored after closing");
    m.drain(&mut p);
}
/// windows nested far deeper than the exhaustive bound
#[inline(never)]
fn deep<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let k = match sym::upto(5) {
        0 => 7,
        1 => 8,
        2 => 9,
        3 => 17,
        4 => 33,
        _ => 70,
    };
    let mut m = Model::deep(buf, &mut p, k);
    m.observe(&mut p);
    match sym::upto(3) {
        0 => {
            let n = edge_or_past(m.rem());
            let r = p.set_fit(n);
            m.opened(n, r)
        }
        1 => {
            let r = p.enforce_target();
            m.closed(r)
        }
        2 => {
            let n = edge_or_past(m.rem());
            let r = p.consume(n);
            m.consumed(n, r)
        }
        _ => {
            let n = edge_or_past(m.rem());
            let r = p.skip(n);
            m.skipped(n, r)
        }
    }
    m.drain(&mut p);
}
/// one window after another, many times over
fn row<P: Parser + ParserExt>(buf: &[u8], mut p: P, w: usize) {
    let mut m = Model::new(buf);
    while m.rem() > w {
        let r = p.set_fit(w);
        m.opened(w, r);
        let r = p.consume(w + 1);
        m.consumed(w + 1, r);
        let r = p.consume(w);
        m.consumed(w, r);
        let r = p.enforce_target();
        m.closed(r);
    }
    m.drain(&mut p);
}
/// windows over long stretches
fn long<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::far(buf, &mut p, 1);
    let n = edge_or_more(m.rem());
    let r = p.set_fit(n);
    m.opened(n, r);
    m.observe(&mut p);
    let r = p.enforce_target();
    m.closed(r);
    m.drain(&mut p);
}
macro_rules! on {
    (B, $v:expr) => { ByteParser::from_buffer((&$v[..]).into()) };
    (M, $v:expr) => { MemoParser::from_buffer((&$v[..]).into()) };
    (S, $v:expr) => { SliceParser::from_buffer((&$v[..]).into()) };
}
macro_rules! h {
    ($p:ident, $len:expr, $w:expr, $k:expr) => {{
        let v = sym::vec(sym::upto($len));
        steps(&v, on!($p, v), $w, $k)
    }};
}
macro_rules! g {
    ($p:ident, $len:expr) => {{
        let v = sym::vec(sym::upto($len));
        nest(&v, on!($p, v))
    }};
}
harnesses! {
    fn p07_step_byte() { h!(B, 4, 3, 1) }
    fn p07_step_memo() { h!(M, 4, 3, 1) }
    fn p07_step_slice() { h!(S, 4, 3, 1) }
    fn p07_two_byte() { h!(B, 3, 2, 2) }
    fn p07_two_memo() { h!(M, 3, 2, 2) }
    fn p07_two_slice() { h!(S, 3, 2, 2) }
    fn p07_three_byte() { h!(B, 2, 1, 3) }
    fn p07_three_memo() { h!(M, 2, 1, 3) }
    fn p07_three_slice() { h!(S, 2, 1, 3) }
    fn p07_step_byte__rel() { h!(B, 4, 2, 1) }
    fn p07_step_memo__rel() { h!(M, 4, 2, 1) }
    fn p07_step_slice__rel() { h!(S, 4, 2, 1) }
    fn p07_nest_byte() { g!(B, 6) }
    fn p07_nest_memo() { g!(M, 6) }
    fn p07_nest_slice() { g!(S, 6) }
    fn p07_deep_byte() { let v = ends(150); deep(&v, on!(B, v)) }
    fn p07_deep_memo() { let v = ends(150); deep(&v, on!(M, v)) }
    fn p07_deep_slice() { let v = ends(150); deep(&v, on!(S, v)) }
    fn p07_row() {
        let v = sym::vec(if sym::bool() { 40 } else { 129 });
        let w = sym::between(0, 3) * 2 + 1;
        match sym::upto(2) {
            0 => row(&v, on!(B, v), w),
            1 => row(&v, on!(M, v), w),
            _ => row(&v, on!(S, v), w),
        }
    }
    fn p07_long_byte() { let v = stuff(); long(&v, on!(B, v)) }
    fn p07_long_memo() { let v = sym::vec(length()); long(&v, on!(M, v)) }
    fn p07_long_slice() { let v = stuff(); long(&v, on!(S, v)) }
    fn p07t_two_byte() { h!(B, 6, 3, 2) }
    fn p07t_two_memo() { h!(M, 6, 3, 2) }
    fn p07t_two_slice() { h!(S, 6, 3, 2) }
    fn p07t_four_byte() { h!(B, 3, 1, 4) }
    fn p07t_four_memo() { h!(M, 3, 1, 4) }
    fn p07t_four_slice() { h!(S, 3, 1, 4) }
}
