//! Cleaning up a parser reports exactly what was left unconsumed.
use crate::model::Model;
use crate::util::{edge, ends, long, same};
use crate::{harnesses, sym, want};
use tedium::parse::cleanup::LeftoverState;
use tedium::parse::ParserExt;
use tedium::*;

fn expect(m: &Model, r: tedium::parse::cleanup::CleanupResult) {
    let left = m.left();
    // residue per open window, innermost first, then what lies outside every window
    let mut segs: Vec<usize> = vec![];
    let mut at = m.pos;
    for &e in m.ends.iter().rev() {
        segs.push(e - at);
        at = e;
    }
    let outer = m.buf.len() - at;
    match r {
        Err(_) => sym::check(false, "cleanup fails"),
        Ok(st) => {
            sym::check(st.len() == left.len(), "leftover count differs from the unconsumed bytes");
            sym::check(st.is_empty() == left.is_empty(), "leftover emptiness differs from there being unconsumed bytes");
            match st {
                LeftoverState::Empty => {
                    sym::cover("empty");
                    sym::check(m.ends.is_empty() && left.is_empty(), "`empty` reported with bytes or windows left")
                }
                LeftoverState::Windowless(v) => {
                    sym::cover("windowless");
                    sym::check(m.ends.is_empty() && !left.is_empty(), "`windowless` reported with a window open or nothing left");
                    sym::check(v[..] == *left, "leftover bytes are not the unconsumed bytes")
                }
                LeftoverState::Windowed(sv) => {
                    sym::cover("windowed");
                    sym::check(!m.ends.is_empty(), "`windowed` reported without an open window");
                    let (bytes, spans) = sv.into_parts();
                    sym::check(bytes[..] == *left, "leftover bytes are not the unconsumed bytes");
                    if outer > 0 {
                        segs.push(outer);
                    }
                    sym::check(spans == segs, "leftover segments do not follow the windows");
                }
            }
        }
    }
}
fn one<P: Parser + ParserExt>(buf: &[u8], mut p: P, wins: usize) {
    want!("empty", "windowless", "windowed");
    let mut m = Model::arbitrary(buf, &mut p, wins);
    let n = sym::upto(buf.len());
    let r = p.consume(n);
    m.consumed(n, r);
    if sym::bool() {
        let r = p.enforce_target();
        m.closed(r);
    }
    let r = p.cleanup();
    expect(&m, r);
}
macro_rules! on {
    (B, $v:expr) => { ByteParser::from_buffer((&$v[..]).into()) };
    (M, $v:expr) => { MemoParser::from_buffer((&$v[..]).into()) };
    (S, $v:expr) => { SliceParser::from_buffer((&$v[..]).into()) };
}
macro_rules! g {
    ($p:ident, $len:expr, $w:expr) => {{
        let v = sym::vec(sym::upto($len));
        one(&v, on!($p, v), $w)
    }};
}
fn append_moves() {
    // accumulating leftovers: nothing lost, nothing duplicated, the argument is emptied
    let a = sym::vec(sym::upto(3));
    let b = sym::vec(sym::upto(3));
    let (mut x, mut y) = (a.clone(), b.clone());
    let mut st = LeftoverState::new();
    sym::check(st.is_empty() && st.len() == 0, "a new leftover state is not empty");
    st.append(&mut x);
    sym::check(x.is_empty(), "appending leaves bytes in the argument");
    let esc = sym::bool();
    if esc {
        st.escape_context();
    }
    st.append(&mut y);
    sym::check(y.is_empty(), "appending leaves bytes in the argument");
    sym::check(st.len() == a.len() + b.len(), "appended bytes are lost or duplicated");
    let mut all = a.clone();
    all.extend_from_slice(&b);
    match st {
        LeftoverState::Empty => sym::check(false, "state empty after appending"),
        LeftoverState::Windowless(v) => sym::check(!esc && v == all, "appended bytes differ"),
        LeftoverState::Windowed(sv) => {
            let (v, spans) = sv.into_parts();
            sym::check(esc && v == all, "appended bytes differ");
            sym::check(spans[0] == a.len(), "first segment does not end where the context was left");
        }
    }
}
/// a long buffer, and windows one inside another
fn deep<P: Parser + ParserExt>(buf: &[u8], mut p: P, k: usize) {
    let mut m = Model::deep(buf, &mut p, k);
    let n = edge(m.rem());
    let r = p.consume(n);
    m.consumed(n, r);
    // leave the innermost as far as they are used up
    for _ in 0..sym::upto(2) {
        let r = p.enforce_target();
        m.closed(r);
    }
    let r = p.cleanup();
    expect(&m, r);
}
fn depth() -> usize {
    match sym::upto(3) { 0 => 3, 1 => 8, 2 => 17, _ => 33 }
}
fn far<P: Parser + ParserExt>(buf: &[u8], mut p: P) {
    let mut m = Model::far(buf, &mut p, 2);
    let n = edge(m.rem());
    let r = p.consume(n);
    m.consumed(n, r);
    let r = p.cleanup();
    expect(&m, r);
}
macro_rules! far {
    ($p:ident) => {{
        let v = ends(long());
        far(&v, on!($p, v))
    }};
}
macro_rules! deep {
    ($p:ident) => {{
        let v = ends(80);
        deep(&v, on!($p, v), depth())
    }};
}
fn append_far() {
    let a = ends(long());
    let b = ends(long());
    let (mut x, mut y) = (a.clone(), b.clone());
    let mut st = LeftoverState::new();
    st.append(&mut x);
    let esc = sym::upto(1) == 1;
    if esc {
        st.escape_context();
    }
    st.append(&mut y);
    sym::check(x.is_empty() && y.is_empty(), "appending leaves bytes in the argument");
    sym::check(st.len() == a.len() + b.len(), "appended bytes are lost or duplicated");
    let mut all = a.clone();
    all.extend_from_slice(&b);
    match st {
        LeftoverState::Empty => sym::check(false, "state empty after appending"),
        LeftoverState::Windowless(v) => sym::check(!esc && same(&v, &all), "appended bytes differ"),
        LeftoverState::Windowed(sv) => {
            let (v, spans) = sv.into_parts();
            sym::check(esc && same(&v, &all), "appended bytes differ");
            sym::check(spans[0] == a.len(), "first segment does not end where the context was left");
        }
    }
}
harnesses! {
    fn p24_byte() { g!(B, 4, 2) }
    fn p24_memo() { g!(M, 4, 2) }
    fn p24_slice() { g!(S, 4, 2) }
    fn p24_byte__rel() { g!(B, 3, 2) }
    fn p24_slice__rel() { g!(S, 3, 2) }
    fn p24_append() { append_moves() }
    fn p24t_byte() { g!(B, 6, 3) }
    fn p24t_memo() { g!(M, 6, 3) }
    fn p24t_slice() { g!(S, 6, 3) }
    fn p24_far_byte() { far!(B) }
    fn p24_far_memo() { far!(M) }
    fn p24_far_slice() { far!(S) }
    fn p24_deep_byte() { deep!(B) }
    fn p24_deep_memo() { deep!(M) }
    fn p24_deep_slice() { deep!(S) }
    fn p24_append_far() { append_far() }
}
