//! The three parsers agree: same requests, same answers.
use crate::util::{edge_or_past, long as length};
use crate::{harnesses, sym, want};
use tedium::parse::error::{ParseError, WindowError};
use tedium::parse::{ParseResult, ParserExt};
use tedium::*;

struct Three<'a> {
    b: ByteParser,
    m: MemoParser,
    s: SliceParser<'a>,
}
fn agree<T: PartialEq>(x: &ParseResult<T>, y: &ParseResult<T>) -> bool {
    match (x, y) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
fn class(e: &ParseError) -> u8 {
    match e {
        ParseError::Window(WindowError::CloseWithoutWindow) => 1,
        ParseError::Window(WindowError::CloseWithResidue { .. }) => 2,
        ParseError::Window(_) => 3,
        ParseError::Internal(_) => 4,
        ParseError::External(_) => 5,
        ParseError::Token(_) => 6,
    }
}
fn classes<T>(x: &ParseResult<T>, y: &ParseResult<T>) -> bool {
    match (x, y) {
        (Err(a), Err(b)) => class(a) == class(b),
        _ => true,
    }
}
impl<'a> Three<'a> {
    fn new(v: &'a [u8]) -> Self {
        Three { b: ByteParser::from_buffer(v.into()), m: MemoParser::from_buffer(v.into()), s: SliceParser::from_buffer(v.into()) }
    }
    fn same<T: PartialEq>(&self, x: ParseResult<T>, y: ParseResult<T>, z: ParseResult<T>) -> bool {
        sym::check(agree(&x, &y), "byte and memo parser answer differently");
        sym::check(agree(&x, &z), "byte and slice parser answer differently");
        sym::check(classes(&x, &y) && classes(&x, &z), "parsers refuse for different kinds of reason");
        x.is_ok()
    }
    fn op(&mut self) {
        macro_rules! all {
            ($p:ident => $e:expr) => {{
                let x = { let $p = &mut self.b; $e };
                let y = { let $p = &mut self.m; $e };
                let z = { let $p = &mut self.s; $e };
                let ok = self.same(x, y, z);
                if ok {
                    sym::cover("ok")
                } else {
                    sym::cover("refused")
                }
                ok
            }};
        }
        match sym::upto(11) {
            0 => {
                let n = sym::usize();
                if all!(p => p.consume(n).map(|s| s.to_vec())) && n <= 8 {
                    sym::split(n);
                }
            }
            1 => drop(all!(p => p.consume_byte())),
            2 => {
                let n = sym::usize();
                if all!(p => p.set_fit(n)) && n <= 8 {
                    sym::split(n);
                }
            }
            3 => drop(all!(p => p.test_target())),
            4 => drop(all!(p => p.enforce_target())),
            5 => {
                let n = sym::usize();
                if all!(p => ParserExt::skip(p, n)) && n <= 8 {
                    sym::split(n);
                }
            }
            6 => {
                let n = sym::usize();
                if all!(p => p.skip_exactly(n)) && n <= 8 {
                    sym::split(n);
                }
            }
            7 => drop(all!(p => p.take_bool())),
            8 => drop(all!(p => p.take_i16())),
            9 => drop(all!(p => p.take_self_terminating(|b| b < 0x80))),
            10 => drop(all!(p => p.skip_dynamic::<u8>())),
            _ => drop(all!(p => p.process_prefix::<u16>())),
        }
        sym::check(self.b.remainder() == self.m.remainder() && self.b.remainder() == self.s.remainder(), "parsers disagree on the remainder");
    }
    fn end(self) {
        let (x, y, z) = (self.b.cleanup(), self.m.cleanup(), self.s.cleanup());
        match (x, y, z) {
            (Ok(x), Ok(y), Ok(z)) => sym::check(x == y && x == z, "parsers report different leftovers"),
            _ => sym::check(false, "cleaning up a parser fails"),
        }
    }
}
fn run(len: usize, k: usize) {
    want!("ok", "refused");
    let v = sym::vec(sym::upto(len));
    let mut t = Three::new(&v);
    for _ in 0..k {
        t.op();
    }
    t.end();
}
/// from an arbitrary reachable state
fn from_state(len: usize, wins: usize, k: usize) {
    want!("ok", "refused");
    let v = sym::vec(sym::upto(len));
    let mut t = Three::new(&v);
    let n = sym::upto(len);
    let (x, y, z) = (ParserExt::skip(&mut t.b, n), ParserExt::skip(&mut t.m, n), ParserExt::skip(&mut t.s, n));
    t.same(x, y, z);
    for _ in 0..wins {
        let w = sym::upto(t.b.remainder());
        let (x, y, z) = (t.b.set_fit(w), t.m.set_fit(w), t.s.set_fit(w));
        t.same(x, y, z);
    }
    for _ in 0..k {
        t.op();
    }
    t.end();
}
/// the same requests far into long inputs and deep into windows
fn far(n: usize, wins: usize, trail: usize) {
    let v = sym::vec(n);
    let mut t = Three::new(&v);
    for _ in 0..wins {
        let (x, y, z) = (t.b.consume_byte(), t.m.consume_byte(), t.s.consume_byte());
        t.same(x, y, z);
        let w = t.b.remainder() - trail.min(t.b.remainder());
        let (x, y, z) = (t.b.set_fit(w), t.m.set_fit(w), t.s.set_fit(w));
        t.same(x, y, z);
    }
    let k = edge_or_past(t.b.remainder());
    macro_rules! all {
        ($p:ident => $e:expr) => {{
            let x = { let $p = &mut t.b; $e };
            let y = { let $p = &mut t.m; $e };
            let z = { let $p = &mut t.s; $e };
            t.same(x, y, z);
        }};
    }
    match sym::upto(5) {
        0 => all!(p => p.consume(k).map(|s| s.to_vec())),
        1 => all!(p => p.set_fit(k)),
        2 => all!(p => ParserExt::skip(p, k)),
        3 => all!(p => p.skip_exactly(k)),
        4 => all!(p => p.enforce_target()),
        _ => all!(p => p.take_dynamic(k)),
    }
    sym::check(t.b.remainder() == t.m.remainder() && t.b.remainder() == t.s.remainder(), "parsers disagree on the remainder");
    t.end();
}
/// reads of every width, refused ones among them
fn widths(len: usize) {
    want!("ok", "refused");
    let v = sym::vec(sym::upto(len));
    let mut t = Three::new(&v);
    if sym::upto(1) == 1 {
        let n = sym::upto(v.len());
        let (x, y, z) = (t.b.set_fit(n), t.m.set_fit(n), t.s.set_fit(n));
        t.same(x, y, z);
    }
    for _ in 0..2 {
        macro_rules! all {
            ($p:ident => $e:expr) => {{
                let x = { let $p = &mut t.b; $e };
                let y = { let $p = &mut t.m; $e };
                let z = { let $p = &mut t.s; $e };
                sym::cover(if t.same(x, y, z) { "ok" } else { "refused" })
            }};
        }
        match sym::upto(12) {
            0 => all!(p => p.take_u8()),
            1 => all!(p => p.take_i8()),
            2 => all!(p => p.take_u16()),
            3 => all!(p => p.take_u32()),
            4 => all!(p => p.take_i32()),
            5 => all!(p => p.take_u64()),
            6 => all!(p => p.take_i64()),
            7 => all!(p => p.take_f64().map(f64::to_bits)),
            8 => all!(p => p.consume_arr::<3>()),
            9 => all!(p => p.take_fixed::<5>()),
            10 => all!(p => p.take_dynamic(7)),
            11 => all!(p => p.take_tagword::<u8, u16, _>([0u16, 7, 300])),
            _ => all!(p => p.process_prefix::<tedium::u30>()),
        }
        sym::check(t.b.remainder() == t.m.remainder() && t.b.remainder() == t.s.remainder(), "parsers disagree on the remainder");
    }
    t.end();
}
harnesses! {
    fn p08_widths() { widths(9) }
    fn p08_far() {
        let n = length();
        far(n, sym::upto(1), 1)
    }
    fn p08_deep() {
        let k = match sym::upto(4) {
            0 => 8,
            1 => 9,
            2 => 17,
            3 => 33,
            _ => 70,
        };
        far(150, k, sym::upto(1))
    }

    fn p08_one() { run(4, 1) }
    fn p08_two() { run(3, 2) }
    fn p08_three() { run(1, 3) }
    fn p08_state1() { from_state(4, 1, 1) }
    fn p08_state2() { from_state(4, 2, 1) }
    fn p08_state3() { from_state(3, 3, 1) }
    fn p08_state1_two() { from_state(2, 1, 2) }
    fn p08_state2_two() { from_state(2, 2, 2) }
    fn p08t_four() { run(1, 4) }
    fn p08t_state1_two() { from_state(4, 1, 2) }
    fn p08t_three() { run(3, 3) }
    fn p08t_state2_two() { from_state(4, 2, 2) }
}
