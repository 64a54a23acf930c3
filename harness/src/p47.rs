//! What the memoizing parser shows of itself: the pieces consumed, in order.
use crate::{harnesses, sym, want};
use std::cell::UnsafeCell;
use std::fmt::Write;
use tedium::parse::ParserExt;
use tedium::*;

// what is printed to standard error: kept here when executed symbolically, by the replay binary otherwise
struct Heard(UnsafeCell<String>);
unsafe impl Sync for Heard {}
static HEARD: Heard = Heard(UnsafeCell::new(String::new()));
extern "C" {
    fn __sym_listen();
    fn __sym_heard(buf: *mut u8, cap: usize) -> usize;
}
/// the engine calls this in place of the standard library's printing to standard error
#[no_mangle]
#[inline(never)]
pub fn __sym_eprint(a: std::fmt::Arguments<'_>) {
    let _ = unsafe { &mut *HEARD.0.get() }.write_fmt(a);
}
/// the engine calls this in place of write(2) on standard error
#[no_mangle]
#[inline(never)]
pub extern "C" fn __sym_write(_fd: i32, p: *const u8, n: usize) -> isize {
    let _ = unsafe { &mut *HEARD.0.get() }.write_str(&String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }));
    n as isize
}
fn listen() {
    unsafe { __sym_listen() }
}
fn heard() -> Vec<u8> {
    let mut v = unsafe { std::mem::take(&mut *HEARD.0.get()) }.into_bytes();
    if v.is_empty() {
        v.resize(70000, 0);
        let n = unsafe { __sym_heard(v.as_mut_ptr(), v.len()) };
        v.truncate(n);
    }
    v
}
/// the pieces in hexadecimal between bars; pieces of nothing may be left out
fn shows(p: &MemoParser, b: &[u8], pieces: &[usize]) {
    heard();
    p.dump_state();
    let got = heard();
    let d = |n: u8| if n < 10 { b'0' + n } else { b'a' + (n - 10) };
    let mut want = b"[|".to_vec();
    let mut at = 0;
    for &n in pieces {
        for i in at..at + n {
            want.push(d(b[i] >> 4));
            want.push(d(b[i] & 15));
        }
        if n > 0 {
            want.push(b'|');
        }
        at += n;
    }
    want.extend_from_slice(b"]\n");
    let mut kept = Vec::with_capacity(got.len());
    for &c in &got {
        if c != b'|' || kept.last() != Some(&b'|') {
            kept.push(c);
        }
    }
    sym::check(at == p.offset(), "the position is not the bytes consumed");
    sym::check(kept == want, "what is shown is not the pieces consumed");
}
fn input(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 29 + 3) as u8).collect()
}
/// any operations, among them refused ones
fn history(len: usize, n: usize) {
    want!("shown", "refused");
    listen();
    let mut b = input(len);
    let last = sym::u8();
    b[1] = last;
    let mut p = MemoParser::from_buffer((&b[..]).into());
    let mut ends: Vec<usize> = Vec::new();
    let mut pieces: Vec<usize> = Vec::new();
    let mut at = 0;
    for _ in 0..n {
        let rem = ends.last().copied().unwrap_or(len) - at;
        let took = match sym::upto(8) {
            0 => p.consume_byte().is_ok().then_some(1),
            1 => {
                let w = sym::upto(rem + 1);
                p.consume(w).is_ok().then_some(w)
            }
            2 => {
                let w = sym::upto(rem + 1);
                p.skip_exactly(w).is_ok().then_some(w)
            }
            3 => {
                let w = sym::upto(rem + 1);
                ParserExt::skip(&mut p, w).ok()
            }
            4 => p.take_u16().is_ok().then_some(2),
            5 => {
                let w = sym::upto(rem + 1);
                p.take_dynamic(w).is_ok().then_some(w)
            }
            6 => {
                let w = sym::upto(rem + 1);
                if p.set_fit(w).is_ok() {
                    ends.push(at + w)
                }
                Some(0)
            }
            7 => {
                if p.enforce_target().is_ok() {
                    ends.pop();
                }
                Some(0)
            }
            _ => p.next().map(|_| 1),
        };
        match took {
            Some(w) => {
                pieces.push(w);
                at += w
            }
            None => sym::cover("refused"),
        }
    }
    sym::cover("shown");
    shows(&p, &b, &pieces);
}
/// what is read through the derived readers: every byte shown once, in order
fn readers(len: usize) {
    want!("shown");
    listen();
    let b = input(len);
    let mut p = MemoParser::from_buffer((&b[..]).into());
    match sym::upto(5) {
        0 => drop(p.fast_kv_search::<[u8; 2], [u8; 3], _, 2, 3>(&[b[5], b[6]], |v| v)),
        1 => drop(p.fast_kv_search::<[u8; 1], [u8; 2], _, 1, 2>(&[0xee], |v| v)),
        2 => drop(p.skip_dynamic::<u8>()),
        3 => drop(p.take_self_terminating(|x| x & 0x80 != 0)),
        4 => drop((u16::parse(&mut p), <Dynamic<u8, Bytes>>::parse(&mut p))),
        _ => drop(p.process_prefix::<u8>()),
    }
    let n = p.offset();
    heard();
    p.dump_state();
    let got = heard();
    let mut k = 0;
    let mut ok = true;
    let v = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
    let mut i = 0;
    while i < got.len() {
        if got[i].is_ascii_hexdigit() && i + 1 < got.len() {
            ok &= k < n && v(got[i]) << 4 | v(got[i + 1]) == b[k];
            k += 1;
            i += 1;
        }
        i += 1;
    }
    sym::cover("shown");
    sym::check(ok && k == n, "what is shown is not the bytes consumed");
}
/// `3`: a piece per byte
fn how_of(how: usize, i: usize) -> usize {
    match how {
        3 => i % 5,
        4 | 5 => how - 1,
        _ => how,
    }
}
/// many pieces, large pieces
fn far() {
    want!("shown");
    listen();
    let (n, w) = match sym::upto(4) { 0 => (40, 1), 1 => (300, 1), 2 => (20, 17), 3 => (3, 300), _ => (2, 2049) };
    let b = input(n * w + 2);
    let mut p = MemoParser::from_buffer((&b[..]).into());
    let mut pieces = Vec::new();
    let how = sym::upto(5);
    for i in 0..n {
        let ok = match how_of(how, i) {
            0 => p.consume(w).is_ok(),
            1 => p.skip_exactly(w).is_ok(),
            2 => ParserExt::skip(&mut p, w).is_ok(),
            3 => {
                pieces.resize(pieces.len() + w - 1, 1);
                (0..w - 1).all(|_| p.consume_byte().is_ok()) && p.next().is_some()
            }
            _ => p.take_dynamic(w).is_ok(),
        };
        sym::check(ok, "what is there is refused");
        pieces.push(if how_of(how, i) == 3 { 1 } else { w });
    }
    if sym::upto(1) == 1 {
        sym::check(p.consume(3).is_err() && p.take_u8().is_ok(), "what is not there is consumed");
        pieces.push(1);
    }
    sym::cover("shown");
    shows(&p, &b, &pieces);
}
harnesses! {
    fn p47_history2() { history(4, 2) }
    fn p47_history3() { history(4, 3) }
    fn p47_readers() { readers(17) }
    fn p47_far() { far() }
    fn p47_history2__rel() { history(4, 2) }
    fn p47t_history4() { history(5, 4) }
}
