//! The memoizing builder: the bytes written, in order, and the segments they were written in.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::io::Write;
use tedium::conv::target::Target;
use tedium::*;

/// finished segments, and the one being written
struct Model {
    done: Vec<Vec<u8>>,
    cur: Option<Vec<u8>>,
}
impl Model {
    fn add(&mut self, b: &[u8]) {
        match &mut self.cur {
            Some(c) => c.extend_from_slice(b),
            None => self.cur = Some(b.to_vec()),
        }
    }
    fn split(&mut self) {
        if let Some(c) = self.cur.take() {
            self.done.push(c)
        }
    }
    fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in &self.done {
            v.extend_from_slice(s);
        }
        if let Some(c) = &self.cur {
            v.extend_from_slice(c);
        }
        v
    }
    fn shown(&self) -> Vec<u8> {
        let d = |n: u8| if n < 10 { b'0' + n } else { b'a' + (n - 10) };
        let mut v = b"[|".to_vec();
        for s in self.done.iter().chain(self.cur.iter()) {
            for &b in s {
                v.push(d(b >> 4));
                v.push(d(b & 15));
            }
            v.push(b'|');
        }
        v.push(b']');
        v
    }
}
fn start() -> (MemoBuilder, Model) {
    let mut m = Model { done: Vec::new(), cur: None };
    let b = match sym::upto(7) {
        0 => MemoBuilder::new(),
        1 => MemoBuilder::create(),
        2 => MemoBuilder::default(),
        k => {
            let v = sym::vec(if k == 6 { 1 } else if k == 7 { 2 } else { sym::upto(2) });
            m.add(&v);
            match k {
                3 => MemoBuilder::from(v),
                4 => MemoBuilder::from(&v[..]),
                5 => MemoBuilder::promote(v),
                6 => MemoBuilder::word(v[0]),
                _ => MemoBuilder::words([v[0], v[1]]),
            }
        }
    };
    (b, m)
}
fn step(b: &mut MemoBuilder, m: &mut Model) {
    match sym::upto(6) {
        0 => {
            let x = sym::u8();
            sym::check(b.push_one(x) == 1, "the count of bytes pushed is wrong");
            m.add(&[x])
        }
        1 => {
            let a = sym::bytes::<2>();
            sym::check(b.push_many(a) == 2, "the count of bytes pushed is wrong");
            m.add(&a)
        }
        2 => {
            let v = sym::vec(sym::upto(2));
            sym::check(b.push_all(&v) == v.len(), "the count of bytes pushed is wrong");
            m.add(&v)
        }
        3 => {
            let v = sym::vec(sym::upto(1));
            sym::check(matches!(b.write(&v), Ok(n) if n == v.len()), "the count of bytes written is wrong");
            m.add(&v)
        }
        4 => {
            if sym::upto(1) == 0 {
                b.resolve()
            } else {
                sym::check(b.flush().is_ok(), "flushing failed")
            }
            m.split()
        }
        5 => b.anticipate(sym::upto(9)),
        _ => {
            sym::check(b.push_many::<0>([]) == 0 && b.resolve_zero() == 0, "pushing nothing is counted");
            m.add(&[]);
            m.split()
        }
    }
}
fn history(n: usize) {
    want!("bytes", "final", "clone");
    let (mut b, mut m) = start();
    for _ in 0..n {
        step(&mut b, &mut m);
        sym::check(b.len() == m.bytes().len(), "the length is not the number of bytes written");
    }
    let all = m.bytes();
    sym::check(b.is_empty() == all.is_empty(), "emptiness is not having no bytes");
    match sym::upto(2) {
        0 => {
            sym::cover("bytes");
            sym::check(same(&b.into_vec(), &all), "the bytes are not those written, in order")
        }
        1 => {
            sym::cover("final");
            let v: Vec<u8> = b.finalize().into();
            sym::check(same(&v, &all), "the frozen bytes are not those written, in order")
        }
        _ => {
            sym::cover("clone");
            let mut c = b.clone();
            sym::check(c == b, "a clone differs");
            c.push_one(1);
            sym::check(same(&Vec::<u8>::from(b), &all), "changing a clone changed the original");
            sym::check(c.len() == all.len() + 1, "a clone holds other bytes");
        }
    }
}
/// segments' shapes only: the bytes are given
fn plain(b: &mut MemoBuilder, m: &mut Model, i: usize) {
    let x = (0x1f * (i + 1)) as u8;
    match sym::upto(5) {
        0 => {
            b.push_one(x);
            m.add(&[x])
        }
        1 => {
            b.push_many([x, 0]);
            m.add(&[x, 0])
        }
        2 => {
            b.push_all(&[]);
            m.add(&[])
        }
        3 => {
            b.push_all(&[x, 0xaf, 9]);
            m.add(&[x, 0xaf, 9])
        }
        4 => {
            sym::check(matches!(b.write(&[x]), Ok(1)), "the count of bytes written is wrong");
            m.add(&[x])
        }
        _ => {
            b.resolve();
            m.split()
        }
    }
}
fn segments(n: usize) {
    let mut m = Model { done: Vec::new(), cur: None };
    let mut b = if sym::upto(1) == 0 {
        MemoBuilder::new()
    } else {
        m.add(&[0xbe, 0xef]);
        MemoBuilder::from(vec![0xbe, 0xef])
    };
    for i in 0..n {
        plain(&mut b, &mut m, i);
    }
    let want = m.shown();
    sym::check(same(format!("{}", b).as_bytes(), &want), "what is displayed is not the segments written");
    sym::check(same(format!("{}", b.finalize()).as_bytes(), &want), "what is displayed after freezing is not the segments written");
}
/// what is displayed: each segment's bytes between bars, before and after freezing
fn displayed(n: usize) {
    let (mut b, mut m) = start();
    for _ in 0..n {
        step(&mut b, &mut m);
    }
    let want = m.shown();
    sym::check(same(format!("{}", b).as_bytes(), &want), "what is displayed is not the segments written");
    sym::check(same(format!("{}", b.finalize()).as_bytes(), &want), "what is displayed after freezing is not the segments written");
}
/// every fixed-width or framed field of a value becomes a segment; the bytes stay the encoding
#[derive(Encode)]
struct Rec {
    a: u16,
    b: Option<u8>,
    c: Dynamic<u8, Bytes>,
    d: bool,
}
fn record() {
    let v = sym::vec(sym::upto(2));
    let x = Rec { a: sym::u16(), b: if sym::upto(1) == 1 { Some(sym::u8()) } else { None }, c: Dynamic::new(Bytes::from_vec(v)), d: sym::split(sym::upto(1)) == 1 };
    let plain = enc(&x);
    let b = x.encode::<MemoBuilder>();
    let s = format!("{}", b).into_bytes();
    // the bars removed, what is displayed is the encoding in hexadecimal
    let d = |n: u8| if n < 10 { b'0' + n } else { b'a' + (n - 10) };
    let mut want = Vec::new();
    for &k in &plain {
        want.push(d(k >> 4));
        want.push(d(k & 15));
    }
    let mut got = Vec::new();
    for &c in &s[2..s.len() - 1] {
        if c != b'|' {
            got.push(c);
        }
    }
    sym::check(same(&got, &want), "the segments displayed are not the encoding");
    sym::check(same(&b.into_vec(), &plain), "the bytes are not the encoding");
}
/// many segments, long segments; the bytes mostly given
fn far() {
    want!("bytes", "final");
    let mut m = Model { done: Vec::new(), cur: None };
    let mut b = MemoBuilder::new();
    let n = match sym::upto(3) { 0 => 9, 1 => 17, 2 => 40, _ => 260 };
    let every = match sym::upto(2) { 0 => 1, 1 => 2, _ => 7 };
    for i in 0..n {
        let x = if i < 2 || i + 2 >= n { sym::u8() } else { i as u8 };
        b.push_one(x);
        m.add(&[x]);
        if i % every == 0 {
            b.resolve();
            m.split();
        }
        if i == n / 2 {
            let v = ends(long());
            sym::check(b.push_all(&v) == v.len(), "the count of bytes pushed is wrong");
            m.add(&v);
        }
    }
    let all = m.bytes();
    sym::check(b.len() == all.len() && !b.is_empty(), "the length is not the number of bytes written");
    if sym::upto(1) == 0 {
        sym::cover("bytes");
        sym::check(same(&b.into_vec(), &all), "the bytes are not those written, in order")
    } else {
        sym::cover("final");
        let v: Vec<u8> = b.finalize().into();
        sym::check(same(&v, &all), "the frozen bytes are not those written, in order")
    }
}
fn far_segments() {
    let mut m = Model { done: Vec::new(), cur: None };
    let mut b = MemoBuilder::new();
    let (n, len) = match sym::upto(3) { 0 => (9, 1), 1 => (20, 3), 2 => (2, 40), _ => (40, 1) };
    for i in 0..n {
        let mut v = Vec::with_capacity(len);
        for j in 0..len {
            v.push((i * 29 + j) as u8);
        }
        if i + 1 == n {
            v[len - 1] = sym::u8();
        }
        b.push_all(&v);
        m.add(&v);
        if i % 2 == sym::upto(if i < 3 { 1 } else { 0 }) {
            b.resolve();
            m.split();
        }
    }
    let want = m.shown();
    sym::check(same(format!("{}", b).as_bytes(), &want), "what is displayed is not the segments written");
    sym::check(same(format!("{}", b.finalize()).as_bytes(), &want), "what is displayed after freezing is not the segments written");
}
/// any number of bytes in one segment, marked off twice, and a last one
fn sizes() {
    want!("bytes", "shown");
    let n = long();
    let shown = n <= 8193 && sym::upto(1) == 0;
    let v = if shown { (0..n).map(|i| (i * 37 + 11) as u8).collect() } else { ends(n) };
    let mut b = match sym::upto(2) {
        0 => MemoBuilder::from(v.clone()),
        1 => MemoBuilder::promote(v.clone()),
        _ => {
            let mut b = MemoBuilder::new();
            sym::check(matches!(b.write(&v), Ok(k) if k == n), "the count of bytes written is wrong");
            b
        }
    };
    sym::check(b.len() == n && !b.is_empty(), "the length is not the number of bytes written");
    for _ in 0..2 {
        if sym::upto(1) == 0 {
            b.resolve()
        } else {
            sym::check(b.flush().is_ok(), "flushing failed")
        }
    }
    sym::check(b.len() == n && !b.is_empty(), "the length is not the number of bytes written");
    b.push_one(7);
    sym::check(b.len() == n + 1, "the length is not the number of bytes written");
    let c = b.clone();
    sym::check(c == b && c.len() == n + 1, "a clone differs");
    if !shown {
        sym::cover("bytes");
        let w: Vec<u8> = if sym::upto(1) == 0 { b.into_vec() } else { b.finalize().into() };
        sym::check(w.len() == n + 1 && same(&w[..n], &v) && w[n] == 7, "the bytes are not those written, in order")
    } else {
        sym::cover("shown");
        let s = if sym::upto(1) == 0 { format!("{}", b) } else { format!("{}", b.finalize()) };
        let s = s.as_bytes();
        sym::check(s.len() == 2 * n + 7, "what is displayed is not the segments written");
        sym::check(same(&s[2 * n + 2..], b"|07|]") && same(&s[..2], b"[|"), "what is displayed is not the segments written");
    }
}
/// however much is added to a segment at once, it stays one segment until it is closed
fn one_segment() {
    let n = match sym::upto(4) { 0 => 17, 1 => 128, 2 => 257, 3 => 1025, _ => 8192 };
    let v: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
    let mut b = MemoBuilder::new();
    let before = sym::upto(1);
    if before == 1 {
        b.push_one(9);
    }
    let k = match sym::upto(1) {
        0 => b.push_all(&v),
        _ => b.write(&v).unwrap_or(0),
    };
    sym::check(k == n, "the count of bytes pushed is wrong");
    b.push_one(7);
    b.resolve();
    b.push_one(8);
    let s = if sym::upto(1) == 0 { format!("{}", b) } else { format!("{}", b.finalize()) };
    let s = s.as_bytes();
    let end = 2 + 2 * (before + n + 1);
    sym::check(s.len() == end + 5 && same(&s[end - 2..], b"07|08|]") && same(&s[..2], b"[|"), "what is displayed is not the segments written");
    sym::check(before == 0 || same(&s[2..6], b"090b"), "what is displayed is not the segments written");
}
/// segments of which several hold nothing
fn hollow() {
    let mut m = Model { done: Vec::new(), cur: None };
    let mut b = MemoBuilder::new();
    let n = match sym::upto(2) { 0 => 5, 1 => 9, _ => 34 };
    let (of, rest) = (match sym::upto(2) { 0 => 1, 1 => 2, _ => 3 }, sym::upto(1));
    let x = sym::u8();
    for i in 0..n {
        if i % of == rest {
            b.push_all(&[]);
            m.add(&[]);
        } else {
            b.push_many([x, i as u8]);
            m.add(&[x, i as u8]);
        }
        b.resolve();
        m.split();
    }
    match sym::upto(2) {
        0 => (),
        1 => { b.push_all(&[]); m.add(&[]) }
        _ => { b.push_one(9); m.add(&[9]) }
    }
    let want = m.shown();
    sym::check(same(format!("{}", b).as_bytes(), &want), "what is displayed is not the segments written");
    sym::check(same(format!("{}", b.finalize()).as_bytes(), &want), "what is displayed after freezing is not the segments written");
}
harnesses! {
    fn p30_sizes() { sizes() }
    fn p30_one_segment() { one_segment() }
    fn p30_hollow() { hollow() }
    fn p30_history1() { history(1) }
    fn p30_history2() { history(2) }
    fn p30_history3() { history(3) }
    fn p30_displayed1() { displayed(1) }
    fn p30_segments() { segments(4) }
    fn p30_record() { record() }
    fn p30_history2__rel() { history(2) }
    fn p30t_history4() { history(4) }
    fn p30t_displayed2() { displayed(2) }
    fn p30t_segments() { segments(6) }
    fn p30_far() { far() }
    fn p30_far_segments() { far_segments() }
}
