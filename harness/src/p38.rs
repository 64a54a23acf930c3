//! Split vectors are lists of segments: contents and boundaries survive every sequence of operations.
use crate::util::*;
use crate::{harnesses, sym, want};
use std::iter::FromIterator;
use tedium::internal::SplitVec;

/// segments, and whether the last one is still open
#[derive(Clone)]
struct Segs {
    segs: Vec<Vec<u8>>,
    open: bool,
}
impl Segs {
    fn new() -> Self {
        Segs { segs: Vec::with_capacity(8), open: false }
    }
    fn cur(&mut self) -> &mut Vec<u8> {
        if !self.open {
            self.segs.push(Vec::with_capacity(8));
            self.open = true;
        }
        self.segs.last_mut().unwrap()
    }
    fn split(&mut self) {
        self.open = false;
    }
    fn split_force(&mut self) {
        self.cur();
        self.open = false;
    }
    fn flat(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(16);
        for s in &self.segs {
            v.extend_from_slice(s);
        }
        v
    }
}
fn observe(s: &SplitVec<u8>, m: &Segs) {
    let flat = m.flat();
    sym::check(same(s.as_ref(), &flat), "the bytes are not the segments concatenated");
    sym::check(s.len() == flat.len(), "the length is not the number of bytes");
    sym::check(s.is_balanced(), "segment lengths do not add up to the number of bytes");
    sym::check(s.is_empty() == m.segs.is_empty(), "`empty` is not `no segment`");
    sym::check(s.is_contiguous() == (m.segs.len() <= 1), "`contiguous` is not `at most one segment`");
}
fn finish(s: SplitVec<u8>, m: &Segs) {
    match sym::upto(4) {
        0 => {
            let mut n = 0;
            for x in s.spans() {
                sym::check(n < m.segs.len() && same(x, &m.segs[n]), "a segment differs");
                n += 1;
            }
            sym::check(n == m.segs.len(), "segments went missing");
        }
        1 => {
            let mut n = m.segs.len();
            let mut it = s.spans();
            while let Some(x) = it.next_back() {
                sym::check(n > 0 && same(x, &m.segs[n - 1]), "a segment differs from the back");
                n -= 1;
            }
            sym::check(n == 0, "segments went missing from the back");
        }
        2 => {
            // from both ends
            let (mut i, mut j) = (0, m.segs.len());
            let mut it = s.spans();
            loop {
                let front = sym::upto(1) == 0;
                match if front { it.next() } else { it.next_back() } {
                    None => break,
                    Some(x) => {
                        sym::check(i < j, "more segments than were made");
                        if front {
                            sym::check(same(x, &m.segs[i]), "a segment differs");
                            i += 1;
                        } else {
                            j -= 1;
                            sym::check(same(x, &m.segs[j]), "a segment differs from the back");
                        }
                    }
                }
            }
            sym::check(i == j, "segments went missing");
        }
        3 => {
            let (v, l) = s.into_parts();
            sym::check(same(&v, &m.flat()), "the bytes are not the segments concatenated");
            let mut ok = l.len() == m.segs.len();
            if ok {
                for i in 0..l.len() {
                    ok &= l[i] == m.segs[i].len();
                }
            }
            sym::check(ok, "the segment lengths differ");
        }
        _ => {
            let t = s.clone();
            sym::check(t == s, "a clone differs");
            let v: Vec<u8> = s.into();
            sym::check(same(&v, &m.flat()) && same(&t.into_inner(), &v), "the bytes are not the segments concatenated");
        }
    }
}
#[inline(never)]
fn put(s: &mut SplitVec<u8>, m: &mut Segs, max: usize) {
    let v = sym::vec(sym::upto(max));
    m.cur().extend_from_slice(&v);
    match sym::upto(if v.len() == 1 { 3 } else { 2 }) {
        0 => s.extend_current(v),
        1 => s.extend_current_from_slice(&v),
        2 => {
            let mut v = v;
            s.append_current(&mut v);
            sym::check(v.is_empty(), "appending did not move the bytes out");
        }
        _ => s.push_current(v[0]),
    }
}
#[inline(never)]
fn other() -> (SplitVec<u8>, Segs) {
    let (mut t, mut n) = (SplitVec::new(), Segs::new());
    for _ in 0..sym::upto(2) {
        match sym::upto(3) {
            0 => {
                let x = sym::u8();
                t.push_current(x);
                n.cur().push(x);
            }
            1 => {
                t.extend_current(std::iter::empty());
                n.cur();
            }
            2 => {
                t.split();
                n.split();
            }
            _ => {
                t.split_force();
                n.split_force();
            }
        }
    }
    (t, n)
}
#[inline(never)]
fn step(s: &mut SplitVec<u8>, m: &mut Segs) {
    match sym::upto(5) {
        0 => put(s, m, 2),
        1 => {
            s.split();
            m.split();
        }
        2 => {
            s.split_force();
            m.split_force();
        }
        3 => {
            s.cleave();
            m.split();
            m.split_force();
        }
        4 => {
            let (mut t, mut n) = other();
            s.concat(&mut t);
            m.split();
            m.segs.extend(n.segs.drain(..));
            m.open = n.open;
            n.open = false;
            observe(&t, &n);
            // what was emptied can be used again
            let x = sym::u8();
            t.push_current(x);
            n.cur().push(x);
            observe(&t, &n);
        }
        _ => {
            let k = sym::upto(2);
            let mut vs = Vec::with_capacity(2);
            for _ in 0..k {
                vs.push(sym::vec(sym::upto(1)));
            }
            for v in &vs {
                m.split();
                m.cur().extend_from_slice(v);
            }
            m.split();
            s.extend(vs);
        }
    }
}
fn history(k: usize) {
    want!("two segments", "open");
    let mut m = Segs::new();
    let mut s = match sym::upto(2) {
        0 => SplitVec::new(),
        1 => {
            let v = sym::vec(sym::upto(2));
            m.cur().extend_from_slice(&v);
            if v.len() == 1 { SplitVec::from_vec(v) } else { v.into() }
        }
        _ => {
            let n = sym::upto(2);
            let mut vs = Vec::with_capacity(2);
            for _ in 0..n {
                let v = sym::vec(sym::upto(1));
                m.cur().extend_from_slice(&v);
                m.split();
                vs.push(v);
            }
            SplitVec::from_iter(vs)
        }
    };
    observe(&s, &m);
    for _ in 0..k {
        step(&mut s, &mut m);
        observe(&s, &m);
    }
    if m.segs.len() == 2 {
        sym::cover("two segments");
    }
    if m.open {
        sym::cover("open");
    }
    finish(s, &m)
}
/// many segments, some of them long
fn far(seg: usize) {
    want!("open");
    let mut m = Segs::new();
    let mut s = SplitVec::new();
    let n = if seg > 9000 { 9 } else { match sym::upto(3) { 0 => 9, 1 => 17, 2 => 33, _ => 70 } };
    let force = sym::upto(1) == 1;
    for i in 0..n {
        if i == n / 2 {
            let v = ends(seg);
            m.cur().extend_from_slice(&v);
            s.extend_current_from_slice(&v);
        } else {
            for j in 0..i % 3 {
                let x = if j == 0 && i % 16 == 1 { sym::u8() } else { i as u8 };
                m.cur().push(x);
                s.push_current(x);
            }
        }
        if force {
            s.split_force();
            m.split_force();
        } else {
            s.split();
            m.split();
        }
    }
    observe(&s, &m);
    if sym::upto(1) == 1 {
        let (mut t, mut k) = other();
        if sym::upto(1) == 1 {
            let v = ends(20);
            t.extend_current(v.clone());
            k.cur().extend_from_slice(&v);
        }
        s.concat(&mut t);
        m.segs.extend(k.segs.drain(..));
        m.open = k.open;
        observe(&s, &m);
    }
    let x = sym::u8();
    s.push_current(x);
    m.cur().push(x);
    observe(&s, &m);
    sym::cover("open");
    ends_of(s, &m)
}
/// as `finish`, but the walk from both ends alternates
fn ends_of(s: SplitVec<u8>, m: &Segs) {
    if sym::upto(1) == 0 {
        let (mut i, mut j) = (0, m.segs.len());
        let mut it = s.spans();
        let mut front = true;
        let mut ok = true;
        while let Some(x) = if front { it.next() } else { it.next_back() } {
            sym::check(i < j, "more segments than were made");
            if front {
                ok &= same(x, &m.segs[i]);
                i += 1;
            } else {
                j -= 1;
                ok &= same(x, &m.segs[j]);
            }
            front = !front;
        }
        sym::check(ok && i == j, "a segment differs, or segments went missing");
    } else {
        let (v, l) = s.into_parts();
        sym::check(same(&v, &m.flat()), "the bytes are not the segments concatenated");
        let mut ok = l.len() == m.segs.len();
        if ok {
            for i in 0..l.len() {
                ok &= l[i] == m.segs[i].len();
            }
        }
        sym::check(ok, "the segment lengths differ");
    }
}
fn nibble(x: u8) -> u8 {
    if x < 10 { b'0' + x } else { b'a' + x - 10 }
}
/// one segment's values through the formatter of slices
fn text(debug: bool) {
    let (mut s, m) = other();
    let (mut t, mut m2) = other();
    s.concat(&mut t);
    let mut m = m;
    m.segs.extend(m2.segs.drain(..));
    let mut w: Vec<u8> = b"[|".to_vec();
    for g in &m.segs {
        if debug {
            w.extend_from_slice(format!("{:?}", g).as_bytes());
        } else {
            for x in g {
                w.push(nibble(x >> 4));
                w.push(nibble(x & 15));
            }
        }
        w.push(b'|');
    }
    w.push(b']');
    let d = if debug { format!("{:?}", s) } else { format!("{}", s) };
    sym::check(same(d.as_bytes(), &w), "the text does not show the segments");
}
/// equality, order and hash see contents and segments
fn compared() {
    want!("equal", "unequal");
    let (s, m) = other();
    let (t, n) = other();
    let mut eq = m.segs.len() == n.segs.len() && m.open == n.open;
    if eq {
        for i in 0..m.segs.len() {
            eq &= same(&m.segs[i], &n.segs[i]);
        }
    }
    sym::check((s == t) == eq, "equality is not that of contents and segments");
    sym::check((s.partial_cmp(&t) == Some(std::cmp::Ordering::Equal)) == eq && (s.cmp(&t) == std::cmp::Ordering::Equal) == eq, "the order disagrees with equality");
    sym::check(s.cmp(&t) == t.cmp(&s).reverse(), "the order is not antisymmetric");
    if eq {
        sym::cover("equal");
        sym::check(hashed(&s) == hashed(&t), "equal split vectors hash differently");
    } else {
        sym::cover("unequal");
    }
}
/// a walk over the segments can be copied and resumed
fn walks() {
    let (mut s, mut m) = other();
    let (mut t, mut k) = other();
    s.concat(&mut t);
    m.segs.extend(k.segs.drain(..));
    let mut it = s.spans();
    let mut i = 0;
    for _ in 0..sym::upto(2) {
        if it.next().is_some() {
            i += 1;
        }
    }
    let mut j = it.clone();
    let mut a = i;
    let mut ok = true;
    let left = m.segs.len() - i;
    let (lo, hi) = it.size_hint();
    ok &= lo <= left && hi.map_or(true, |h| h >= left);
    let n = sym::upto(2);
    let (mut f, mut g) = (it.clone(), it.clone());
    ok &= match f.nth(n) { Some(x) => n < left && same(x, &m.segs[i + n]), None => n >= left };
    ok &= f.count() == left.saturating_sub(n + 1);
    ok &= match g.nth_back(n) { Some(x) => n < left && same(x, &m.segs[m.segs.len() - 1 - n]), None => n >= left };
    ok &= match g.last() { Some(x) => n + 1 < left && same(x, &m.segs[m.segs.len() - 2 - n]), None => n + 1 >= left };
    sym::check(ok, "an adapted walk shows other segments");
    while let Some(x) = it.next() {
        ok &= a < m.segs.len() && same(x, &m.segs[a]);
        a += 1;
    }
    sym::check(ok && a == m.segs.len(), "a resumed walk shows other segments");
    let mut b = m.segs.len();
    while let Some(x) = j.next_back() {
        ok &= b > i && same(x, &m.segs[b - 1]);
        b -= 1;
    }
    sym::check(ok && b == i && it.next().is_none() && j.next().is_none() && j.next_back().is_none(), "a copied walk shows other segments");
}
harnesses! {
    fn p38_history__exp() { history(2) }
    fn p38t_history__exp() { history(3) }
    fn p38_far__exp() { far(wide()) }
    fn p38_huge__exp() { far(65573) }
    fn p38_text__exp() { text(false) }
    fn p38_text_debug__exp() { text(true) }
    fn p38_compared__exp() { compared() }
    fn p38_walks__exp() { walks() }
}
