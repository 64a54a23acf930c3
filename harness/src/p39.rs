//! Whole messages: types nested in types nested in types, against a reader written from the format's documentation.
use crate::util::*;
use crate::{harnesses, sym, want};
use num_bigint::BigUint;
use std::convert::TryFrom;
use tedium::builder::memo::MemoBuilder;
use tedium::builder::Builder;
use tedium::conv::len::Estimable;
use tedium::conv::target::Target;
use tedium::conv::EncodeLength;
use tedium::*;

cstyle!(Net, u8, { Main = 1, Test = 200 });
data!(Action, u8, action, {
    0 => Endorse { pub level: u16 },
    3 => Transfer { pub fee: N, pub note: Option<Dynamic<u8, Bytes>> },
    9 => Reveal(pub FixedBytes<2>),
    255 => Nothing,
});
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Op {
    net: Net,
    actions: Dynamic<u8, Sequence<Action>>,
    sig: Nullable<u16>,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Block {
    level: RangedInt<u8, 10, 100>,
    ops: Dynamic<u16, LimSeq<Dynamic<u8, Op>, 2>>,
    payload: VPadded<Payload, 2>,
    end: FixSeq<bool, 2>,
}
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
struct Payload {
    pad: Padded<u8, 1>,
    rest: Bytes,
}

/// reads the documented format; collects what a canonical writer would write
struct R<'a> {
    b: &'a [u8],
    at: usize,
    end: usize,
    out: Vec<u8>,
}
impl<'a> R<'a> {
    fn new(b: &'a [u8]) -> Self {
        R { b, at: 0, end: b.len(), out: Vec::with_capacity(32) }
    }
    fn byte(&mut self) -> Option<u8> {
        if self.at < self.end {
            self.at += 1;
            Some(self.b[self.at - 1])
        } else {
            None
        }
    }
    fn copy(&mut self, n: usize) -> Option<()> {
        for _ in 0..n {
            let x = self.byte()?;
            self.out.push(x)
        }
        Some(())
    }
    /// a prefix of `w` bytes, what it announces read by `f`, and the prefix a writer would put
    fn prefixed(&mut self, w: usize, f: impl FnOnce(&mut Self) -> Option<()>) -> Option<()> {
        let mut n = 0usize;
        for _ in 0..w {
            n = n << 8 | self.byte()? as usize;
        }
        if n > self.end - self.at {
            return None;
        }
        let n = sym::split(n);
        let (outer, mark) = (self.end, self.out.len());
        for _ in 0..w {
            self.out.push(0)
        }
        self.end = self.at + n;
        f(self)?;
        if self.at != self.end {
            return None;
        }
        self.end = outer;
        let m = self.out.len() - mark - w;
        for i in 0..w {
            self.out[mark + i] = (m >> (8 * (w - 1 - i))) as u8;
        }
        Some(())
    }
    fn natural(&mut self) -> Option<()> {
        let mark = self.out.len();
        loop {
            let x = self.byte()?;
            self.out.push(x);
            if x & 0x80 == 0 {
                break;
            }
        }
        // most significant groups of zero are not written
        while self.out.len() > mark + 1 && self.out[self.out.len() - 1] & 0x7f == 0 {
            self.out.pop();
        }
        let l = self.out.len();
        self.out[l - 1] &= 0x7f;
        Some(())
    }
    fn action(&mut self) -> Option<()> {
        let t = self.byte()?;
        self.out.push(t);
        match t {
            0 | 9 => self.copy(2),
            3 => {
                self.natural()?;
                let o = self.byte()?;
                self.out.push(o);
                match o {
                    0 => Some(()),
                    255 => self.prefixed(1, |r| r.copy(r.end - r.at)),
                    _ => None,
                }
            }
            255 => Some(()),
            _ => None,
        }
    }
    fn op(&mut self) -> Option<()> {
        let t = self.byte()?;
        if t != 1 && t != 200 {
            return None;
        }
        self.out.push(t);
        self.prefixed(1, |r| {
            while r.at < r.end {
                r.action()?
            }
            Some(())
        })?;
        if self.at < self.end {
            self.copy(2)?
        }
        Some(())
    }
    fn block(&mut self) -> Option<()> {
        let l = self.byte()?;
        if l > 90 {
            return None;
        }
        self.out.push(l);
        self.prefixed(2, |r| {
            let mut n = 0;
            while r.at < r.end {
                n += 1;
                if n > 2 {
                    return None;
                }
                r.prefixed(1, |r| r.op())?
            }
            Some(())
        })?;
        if self.end - self.at < 2 {
            return None;
        }
        self.end -= 2;
        let x = self.byte()?;
        self.out.push(x);
        self.byte()?;
        self.out.push(0);
        self.copy(self.end - self.at)?;
        self.end += 2;
        for _ in 0..2 {
            let x = self.byte()?;
            if x != 0 && x != 255 {
                return None;
            }
            self.out.push(x)
        }
        Some(())
    }
}
#[inline(never)]
fn against<T: Encode + Decode + Estimable + PartialEq + Clone>(b: &[u8], read: impl FnOnce(&mut R) -> Option<()>) {
    let mut r = R::new(b);
    let ok = read(&mut r).is_some();
    let (x, left) = parse::<T>(b);
    match x {
        Ok(x) => {
            sym::cover("ok");
            sym::check(ok, "a malformed message was accepted");
            sym::check(left == b.len() - r.at, "a message's end was found elsewhere");
            let c = enc(&x);
            sym::check(same(&c, &r.out), "a message is not rewritten as its canonical form");
            sym::check(x.enc_len() == c.len() && x.estimate() == c.len(), "the length of a message is not the number of bytes written");
            match parse1::<T>(&c) {
                (Ok(y), 0) => sym::check(y == x, "the canonical form of a message is another message"),
                _ => sym::check(false, "the canonical form of a message is not one"),
            }
        }
        Err(_) => {
            sym::cover("err");
            sym::check(!ok, "a well-formed message was refused")
        }
    }
}
fn op(max: usize) {
    want!("ok", "err");
    let b = sym::vec(sym::upto(max));
    against::<Op>(&b, |r| r.op())
}
fn block(max: usize) {
    want!("ok", "err");
    let b = sym::vec(sym::upto(max));
    against::<Block>(&b, |r| r.block())
}
/// the same around a well-formed skeleton: contents and one length symbolic
fn skeleton(extra: usize) {
    want!("ok", "err");
    // level, 16-bit prefix, two operations of one action each, payload, end
    let mut b = vec![sym::u8(), 0, 0];
    for i in 0..2 {
        let s = if i == 1 { sym::upto(1) * 2 } else { 0 };
        let at = b.len();
        b.push(0);
        b.push(if sym::bool() { 1 } else { 200 });
        b.push(0);
        match if i == 0 { sym::upto(2) } else { 2 } {
            0 => b.extend([0, sym::u8(), sym::u8()]),
            1 => b.extend([3, sym::u8(), sym::u8(), sym::u8()]),
            _ => b.extend([255, 9, sym::u8(), sym::u8()]),
        }
        b[at + 2] = (b.len() - at - 3) as u8;
        b.extend(sym::vec(s));
        b[at] = (b.len() - at - 1) as u8;
    }
    let n = b.len() - 3;
    b[2] = n as u8;
    // possibly off by one
    if sym::upto(1) == 1 {
        let i = sym::upto(1) * 3 + 2;
        b[i] += 1;
    }
    b.extend(sym::vec(2 + sym::upto(extra)));
    b.extend([sym::u8(), sym::u8()]);
    against::<Block>(&b, |r| r.block())
}
fn bytes(n: usize) -> Bytes {
    Bytes::from_vec(sym::vec(n))
}
fn action() -> Action {
    match sym::upto(3) {
        0 => Action::Endorse(action::Endorse { level: sym::u16() }),
        1 => Action::Transfer(action::Transfer {
            fee: N(BigUint::from(sym::u8())),
            note: if sym::upto(1) == 0 { None } else { Some(Dynamic::new(bytes(sym::upto(1)))) },
        }),
        2 => Action::Reveal(action::Reveal(FixedBytes::from_array(sym::bytes()))),
        _ => Action::Nothing(action::Nothing),
    }
}
fn some_op(max: usize) -> Op {
    let k = sym::upto(max);
    let mut v = Vec::with_capacity(2);
    for _ in 0..k {
        v.push(action())
    }
    Op {
        net: if sym::bool() { Net::Main } else { Net::Test },
        actions: Dynamic::new(Sequence::from_vec(v)),
        sig: if sym::upto(1) == 0 { Nullable::from(None) } else { Nullable::from(Some(sym::u16())) },
    }
}
/// values, through every target and back through every parser
#[inline(never)]
fn there_and_back<T: Encode + Decode + Estimable + PartialEq + Clone>(x: &T) {
    let b = enc(x);
    sym::check(x.estimate() == b.len() && x.enc_len() == b.len(), "the length of a message is not the number of bytes written");
    match sym::upto(2) {
        0 => {
            let mut s = <StrictBuilder as Target>::create();
            let n = x.write_to(&mut s);
            sym::check(n == b.len() && same(&s.into_vec(), &b), "another builder receives other bytes");
        }
        1 => {
            let m: MemoBuilder = x.encode();
            sym::check(same(&m.into_vec(), &b), "another builder receives other bytes");
        }
        _ => sym::check(same(&x.to_bytes(), &b), "another builder receives other bytes"),
    }
    match parse::<T>(&b) {
        (Ok(y), 0) => {
            sym::cover("back");
            sym::check(y == *x, "a message comes back as another")
        }
        (Ok(_), _) => sym::check(false, "a message does not read all of itself"),
        (Err(_), _) => sym::check(false, "a message does not come back"),
    }
}
fn value_op(k: usize) {
    want!("back");
    there_and_back(&some_op(k))
}
fn value_block(k: usize) {
    want!("back");
    let n = sym::upto(2);
    let mut v = Vec::with_capacity(2);
    for i in 0..n {
        v.push(Dynamic::new(some_op(if i == 0 { k } else { 0 })))
    }
    let level = 10 + sym::u8() % 91;
    let x = Block {
        level: RangedInt::from_i32(level as i32),
        ops: Dynamic::new(LimSeq::from_vec(v)),
        payload: VPadded::from(Payload { pad: Padded::new(sym::u8()), rest: bytes(sym::upto(2)) }),
        end: FixSeq::try_from(vec![sym::bool(), sym::bool()]).unwrap(),
    };
    there_and_back(&x)
}
harnesses! {
    fn p39_op() { op(8) }
    fn p39_block() { block(10) }
    fn p39_skeleton() { skeleton(2) }
    fn p39_value_op() { value_op(2) }
    fn p39_value_block() { value_block(1) }
    fn p39_op__rel() { op(6) }
    fn p39_skeleton__ccp() { skeleton(1) }
    fn p39t_value_op() { value_op(3) }
    fn p39t_op() { op(12) }
    fn p39t_block() { block(15) }
}
