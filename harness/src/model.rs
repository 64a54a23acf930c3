//! Reference model of the parser contract, written from the documentation.
use crate::sym;
use tedium::parse::error::{ParseError, WindowError};
use tedium::parse::{ParseResult, ParserExt};
use tedium::Parser;

/// buffer, number of consumed bytes, and the stack of window ends
pub struct Model<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
    pub ends: Vec<usize>,
}
impl<'a> Model<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Model { buf, pos: 0, ends: Vec::with_capacity(8) }
    }
    pub fn limit(&self) -> usize {
        match self.ends.last() {
            Some(&e) => e,
            None => self.buf.len(),
        }
    }
    pub fn rem(&self) -> usize {
        self.limit() - self.pos
    }
    /// Bring a fresh parser into an arbitrary reachable state with at most `wins` open windows.
    pub fn arbitrary<P: Parser + ParserExt>(buf: &'a [u8], p: &mut P, wins: usize) -> Self {
        let mut m = Self::new(buf);
        let pos = sym::upto(buf.len());
        sym::check(p.skip_exactly(pos).is_ok(), "skipping within the buffer is refused");
        m.pos = pos;
        let k = sym::upto(wins);
        for _ in 0..k {
            let w = sym::upto(m.rem());
            sym::check(p.set_fit(w).is_ok(), "opening a window that fits is refused");
            m.ends.push(m.pos + w);
        }
        m
    }
    /// Bring a fresh parser to a position at an edge of a long buffer, in one of a few windows.
    pub fn far<P: Parser + ParserExt>(buf: &'a [u8], p: &mut P, wins: usize) -> Self {
        let mut m = Self::new(buf);
        let pos = match sym::upto(2) {
            0 => 0,
            1 => buf.len() / 2,
            _ => buf.len() - 1,
        };
        sym::check(p.skip_exactly(pos).is_ok(), "skipping within the buffer is refused");
        m.pos = pos;
        for _ in 0..sym::upto(wins) {
            let w = m.rem() - m.rem().min(1);
            sym::check(p.set_fit(w).is_ok(), "opening a window that fits is refused");
            m.ends.push(m.pos + w);
        }
        m
    }
    /// Open `k` windows one inside another, each starting a byte later and ending a byte earlier (or not).
    pub fn deep<P: Parser + ParserExt>(buf: &'a [u8], p: &mut P, k: usize) -> Self {
        let mut m = Self::new(buf);
        let (lead, trail) = (sym::upto(1), sym::upto(1));
        for _ in 0..k {
            if lead == 1 {
                let r = p.consume_byte();
                m.byte(r);
            }
            let w = m.rem() - trail;
            let r = p.set_fit(w);
            m.opened(w, r);
        }
        m
    }
    /// What can be seen without changing anything.
    pub fn observe<P: Parser>(&self, p: &mut P) {
        sym::check(p.remainder() == self.rem(), "remainder differs from the bytes left in the current window");
        sym::check(p.view_len() >= p.offset() && p.view_len() - p.offset() == self.rem(), "view length minus offset is not the remainder");
        let t = p.test_target();
        sym::check(matches!(t, Ok(b) if b == (!self.ends.is_empty() && self.rem() == 0)), "target test is not `window open and fully consumed`");
    }
    pub fn consumed(&mut self, n: usize, r: ParseResult<&[u8]>) {
        match r {
            Ok(s) => {
                sym::check(n <= self.rem(), "consumed past the limit");
                sym::check(s.len() == n, "wrong number of bytes returned");
                let n = sym::split(n);
                let mut same = true;
                for i in 0..n {
                    same &= s[i] == self.buf[self.pos + i];
                }
                sym::check(same, "returned bytes are not the next bytes of the buffer");
                self.pos += n;
            }
            Err(_) => sym::check(n > self.rem(), "a request that fits was refused"),
        }
    }
    pub fn byte(&mut self, r: ParseResult<u8>) {
        match r {
            Ok(b) => {
                sym::check(self.rem() >= 1, "consumed a byte past the limit");
                sym::check(b == self.buf[self.pos], "returned byte is not the next byte of the buffer");
                self.pos += 1;
            }
            Err(_) => sym::check(self.rem() == 0, "a byte within the limit was refused"),
        }
    }
    pub fn opened(&mut self, n: usize, r: ParseResult<()>) {
        match r {
            Ok(()) => {
                sym::check(n <= self.rem(), "opened a window wider than what remains");
                self.ends.push(self.pos + sym::split(n));
            }
            Err(_) => sym::check(n > self.rem(), "a window that fits was refused"),
        }
    }
    pub fn closed(&mut self, r: ParseResult<()>) {
        match r {
            Ok(()) => {
                sym::check(!self.ends.is_empty(), "closed a window although none is open");
                sym::check(self.rem() == 0, "closed a window with unconsumed bytes");
                self.ends.pop();
            }
            Err(ParseError::Window(WindowError::CloseWithoutWindow)) => sym::check(self.ends.is_empty(), "`no window` reported although one is open"),
            Err(ParseError::Window(WindowError::CloseWithResidue { residual })) => {
                sym::check(!self.ends.is_empty() && self.rem() != 0, "`residue` reported without a window holding unconsumed bytes");
                sym::check(residual == self.rem(), "reported residue is not the number of unconsumed bytes");
            }
            Err(_) => sym::check(false, "undocumented error from closing a window"),
        }
    }
    pub fn skipped(&mut self, n: usize, r: ParseResult<usize>) {
        let d = if n < self.rem() { n } else { self.rem() };
        match r {
            Ok(k) => {
                sym::check(k == d, "skip did not report min(n, remaining)");
                self.pos += sym::split(d);
            }
            Err(_) => sym::check(false, "skip failed"),
        }
    }
    pub fn skipped_exactly(&mut self, n: usize, r: ParseResult<()>) {
        match r {
            Ok(()) => {
                sym::check(n <= self.rem(), "skipped past the limit");
                self.pos += sym::split(n);
            }
            Err(_) => sym::check(n > self.rem(), "a skip that fits was refused"),
        }
    }
    /// Consume everything, closing the windows inside out: pins down the whole parser state.
    pub fn drain<P: Parser>(&mut self, p: &mut P) {
        loop {
            self.observe(p);
            let n = sym::split(self.rem());
            let r = p.consume(n);
            self.consumed(n, r);
            sym::check(self.rem() == 0, "draining left bytes behind");
            let r = p.consume_byte();
            self.byte(r);
            let open = !self.ends.is_empty();
            let r = p.enforce_target();
            self.closed(r);
            if !open {
                break;
            }
        }
        self.observe(p);
        sym::check(self.pos == self.buf.len(), "draining did not reach the end of the buffer");
    }
    /// Bytes left anywhere in the buffer.
    pub fn left(&self) -> &'a [u8] {
        &self.buf[self.pos..]
    }
}
